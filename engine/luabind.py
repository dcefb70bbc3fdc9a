"""The Lua module: references of the library across returns and raised errors, userdata, NULL, number of results."""
import re
from absint import *
from absint import site
import own
from binding import *
from frontend import AnalysisError

def tables(prog):
	"""Functions registered with Lua."""
	out = {}
	for u in prog.units:
		if u.group != "lua": continue
		for n, g in u.globals.items():
			l = []
			walk_init(g.get("init"), prog, l)
			for s, o, f in l:
				if s == "luaL_Reg": out[f] = reg_name(u, g["init"], f) or "?"
	return out
def reg_name(u, g, f):
	for e in g[2] if g[0] == "arr" else ():
		if e[0] != "st": continue
		d = dict((o, v) for o, v in e[2])
		if d.get(8) == ["fn", f] and d.get(0, [0])[0] == "g":
			s = u.globals.get(d[0][1], {}).get("init")
			if s and s[0] == "str": return bytes.fromhex(s[1]).split(b"\0")[0].decode()
	return None

def classes(prog):
	"""metatable name -> type of its objects."""
	out = {}
	for f in prog.repo_fns():
		if f.unit.group != "lua": continue
		for c in f.calls():
			if c.d.get("fn") == "luaL_checkudata" and c.d["a"][2][0] == "g" and f.sig[0].endswith("*"):
				s = f.unit.globals.get(c.d["a"][2][1], {}).get("init")
				if s and s[0] == "str": out[bytes.fromhex(s[1]).split(b"\0")[0].decode()] = f.sig[0][:-1]
	return out

def owning_fields(prog, types):
	"""What the objects hold: pointers to the library's objects."""
	o = {}
	for t in types:
		for n, off, sz, ty in prog.structs.get(t, {}).get("fields", ()):
			if own.struct_ptr(ty): o[(t, n)] = ("", 0, "")
	return o

class LuaBinding(Binding):
	ASN_IN = False	# Lua's numbers are converted by the C compiler
	def __init__(self, prog, contracts, owning, entry, role, types):
		super().__init__(prog, contracts, owning, entry, role)
		self.types = types
		self.models.update(MODELS)
	def top(self, st): return st.ts.get(("top", 0), 0)
	def push(self, st, n=1): st.ts[("top", 0)] = self.top(st) + n
	def settle(self, I, st, fr, ins, what):
		"""The function is left (by returning or by raising an error)."""
		for r, m in list(st.meta.items()):
			if m.get("cls") != "ud": continue
			t = m.get("ty")
			for n, off, sz, ty in self.prog.structs.get(t, {}).get("fields", ()):
				if (t, n) not in self.owning: continue
				v = st.mem.get((r, off, 8))
				w = I.read(st, ("p", r, C(off)), 8, "ptr") if v is None else v
				if m.get("mt"):
					if w == UNDEF: self.report("undef", fr.fn, ins, "%s while field %s of a %s that will be collected is not initialised" % (what, n, t), st, key="%s.%s" % (t, n))
					elif w[0] == "p" and (w[1] in st.rel or w[1][0] in "DH" and own.held(I, st, w[1]) <= 0):
						self.report("borrowed-store", fr.fn, ins, "%s while field %s of a %s does not hold a reference of its own" % (what, n, t), st, key="%s.%s" % (t, n))
				elif w[0] == "p" and w[1] not in st.rel and own.held(I, st, w[1]) > 0:
					self.report("leak", fr.fn, ins, "%s while a %s without a metatable holds %s" % (what, t, self.describe(I, st, w[1])), st, key="%s.%s" % (t, n))
		for r in list(st.own):
			if st.own[r] > 0:
				self.on_leak(I, st, fr, ins, r)
				del st.own[r]
		self.fields_at_exit(I, st, fr, ins)
	def raises(self, I, st, fr, ins):
		self.count("errors raised")
		self.settle(I, st.copy(), fr, ins, "raises an error")
	def before_exit(self, I, st, fr, ins, v):
		if fr.parent is not None: return
		self.count("exit states")
		if v is not None and is_const(v):
			k = st.ts.get(("last", 0), "nothing") if v[1] else "nothing"
			if k != "nil": self.result(I, st, fr, ins, k)
		self.settle(I, st, fr, ins, "returns")
		if self.role and v is not None and is_const(v) and v[1] > 0 and self.top(st) < v[1]:
			self.report("results", fr.fn, ins, "returns %d results, but has pushed only %d values" % (v[1], self.top(st)), st, key="results")
	def on_noreturn(self, I, st, fr, ins, name):
		self.raises(I, st, fr, ins)

KIND = {"lua_pushnil": "nil", "lua_pushstring": "string", "lua_pushlstring": "string", "lua_pushnumber": "number", "lua_pushinteger": "number", "lua_createtable": "table"}
def pushes(n, ret=None):
	def f(I, fr, st, ins, args):
		I.checkers[0].push(st, n)
		k = KIND.get(ins.d.get("fn"))
		if ins.d.get("fn") == "lua_pushboolean": k = "boolean %s" % I.truth(st, args[1])
		if k: st.ts[("last", 0)] = k
		if any(a == UNDEF for a in args):
			I.undef_use(st, fr, ins, "argument of %s" % ins.d.get("fn")); return []
		if ins.ty == "void": return [(st, None)]
		if ins.ty == "ptr": return [(st, I.fresh_ptr(st))]
		return [(st, I.typed_unknown(st, ins.ty, 8))]
	return f

def m_error(I, fr, st, ins, args):
	I.checkers[0].raises(I, st, fr, ins)
	return []

def checked(mk):
	def f(I, fr, st, ins, args):
		ck = I.checkers[0]
		f2 = st.copy()
		f2.note("%s:%d %s raises an error" % (fr.fn.rel.split("/")[-1], ins.ln, ins.d.get("fn")))
		ck.raises(I, f2, fr, ins)
		return [(st, mk(I, fr, st, ins, args))]
	return f

def mk_udata(I, fr, st, ins, args):
	t = I.checkers[0].types.get(const_string(fr, args[2]))
	return I.fresh_ptr(st, t, nonnull=True, isud=True)

def m_newud(I, fr, st, ins, args):
	t = None
	for b in fr.fn.blocks:
		for i in b:
			if i.op == "store" and tuple(i.d["a"][0]) == ("v", ins.id) and i.d["a"][1][0] == "v":
				a = fr.fn.allocas.get(i.d["a"][1][1])
				if a is not None and (a.d.get("dity") or "").endswith("*"): t = a.d["dity"][:-1]
	p = I.new_heap(st, site(fr, ins), cls="ud", keep=True, ty=t, own=0, undef=True, size=args[1] if args[1][0] == "l" else None, ln=ins.ln, fn=fr.fn.name)
	I.checkers[0].push(st)
	st.ts[("ud", 0)] = p[1]
	st.ts[("last", 0)] = "object"
	return [(st, p)]

def m_setmt(I, fr, st, ins, args):
	r = st.ts.get(("ud", 0))
	ck = I.checkers[0]
	t = ck.types.get(const_string(fr, args[1]))
	if r is not None and r in st.meta:
		if t is None or t != st.meta[r].get("ty"):
			ck.report("type", fr.fn, ins, "a %s gets the metatable of a %s" % (st.meta[r].get("ty"), t or "class that is never checked for"), st, key="metatable")
		st.meta[r] = dict(st.meta[r], mt=True)
	return [(st, None)]

def m_pushcclosure(I, fr, st, ins, args):
	n = args[2][1] if is_const(args[2]) else 0
	I.checkers[0].push(st, 1 - n)
	return [(st, None)]

def m_pushfstring(I, fr, st, ins, args):
	ck = I.checkers[0]
	text = const_string(fr, args[1]) or ""
	k = 2
	for c in re.findall(r"%(.)", text):
		if c == "%": continue
		if k >= len(args): break
		a = args[k]; k += 1
		if c in "dc": ck.give_asn(I, st, fr, ins, a, False, 32, "through %%%s" % c)
		elif c == "I": ck.give_asn(I, st, fr, ins, a, False, 64, "through %I")
	ck.push(st)
	return [(st, I.fresh_ptr(st, "char", nonnull=True))]

def m_snprintf(I, fr, st, ins, args):
	ck = I.checkers[0]
	text = const_string(fr, args[2]) or ""
	k = 3
	for ln, c in re.findall(r"%[-#0 +]*\d*(?:\.\d+)?((?:l|ll|z|h|hh)?)([a-zA-Z%])", text):
		if c == "%" or k >= len(args): continue
		a = args[k]; k += 1
		if c in "diuxX": ck.give_asn(I, st, fr, ins, a, c in "uxX", 64 if ln else 32, "through %%%s" % (ln + c))
	if args[0][0] == "p": I.havoc_region(st, args[0][1])
	return [(st, I.fresh(st, 0, 1 << 30))]

def m_call(I, fr, st, ins, args):
	n, r = args[1], args[2]
	ck = I.checkers[0]
	if ins.d.get("fn") in ("lua_callk",): ck.raises(I, st, fr, ins)
	if is_const(n) and is_const(r): ck.push(st, r[1] - n[1] - 1)
	return [(st, None if ins.ty == "void" else I.fresh(st, 0, 6))]

def m_pushnumber(I, fr, st, ins, args):
	I.checkers[0].give_asn(I, st, fr, ins, args[1], False, 64, "through %s" % ins.d["fn"])
	return pushes(1)(I, fr, st, ins, args)

MODELS = dict(LIBC)
MODELS.update({
	"lua_pushstring": pushes(1), "lua_pushlstring": pushes(1), "lua_pushnumber": m_pushnumber, "lua_pushinteger": m_pushnumber, "lua_pushboolean": pushes(1), "lua_pushnil": pushes(1), "lua_pushvalue": pushes(1), "lua_pushlightuserdata": pushes(1),
	"lua_pushfstring": m_pushfstring, "lua_pushcclosure": m_pushcclosure, "snprintf": m_snprintf,
	"lua_createtable": pushes(1), "luaL_newmetatable": pushes(1), "lua_rawgeti": pushes(1), "lua_getfield": pushes(1), "lua_rawseti": pushes(-1), "lua_seti": pushes(-1), "lua_setfield": pushes(-1), "luaL_setfuncs": pushes(0), "luaL_ref": pushes(-1),
	"lua_settable": pushes(-2), "lua_rawset": pushes(-2), "lua_setmetatable": pushes(-1), "luaL_checkversion_": pushes(0), "lua_settop": pushes(0), "lua_gettop": pure(0, 1000), "lua_type": pure(-1, 9), "lua_toboolean": pure(0, 1),
	"luaL_error": m_error, "luaL_argerror": m_error, "lua_error": m_error, "luaL_typeerror": m_error,
	"luaL_checktype": checked(lambda I, fr, st, ins, a: None), "luaL_checknumber": checked(lambda I, fr, st, ins, a: I.typed_unknown(st, ins.ty, 8)),
	"luaL_checkinteger": checked(lambda I, fr, st, ins, a: I.fresh(st, -(1 << 63), (1 << 63) - 1)),
	"luaL_checklstring": checked(lambda I, fr, st, ins, a: I.fresh_ptr(st, "char", nonnull=True)),
	"luaL_optlstring": checked(lambda I, fr, st, ins, a: I.fresh_ptr(st, "char")),
	"luaL_checkudata": checked(mk_udata),
	"lua_newuserdatauv": m_newud, "lua_newuserdata": m_newud, "luaL_setmetatable": m_setmt,
	"lua_callk": m_call, "lua_pcallk": m_call,
})

def analyse(prog, contracts, owning, f, role, types, budget=250000):
	ck = LuaBinding(prog, contracts, owning, f, role, types)
	I = Interp(prog, [], budget=budget)
	I.checkers = [ck]
	I.models = dict(BASE_MODELS); I.models.update(ck.models)
	I.field_range = own.list_ranges(prog)
	gc = role == "__gc"
	def field_hook(I2, st, ptr, fl, v):
		r = ck.field_hook(I2, st, ptr, fl, v)
		if v[0] == "p" and (fl[0], fl[1]) in owning and gc:
			st.meta[v[1]] = dict(st.meta[v[1]], opt="%s.%s" % (fl[0], fl[1]))
		return r
	I.field_hook = field_hook
	I.set_hook = ck.set_hook
	I.entry(f)
	ck.finish()
	return ck, I
