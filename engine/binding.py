"""Discipline of the language bindings: references of both worlds, NULL, pending exceptions, reported failures."""
import re
from absint import *
from absint import site
import own, errs
from own import release, acquire, releaser
from frontend import AnalysisError

def const_string(fr, v, prog=None):
	"""Text of a string literal."""
	if v[0] != "p" or v[1][0] != "G" or not is_const(v[2]): return None
	g = fr.fn.unit.globals.get(v[1][1])
	if not g or g.get("init", ("",))[0] != "str": return None
	b = bytes.fromhex(g["init"][1])[v[2][1]:]
	return b.split(b"\0")[0].decode("latin-1")

def walk_init(g, prog, out, ty=None, off=0):
	"""(struct, field offset, function) triples of a global initialiser."""
	if not g: return
	if g[0] == "st":
		for o, v in g[2]:
			if v[0] == "fn": out.append((g[1].split(".", 1)[-1], o, v[1]))
			else: walk_init(v, prog, out)
	elif g[0] == "arr":
		for v in g[2]: walk_init(v, prog, out)

class Binding(own.Ownership):
	"""Rules on top of own.Ownership's: foreign-close, cast, failure-as-success."""
	def __init__(self, prog, contracts, owning, entry, role):
		super().__init__(prog, contracts, owning, entry)
		self.role = role
		self.outs_now = {}
		self.asn, self.conv, self.fdsym, self.foreign = set(), {}, set(), set()
		self.clean, self.dirty = {}, {}
	def is_lib(self, f): return f is not None and f.unit.group == "lib"

	# -- failures
	def fail(self, I, st, fr, ins, name, v=None):
		if ("fail", 0) not in st.ts:
			st.ts[("fail", 0)] = (name, fr.fn.name, fr.fn.where(ins))
	def after_model(self, I, st, fr, ins, name, args, rc, v):
		f = self.K.public.get(name)
		if f is None: return
		if name in ("loc_as_get_number", "loc_network_get_asn") and v is not None and v[0] == "l" and len(v[2]) == 1:
			self.asn.add(v[2][0][0])
		if errs.ASK.search(name) and name not in self.STATUS or f.ret == "void": return
		if f.ret == "ptr":
			if rc == "n" and name in own.OWNED_RET and not own.LIST_NONNULL.match(name): self.fail(I, st, fr, ins, name)
		elif rc in ("nz", "-") or rc == "+" or type(rc) is int and rc != 0: self.fail(I, st, fr, ins, name)
	STATUS = {"loc_database_get_as", "loc_database_get_country", "loc_database_lookup_from_string", "loc_database_lookup"}

	# -- variables of the module live as long as the process
	def on_store(self, I, st, fr, ins, ptr, size, val):
		super().on_store(I, st, fr, ins, ptr, size, val)
		if size == 8 and ptr[0] == "p" and ptr[1][0] == "G":
			if val[0] == "p" and st.own.get(val[1], 0) > 0:
				st.own[val[1]] -= 1
				if not st.own[val[1]]: del st.own[val[1]]
				st.held[val[1]] = own.held(I, st, val[1]) + 1

	# -- AS numbers
	ASN_IN = True
	def on_call(self, I, st, fr, ins, name, args):
		k = {"loc_as_new": 2, "loc_database_get_as": 2, "loc_writer_add_as": 2, "loc_network_set_asn": 1}.get(name)
		if k is not None and self.ASN_IN and k < len(args) and fr.fn.unit.group != "lib":
			self.count("AS numbers taken from the caller")
			self.take_asn(I, st, fr, ins, name, args[k])
	def take_asn(self, I, st, fr, ins, name, v):
		why = None
		if v[0] == "l" and not v[2]: return
		if v[0] != "l" or len(v[2]) != 1 or v[1] or v[2][0][1] != 1: why = "is not the number that was given"
		else:
			lo, hi = I.rng(st, v)
			if lo < 0: why = "is not checked to be a 32-bit number"
			elif hi > (1 << 32) - 1: why = "is not checked to be a 32-bit number"
			elif hi < (1 << 32) - 1 and self.parsed(v[2][0][0]): why = "cannot be larger than %d" % hi
		c = self.conv.get(v[2][0][0]) if v[0] == "l" and len(v[2]) == 1 else None
		if c: why = c if why is None or "number that was" in why or True else why
		if why:
			self.report("asn", fr.fn, ins, "the AS number passed to %s %s" % (name, why), st, key="in:" + name)
	def parsed(self, sid): return True
	def give_asn(self, I, st, fr, ins, v, unsigned, bits, what):
		"""A number is handed to the language: AS numbers must arrive as they are."""
		if v[0] == "t" and v[1] in I.fpsrc:
			v, unsigned, bits = I.fpsrc[v[1]]
			what += " as a signed number" if not unsigned else ""
		if v[0] != "l": return
		for s, k in v[2]:
			if s in self.asn:
				self.count("AS numbers handed out")
				if v[1] or len(v[2]) != 1 or k != 1 or not (unsigned and bits >= 32 or bits > 32):
					self.report("asn", fr.fn, ins, "an AS number is handed out %s" % what, st, key="out:" + what)
			elif self.mangled(I, s):
				self.report("asn", fr.fn, ins, "an AS number is handed out %s after a conversion that changes some numbers" % what, st, key="out:" + what)
	def mangled(self, I, s):
		"""Is the symbol a conversion of an AS number?"""
		if s[0] != "d": return False
		for x in I.ddefs[s[1]][0]:
			if type(x) is tuple and x and x[0] == "l":
				for t, _ in x[2]:
					if t in self.asn or self.mangled(I, t): return True
		return False

	# -- file descriptors
	def on_fd(self, st, v): 
		st.ts[("fd", v[2][0][0])] = 1
	def leak_fds(self, I, st, fr, ins):
		for k in [k for k in st.ts if k[0] == "fd"]:
			self.report("leak", fr.fn, ins, "a file descriptor is never closed on a path to here", st, key="fd")
			del st.ts[k]

	# -- results
	def result(self, I, st, fr, ins, kind):
		w = st.ts.get(("fail", 0))
		if w is None: self.clean.setdefault(kind, 1)
		elif kind != "exc":
			self.dirty.setdefault((kind, w[0], w[1]), (fr.fn, ins, w, list(st.trace)))
	def finish(self):
		for (kind, name, fn), (f, ins, w, tr) in self.dirty.items():
			if kind in self.clean:
				self.report("swallowed", f, ins, "returns what it returns on success although %s failed (%s)" % (w[0], w[2]), None, key="%s in %s" % (name, fn))

# ---- C library used by the bindings

def m_fdopen(I, fr, st, ins, args):
	ck = I.checkers[0]
	f2 = st.copy()
	f2.note("%s:%d fdopen fails" % (fr.fn.rel.split("/")[-1], ins.ln))
	ck.fail(I, f2, fr, ins, "fdopen")
	sid = args[0][2][0][0] if args[0][0] == "l" and len(args[0][2]) == 1 else None
	p = I.new_heap(st, site(fr, ins), cls="FILE", ln=ins.ln, fn=fr.fn.name, foreign=sid in ck.foreign)
	st.ts.pop(("fd", sid), None)
	return [(st, p), (f2, NULL)]

def m_fopen(I, fr, st, ins, args):
	ck = I.checkers[0]
	f2 = st.copy()
	f2.note("%s:%d fopen fails" % (fr.fn.rel.split("/")[-1], ins.ln))
	ck.fail(I, f2, fr, ins, "fopen")
	mode = const_string(fr, args[1]) or ""
	p = I.new_heap(st, site(fr, ins), cls="FILE", ln=ins.ln, fn=fr.fn.name, writes=any(c in mode for c in "wa+"))
	return [(st, p), (f2, NULL)]

def m_fclose(I, fr, st, ins, args):
	ck = I.checkers[0]
	p = args[0]
	m = st.meta.get(p[1], {}) if p[0] == "p" else {}
	if m.get("foreign"):
		ck.report("foreign-close", fr.fn, ins, "closes a file descriptor that belongs to an object of the caller", st, key="fclose")
	r = releaser("FILE", False)(I, fr, st, ins, args)
	out = []
	for s, v in r:
		if m.get("writes"):
			f2 = s.copy()
			f2.note("%s:%d fclose fails" % (fr.fn.rel.split("/")[-1], ins.ln))
			ck.fail(I, f2, fr, ins, "fclose")
			out.append((f2, C(-1)))
		out.append((s, C(0)))
	return out

def m_dup(I, fr, st, ins, args):
	ck = I.checkers[0]
	f2 = st.copy()
	f2.note("%s:%d dup fails" % (fr.fn.rel.split("/")[-1], ins.ln))
	ck.fail(I, f2, fr, ins, "dup")
	v = I.fresh(st, 0, 1 << 20)
	ck.on_fd(st, v)
	return [(st, v), (f2, C(-1))]

def m_close(I, fr, st, ins, args):
	ck = I.checkers[0]
	v = args[0]
	if v[0] == "l" and len(v[2]) == 1:
		sid = v[2][0][0]
		if sid in ck.foreign: ck.report("foreign-close", fr.fn, ins, "closes a file descriptor that belongs to an object of the caller", st, key="close")
		elif ("fd", sid) in st.ts: del st.ts[("fd", sid)]
		else: ck.report("double-release", fr.fn, ins, "a file descriptor is closed that is not open any more", st, key="close")
	return [(st, C(0))]

def m_strdup(I, fr, st, ins, args):
	ck = I.checkers[0]
	r = BASE_MODELS["strdup"](I, fr, st, ins, args)
	for s, v in r:
		if v == NULL: ck.fail(I, s, fr, ins, "strdup")
	return r

LIBC = {"fdopen": m_fdopen, "fopen": m_fopen, "fopen64": m_fopen, "fclose": m_fclose, "dup": m_dup, "close": m_close, "strdup": m_strdup}
