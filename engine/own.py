"""Ownership typestate for libloc's C code: reference counts, buffers, handles.

Contract of the public functions (fixed here, it is what callers in every language rely on):
  * an object handed out through a `struct T**` parameter on success (return 0) is a reference the
    caller owns; on failure nothing is handed out
  * functions in OWNED_RET return a reference / buffer the caller owns (or NULL)
  * *_ref adds a reference and returns its argument, *_unref gives one up; every other function
    borrows its arguments
  * KEEPS: the callee takes a reference of its own to the argument
Which outcomes (error / success / success without object) a callee has is inferred from its body."""
import re
from absint import *
from absint import site, copy_mem
from frontend import AnalysisError

OWNED_RET = {
	"loc_as_list_get", "loc_country_list_get", "loc_network_list_get", "loc_network_list_pop", "loc_network_list_pop_first",
	"loc_database_enumerator_get_countries", "loc_database_enumerator_get_asns", "loc_network_tree_get_root",
	"loc_network_tree_node_get", "loc_network_tree_node_get_network", "loc_network_exclude", "loc_network_exclude_list",
	"loc_network_reverse_pointer",
}
KEEPS = {"loc_as_list_append": (1,), "loc_country_list_append": (1,), "loc_network_list_push": (1,), "loc_network_tree_add_network": (1,),
	"loc_database_enumerator_set_countries": (1,), "loc_database_enumerator_set_asns": (1,), "loc_network_list_merge": ()}
# the callee gives up the container's reference to the argument: only a caller with its own reference may go on using it
DROPS = {"loc_network_tree_delete_network": (1,), "loc_network_list_remove": (1,)}
# emptying a container releases the references it holds
EMPTIES = {"loc_as_list_clear", "loc_country_list_clear", "loc_network_list_clear"}

# accessors that are analysed in place rather than through a contract
INLINE = re.compile(r"^loc_\w+_list_(size|empty)$")
# NULL exactly when the list is empty / the index is not below its size (checked against the body)
LIST_NONNULL = re.compile(r"^loc_\w+_list_(pop|pop_first|get)$")

LIST_GROW = re.compile(r"^loc_\w+_list_(push|append)$")
LIST_SHRINK = re.compile(r"^loc_\w+_list_(remove|pop|pop_first)$")

REF = re.compile(r"^loc_(?:(.+)_)?ref$")
UNREF = re.compile(r"^loc_(?:(.+)_)?unref$")

def struct_ptr(t, stars=1):
	t = t.replace("const ", "")
	m = re.match(r"struct (loc_\w+|node|network)(\*+)$", t)
	return m.group(1) if m and len(m.group(2)) == stars else None

class NullProbe(Checker):
	def __init__(self, root):
		super().__init__()
		self.hit = None
	def on_null(self, I, st, fr, ins, what):
		if self.hit is None:
			self.hit = fr.fn.where(ins)

class Outcomes(Checker):
	"""Collects (return class, out-parameter classes) of a function."""
	def __init__(self, fn, outs):
		super().__init__()
		self.fn, self.outs, self.res = fn, outs, set()
	optional = frozenset()
	def on_ret(self, I, st, fr, ins, v):
		rc = I.vclass(st, v, False) if v is not None else None
		if isinstance(rc, tuple): rc = "P"
		elif rc in ("D", "D?"): rc = "P" if rc == "D" else "P?"
		if rc == "P?" and v[0] == "p":
			src = st.meta.get(v[1], {}).get("src")
			ty = (I.type_of(st, src[0]) or "").replace("const ", "").replace("struct ", "") if src else None
			if (ty, src and src[1]) in self.optional:
				self.res.add(("n", ()))
				rc = "P"
		o = []
		for i, (rid, init) in self.outs.items():
			w = st.mem.get((rid, 0, 8))
			w = I.resolve(st, w) if w is not None else None
			if w is None or w == init: o.append("same")
			elif w == NULL: o.append("null")
			elif w[0] == "p" and not I.is_nonnull(st, w): o.append("obj"); self.res.add((rc, tuple(o[:-1] + ["null"]) + ("same",) * 0)) if False else None
			else: o.append("obj")
		self.res.add((rc, tuple(o)))

def each(fn, items):
	import common
	return [set() if type(x) is tuple else x for x in common.parallel(fn, items)]

class Optionals(Checker):
	def __init__(self, K, f):
		super().__init__()
		self.K, self.f, self.outs, self.out, self.some, self.cleared = K, f, {}, set(), set(), set()
	def on_ret(self, I, st, fr, ins, v):
		objs = {k for k, m in st.meta.items() if m.get("param") is not None and k not in st.rel}
		good = self.f.ret == "void" or v is None or v[0] != "l" or I.truth(st, v) is not True
		for i, (rid, init) in self.outs.items():
			w = st.mem.get((rid, 0, 8))
			if w is not None and w != init and w[0] == "p" and good: objs.add(w[1])
		if v is not None and v[0] == "p": objs.add(v[1])
		for r in objs:
			m = st.meta.get(r, {})
			ty = (I.type_of(st, r) or "").replace("const ", "").replace("struct ", "")
			for n, o, sz, t in self.K.prog.structs.get(ty, {}).get("fields", ()):
				if not t.endswith("*") or t.endswith("**"): continue
				# storage with an extent of its own: absent means empty, which is a matter of bounds
				if ty == "loc_stringpool": continue
				w = st.mem.get((r, o, 8))
				if w is None:
					if r[0] == "H" and m.get("zero") and not m.get("havoc"): self.out.add((ty, n))
				elif I.resolve(st, w) == NULL:
					self.out.add((ty, n))
					if r[0] == "D" and not (w[0] == "p" and w[1] == ("D", ("z", r, o, 8))): self.cleared.add((ty, n))
				elif r[0] == "H": self.some.add((ty, n))

class Contracts:
	"""Models of libloc's own functions for the ownership and error analyses."""
	def __init__(self, prog, budget=300000):
		self.prog = prog
		self.sum = {}
		self.nullsafe = {}
		self.budget = budget
		self.busy = set()
		self.reftypes = set()
		for n in list(prog.ext):
			m = UNREF.match(n)
			if m:
				self.reftypes.add(m.group(1) or "ctx")
		self.public = {n: f for n, f in prog.ext.items() if n.startswith("loc_") and f.unit.group == "lib"}
		# types the library hands out to its users (tree nodes are not)
		self.handed = {"loc_" + t for t in self.reftypes if not t.endswith("_node")}
		self.models = {}
		for n, f in self.public.items():
			if not INLINE.match(n):
				self.models[n] = self.model(n, f)
		for n in DROPS:
			f = prog.fn(n)
			if f is not None and n not in self.public:
				self.public[n] = f
				self.models[n] = self.model(n, f)
		# self-recursive helpers that hand out objects: analysed on their own, with their contract as induction hypothesis
		self.recursive = {}
		for f in prog.repo_fns():
			if f.unit.group == "lib" and f.internal and any(c.d.get("fn") == f.name for c in f.calls()) and any(struct_ptr(t, 2) in self.handed for t in f.sig[1:]):
				self.recursive[f.name] = self.public[f.name] = f
				self.models[f.name] = self.model(f.name, f)
		self.models["loc_log"] = pure()
		self.models["loc_get_log_priority"] = pure(0, 7)

	def outs(self, f):
		return [i for i, t in enumerate(f.sig[1:]) if struct_ptr(t, 2)]

	optional = sticky = frozenset()
	def find_optional(self):
		"""(struct, field) of the pointers that can be NULL in an object between two calls."""
		need = set()
		for f in self.prog.repo_fns():
			if f.unit.group != "lib": continue
			if any(i.op == "store" and i.d["a"][0][0] == "null" or i.op == "call" and i.d.get("fn") in ("calloc", "malloc") for b in f.blocks for i in b): need.add(f.name)
		while True:
			more = {f.name for f in self.prog.repo_fns() if f.unit.group == "lib" and f.name not in need and any(c.d.get("fn") in need and (c.d.get("fn") not in self.public) for c in f.calls())}
			if not more: break
			need |= more
		def one(n):
			f = self.public.get(n)
			if f is None or UNREF.match(n): return set()
			ck = Optionals(self, f)
			I = Interp(self.prog, [ck], models=self.all_models(), budget=3000)
			def setup(I2, st, args):
				for i in self.outs(f):
					init = I2.fresh_ptr(st, struct_ptr(f.sig[i + 1], 2), init=True, keep=True)
					I2.keyregs.add(args[i][1])
					I2.write(st, args[i], 8, init)
					ck.outs[i] = (args[i][1], init)
			try: I.entry(f, setup)
			except AnalysisError: return set()
			# what a constructor sets up in one mode only goes with that mode
			return {k + (k in ck.cleared,) for k in ck.out - ck.some}
		res = set().union(*each(one, sorted(need)))
		self.optional = frozenset(k[:2] for k in res)
		self.sticky = self.optional - {k[:2] for k in res if k[2]}
		self.sum = {}
		return self.optional
	def plain(self, f):
		"""Accessors of objects that are never handed out: their callers are answerable for what they ask."""
		return f is not None and len(f.blocks) == 1 and f.unit.group == "lib" and len(f.sig) == 2 and struct_ptr(f.sig[1]) is not None and struct_ptr(f.sig[1]) not in self.handed and not UNREF.match(f.name) and not REF.match(f.name)

	# -- inferred facts about a callee
	def summary(self, name):
		if name in self.sum:
			return self.sum[name]
		f = self.public[name]
		full = None
		if name in self.busy:
			return None
		self.busy.add(name)
		try:
			outs = {}
			oc = Outcomes(f, outs)
			if not outs and f.ret == "ptr": oc.optional = self.optional
			I = Interp(self.prog, [oc], models=self.all_models(), budget=self.budget)
			def setup(I2, st, args):
				for i in self.outs(f):
					init = I2.fresh_ptr(st, struct_ptr(f.sig[i + 1], 2), init=True)
					I2.keyregs.add(args[i][1])
					I2.write(st, args[i], 8, init)
					outs[i] = (args[i][1], init)
					st.meta[init[1]] = dict(st.meta[init[1]], keep=True)
			I.entry(f, setup)
			full = oc.res
		finally:
			self.busy.discard(name)
		self.sum[name] = full
		return full

	def all_models(self):
		m = dict(EXT_MODELS)
		m.update(self.models)
		return m

	def list_size(self, I, st, p):
		"""The size field of the list p designates."""
		if p[0] != "p": return None
		ty = (I.type_of(st, p[1]) or "").replace("struct ", "")
		for n, o, sz, t in self.prog.structs.get(ty, {}).get("fields", ()):
			if n == "size":
				return I.read(st, ("p", p[1], lin_add(p[2], C(o))), sz, 8 * sz)
		return None
	def list_outcome(self, I, st, name, f, args):
		"""True: the list has the element asked for; False: it has not; None: unknown."""
		n = self.list_size(I, st, args[0])
		if n is None or n[0] != "l" or not self.list_contract(name, f):
			return None
		i = args[1] if len(args) > 1 else C(0)
		if i[0] != "l": return None
		return I.int_truth(st, "ult", i, n, 64)
	_lc = {}
	def list_contract(self, name, f):
		if name not in self._lc:
			self._lc[name] = False
			res = []
			for some in (True, False):
				oc = Outcomes(f, {})
				I = Interp(self.prog, [oc], models=self.all_models(), budget=self.budget)
				def setup(I2, st, args):
					n = self.list_size(I2, st, args[0])
					if n is None: raise AnalysisError("%s: no size field" % name)
					i = args[1] if len(args) > 1 else C(0)
					I2.assume(st, ("cmp", "ult", i, n, 64), some)
				I.entry(f, setup)
				res.append({x[0] for x in oc.res})
			self._lc[name] = "n" not in res[0] and res[1] == {"n"}
		return self._lc[name]

	def accepts_null(self, name, i):
		k = (name, i)
		if k in self.nullsafe:
			return self.nullsafe[k]
		f = self.public[name]
		self.nullsafe[k] = True
		p = NullProbe(f)
		I = Interp(self.prog, [p], models=self.all_models(), budget=self.budget)
		def setup(I2, st, args):
			args[i] = NULL
		I.entry(f, setup)
		self.nullsafe[k] = p.hit is None
		return self.nullsafe[k]

	def model(self, name, f):
		rm, um = REF.match(name), UNREF.match(name)
		outs = self.outs(f)
		def check_args(I, fr, st, ins, args):
			for i, t in enumerate(f.sig[1:]):
				if i < len(args) and (struct_ptr(t) or t.replace("const ", "") in ("char*", "struct in6_addr*")):
					a = args[i]
					if a == UNDEF:
						I.undef_use(st, fr, ins, "argument %d of %s" % (i + 1, name))
						return False
					if a[0] == "p":
						for c in I.checkers:
							if hasattr(c, "on_use"): c.on_use(I, st, fr, ins, a[1], name)
					if a[0] == "p" and a[1][0] == "D" and a[1] not in st.nonnull and st.meta.get(a[1], {}).get("opt") and a[2] == C(0) and not self.plain(I.top) and not self.accepts_null(name, i):
						for c in I.checkers:
							c.on_null(I, st, fr, ins, "%s, which can be absent, as argument %d of %s" % (st.meta[a[1]]["opt"], i + 1, name))
					if a == NULL and not self.accepts_null(name, i):
						for c in I.checkers:
							c.on_null(I, st, fr, ins, "argument %d of %s" % (i + 1, name))
						return False
			return True
		def m(I, fr, st, ins, args):
			if not check_args(I, fr, st, ins, args):
				return []
			if rm:
				p = args[0]
				if p[0] == "p":
					st.own[p[1]] = st.own.get(p[1], 0) + 1
					mm = st.meta.get(p[1])
					if mm is not None and mm.get("rln") is None:
						st.meta[p[1]] = dict(mm, rln=ins.ln, rfn=fr.fn.name, cls=mm.get("cls") or "ref", ty=mm.get("ty") or "struct loc_" + (rm.group(1) or "ctx"))
					if p[1][0] == "D":
						st.nonnull |= {p[1]}
				return [(st, p)]
			if um:
				p = args[0]
				if p[0] == "p":
					release(I, fr, st, ins, p, name)
				# the object may live on when others hold references
				return [(st, NULL if False else I.fresh_ptr(st, (f.sig[0] or "")[:-1]))]
			if name in EMPTIES and args[0][0] == "p":
				sn = struct_ptr(f.sig[1])
				for n, o, sz, t in self.prog.structs.get(sn, {}).get("fields", ()):
					if t.endswith("**"):
						st.mem[(args[0][1], args[0][2][1] + o, 8)] = NULL
			for i in DROPS.get(name, ()):
				if args[i][0] == "p":
					r = args[i][1]
					if st.own.get(r, 0) <= 0 and not st.meta.get(r, {}).get("shared"):
						st.rel[r] = "%s:%d (the container's reference dropped by %s)" % (fr.fn.rel, ins.ln, name)
			s = self.summary(name)
			some = self.list_outcome(I, st, name, f, args) if LIST_NONNULL.match(name) else None
			lsz = self.list_size(I, st, args[0]) if args and LIST_GROW.match(name) or LIST_SHRINK.match(name) else None
			# memory the callee may change
			for i, a in enumerate(args):
				if a[0] == "p" and i < len(f.sig) - 1 and not f.sig[i + 1].startswith("const "):
					if i in outs:
						continue
					if a[1][0] == "L" and not struct_ptr(f.sig[i + 1]):
						if (st.meta.get(a[1], {}).get("ty") or "").startswith("struct ") and "in6_addr" not in st.meta[a[1]]["ty"]:
							havoc_fields(I, st, a[1])
						else:
							I.havoc_region(st, a[1])
					elif a[1][0] in "DH" and name not in self.readonly() and name not in EMPTIES:
						havoc_fields(I, st, a[1])
			if lsz is not None and lsz[0] == "l":
				n = self.list_size(I, st, args[0])
				# a push never makes the list shorter, a removal takes at most one element
				if LIST_GROW.match(name):
					I.add_le(st, lin_add(lsz, n, -1)); I.add_le(st, lin_add(lin_add(n, lsz, -1), C(-1)))
				else:
					I.add_le(st, lin_add(n, lsz, -1)); I.add_le(st, lin_add(lin_add(lsz, n, -1), C(-1)))
			res = []
			if s is None:
				s = {("0", tuple("obj" for _ in outs)), ("0", tuple("null" for _ in outs)), ("nz", tuple("null" for _ in outs))} if f.ret != "ptr" else {("P", ()), ("n", ())}
			many = len(s) > 1
			for rc, oo in sorted(s, key=repr):
				if some is not None and f.ret == "ptr":
					if (rc == "n") == some: continue
					if rc != "n": rc = "P"
				ns = st.copy() if many else st
				if rc not in ("nz", "+", "-"):
					for i in KEEPS.get(name, ()):
						if args[i][0] == "p":
							ns.meta[args[i][1]] = dict(ns.meta.get(args[i][1], {}), shared=True)
				ok = True
				for i, o in zip(outs, oo):
					p = I.deref(ns, fr, ins, args[i], 8, True)
					if p is None:
						ok = False
						break
					if o == "null":
						store(I, fr, ns, ins, p, NULL)
					elif o == "obj":
						n = I.new_heap(ns, (fr.fn.name, ins.id, i), ty=struct_name(f.sig[i + 1]), cls="ref", ln=ins.ln, fn=fr.fn.name, own=1 if rc in ("0", 0) else 1)
						p = I.val(ns, fr, ins.d["a"][i])
						store(I, fr, ns, ins, p, n)
				if not ok:
					continue
				v = None
				if f.ret == "ptr":
					if rc == "n":
						v = NULL
						ns.note("%s:%d %s returns NULL" % (fr.fn.rel.split("/")[-1], ins.ln, name))
					elif name in OWNED_RET:
						t = f.sig[0][:-1]
						v = I.new_heap(ns, (fr.fn.name, ins.id, "r"), ty=t, cls="ref" if struct_ptr(f.sig[0]) else "malloc", ln=ins.ln, fn=fr.fn.name)
					else:
						v = I.fresh_ptr(ns, f.sig[0][:-1].replace("const ", ""), nonnull=(rc == "P"))
				elif f.ret != "void":
					w = f.ret if isinstance(f.ret, int) else 32
					v = {"0": C(0), "+": None, "-": None}.get(rc, None)
					if rc == "+": v = I.fresh(ns, 1, (1 << (w - 1)) - 1)
					elif rc == "-": v = I.fresh(ns, -(1 << 31), -1)
					elif rc == "nz": v = I.fresh(ns, -(1 << (w - 1)), (1 << (w - 1)) - 1, nz=True)
					elif v is None: v = I.typed_unknown(ns, f.ret, 8, f.sig[0])
					if rc in ("+", "-", "nz"):
						ns.note("%s:%d %s fails" % (fr.fn.rel.split("/")[-1], ins.ln, name))
				for c in I.checkers:
					if hasattr(c, "after_model"):
						c.after_model(I, ns, fr, ins, name, args, rc, v)
				res.append((ns, v))
			return res
		return m

	_ro = None
	def readonly(self):
		if self._ro is None:
			self._ro = {n for n in self.public if re.search(r"_(get_\w+|size|empty|cmp|str|prefix|family|matches_\w+|contains\w*|has_flag|is_\w+|overlaps|is_valid|count_as|created_at|match_string|properties_cmp|reverse_pointer|dump|to_database_v1|get|code_to_flag|count_nodes|list_size)$", n)}
		return self._ro

def struct_name(t):
	t = t.replace("const ", "")
	while t.endswith("*"): t = t[:-1]
	return t

def store(I, fr, st, ins, p, v):
	for c in I.checkers:
		c.on_store(I, st, fr, ins, p, 8, v)
	I.write(st, p, 8, v)

def havoc_fields(I, st, rid):
	"""The callee may change what a struct's fields hold; what it owns stays owned by it."""
	for k in [k for k in st.mem if k[0] == rid]:
		v = st.mem[k]
		if v[0] == "p" and st.own.get(v[1], 0) > 0:
			continue
		if v[0] in ("p", "n"):
			f = I.field_of(st, ("p", rid, C(k[1])), 8) if isinstance(k[1], int) else None
			if f and f[2].startswith("struct loc_ctx"):
				continue
		del st.mem[k]
	m = st.meta.get(rid)
	if m is not None:
		st.meta[rid] = dict(m, havoc=True)

def held(I, st, rid):
	"""References to rid that fields of other objects hold, as far as the state knows."""
	n = st.held.get(rid)
	if n is not None:
		return n
	m = st.meta.get(rid, {})
	return 1 if m.get("coll") or m.get("inown") else 0

def drop_ref(I, st, rid, where):
	"""One reference to rid is given up."""
	m = st.meta.get(rid, {})
	n, h = st.own.get(rid, 0), held(I, st, rid)
	if n > 0:
		if n > 1: st.own[rid] = n - 1
		else: st.own.pop(rid)
		n -= 1
	elif h > 0:
		h -= 1
		st.held[rid] = h
	if n + h <= 0 and not m.get("shared"):
		st.rel[rid] = where

def release(I, fr, st, ins, p, how):
	rid = p[1]
	for c in I.checkers:
		if hasattr(c, "on_release"):
			c.on_release(I, st, fr, ins, rid, how)
	drop_ref(I, st, rid, "%s:%d" % (fr.fn.rel, ins.ln))

def acquire(cls, null=True, ty=None):
	def f(I, fr, st, ins, args):
		f2 = st.copy() if null else None
		p = I.new_heap(st, site(fr, ins), cls=cls, ty=ty, ln=ins.ln, fn=fr.fn.name)
		r = [(st, p)]
		if null:
			f2.note("%s:%d %s fails" % (fr.fn.rel.split("/")[-1], ins.ln, ins.d.get("fn")))
			r.append((f2, NULL))
		return r
	return f

def releaser(cls, nullok, ret=None):
	def f(I, fr, st, ins, args):
		p = args[0]
		if p == UNDEF:
			I.undef_use(st, fr, ins, "argument of %s" % ins.d["fn"]); return []
		if p == NULL:
			if not nullok:
				for c in I.checkers: c.on_null(I, st, fr, ins, "argument of %s" % ins.d["fn"])
				return []
		elif p[0] == "p":
			for c in I.checkers:
				c.on_free(I, st, fr, ins, p[1])
			st.own.pop(p[1], None)
			st.held.pop(p[1], None)
			st.rel[p[1]] = "%s:%d" % (fr.fn.rel, ins.ln)
		return [(st, I.typed_unknown(st, ins.ty, 8) if ins.ty != "void" else None)]
	return f

def m_mmap(I, fr, st, ins, args):
	f2 = st.copy()
	f2.note("%s:%d mmap fails" % (fr.fn.rel.split("/")[-1], ins.ln))
	p = I.new_heap(st, site(fr, ins), cls="mmap", ty="char", size=args[1] if args[1][0] == "l" else None, ln=ins.ln, fn=fr.fn.name, havoc=True)
	return [(st, p), (f2, ("p", ("S", -1), C(0)))]

def m_ndup(I, fr, st, ins, args):
	return [(st, I.fresh(st, -1, 1 << 20))]

def m_fread(I, fr, st, ins, args):
	p = I.deref(st, fr, ins, args[0], 1, True)
	if p is None: return []
	I.havoc_region(st, p[1])
	hi = args[2][1] if is_const(args[2]) else 1 << 62
	return [(st, I.fresh(st, 0, hi))]

EXT_MODELS = {
	"fopen": acquire("FILE"), "fdopen": acquire("FILE"), "open_memstream": acquire("FILE"), "tmpfile": acquire("FILE"),
	"fclose": releaser("FILE", False),
	"EVP_MD_CTX_new": acquire("EVP_MD_CTX"), "EVP_MD_CTX_free": releaser("EVP_MD_CTX", True),
	"PEM_read_PUBKEY": acquire("EVP_PKEY"), "PEM_read_PrivateKey": acquire("EVP_PKEY"), "EVP_PKEY_free": releaser("EVP_PKEY", True),
	"mmap": m_mmap, "munmap": releaser("mmap", False), "dup": m_ndup,
	"fread": m_fread,
	"lseek": pure(-1, 1 << 62), "madvise": pure(-1, 0), "fwrite": pure(0, 1 << 40), "fseek": pure(-1, 0), "fflush": pure(-1, 0),
	"fileno": pure(-1, 1 << 20), "qsort": pure(), "hexdump": pure(),
	"EVP_DigestVerifyInit": pure(-2, 1), "EVP_DigestUpdate": pure(0, 1), "EVP_DigestVerifyUpdate": pure(0, 1), "EVP_DigestVerifyFinal": pure(-2, 1),
	"EVP_DigestSignInit": pure(-2, 1), "EVP_DigestSignUpdate": pure(0, 1), "EVP_DigestSignFinal": pure(-2, 1),
	"inet_ntop": pure(), "snprintf": pure(0, 1 << 30), "strtol": pure(), "strtoul": pure(),
}

def owning_fields(prog):
	"""Fields whose content some destructor (a static *_free function or container *_clear) gives up."""
	own = {}
	RELEASE = {"free", "fclose", "munmap", "EVP_PKEY_free", "EVP_MD_CTX_free"}
	for f in prog.repo_fns():
		if f.unit.group != "lib" or not re.search(r"(_free|_clear|^free_\w+)$", f.name):
			continue
		for c in f.calls():
			n = c.d.get("fn")
			if n is None or not c.d["a"] or not (n in RELEASE or UNREF.match(n)):
				continue
			a = c.d["a"][0]
			g = trace_field(f, a)
			if g:
				own.setdefault(g, (f.name, c.ln, n))
	return own

def trace_field(f, a):
	"""(struct, field index path) a loaded value comes from, following one local variable."""
	if a[0] != "v":
		return None
	i = f.instrs.get(a[1])
	if i is None or i.op != "load":
		return None
	p = i.d["a"][0]
	if p[0] != "v":
		return None
	g = f.instrs.get(p[1])
	if g is not None and g.op == "getelementptr":
		path = g.d["gep"][5]
		if path:
			return (path[-1][0].replace("struct.", ""), path[-1][1])
		if g.d["gep"][3]:
			b = trace_field(f, g.d["gep"][1])
			return (b[0], b[1], "[]") if b else None
	return None

def field_names(prog, own):
	"""owning_fields in terms of field names."""
	out = {}
	for k, v in own.items():
		s = prog.structs.get(k[0])
		if not s:
			continue
		n = s["fields"][k[1]][0]
		out[(k[0], n + ("[]" if len(k) > 2 else ""))] = v
	return out

class Ownership(Checker):
	"""Rules: leak, use-after-release, double-release, over-release, lost-field, borrowed-store, borrowed-return,
	dangling-field, destructor-misses-field, refcount, null, undef."""
	def __init__(self, prog, contracts, owning, entry):
		super().__init__()
		self.prog, self.K, self.owning, self.entry = prog, contracts, owning, entry
		self.models = contracts.all_models()
		self.sticky = {"%s.%s" % k for k in contracts.sticky}
		self.is_unref = bool(UNREF.match(entry.name))
		self.is_ref = bool(REF.match(entry.name))
		self.outs = contracts.outs(entry) if entry.unit.group == "lib" else []
		self.params = []

	# -- classification
	def slot(self, I, st, ptr):
		"""(struct, field) when ptr designates memory that holds a reference of its own."""
		m = st.meta.get(ptr[1], {})
		src = m.get("src")
		if src and len(src) > 2 and src[2] is not None:
			k = (src[2], src[1] + "[]")
			if k in self.owning:
				return k
		f = I.field_of(st, ptr, 8)
		if f and (f[0], f[1]) in self.owning:
			return (f[0], f[1])
		return None
	def describe(self, I, st, rid):
		m = st.meta.get(rid, {})
		what = {"ref": "reference to %s" % (m.get("ty") or "object").replace("struct ", ""), "malloc": "memory", "FILE": "FILE handle", "mmap": "mapping"}.get(m.get("cls"), m.get("cls") or (m.get("ty") or "object"))
		ln, fn = m.get("ln") or m.get("rln"), m.get("fn") or m.get("rfn")
		src = m.get("src")
		if ln: what += " obtained at line %s (%s)" % (ln, fn)
		elif src: what += " held by field %s" % src[1]
		elif m.get("param") is not None: what += " (argument %d)" % (m["param"] + 1)
		return what
	def okey(self, I, st, rid):
		m = st.meta.get(rid, {})
		src = m.get("src")
		return "%s/%s" % (m.get("cls") or m.get("ty"), m.get("fn") or m.get("rfn") or (src[1] if src else None) or m.get("param"))

	# -- hooks
	def field_hook(self, I, st, ptr, f, v):
		if ("nn", ptr[1], f[1]) in st.nonnull and v[0] == "p": st.nonnull |= {v[1]}
		if v[0] == "p" and v[1][0] == "D" and (f[0], f[1]) in self.K.optional and v[1] not in st.nonnull:
			st.meta[v[1]] = dict(st.meta[v[1]], opt="%s.%s" % (f[0], f[1]))
		if v[0] == "p" and (f[0], f[1]) in self.owning:
			m = st.meta[v[1]]
			src = m.get("src")
			st.meta[v[1]] = dict(m, inown=True, src=(src[0], src[1], f[0]) if src else None)
		return None
	def set_hook(self, I, st, rid):
		"""A field nothing ever clears was found set: it stays set."""
		m = st.meta.get(rid, {})
		if m.get("opt") in self.sticky and m.get("src"): st.nonnull |= {("nn",) + m["src"][:2]}
	def on_load(self, I, st, fr, ins, p, size, v):
		if size == 8 and v[0] == "p" and v[1][0] == "D":
			m = st.meta.get(v[1])
			if m is None or m.get("inown"): return
			k = self.slot(I, st, p)
			if k and k[1].endswith("[]"):
				st.meta[v[1]] = dict(m, inown=True, arr=p[1], src=(p[1], "[]"))
	def on_store(self, I, st, fr, ins, ptr, size, val):
		if size == 4 or size == 8:
			f = I.field_of(st, ptr, size)
			if f and f[1] == "size" and f[0].endswith("_list"):
				st.ts[("shrunk", 0)] = self.delta(I, st, ptr, size, val)
		if size != 8: return
		f = I.field_of(st, ptr, size)
		if f and "%s.%s" % f[:2] in self.sticky:
			n = ("nn", ptr[1], f[1])
			if val[0] == "p" and I.is_nonnull(st, val): st.nonnull |= {n}
			else: st.nonnull -= {n}
		k = self.slot(I, st, ptr)
		if not k: return
		self.count("stores into owning fields")
		arr = k[1].endswith("[]")
		if not arr:
			old = st.mem.get((ptr[1], ptr[2][1], 8)) if is_const(ptr[2]) else None
			m = st.meta.get(ptr[1], {})
			if old is None:
				if ptr[1][0] == "D" or (m.get("havoc") and not m.get("zero") and m.get("cls") == "ref"):
					self.report("lost-field", fr.fn, ins, "field %s of %s is overwritten without releasing what it held" % (k[1], k[0]), st, key="%s.%s" % k)
			else:
				old = I.resolve(st, old)
				if old[0] == "p" and old[1][0] in "DH" and not (val[0] == "p" and val[1] == old[1]) and old[1] not in st.rel:
					h = held(I, st, old[1])
					if h > 0:
						st.held[old[1]] = h - 1
						st.own[old[1]] = st.own.get(old[1], 0) + 1
		if val[0] == "p" and val[1][0] in "DH":
			r = val[1]
			m = st.meta.get(r, {})
			if arr and m.get("arr") == ptr[1]:
				return
			if r in st.rel:
				self.report("dangling-field", fr.fn, ins, "field %s of %s receives %s, which has been released (%s)" % (k[1], k[0], self.describe(I, st, r), st.rel[r]), st, key="%s.%s" % k)
			elif st.own.get(r, 0) > 0:
				st.own[r] -= 1
				if not st.own[r]: del st.own[r]
				st.held[r] = held(I, st, r) + 1
				if (k[0], k[1] + "[]") in self.owning:
					st.meta[r] = dict(m, src=(ptr[1], k[1], k[0]))
			elif not (is_const(ptr[2]) and st.mem.get((ptr[1], ptr[2][1], 8)) == val):
				self.report("borrowed-store", fr.fn, ins, "field %s of %s keeps %s without a reference of its own" % (k[1], k[0], self.describe(I, st, r)), st, key="%s.%s" % k)
	def delta(self, I, st, ptr, size, val):
		old = st.mem.get((ptr[1], ptr[2][1], size)) if is_const(ptr[2]) else None
		if old is None or old[0] != "l" or val[0] != "l": return 1
		d = lin_add(val, old, -1)
		return 1 if I.rng(st, d)[1] < 0 or (val[2] and not old[2]) or I.ddefs and any(s[0] == "d" for s, _ in val[2]) else 0
	def on_link(self, I, st, fr, ins, rid):
		if st.own.get(rid, 0) > 0:
			st.own[rid] -= 1
			if not st.own[rid]: del st.own[rid]
			st.held[rid] = held(I, st, rid) + 1
	def on_unlink(self, I, st, fr, ins, rid):
		if held(I, st, rid) > 0:
			st.held[rid] = held(I, st, rid) - 1
			st.own[rid] = st.own.get(rid, 0) + 1
			m = st.meta.get(rid, {})
			if not m.get("ln"): st.meta[rid] = dict(m, ln=ins.ln, fn=fr.fn.name)
	def on_use(self, I, st, fr, ins, rid, name):
		if rid in st.rel:
			self.report("use-after-release", fr.fn, ins, "%s is passed to %s after its release (%s)" % (self.describe(I, st, rid), name, st.rel[rid]), st, key=self.okey(I, st, rid))
	def on_deref(self, I, st, fr, ins, ptr, size, write):
		if ptr[1][0] == "D" and ptr[1] not in st.nonnull and st.meta.get(ptr[1], {}).get("opt"):
			if not self.K.plain(self.entry): self.on_null(I, st, fr, ins, "%s, which can be absent," % st.meta[ptr[1]]["opt"])
		if ptr[1] in st.rel:
			self.report("use-after-release", fr.fn, ins, "%s is accessed after its release (%s)" % (self.describe(I, st, ptr[1]), st.rel[ptr[1]]), st, key=self.okey(I, st, ptr[1]))
	def on_release(self, I, st, fr, ins, rid, how):
		self.count("releases")
		if rid in st.rel:
			self.report("double-release", fr.fn, ins, "%s is released again by %s (first: %s)" % (self.describe(I, st, rid), how, st.rel[rid]), st, key=self.okey(I, st, rid))
		elif st.own.get(rid, 0) <= 0 and held(I, st, rid) <= 0:
			self.report("over-release", fr.fn, ins, "%s is released by %s although no reference to it is owned here" % (self.describe(I, st, rid), how), st, key=self.okey(I, st, rid))
	def on_free(self, I, st, fr, ins, rid):
		self.count("releases")
		if rid in st.rel:
			self.report("double-release", fr.fn, ins, "%s is released again (first: %s)" % (self.describe(I, st, rid), st.rel[rid]), st, key=self.okey(I, st, rid))
			return
		if rid[0] == "D" and st.own.get(rid, 0) <= 0 and held(I, st, rid) <= 0:
			self.report("over-release", fr.fn, ins, "%s is freed although it is not owned here" % self.describe(I, st, rid), st, key=self.okey(I, st, rid))
			return
		if rid[0] in "LGS":
			self.report("over-release", fr.fn, ins, "storage that is not heap memory is freed", st, key="free")
			return
		if self.is_unref and st.meta.get(rid, {}).get("param") == 0:
			v = self.refcount(I, st, rid)
			if v is not None and I.rng(st, v)[1] > 0:
				self.report("refcount", fr.fn, ins, "the object is freed although its reference count may still be positive", st, key="free")
			st.ts[("freed", 0)] = 1
		self.check_fields(I, st, fr, ins, rid)
	def refcount(self, I, st, rid):
		ty = (I.type_of(st, rid) or "").replace("const ", "").replace("struct ", "")
		for n, o, sz, t in self.prog.structs.get(ty, {}).get("fields", ()):
			if n == "refcount":
				return st.mem.get((rid, o, sz))
		return None
	def check_fields(self, I, st, fr, ins, rid):
		ty = (I.type_of(st, rid) or "").replace("const ", "").replace("struct ", "")
		s = self.prog.structs.get(ty)
		if not s: return
		m = st.meta.get(rid, {})
		for (sn, fname), why in self.owning.items():
			if sn != ty or fname.endswith("[]"): continue
			f = next((f for f in s["fields"] if f[0] == fname), None)
			if f is None: continue
			self.count("owning fields checked at free")
			v = st.mem.get((rid, f[1], 8))
			if v is None:
				if rid[0] == "D" or (m.get("havoc") and not m.get("zero")):
					self.report("destructor-misses-field", fr.fn, ins, "%s is freed without releasing what its field %s holds" % (ty, fname), st, key="%s.%s" % (ty, fname))
				continue
			v = I.resolve(st, v)
			if v[0] == "p" and v[1] not in st.rel and v[1][0] in "DH":
				if st.meta.get(v[1], {}).get("shared") and held(I, st, v[1]) <= 0:
					continue
				others = sum(1 for (r, o, z), w in st.mem.items() if z == 8 and w[0] == "p" and w[1] == v[1] and r != rid and r not in st.rel and r[0] in "DH" and isinstance(o, int) and self.slot(I, st, ("p", r, C(o))))
				src = st.meta.get(v[1], {}).get("src")
				if src and st.meta.get(v[1], {}).get("inown") and src[0] != rid:
					others = max(others, 1)
				if held(I, st, v[1]) > others or (v[1][0] == "D" and v[1] not in st.held and st.own.get(v[1], 0) <= 0 and not others):
					self.report("destructor-misses-field", fr.fn, ins, "%s is freed without releasing what its field %s holds" % (ty, fname), st, key="%s.%s" % (ty, fname))
	def on_leak(self, I, st, fr, ins, rid):
		if self.is_unref and st.meta.get(rid, {}).get("param") == 0: return
		self.report("leak", fr.fn if ins is None or True else fr.fn, ins, "%s is never released on a path to here" % self.describe(I, st, rid), st, key=self.okey(I, st, rid))
	def on_null(self, I, st, fr, ins, what):
		self.report("null", fr.fn, ins, "NULL pointer: %s" % what, st, key=what + "@" + self.near(fr, ins))
	def on_undef(self, I, st, fr, ins, what):
		self.report("undef", fr.fn, ins, "uninitialised value used as %s" % what, st, key=what + "@" + self.near(fr, ins))
	def near(self, fr, ins):
		return "%s" % (ins.d.get("fn") or ins.op)

	# -- end of the entry function
	def consume(self, I, st, fr, ins, v, what, must=True):
		if v[0] != "p" or v[1][0] not in "DH":
			return
		r = v[1]
		m = st.meta.get(r, {})
		if r in st.rel:
			self.report("use-after-release", fr.fn, ins, "%s is handed out (%s) after its release (%s)" % (self.describe(I, st, r), what, st.rel[r]), st, key=self.okey(I, st, r))
		elif st.own.get(r, 0) > 0:
			if m.get("arr") and st.ts.get(("shrunk", 0)):
				self.report("leak", fr.fn, ins, "the list's own reference to the removed element is never released", st, key="element")
			st.own[r] -= 1
			if not st.own[r]: del st.own[r]
		elif m.get("arr") and st.ts.get(("shrunk", 0)):
			pass
		elif must:
			self.report("borrowed-return", fr.fn, ins, "%s is handed out (%s) without a reference for the caller" % (self.describe(I, st, r), what), st, key=what)
	def before_exit(self, I, st, fr, ins, v):
		if fr.parent is not None: return
		self.count("exit states")
		f = self.entry
		if self.is_ref:
			if v is None or v[0] != "p" or st.meta.get(v[1], {}).get("param") != 0:
				self.report("refcount", fr.fn, ins, "does not return its argument", st, key="ret")
			self.check_count(I, st, fr, ins, 1)
			return
		if self.is_unref:
			if not st.ts.get(("freed", 0)) and v is not None and v != NULL:
				self.check_count(I, st, fr, ins, -1)
			for r in list(st.own):
				if st.meta.get(r, {}).get("param") == 0: del st.own[r]
			return self.fields_at_exit(I, st, fr, ins)
		if f.ret == "ptr" and v is not None and f.name in OWNED_RET:
			self.consume(I, st, fr, ins, v, "return value")
		ok = f.ret == "void" or (v is not None and v[0] == "l" and I.rng(st, v)[0] <= 0 <= I.rng(st, v)[1] and I.truth(st, v) is not True)
		for i, (rid, init) in self.outs_now.items():
			w = st.mem.get((rid, 0, 8))
			if w is None or w == init: continue
			w = I.resolve(st, w)
			if ok:
				self.consume(I, st, fr, ins, w, "argument %d" % (i + 1))
			elif w[0] == "p" and w[1][0] in "DH":
				if w[1] in st.rel:
					self.report("dangling-out", fr.fn, ins, "a failing call leaves a released object in argument %d" % (i + 1), st, key="arg%d" % (i + 1))
				elif w[1][0] == "H" and st.own.get(w[1], 0) > 0:
					self.report("leak", fr.fn, ins, "a failing call hands out %s in argument %d" % (self.describe(I, st, w[1]), i + 1), st, key="arg%d" % (i + 1))
					st.own.pop(w[1], None)
		for r in list(st.own):
			if st.own[r] > 0 and not (f.ret == "void" and False):
				self.on_leak(I, st, fr, ins, r)
				del st.own[r]
		self.fields_at_exit(I, st, fr, ins)
	def fields_at_exit(self, I, st, fr, ins):
		for (r, o, s), v in st.mem.items():
			if s == 8 and v[0] == "p" and v[1] in st.rel and r not in st.rel and r[0] in "DH" and isinstance(o, int):
				k = self.slot(I, st, ("p", r, C(o)))
				if k and not k[1].endswith("[]"):
					self.report("dangling-field", fr.fn, ins, "field %s of %s still points to what was released (%s)" % (k[1], k[0], st.rel[v[1]]), st, key="%s.%s" % k)
	def check_count(self, I, st, fr, ins, d):
		rid = ("D", ("k", self.entry.name, 0))
		v = self.refcount(I, st, rid)
		good = v is not None and v[0] == "l" and v[1] == d and len(v[2]) == 1 and v[2][0][1] == 1
		if not good:
			self.report("refcount", fr.fn, ins, "the reference count does not change by %+d" % d, st, key="count")

def ownership(prog, contracts, owning, f, budget=250000):
	ck = Ownership(prog, contracts, owning, f)
	models = contracts.all_models()
	I = Interp(prog, [], budget=budget)
	I.checkers = [ck]
	I.models = dict(BASE_MODELS); I.models.update(models)
	for n, g in contracts.public.items():
		if contracts.plain(g): I.models.pop(n, None)
	I.field_hook = ck.field_hook
	I.set_hook = ck.set_hook
	I.field_range = list_ranges(prog)
	ck.outs_now = {}
	def setup(I2, st, args):
		for i in ck.outs:
			init = I2.fresh_ptr(st, struct_ptr(f.sig[i + 1], 2), keep=True, init=True)
			I2.keyregs.add(args[i][1])
			I2.write(st, args[i], 8, init)
			ck.outs_now[i] = (args[i][1], init)
		if ck.is_unref and args and args[0][0] == "p":
			st.own[args[0][1]] = 1
	opt = (0,) if ck.is_unref else tested(f)
	I.entry(f, setup, optional=opt)
	return ck, I

def tested(f):
	"""String arguments the function itself compares with NULL."""
	slots = {}
	for b in f.blocks:
		for i in b:
			if i.op == "store" and i.d["a"][0][0] == "arg" or i.op == "store" and i.d["a"][0][0] == "v" and i.d["a"][0][1] < len(f.params): slots[tuple(i.d["a"][1])] = i.d["a"][0][1]
	out = set()
	for b in f.blocks:
		for i in b:
			if i.op == "icmp" and any(x[0] == "null" for x in i.d["a"]):
				for x in i.d["a"]:
					l = f.instrs.get(x[1]) if x[0] == "v" else None
					if l is not None and l.op == "load" and tuple(l.d["a"][0]) in slots:
						k = slots[tuple(l.d["a"][0])]
						if k + 1 < len(f.sig) and f.sig[k + 1].replace("const ", "") == "char*": out.add(k)
	return tuple(sorted(out))

def list_ranges(prog):
	"""Lists hold fewer than 2^31 elements (each takes at least eight bytes of memory)."""
	return {(s, "size"): (0, (1 << 31) - 1) for s in prog.structs if s.endswith("_list")}

def address_taken(prog):
	"""Static functions of the library that are used as values (callbacks)."""
	out = set()
	for f in prog.repo_fns():
		if f.unit.group != "lib": continue
		for b in f.blocks:
			for i in b:
				ops = list(Interp._ops(i))
				for x in ops:
					if x[0] == "fn" and x[1] != i.d.get("fn") or x[0] == "fn" and i.op != "call":
						g = f.unit.fns.get(x[1])
						if g is not None and g.internal: out.add(x[1])
	return out
