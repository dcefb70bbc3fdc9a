"""Memory bounds: every array index, pointer dereference and buffer length handed to libc lies inside the object.

Data-structure invariants are assumed where an object enters a function and checked where it leaves one:
  database      data -> mapping of `length` bytes; *_objects.data inside it (32-bit offset from its start); *_objects.count < 2^32
  string pool   data -> `length` bytes whose last one is zero (or none); blocks -> `size` bytes, length <= size
  lists         elements -> elements_size pointers, size <= elements_size
  enumerator    network_stack_depth indexes network_stack; the depth of its entries is at most 128; networks_visited -> one counter per node
  network       prefix <= 128"""
from absint import *
from absint import copy_mem
import own

U32 = (1 << 32) - 1

class Bounds(Checker):
	dbg = 0
	def __init__(self, prog, contracts, entry):
		super().__init__()
		self.prog, self.K, self.entry = prog, contracts, entry
		self.initial = {}
		pass
	def off(self, s, f):
		for n, o, sz, t in self.prog.structs[s]["fields"]:
			if n == f: return o, sz
			if f.startswith(n + "."):
				t = t.replace("struct ", "")
				o2, s2 = self.off(t, f[len(n) + 1:])
				return o + o2, s2
		raise frontend_error("field %s.%s is gone" % (s, f))
	def has(self, s, f):
		try:
			self.off(s, f); return True
		except AnalysisError: return False
	def get(self, I, st, rid, s, f, base=0):
		o, sz = self.off(s, f)
		return I.read(st, ("p", rid, C(base + o)), sz, "ptr" if sz == 8 and self.isptr(s, f) else 8 * sz)
	def isptr(self, s, f):
		p = self.prog.field(s, self.off(s, f)[0], self.off(s, f)[1])
		return p is not None and p[1].endswith("*")
	def setsize(self, st, v, n):
		if v[0] == "p" and n is not None and n[0] == "l":
			st.meta[v[1]] = dict(st.meta.get(v[1], {}), size=n)

	# -- invariants of objects that come from outside
	GROUPS = {"loc_stringpool": ("length", "size", "blocks", "data"), "list": ("size", "elements_size", "elements")}
	def load(self, I, st, rid, ty):
		"""Reads the fields an invariant relates before any of them changes."""
		g = self.GROUPS.get(ty) or (self.GROUPS["list"] if ty.endswith("_list") and self.has(ty, "elements_size") else ())
		for f in g: self.initial[(rid, f)] = self.get(I, st, rid, ty, f)
	def null_hook(self, I, st, rid):
		"""A list without storage has no elements."""
		for (r, f), v in self.initial.items():
			if f == "elements" and v[0] == "p" and v[1] == rid:
				for g in ("size", "elements_size"):
					w = self.initial.get((r, g))
					if w is not None and w[0] == "l": I.assume_int(st, "eq", w, C(0), 64)
	@staticmethod
	def track(st, sid):
		return sid[0] == "z" and sid[3] == 4 and "in6_addr" in (st.meta.get(sid[1], {}).get("ty") or "")
	def field_hook(self, I, st, ptr, f, v):
		rid = ptr[1]
		s, name = f[0], f[1]
		if rid[0] == "H" and st.meta.get(rid, {}).get("cls") != "ref": return None
		if s == "loc_database":
			if name == "data" and v[0] == "p":
				st.nonnull |= {v[1]}
				self.setsize(st, v, self.get(I, st, rid, s, "length"))
			elif name.endswith("_objects.data") and v[0] == "p":
				b = self.get(I, st, rid, s, "data")
				if b[0] == "p":
					o = I.fresh(st, 0, U32, name=("z", rid, ptr[2][1], 8, "o"))
					return ("p", b[1], lin_add(b[2], o))
		elif s == "loc_stringpool":
			if name == "data" and v[0] == "p":
				self.setsize(st, v, self.get(I, st, rid, s, "length"))
			elif name == "blocks" and v[0] == "p":
				sz = self.get(I, st, rid, s, "size")
				self.setsize(st, v, sz)
				I.add_le(st, lin_add(self.get(I, st, rid, s, "length"), sz, -1))
			elif name == "size" and v[0] == "l":
				st.mem[(rid, ptr[2][1], 8)] = v
				I.add_le(st, lin_add(self.get(I, st, rid, s, "length"), v, -1))
		elif s.endswith("_list"):
			if name == "elements" and v[0] == "p":
				n = self.get(I, st, rid, s, "elements_size")
				self.setsize(st, v, lin_mul(n, 8) if n[0] == "l" else None)
			elif name == "elements_size" and v[0] == "l":
				st.mem[(rid, ptr[2][1], 8)] = v
				I.add_le(st, lin_add(self.get(I, st, rid, s, "size"), v, -1))
		elif s == "loc_database_enumerator" and name == "networks_visited" and v[0] == "p":
			db = self.get(I, st, rid, s, "db")
			if db[0] == "p":
				n = self.get(I, st, db[1], "loc_database", "network_node_objects.count")
				self.setsize(st, v, lin_mul(n, 4) if n[0] == "l" else None)
				st.nonnull |= {v[1]}
		return None
	def ranges(self):
		r = own.list_ranges(self.prog)
		for k in ("as", "network_node", "network", "country"):
			r[("loc_database", k + "_objects.count")] = (0, U32)
			r[("loc_database", k + "_objects.length")] = (0, U32)
		r[("loc_database", "length")] = (0, 1 << 62)
		r[("loc_stringpool", "length")] = (0, 1 << 62)
		r[("loc_stringpool", "size")] = (0, 1 << 62)
		r.update({(s, "elements_size"): (0, 1 << 48) for s in self.prog.structs if s.endswith("_list")})
		r.update(self.stored())
		return r
	def stored(self):
		"""Ranges checked at every store."""
		n = self.array_len("loc_database_enumerator", "network_stack")
		return {("loc_network", "prefix"): (0, 128), ("loc_database_enumerator", "network_stack_depth"): (0, n - 1), ("loc_node_stack", "depth"): (0, 128)}
	def array_len(self, s, f):
		o, sz = self.off(s, f)
		e = self.prog.structs.get("loc_node_stack", {}).get("size")
		if not e: raise frontend_error("struct loc_node_stack is gone")
		return sz // e

	# -- obligations
	def inside(self, I, st, ptr, size):
		"""None: nothing known about the region; else whether the access is inside it."""
		m = st.meta.get(ptr[1], {})
		n = m.get("size")
		if n is None: return None
		if isinstance(n, int): n = C(n)
		z = C(size) if isinstance(size, int) else size
		if z[0] != "l": return False
		if I.le0(st, z): return True
		return I.ge0(st, ptr[2]) and I.le0(st, lin_add(lin_add(ptr[2], z), n, -1))
	def access(self, I, st, fr, ins, ptr, size, what):
		r = self.inside(I, st, ptr, size)
		if r is None:
			return
		self.count("bounded accesses")
		if not r:
			m = st.meta.get(ptr[1], {})
			self.report("bounds", fr.fn, ins, "%s may lie outside its object (%s)" % (what, self.name(st, ptr[1])), st, key="%s %s" % (what, self.name(st, ptr[1])))
	def name(self, st, rid):
		m = st.meta.get(rid, {})
		src = m.get("src")
		return m.get("var") or (src[1] if src else None) or "%s allocated in %s" % (m.get("cls") or m.get("ty") or "object", m.get("fn"))
	def on_deref(self, I, st, fr, ins, ptr, size, write):
		self.access(I, st, fr, ins, ptr, size, "a %s" % ("write" if write else "read") + (" of %s" % ins.d.get("fn") if ins.d.get("fn") else ""))
	def on_index(self, I, st, fr, ins, idx, n):
		if not n or n < 0: return
		self.count("array indexes")
		if not (I.ge0(st, idx) and I.le0(st, lin_add(idx, C(1 - n)))):
			self.report("index", fr.fn, ins, "an index may be outside of 0..%d" % (n - 1), st, key="index %d" % n)
	def on_store(self, I, st, fr, ins, ptr, size, val):
		f = I.field_of(st, ptr, size) or self.elem_field(I, st, ptr, size)
		if not f: return
		r = self.stored().get((f[0], f[1]))
		if r is None: return
		self.count("invariant stores")
		ok = val[0] == "l" and I.ge0(st, lin_add(val, C(-r[0]))) and I.le0(st, lin_add(val, C(-r[1])))
		if not ok:
			self.report("invariant", fr.fn, ins, "%s.%s may be set to a value outside of %d..%d" % (f[0], f[1], r[0], r[1]), st, key="%s.%s" % (f[0], f[1]))
	def elem_field(self, I, st, ptr, size):
		"""Field of an element of network_stack at a symbolic index."""
		ty = (I.type_of(st, ptr[1]) or "").replace("struct ", "")
		if ty != "loc_database_enumerator" or is_const(ptr[2]): return None
		o, sz = self.off(ty, "network_stack")
		e = self.prog.structs["loc_node_stack"]["size"]
		c = ptr[2][1]
		if any(k % e for _, k in ptr[2][2]): return None
		f = self.prog.field("loc_node_stack", (c - o) % e, size)
		return ("loc_node_stack", f[0], f[1]) if f else None
	def on_load(self, I, st, fr, ins, ptr, size, v):
		f = self.elem_field(I, st, ptr, size)
		if f is None:
			g = I.field_of(st, ptr, size)
			if g and g[0] == "loc_database_enumerator" and g[1].startswith("network_stack") and g[1] != "network_stack_depth":
				o, sz = self.off(g[0], "network_stack")
				h = self.prog.field("loc_node_stack", (ptr[2][1] - o) % self.prog.structs["loc_node_stack"]["size"], size)
				f = ("loc_node_stack", h[0], h[1]) if h else None
		if f and v[0] == "l" and len(v[2]) == 1:
			if f[1] == "depth":
				I.assume_int(st, "sge", v, C(0), 32); I.assume_int(st, "sle", v, C(128), 32)
			elif f[1] == "offset":
				I.assume_int(st, "sge", v, C(0), 64)
	def on_call(self, I, st, fr, ins, name, args):
		def buf(i, n, what):
			if args[i][0] == "p":
				n = C(n) if isinstance(n, int) else n
				self.access(I, st, fr, ins, args[i], n, what)
		u = lambda i: args[i] if args[i][0] == "l" else I.fresh(st, 0, 1 << 63)
		if name == "loc_stringpool_open": buf(2, u(3), "the string pool")
		elif name in ("fread", "fwrite"):
			a, b = args[1], args[2]
			n = lin_mul(a, b[1]) if is_const(b) else lin_mul(b, a[1]) if is_const(a) else I.fresh(st, 0, 1 << 63)
			buf(0, n, "the buffer of %s" % name)
		elif name in ("snprintf", "vsnprintf", "hexdump"): buf(0 if name != "hexdump" else 1, u(1 if name != "hexdump" else 2), "the buffer of %s" % name)
		elif name in ("EVP_DigestUpdate", "EVP_DigestVerifyUpdate", "EVP_DigestSignUpdate"): buf(1, u(2), "the data of %s" % name)
		elif name == "EVP_DigestVerifyFinal": buf(1, u(2), "the signature")
		elif name == "memcmp": buf(0, u(2), "memcmp"); buf(1, u(2), "memcmp")
		elif name == "inet_ntop": buf(2, u(3), "the buffer of inet_ntop"); buf(1, 4, "the address")
		elif name == "inet_pton": buf(2, 16 if args[0] == C(10) else 4, "the address")

	# -- invariants of objects that leave
	def before_exit(self, I, st, fr, ins, v):
		if fr.parent is not None: return
		f = self.entry
		ok = f.ret == "void" or v is None or v[0] != "l" or I.truth(st, v) is not True
		objs = set()
		for k, m in st.meta.items():
			if m.get("param") is not None and k not in st.rel: objs.add(k)
		for i, (rid, init) in self.outs_now.items():
			w = st.mem.get((rid, 0, 8))
			if w is not None and w != init and w[0] == "p" and ok: objs.add(w[1])
		for r in sorted(objs, key=repr):
			ty = (I.type_of(st, r) or "").replace("const ", "").replace("struct ", "")
			self.invariant(I, st, fr, ins, r, ty)
	def bad(self, fr, ins, st, ty, what):
		self.report("invariant", fr.fn, ins, "a %s is left in a state where %s" % (ty, what), st, key="%s: %s" % (ty, what))
	def invariant(self, I, st, fr, ins, r, ty):
		if ty not in ("loc_database", "loc_stringpool", "loc_database_enumerator") and not ty.endswith("_list"): return
		written = {k[1] for k in st.mem if k[0] == r}
		cell = lambda f: self.get(I, st, r, ty, f)
		sz = lambda p: st.meta.get(p[1], {}).get("size") if p[0] == "p" else None
		eq = lambda a, b: a is not None and b is not None and a[0] == "l" and b[0] == "l" and I.le0(st, lin_add(a, b, -1)) and I.ge0(st, lin_add(a, b, -1))
		if ty == "loc_database" and r[0] == "H":
			self.count("objects checked on exit")
			d = cell("data")
			if d[0] != "p" or not eq(sz(d), cell("length")): self.bad(fr, ins, st, ty, "its length is not the length of the mapping")
			for k in ("as", "network_node", "network", "country"):
				o = cell(k + "_objects.data")
				if o[0] != "p" or d[0] != "p" or o[1] != d[1] or not (I.ge0(st, o[2]) and I.le0(st, lin_add(o[2], C(-U32)))):
					self.bad(fr, ins, st, ty, "%s_objects is not inside the mapping" % k)
		elif ty == "loc_stringpool":
			self.count("objects checked on exit")
			d, b, n, s = cell("data"), cell("blocks"), cell("length"), cell("size")
			if n[0] != "l" or not I.ge0(st, n): self.bad(fr, ins, st, ty, "its length is negative")
			if b[0] == "p" and I.is_nonnull(st, b):
				if not eq(sz(b), s): self.bad(fr, ins, st, ty, "its size is not the size of its storage")
				elif not I.le0(st, lin_add(n, s, -1)): self.bad(fr, ins, st, ty, "it is longer than its storage")
			if d[0] == "p" and self.entry.name == "loc_stringpool_open":
				# the last byte is zero
				end = lin_add(lin_add(d[2], n), C(-1))
				c = st.mem.get((d[1], end, 1)) if not is_const(end) else st.mem.get((d[1], end[1], 1))
				if not eq(n, C(0)) and (c is None or I.resolve(st, c) != C(0)): self.bad(fr, ins, st, ty, "its last string is not terminated")
				m = st.meta.get(d[1], {})
				if m.get("param") != 2 or d[2] != C(0): self.bad(fr, ins, st, ty, "it does not refer to the data it was given")
				elif not eq(n, ("l", 0, ((("k", self.entry.name, 3), 1),))): self.bad(fr, ins, st, ty, "its length is not the one it was given")
		elif ty == "loc_database_enumerator" and r[0] == "H":
			self.count("objects checked on exit")
			p, db = cell("networks_visited"), cell("db")
			n = self.get(I, st, db[1], "loc_database", "network_node_objects.count") if db[0] == "p" else None
			if n is None or not eq(sz(p), lin_mul(n, 4)): self.bad(fr, ins, st, ty, "networks_visited has not one counter per node")
		elif ty.endswith("_list") and self.has(ty, "elements_size"):
			self.count("objects checked on exit")
			e, c, n = cell("elements"), cell("elements_size"), cell("size")
			if not (c[0] == "l" and n[0] == "l" and I.le0(st, lin_add(n, c, -1)) and I.ge0(st, n)): self.bad(fr, ins, st, ty, "it has more elements than space")
			if e[0] == "p" and not eq(sz(e), lin_mul(c, 8)): self.bad(fr, ins, st, ty, "elements_size is not the size of its storage")
			elif e == NULL and not eq(c, C(0)): self.bad(fr, ins, st, ty, "elements_size is not zero without storage")

def frontend_error(s):
	from frontend import AnalysisError
	return AnalysisError(s)
from frontend import AnalysisError

SMALL = 6
def small(f):
	"""Accessors that are analysed in place."""
	return len(f.blocks) <= SMALL and f.name and not own.UNREF.match(f.name) and not own.REF.match(f.name) and not any(t <= i for i in range(len(f.blocks)) for t in f.succ(i)) and sum(len(b) for b in f.blocks) < 60

def inlined(contracts):
	n = {n for n, f in contracts.public.items() if small(f) and not n.endswith(("_new",)) }
	n |= {n for n in contracts.public if n.endswith(("_from_database_v1",))}
	n -= {"loc_stringpool_open", "loc_stringpool_new", "loc_log", "loc_get_log_priority"}
	return n

def helpers(prog, K):
	"""Internal functions with a loop that deliver an object: analysed on their own, their callers use their contract."""
	for f in prog.repo_fns():
		if f.unit.group == "lib" and f.internal and f.name not in K.public and any(own.struct_ptr(t, 2) in K.handed for t in f.sig[1:]) and any(t <= i for i in range(len(f.blocks)) for t in f.succ(i)):
			K.public[f.name] = f
			K.models[f.name] = K.model(f.name, f)

class GlobalExit(Checker):
	def __init__(self, name, cur):
		super().__init__()
		self.name, self.lo, self.hi = name, *cur
	def on_ret(self, I, st, fr, ins, v):
		for k, w in st.mem.items():
			if k[0] == ("G", self.name):
				lo, hi = I.rng(st, I.resolve(st, w))
				self.lo, self.hi = min(lo, self.lo), max(hi, self.hi)

def global_ranges(prog, contracts):
	"""Values the library's own integer variables can have between calls: least fixpoint over the functions that store to them."""
	out = {}
	for u in prog.units:
		for n, g in u.globals.items():
			if g.get("const") or g.get("decl") or not g.get("internal") or g.get("init", ("",))[0] != "i" or g.get("size", 9) > 8: continue
			fns = [f for f in prog.repo_fns() if f.unit is u and any(i.op == "store" and i.d["a"][1][0] == "g" and i.d["a"][1][1] == n for b in f.blocks for i in b)]
			cur = (g["init"][2], g["init"][2])
			w = 8 * g["size"]
			for _ in range(12):
				new = cur
				for f in fns:
					ck = GlobalExit(n, new)
					I = Interp(prog, [ck], models=contracts.all_models(), budget=50000, limit=30)
					I.global_range = dict(out, **{n: cur})
					I.entry(f)
					new = (ck.lo, ck.hi)
				if new == cur: break
				cur = new
			else: cur = (-(1 << (w - 1)), (1 << (w - 1)) - 1)
			out[n] = cur
	return out

def bounds(prog, contracts, f, budget=300000, limit=100):
	ck = Bounds(prog, contracts, f)
	I = Interp(prog, [], budget=budget, limit=limit)
	I.checkers = [ck]
	I.models = dict(BASE_MODELS); I.models.update(contracts.all_models())
	I.models.update(MODELS)
	for n in inlined(contracts): I.models.pop(n, None)
	I.field_hook = ck.field_hook
	I.field_range = ck.ranges()
	I.track = ck.track
	I.null_hook = ck.null_hook
	if not hasattr(contracts, "granges"): contracts.granges = global_ranges(prog, contracts)
	I.global_range = contracts.granges
	ck.outs_now = {}
	def setup(I2, st, args):
		for i, t in enumerate(f.sig[1:]):
			sp = own.struct_ptr(t)
			if sp and args[i][0] == "p": ck.load(I2, st, args[i][1], sp)
		for i in contracts.outs(f):
			init = I2.fresh_ptr(st, own.struct_ptr(f.sig[i + 1], 2), keep=True, init=True)
			I2.keyregs.add(args[i][1])
			I2.write(st, args[i], 8, init)
			ck.outs_now[i] = (args[i][1], init)
		if f.name == "loc_stringpool_open":
			st.info[args[3][2][0][0]] = (0, 1 << 62, False)
			st.meta[args[2][1]] = dict(st.meta[args[2][1]], size=args[3])
	opt = (0,) if own.UNREF.match(f.name) else ()
	I.entry(f, setup, optional=opt)
	return ck, I

def m_dn_expand(I, fr, st, ins, args):
	f2 = st.copy()
	v = I.fresh(st, 0, 1 << 16)
	# what was consumed lies before the end of the message
	if args[1][0] == "p" and args[2][0] == "p" and args[1][1] == args[2][1]:
		I.add_le(st, lin_add(lin_add(v, args[2][2]), args[1][2], -1))
	return [(st, v), (f2, C(-1))]

def m_find(I, fr, st, ins, args):
	"""Binary search of a list: assumed to return a position in the list, or one up to its size when nothing was found."""
	if args[0][0] != "p": return NotImplemented
	ck = I.checkers[0]
	n = ck.get(I, st, args[0][1], "loc_network_list", "size")
	if n[0] != "l": return NotImplemented
	f2 = st.copy()
	out = []
	for s, k in ((st, 1), (f2, 0)):
		v = I.fresh(s, 0, 1 << 31)
		if I.add_le(s, lin_add(lin_add(v, n, -1), C(k))):
			if args[2][0] == "p": I.write(s, args[2], 4, C(k))
			out.append((s, v))
	return out

MODELS = {"dn_expand": m_dn_expand, "loc_network_list_find": m_find}
