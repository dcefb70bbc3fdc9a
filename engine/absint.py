"""A path-partitioned abstract interpreter over clang -O0 LLVM IR.

Domain (per abstract state)
  * memory: cell (region, byte offset, size) -> abstract value
  * values: NULL, undefined, function, pointer (region + offset), linear integer form over symbols,
    comparison; symbols carry an interval; linear inequalities collected from branches are kept
    as a set of constraints  expr <= 0
  * regions: local variables, heap objects named by allocation site (most recent instance first),
    globals, and lazily created pointees of unknown pointers
  * ownership count / released flag per object, plus checker-defined typestate
States reaching a block are partitioned by a finite key (nullness, signs, typestate) and joined
inside a partition; loop heads widen.  Calls are analysed in the caller's state (body inlined) unless
a checker supplies a contract.  Nothing is executed and no solver is involved."""
import math, time, itertools
from frontend import AnalysisError

NULL = ("n",)
UNDEF = ("u",)
INF = 1 << 80

def anon(r):
	"""Regions without a stable name."""
	if r[0] != "D": return False
	n = r[1]
	return n[0] == "f" or n[0] in "mo" and type(n[2]) is tuple and type(n[2][0]) is tuple and anon(n[2][0])

def C(n):
	return ("l", n, ())

def is_int(v):
	return v[0] == "l"

def is_const(v):
	return v[0] == "l" and not v[2]

def lin_add(a, b, k=1):
	d = dict(a[2])
	for s, c in b[2]:
		d[s] = d.get(s, 0) + k * c
	return ("l", a[1] + k * b[1], tuple(sorted(((s, c) for s, c in d.items() if c), key=_skey)))

_ids = {}
def _skey(t):
	s = t[0]
	i = _ids.get(s)
	if i is None:
		i = _ids[s] = len(_ids)
	return i

def lin_mul(a, k):
	if k == 0:
		return C(0)
	return ("l", a[1] * k, tuple((s, c * k) for s, c in a[2]))

class Stop(Exception):
	pass

class State:
	__slots__ = ("mem", "info", "cons", "null", "nonnull", "own", "rel", "meta", "ts", "regs", "prev", "lazy0", "trace", "held")
	def __init__(self):
		self.mem = {}      # (rid, off, size) -> value
		self.info = {}     # sid -> (lo, hi, nonzero)
		self.cons = frozenset()   # linear forms known <= 0
		self.null = frozenset()   # lazily created pointers known NULL
		self.nonnull = frozenset()
		self.own = {}      # rid -> count of references owned by the code under analysis
		self.rel = {}      # rid -> (where) released
		self.meta = {}     # rid -> dict (size, type, kind, zero, havoc)
		self.ts = {}       # checker typestate: hashable -> hashable
		self.regs = {}
		self.prev = None
		self.lazy0 = {}
		self.trace = ()
		self.held = {}     # rid -> references to it held by fields of other objects
	def copy(self):
		n = State.__new__(State)
		n.mem = dict(self.mem); n.info = dict(self.info); n.cons = self.cons; n.null = self.null; n.nonnull = self.nonnull
		n.own = dict(self.own); n.rel = dict(self.rel); n.meta = dict(self.meta); n.ts = dict(self.ts)
		n.regs = dict(self.regs); n.prev = self.prev; n.lazy0 = dict(self.lazy0); n.trace = self.trace; n.held = dict(self.held)
		return n
	def note(self, s):
		self.trace = (self.trace + (s,))[-14:]

class Checker:
	"""Base class of the properties' checkers; all hooks are optional."""
	models = {}
	def __init__(self):
		self.reports = {}
		self.stats = {}
	def count(self, k, n=1):
		self.stats[k] = self.stats.get(k, 0) + n
	def report(self, rule, fn, ins, msg, st=None, key=None):
		ln = ins.ln if ins is not None else fn.line
		k = (rule, fn.rel, fn.name, key if key is not None else msg)
		if k not in self.reports:
			self.reports[k] = {"rule": rule, "file": fn.rel, "line": ln, "function": fn.name, "message": msg, "key": str(key if key is not None else msg),
				"path": list(st.trace) if st is not None else [], "id": "%s:%s:%s" % (rule, fn.name, key if key is not None else msg)}
	def on_deref(self, I, st, fr, ins, ptr, size, write): pass
	def on_store(self, I, st, fr, ins, ptr, size, val): pass
	def on_load(self, I, st, fr, ins, ptr, size, val): pass
	def on_call(self, I, st, fr, ins, name, args): pass
	def on_ret(self, I, st, fr, ins, val): pass      # return of the entry function
	def on_inner_ret(self, I, st, fr, ins, val): pass   # return of an inlined function
	def on_unknown(self, I, st, fr, ins, name, val): return [(st, val)]
	def on_free(self, I, st, fr, ins, rid): pass
	def on_index(self, I, st, fr, ins, idx, n): pass
	def on_undef(self, I, st, fr, ins, what): pass
	def on_null(self, I, st, fr, ins, what): pass
	def on_leak(self, I, st, fr, ins, rid): pass
	def on_arith(self, I, st, fr, ins, op, a, b): pass
	def on_branch(self, I, st, fr, ins, cond): pass
	def on_noreturn(self, I, st, fr, ins, name): pass

class Frame:
	__slots__ = ("fn", "id", "depth", "call", "parent", "live", "loops", "rpo", "simple")
	def __init__(self, fn, fid, depth, call, parent):
		self.fn = fn; self.id = fid; self.depth = depth; self.call = call; self.parent = parent
	def chain(self):
		f = self; out = []
		while f is not None:
			out.append(f.fn.name)
			f = f.parent
		return out

class Interp:
	MAXDEPTH = 9
	top = None
	set_hook = None
	relate = False             # joins keep the order of checker cells and program cells
	def __init__(self, prog, checkers=(), models=None, inline=True, budget=400000, noinline=(), limit=150):
		self.prog = prog
		self.checkers = list(checkers)
		self.models = dict(BASE_MODELS)
		for c in self.checkers:
			self.models.update(c.models)
		if models:
			self.models.update(models)
		self.inline = inline
		self.noinline = set(noinline)
		self.fresh_n = itertools.count()
		self.budget = budget
		self.deadline = time.monotonic() + limit if limit else None
		self.steps = 0
		self.analysed = set()
		self.cfgcache = {}
		self.havoced_calls = set()
		self.loop_assign_sites = {}
		self.field_range = {}      # (struct, field) -> (lo, hi)
		self.field_hook = None
		self.null_hook = None      # a pointer has been found to be NULL
		self.global_range = {}     # global integer variable -> (lo, hi)
		self.track = None          # symbols whose (dis)equality with a constant is remembered path-sensitively
		self.key_ints = True
		self.keyregs = set()       # further regions whose pointers take part in the partitioning
		self.keyvars = {}
		self.debug = None
		self.fpsrc = {}
		self.dnames = {}           # expression -> derived symbol
		self.ddefs = []

	# ---- symbols
	extract = None
	def fresh(self, st, lo=-INF, hi=INF, name=None, nz=False):
		sid = ("f", next(self.fresh_n)) if name is None else name
		st.info[sid] = (lo, hi, nz)
		return ("l", 0, ((sid, 1),))

	def fresh_ptr(self, st, ty=None, nonnull=False, name=None, **meta):
		sid = ("f", next(self.fresh_n)) if name is None else name
		rid = ("D", sid)
		m = {"kind": "D", "ty": ty, "size": None}
		m.update(meta)
		st.meta[rid] = m
		st.rel.pop(rid, None); st.own.pop(rid, None); st.held.pop(rid, None)
		if nonnull:
			st.nonnull |= {rid}
		return ("p", rid, C(0))

	def rng(self, st, v, depth=1):
		"""Interval of a linear form."""
		if v[0] != "l":
			return (-INF, INF)
		lo = hi = v[1]
		for s, c in v[2]:
			l, h, nz = st.info.get(s, (-INF, INF, False))
			if c > 0:
				lo += c * l; hi += c * h
			else:
				lo += c * h; hi += c * l
		if lo < -INF: lo = -INF
		if hi > INF: hi = INF
		return (lo, hi)

	def le0(self, st, v, depth=3, bonus=1):
		"""Is  v <= 0  implied?"""
		if self.rng(st, v)[1] <= 0:
			return True
		if depth == 0 or not v[2]:
			return False
		if all(abs(k) > 1 for _, k in v[2]):
			# over the integers, a common factor can be divided out
			g = math.gcd(*(k for _, k in v[2]))
			if g > 1: v = ("l", -(-v[1] // g), tuple((s, k // g) for s, k in v[2]))
			if g > 3: depth += bonus; bonus = 0
		syms = dict(v[2])
		for c in st.cons:
			for s, k in c[2]:
				kk = syms.get(s)
				if kk is None or kk * k <= 0:
					continue
				if kk % k == 0:
					w = lin_add(v, c, -(kk // k))
				elif k % kk == 0:
					# v <= 0  iff  m*v <= m-1  over the integers
					m = k // kk
					w = lin_add(lin_add(lin_mul(v, m), C(1 - m)), c, -1)
				else:
					continue
				if len(w[2]) <= len(v[2]) + 1 and self.le0(st, w, depth - 1, bonus):
					return True
		return False

	def ge0(self, st, v):
		return self.le0(st, lin_mul(v, -1))

	# ---- region helpers
	def new_heap(self, st, site, ty=None, size=None, kind="H", zero=False, own=1, **meta):
		"""Recency abstraction: the newest object of a site is instance 0."""
		live = [r for r in st.meta if r[0] == kind and r[1] == site]
		if live:
			ren = {}
			for r in sorted(live, key=lambda r: -r[2]):
				n = min(r[2] + 1, 3)
				ren[r] = (kind, site, n)
			self.rename(st, ren)
		rid = (kind, site, 0)
		m = {"kind": kind, "ty": ty, "size": size, "zero": zero}
		m.update(meta)
		st.meta[rid] = m
		if own:
			st.own[rid] = own
		else:
			st.own.pop(rid, None)
		st.rel.pop(rid, None); st.held.pop(rid, None)
		return ("p", rid, C(0))

	def rename(self, st, ren):
		def rv(v):
			if v[0] == "p" and v[1] in ren:
				return ("p", ren[v[1]], v[2])
			if v[0] == "cmp":
				return ("cmp", v[1], rv(v[2]), rv(v[3]), v[4])
			if v[0] == "pi":
				return ("pi", rv(v[1]))
			return v
		nm = {}
		for (r, o, s), v in st.mem.items():
			nm[(ren.get(r, r), o, s)] = rv(v)
		st.mem = nm
		st.regs = {k: rv(v) for k, v in st.regs.items()}
		for attr in ("own", "rel", "meta", "held"):
			d = getattr(st, attr)
			vals = [(r, d.pop(r)) for r in list(ren) if r in d]
			for r, v in vals:
				d[ren[r]] = v if attr != "own" else max(v, d.get(ren[r], 0))
		st.ts = {(tuple(ren.get(x, x) if isinstance(x, tuple) else x for x in k) if isinstance(k, tuple) else k): v for k, v in st.ts.items()}

	def age(self, st, tag):
		"""The symbols of the loop head `tag` get the names of its previous iteration (and those before become anonymous)."""
		memo = {}
		fresh = self.fresh_n
		def rn(x):
			if type(x) is not tuple:
				return x
			r = memo.get(x)
			if r is not None:
				return r
			if len(x) == 2 and x[0] == "d" and type(x[1]) is int:
				nm = self.ddefs[x[1]][0]
				nn = rn(nm)
				r = x if nn is nm else self.intern(nn)
			elif len(x) == 3 and x[0] == "m" and x[1] == tag:
				r = ("o", tag, x[2])
			elif len(x) == 3 and x[0] == "o" and x[1] == tag:
				r = ("f", next(fresh))
			else:
				ch = False
				out = []
				for y in x:
					if type(y) is tuple:
						z = rn(y)
						if z is not y: ch = True
						out.append(z)
					else:
						out.append(y)
				r = tuple(out) if ch else x
				if ch and r and r[0] == "l" and len(r) == 3:
					r = ("l", r[1], tuple(sorted(r[2], key=_skey)))
			memo[x] = r
			return r
		if not any(("m" == k[0] or "o" == k[0]) and k[1] == tag for k in st.info) and not any(r[0] == "D" and r[1][0] in "mo" and r[1][1] == tag for r in st.meta):
			return
		st.mem = {(rn(k[0]), rn(k[1]), k[2]): rn(v) for k, v in st.mem.items()}
		st.info = {rn(k): v for k, v in st.info.items()}
		st.cons = frozenset(rn(c) for c in st.cons)
		st.null = frozenset(rn(c) for c in st.null)
		st.nonnull = frozenset(rn(c) for c in st.nonnull)
		st.own = {rn(k): v for k, v in st.own.items()}
		st.held = {rn(k): v for k, v in st.held.items()}
		st.rel = {rn(k): v for k, v in st.rel.items()}
		st.meta = {rn(k): (dict(v, src=rn(v["src"])) if v.get("src") else v) for k, v in st.meta.items()}
		for k, v in list(st.meta.items()):
			if v.get("size") is not None and v["size"][2]:
				st.meta[k] = dict(v, size=rn(v["size"]))
		st.ts = {rn(k): rn(v) for k, v in st.ts.items()}
		st.regs = {k: rn(v) for k, v in st.regs.items()}

	def type_of(self, st, rid):
		m = st.meta.get(rid)
		return m.get("ty") if m else None

	def field_of(self, st, ptr, size=None):
		"""('struct','field','type') of the memory a pointer designates, if known."""
		ty = self.type_of(st, ptr[1])
		if not ty or not is_const(ptr[2]):
			return None
		if ty.startswith("const "): ty = ty[6:]
		if ty.startswith("struct "): ty = ty[7:]
		s = self.prog.structs.get(ty)
		if not s:
			return None
		off = ptr[2][1]
		if s["size"]:
			off %= s["size"]
		f = self.prog.field(ty, off, size)
		return (ty, f[0], f[1]) if f else None

	# ---- values
	UNSIGNED = ("size_t", "uint8_t", "uint16_t", "uint32_t", "uint64_t", "unsigned int", "unsigned char", "unsigned long", "unsigned short", "in_addr_t", "__uint", "Py_ssize_t_u")
	def typed_unknown(self, st, ty, size, fty=None, name=None):
		if ty == "ptr":
			pt = None
			if fty and fty.endswith("*"):
				pt = fty[:-1]
			return self.fresh_ptr(st, pt, name=name)
		if isinstance(ty, int):
			w = ty
			if w == 1:
				return self.fresh(st, 0, 1, name)
			if fty and (fty in self.UNSIGNED or fty.startswith("uint") or fty.startswith("enum ") or fty.startswith("unsigned")):
				return self.fresh(st, 0, (1 << w) - 1, name)
			return self.fresh(st, -(1 << (w - 1)), (1 << (w - 1)) - 1, name)
		return ("t", next(self.fresh_n))

	def resolve(self, st, v):
		if v[0] == "p" and v[1] in st.null:
			if is_const(v[2]) and v[2][1] == 0:
				return NULL
		if v[0] == "l" and v[2]:
			c, terms, ch = v[1], [], False
			for s, k in v[2]:
				i = st.info.get(s)
				if i and i[0] == i[1]:
					c += k * i[0]; ch = True
				else:
					terms.append((s, k))
			if ch:
				return ("l", c, tuple(terms))
		return v

	def stable(self, st, rid):
		"""Cells of this region that have not been read yet still hold what they held on entry."""
		if rid[0] != "D": return False
		m = st.meta.get(rid)
		if m is None or m.get("havoc") or m.get("wild"): return False
		s, d = rid[1], 0
		while s[0] == "z":
			s, d = s[1][1], d + 1
		return s[0] == "k" and d < 3

	def read(self, st, ptr, size, ty, fr=None, ins=None):
		rid, off = ptr[1], ptr[2]
		if is_const(off):
			key = (rid, off[1], size)
			v = st.mem.get(key)
			if v is not None:
				return self.resolve(st, v)
			m = st.meta.get(rid, {})
			# overlapping cells of other sizes
			ov = [k for k in st.mem if k[0] == rid and isinstance(k[1], int) and k[1] < off[1] + size and off[1] < k[1] + k[2]]
			if ov:
				if all(is_const(st.mem[k]) for k in ov) and sum(k[2] for k in ov) == size and all(off[1] <= k[1] for k in ov):
					n = 0
					for k in ov:
						n |= (st.mem[k][1] & ((1 << (8 * k[2])) - 1)) << (8 * (k[1] - off[1]))
					if ty == "ptr":
						return NULL if n == 0 else self.fresh_ptr(st)
					if n >= 1 << (8 * size - 1):
						n -= 1 << (8 * size)
					return C(n)
				big = [k for k in ov if k[1] <= off[1] and k[1] + k[2] >= off[1] + size and is_const(st.mem[k])]
				if big and isinstance(ty, int):
					k = big[0]
					n = (st.mem[k][1] >> (8 * (off[1] - k[1]))) & ((1 << (8 * size)) - 1)
					if n >= 1 << (8 * size - 1):
						n -= 1 << (8 * size)
					return C(n)
				v = self.typed_unknown(st, ty, size)
				if any(st.mem[k] == UNDEF for k in ov):
					return UNDEF
				return v
			if m.get("kind") == "L" and not m.get("havoc") and not m.get("zero"):
				return UNDEF
			if m.get("kind") == "H" and m.get("undef") and not m.get("havoc"):
				return UNDEF
			if m.get("zero") and not m.get("havoc"):
				return NULL if ty == "ptr" else C(0)
			if m.get("kind") == "G":
				v = self.global_read(st, rid, off[1], size, ty)
				if v is not None:
					return v
			fty = None
			f = self.field_of(st, ptr, size)
			if f:
				fty = f[2]
			nm = ("z", rid, off[1], size) if f and self.stable(st, rid) else None
			if nm and ty == "ptr" and ("D", nm) in st.meta:
				st.mem[key] = v = ("p", ("D", nm), C(0))
				return self.resolve(st, v)
			if nm and nm in st.info:
				st.mem[key] = v = ("l", 0, ((nm, 1),))
				return self.resolve(st, v)
			v = self.typed_unknown(st, ty, size, fty, name=nm)
			if f:
				if ty == "ptr" and v[0] == "p":
					st.meta[v[1]] = dict(st.meta[v[1]], src=(rid, f[1]))
					if f[1].endswith(("tqh_first", "tqe_next")):
						st.meta[v[1]] = dict(st.meta[v[1]], coll=True)
				elif v[0] == "l" and v[2]:
					r = self.field_range.get((f[0], f[1]))
					if r:
						s = v[2][0][0]
						i = st.info[s]
						st.info[s] = (max(i[0], r[0]), min(i[1], r[1]), i[2])
				if self.field_hook:
					nv = self.field_hook(self, st, ptr, f, v)
					if nv is not None:
						v = nv
			st.mem[key] = v
			return v
		# symbolic offset
		m = st.meta.get(rid, {})
		if m.get("zero") and not m.get("havoc") and not any(k[0] == rid for k in st.mem):
			return NULL if ty == "ptr" else C(0)
		if m.get("kind") == "G" and isinstance(ty, int):
			return self.typed_unknown(st, ty, size)
		key = (rid, off, size)
		v = st.mem.get(key)
		if v is not None:
			return self.resolve(st, v)
		fty = None
		t = m.get("ty")
		if t and t.endswith("*"):
			fty = t
		v = self.typed_unknown(st, ty, size, fty)
		if ty == "ptr" and v[0] == "p":
			st.meta[v[1]] = dict(st.meta[v[1]], src=(rid, "[]"))
		st.mem[key] = v
		return v

	def global_read(self, st, rid, off, size, ty):
		if rid[1] in self.global_range and isinstance(ty, int):
			return self.fresh(st, *self.global_range[rid[1]])
		for u in self.prog.units:
			g = u.globals.get(rid[1])
			if g and g.get("const") and "init" in g:
				return self.const_at(st, g["init"], off, size, ty)
		return None

	def const_at(self, st, init, off, size, ty):
		k = init[0]
		if k == "str":
			b = bytes.fromhex(init[1])
			if off + size <= len(b):
				return C(int.from_bytes(b[off:off + size], "little", signed=True))
			return None
		if k == "zero":
			return NULL if ty == "ptr" else C(0)
		if k == "arr":
			es = init[1]
			i = off // es
			if i < len(init[2]):
				return self.const_at(st, init[2][i], off - i * es, size, ty)
			return None
		if k == "st":
			best = None
			for o, c in init[2]:
				if o <= off:
					best = (o, c)
			return self.const_at(st, best[1], off - best[0], size, ty) if best else None
		if off == 0:
			try:
				return self.const(st, init)
			except Exception:
				return None
		return None

	def write(self, st, ptr, size, val):
		rid, off = ptr[1], ptr[2]
		if is_const(off):
			o = off[1]
			if st.meta.get(rid, {}).get("kind") != "L" or len(st.mem) < 64:
				pass
			drop = [k for k in st.mem if k[0] == rid and not (isinstance(k[1], int) and (k[1] >= o + size or o >= k[1] + k[2])) and not (isinstance(k[1], int) and k[1] == o and k[2] == size) and (isinstance(k[1], int) or self.may_alias(st, off, size, k))]
			for k in drop:
				v = st.mem.pop(k)
				if not isinstance(k[1], int):
					continue
				# keep constant remainder bytes of partially overwritten cells
				if is_const(v) or v == UNDEF:
					for b in range(k[1], k[1] + k[2]):
						if not (o <= b < o + size):
							st.mem[(rid, b, 1)] = UNDEF if v == UNDEF else C(self.sx((v[1] >> (8 * (b - k[1]))) & 255, 8))
				else:
					for b in range(k[1], k[1] + k[2]):
						if not (o <= b < o + size):
							st.mem[(rid, b, 1)] = self.fresh(st, -128, 127)
			st.mem[(rid, o, size)] = val
		else:
			drop = [k for k in st.mem if k[0] == rid]
			for k in drop:
				# a write at an unknown index may hit any cell of the region's array part
				if not self.may_alias(st, off, size, k):
					continue
				st.mem.pop(k)
				if isinstance(k[1], int):
					pass
			m = st.meta.get(rid)
			if m is not None and not m.get("havoc"):
				st.meta[rid] = dict(m, havoc=True)
			st.mem[(rid, off, size)] = val

	def may_alias(self, st, off, size, k):
		d = lin_add(off, C(k[1]) if isinstance(k[1], int) else k[1], -1)  # off - k1
		if self.le0(st, lin_add(C(k[2]), d, -1)):   # d >= k2
			return False
		if self.le0(st, lin_add(d, C(size))):        # d + size <= 0
			return False
		return True

	@staticmethod
	def sx(n, w):
		n &= (1 << w) - 1
		return n - (1 << w) if n >= 1 << (w - 1) else n

	def havoc_region(self, st, rid, keep=()):
		for k in [k for k in st.mem if k[0] == rid]:
			del st.mem[k]
		m = st.meta.get(rid)
		if m is not None:
			st.meta[rid] = dict(m, havoc=True)

	# ---- operands
	def const(self, st, v):
		k = v[0]
		if k == "i":
			n = v[2]
			if isinstance(n, str):
				n = int(n[1:])
			if v[1] == 1:
				return C(1 if n else 0)
			return C(n)
		if k == "null":
			return NULL
		if k == "undef":
			return UNDEF
		if k == "fn":
			return ("f", v[1])
		if k == "g":
			rid = ("G", v[1])
			if rid not in st.meta:
				g = self.glob(v[1])
				st.meta[rid] = {"kind": "G", "ty": g.get("dity") if g else None, "size": C(g["size"]) if g and g.get("size") else None}
				st.nonnull |= {rid}
			return ("p", rid, C(0))
		if k == "gep":
			b = self.const(st, v[1])
			if b[0] == "p":
				return ("p", b[1], lin_add(b[2], C(v[2])))
			return ("t", next(self.fresh_n))
		if k == "zero":
			return C(0)
		if k == "ce" and v[1] == "inttoptr" and v[2][0] == "i":
			return NULL if v[2][2] == 0 else ("p", ("S", v[2][2]), C(0))
		return ("t", next(self.fresh_n))

	def glob(self, name):
		r = None
		for u in self.prog.units:
			g = u.globals.get(name)
			if g and not g.get("decl"):
				return g
			r = r or g
		return r

	def val(self, st, fr, v):
		if v[0] == "v":
			i = v[1]
			r = st.regs.get(i)
			if r is not None:
				return self.resolve(st, r)
			a = fr.fn.allocas.get(i)
			if a is not None:
				return ("p", ("L", fr.id, i), C(0))
			return ("t", next(self.fresh_n))
		return self.const(st, v)

	# ---- comparisons
	NEG = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}
	SWAP = {"eq": "eq", "ne": "ne", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}

	def truth(self, st, cond):
		"""True/False/None for an i1 value."""
		if cond[0] == "l":
			if is_const(cond):
				return cond[1] != 0
			lo, hi = self.rng(st, cond)
			if lo > 0 or hi < 0:
				return True
			if len(cond[2]) == 1 and cond[1] == 0 and st.info.get(cond[2][0][0], (0, 0, False))[2]:
				return True
			return None
		if cond[0] == "cmp":
			_, p, a, b, w = cond
			a, b = self.resolve(st, a), self.resolve(st, b)
			if a[0] == "cmp" and is_const(b) and b[1] in (0, 1) and p in ("eq", "ne"):
				t = self.truth(st, a)
				if t is None:
					return None
				return t == ((p == "eq") == (b[1] == 1))
			if a[0] == "pi" and b[0] == "pi":
				a, b = a[1], b[1]
			if a[0] in ("p", "n", "f") and b[0] in ("p", "n", "f"):
				return self.ptr_truth(st, p, a, b)
			if a[0] == "l" and b[0] == "l":
				return self.int_truth(st, p, a, b, w)
		return None

	def ptr_truth(self, st, p, a, b):
		if p not in ("eq", "ne"):
			if a[0] == "p" and b[0] == "p" and a[1] == b[1]:
				return self.int_truth(st, "s" + p[1:], a[2], b[2], 64)
			return None
		eq = None
		if a == b:
			eq = True
		elif NULL in (a, b):
			o = b if a == NULL else a
			if o[0] == "f" or self.is_nonnull(st, o):
				eq = False
		elif a[0] == "p" and b[0] == "p" and a[1] == b[1] and is_const(a[2]) and is_const(b[2]):
			eq = a[2] == b[2]
		elif a[0] == "p" and b[0] == "p" and a[1] != b[1] and a[1][0] in "LHGS" and b[1][0] in "LHGS":
			eq = False
		elif a[0] == "f" and b[0] == "f":
			eq = a == b
		if eq is None:
			return None
		return eq == (p == "eq")

	def is_nonnull(self, st, v):
		if v[0] != "p":
			return v[0] == "f"
		if v[1] in st.nonnull or v[1][0] in "LHGS":
			return True
		if not is_const(v[2]) or v[2][1] != 0:
			return True
		return False

	def signed_ok(self, st, v, w):
		"""Whether the value of v is the one a signed comparison of w bits sees."""
		m = (1 << (w - 1)) - 1
		return self.rng(st, v)[1] <= m or self.le0(st, lin_add(v, C(-m)))
	def int_truth(self, st, p, a, b, w):
		if p[0] == "s" and isinstance(w, int) and 1 < w < 64:
			if is_const(a): a = C(self.sx(a[1], w))
			if is_const(b): b = C(self.sx(b[1], w))
			if not self.signed_ok(st, a, w) or not self.signed_ok(st, b, w): return None
		if is_const(a) and is_const(b):
			x, y = a[1], b[1]
			if p[0] == "u":
				m = (1 << w) - 1 if isinstance(w, int) else (1 << 64) - 1
				x &= m; y &= m
			return {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[p if p in ("eq", "ne") else p[1:]]
		d = lin_add(a, b, -1)
		if p in ("eq", "ne"):
			if self.track and len(d[2]) == 1 and d[2][0][1] == 1:
				q = st.ts.get(("q", d[2][0][0]))
				if q is not None and (q[1] or q[0] == -d[1]):
					return (q[0] == -d[1] and q[1]) == (p == "eq")
			lo, hi = self.rng(st, d)
			if lo > 0 or hi < 0:
				return p == "ne"
			if lo == hi == 0:
				return p == "eq"
			if d[1] == 0 and len(d[2]) == 1 and st.info.get(d[2][0][0], (0, 0, False))[2]:
				return p == "ne"
			if self.le0(st, lin_add(d, C(1)), 2) or self.le0(st, lin_add(lin_mul(d, -1), C(1)), 2):
				return p == "ne"
			return None
		if p[0] == "u":
			if not (self.ge0(st, a) and self.ge0(st, b)):
				return None
		q = p[1:]
		if q in ("gt", "ge"):
			d = lin_mul(d, -1); q = {"gt": "lt", "ge": "le"}[q]
		if q == "lt":
			if self.le0(st, lin_add(d, C(1))): return True
			if self.le0(st, lin_mul(d, -1)): return False
		else:
			if self.le0(st, d): return True
			if self.le0(st, lin_add(lin_mul(d, -1), C(1))): return False
		return None

	def assume(self, st, cond, val):
		"""Refines st (in place) with cond == val; returns False when contradictory."""
		t = self.truth(st, cond)
		if t is not None:
			return t == val
		if cond[0] == "l":
			return self.assume_int(st, "ne" if val else "eq", cond, C(0), 32)
		if cond[0] != "cmp":
			return True
		_, p, a, b, w = cond
		a, b = self.resolve(st, a), self.resolve(st, b)
		if not val:
			p = self.NEG[p]
		if a[0] == "cmp" and is_const(b) and b[1] in (0, 1) and p in ("eq", "ne"):
			return self.assume(st, a, (p == "eq") == (b[1] == 1))
		if a[0] == "pi" and b[0] == "pi":
			a, b = a[1], b[1]
		if a[0] in ("p", "n") and b[0] in ("p", "n"):
			return self.assume_ptr(st, p, a, b)
		if a[0] == "l" and b[0] == "l":
			return self.assume_int(st, p, a, b, w)
		return True

	def assume_ptr(self, st, p, a, b):
		if NULL in (a, b) and p in ("eq", "ne"):
			o = b if a == NULL else a
			if o[0] == "p":
				if p == "eq":
					st.null |= {o[1]}
					if self.null_hook: self.null_hook(self, st, o[1])
				else:
					st.nonnull |= {o[1]}
					if self.set_hook: self.set_hook(self, st, o[1])
		elif a[0] == "p" and b[0] == "p" and a[1] == b[1]:
			return self.assume_int(st, p if p in ("eq", "ne") else "s" + p[1:], a[2], b[2], 64)
		return True

	def assume_int(self, st, p, a, b, w):
		if p[0] == "s" and isinstance(w, int) and 1 < w < 64:
			if is_const(a): a = C(self.sx(a[1], w))
			if is_const(b): b = C(self.sx(b[1], w))
			if not self.signed_ok(st, a, w) or not self.signed_ok(st, b, w): return True
		if p[0] == "u":
			an, bn = self.ge0(st, a), self.ge0(st, b)
			if an and bn:
				p = "s" + p[1:]
			elif bn and p in ("ult", "ule"):
				# a <u b with b >= 0 (b below 2^(w-1)): a is non-negative too when its canonical range is signed
				lo, hi = self.rng(st, b)
				if hi < 1 << (w - 1) and self.rng(st, a)[0] >= -(1 << (w - 1)):
					if not self.assume_int(st, "sge", a, C(0), w):
						return False
					p = "s" + p[1:]
				else:
					return True
			elif an and p in ("ugt", "uge"):
				return self.assume_int(st, self.SWAP[p], b, a, w)
			else:
				return True
		d = lin_add(a, b, -1)
		if self.track and p in ("eq", "ne") and len(d[2]) == 1 and d[2][0][1] == 1 and self.track(st, d[2][0][0]):
			st.ts[("q", d[2][0][0])] = (-d[1], p == "eq")
		if p == "eq":
			return self.add_le(st, d) and self.add_le(st, lin_mul(d, -1))
		if p == "ne":
			if len(d[2]) == 1:
				s, k = d[2][0]
				if d[1] % k == 0:
					n = -d[1] // k
					lo, hi, nz = st.info.get(s, (-INF, INF, False))
					if n == lo: lo += 1
					if n == hi: hi -= 1
					if n == 0: nz = True
					if lo > hi:
						return False
					st.info[s] = (lo, hi, nz)
			elif len(d[2]) > 1:
				if self.ge0(st, d): return not self.le0(st, d) and self.add_le(st, lin_add(lin_mul(d, -1), C(1)))
				if self.le0(st, d): return self.add_le(st, lin_add(d, C(1)))
			return True
		q = p[1:]
		if q == "lt": return self.add_le(st, lin_add(d, C(1)))
		if q == "le": return self.add_le(st, d)
		d = lin_mul(d, -1)
		if q == "gt": return self.add_le(st, lin_add(d, C(1)))
		return self.add_le(st, d)

	def add_le(self, st, d):
		if not d[2]:
			return d[1] <= 0
		if len(d[2]) == 1:
			s, k = d[2][0]
			lo, hi, nz = st.info.get(s, (-INF, INF, False))
			if k > 0:
				hi = min(hi, (-d[1]) // k)
			else:
				lo = max(lo, _ceil_div(d[1], -k))
			if nz:
				if lo == 0: lo = 1
				if hi == 0: hi = -1
			if lo > hi:
				return False
			st.info[s] = (lo, hi, nz)
			return True
		if self.rng(st, d)[0] > 0:
			return False
		for s, k in d[2]:
			lo, hi, nz = st.info.get(s, (-INF, INF, False))
			r = d[1]
			for s2, k2 in d[2]:
				if s2 != s:
					l2, h2, _ = st.info.get(s2, (-INF, INF, False))
					r += k2 * (l2 if k2 > 0 else h2)
			if abs(r) < 1 << 72:
				if k > 0:
					n = (-r) // k
					if n < hi: st.info[s] = (lo, n, nz)
				else:
					n = _ceil_div(r, -k)
					if n > lo: st.info[s] = (n, hi, nz)
				lo, hi, nz = st.info.get(s, (-INF, INF, False))
				if lo > hi: return False
		neg = tuple((s, -k) for s, k in d[2])
		for e in st.cons:
			if e[2] == neg and e[1] + d[1] > 0: return False
		if len(st.cons) < 60:
			st.cons |= {d}
		return True

	# ---- control-flow preparation
	def prep(self, fn):
		p = self.cfgcache.get(id(fn))
		if p is not None:
			return p
		n = len(fn.blocks)
		succ = [list(dict.fromkeys(fn.succ(b))) for b in range(n)]
		order, seen, onstack, heads = [], set(), set(), set()
		stack = [(0, iter(succ[0]))]
		seen.add(0); onstack.add(0)
		while stack:
			b, it = stack[-1]
			for s in it:
				if s in onstack:
					heads.add(s)
				elif s not in seen:
					seen.add(s); onstack.add(s)
					stack.append((s, iter(succ[s])))
					break
			else:
				order.append(b); onstack.discard(b); stack.pop()
		rpo = {b: i for i, b in enumerate(reversed(order))}
		# natural-loop bodies, to order inner blocks before loop exits
		pred = {b: [] for b in range(n)}
		for b in seen:
			for s in succ[b]:
				pred[s].append(b)
		# simple allocas: only direct load/store
		esc = set()
		for b in fn.blocks:
			for i in b:
				ops = []
				d = i.d
				if i.op == "load":
					continue
				if i.op == "store":
					ops = [d["a"][0]]
				else:
					for k in ("a", "in"):
						for x in d.get(k, ()):
							ops.append(x[0] if k == "in" else x)
					if "gep" in d:
						ops.append(d["gep"][1]); ops += [x[0] for x in d["gep"][3]]
					if "c" in d:
						ops.append(d["c"])
					if "ind" in d:
						ops.append(d["ind"])
				for x in ops:
					if x[0] == "v" and x[1] in fn.allocas:
						esc.add(x[1])
		simple = set(fn.allocas) - esc
		use, df = {}, {}
		for b in range(n):
			u, k = set(), set()
			for i in fn.blocks[b]:
				if i.op == "load" and i.d["a"][0][0] == "v" and i.d["a"][0][1] in simple:
					if i.d["a"][0][1] not in k:
						u.add(i.d["a"][0][1])
				elif i.op == "store" and i.d["a"][1][0] == "v" and i.d["a"][1][1] in simple:
					k.add(i.d["a"][1][1])
			use[b], df[b] = u, k
		live = {b: set() for b in range(n)}
		ch = True
		while ch:
			ch = False
			for b in order:
				o = set()
				for s in succ[b]:
					o |= live[s]
				l = use[b] | (o - df[b])
				if l != live[b]:
					live[b] = l; ch = True
		# registers live across blocks
		usedin = {}
		for b in range(n):
			for i in fn.blocks[b]:
				for x in self._ops(i):
					if x[0] == "v":
						usedin.setdefault(x[1], set()).add(b)
		defin = {i.id: b for b in range(n) for i in fn.blocks[b]}
		cross = {r for r, bs in usedin.items() if bs - {defin.get(r, -1)}} - set(fn.allocas)
		rlive = {b: set() for b in range(n)}
		ruse = {b: {r for r in cross if b in usedin[r] and defin.get(r) != b} for b in range(n)}
		for b in range(n):
			pass
		ch = True
		while ch:
			ch = False
			for b in order:
				o = set(ruse[b])
				for s in succ[b]:
					o |= {r for r in rlive[s] if defin.get(r) != b}
					for i in fn.blocks[s]:
						if i.op != "phi":
							break
						for x, pb in i.d["in"]:
							if pb == b and x[0] == "v" and defin.get(x[1]) != b and x[1] not in fn.allocas:
								o.add(x[1])
				if o != rlive[b]:
					rlive[b] = o; ch = True
		# phis are set before their block is entered
		for b in range(n):
			rlive[b] = rlive[b] | {i.id for i in fn.blocks[b] if i.op == "phi"}
		# integer variables that some branch or the return value depends on directly: they take part in the partitioning
		flows = {}
		for b in fn.blocks:
			for i in b:
				if i.op == "load" and i.d["a"][0][0] == "v" and i.d["a"][0][1] in fn.allocas:
					flows[i.id] = i.d["a"][0][1]
				elif i.op in ("zext", "sext", "trunc", "and", "freeze") and i.d["a"][0][0] == "v" and i.d["a"][0][1] in flows:
					flows[i.id] = flows[i.d["a"][0][1]]
		keyvars = set()
		for b in fn.blocks:
			for i in b:
				ops = []
				if i.op == "icmp":
					x, y = i.d["a"]
					if y[0] != "v": ops = [x]
					elif x[0] != "v": ops = [y]
				elif i.op == "switch": ops = [i.d["c"]]
				elif i.op == "ret": ops = i.d.get("a", [])
				for x in ops:
					if x[0] == "v" and x[1] in flows: keyvars.add(flows[x[1]])
		# copies into such a variable
		ch = True
		while ch:
			ch = False
			for b in fn.blocks:
				for i in b:
					if i.op == "store" and i.d["a"][1][0] == "v" and i.d["a"][1][1] in keyvars and i.d["a"][0][0] == "v" and flows.get(i.d["a"][0][1]) not in keyvars | {None}:
						keyvars.add(flows[i.d["a"][0][1]]); ch = True
		self.keyvars[fn.name] = keyvars
		p = {"rpo": rpo, "heads": heads, "succ": succ, "simple": simple, "live": live, "rlive": rlive, "pred": pred}
		# loop bodies, so that a loop is iterated to its fixpoint before its exits are analysed
		inloop = {}
		for h in heads:
			body = {h}
			work = [x for x in pred[h] if rpo.get(x, -1) >= rpo[h]]
			while work:
				x = work.pop()
				if x in body: continue
				body.add(x); work += pred[x]
			inloop[h] = body
		p["loops"] = inloop
		prio = {}
		# position: RPO of outermost loop heads first, loop exits after the body
		ordered = sorted(rpo, key=lambda b: rpo[b])
		placed, out = set(), []
		def place(b):
			if b in placed: return
			placed.add(b); out.append(b)
			if b in inloop:
				for x in sorted(inloop[b], key=lambda x: rpo[x]):
					place(x)
		for b in ordered:
			place(b)
		p["prio"] = {b: i for i, b in enumerate(out)}
		self.cfgcache[id(fn)] = p
		return p

	@staticmethod
	def _ops(i):
		d = i.d
		for k in ("a",):
			for x in d.get(k, ()):
				yield x
		if "gep" in d:
			yield d["gep"][1]
			for x in d["gep"][3]:
				yield x[0]
		if "c" in d: yield d["c"]
		if "ind" in d: yield d["ind"]
		if "n" in d: yield d["n"]

	# ---- keys and joins
	def vclass(self, st, v, exact):
		v = self.resolve(st, v)
		k = v[0]
		if k == "l":
			if not v[2]:
				if exact and (-4096 <= v[1] <= 2 or v[1] == 10):
					return v[1]
				return "0" if v[1] == 0 else "+" if v[1] > 0 else "-"
			lo, hi = self.rng(st, v)
			if lo > 0: return "+"
			if hi < 0: return "-"
			if len(v[2]) == 1 and v[1] == 0 and st.info.get(v[2][0][0], (0, 0, False))[2]:
				return "nz"
			return "?"
		if k == "p":
			r = v[1]
			if r[0] == "D":
				if st.meta.get(r, {}).get("init"):
					return "init"
				if r[1][0] == "f":
					return "Dr" if r in st.rel else ("Do", st.own[r]) if r in st.own else "D" if r in st.nonnull else "D?"
				if r in st.own or r in st.rel or r in st.lazy0:
					return ("p", r)
				return "D" if r in st.nonnull else "D?"
			if r[0] == "G" and is_const(v[2]): return ("p", r, min(v[2][1], 4096))
			return ("p", r)
		if k == "cmp":
			t = self.truth(st, v)
			return "b?" if t is None else t
		if k == "t":
			return "t"
		return k if k != "f" else v

	def key(self, st, fr, b, exact):
		cells = []
		for (r, o, s), v in st.mem.items():
			if s <= 8 and (r[0] == "L" or r in st.own or r in self.keyregs):
				if not isinstance(o, int):
					continue
				m = st.meta.get(r, {})
				sz = m.get("size")
				if r[0] == "L" and sz is not None and is_const(sz) and sz[1] > 64:
					continue
				if v[0] == "l" and r[0] == "L" and r[2] not in self.keyvars.get(r[1][1], ()):
					continue
				if v[0] == "l" and (r[0] != "L" or (sz is not None and is_const(sz) and sz[1] > 8)):
					continue
				cells.append((r, o, self.vclass(st, v, exact)))
		extra = tuple(c.key(self, st) for c in self.checkers if hasattr(c, "key"))
		regs = tuple(sorted(((r, self.vclass(st, v, exact)) for r, v in st.regs.items()), key=repr))
		return (frozenset(cells), frozenset((r, n, st.held.get(r, 0)) for r, n in st.own.items() if not anon(r)), frozenset(r for r in st.rel if not anon(r)), frozenset(st.ts.items()), regs, extra)

	def same(self, a, b):
		return a.mem == b.mem and a.own == b.own and a.held == b.held and {r for r in a.rel if not anon(r)} == {r for r in b.rel if not anon(r)} and a.ts == b.ts and a.cons == b.cons and a.null == b.null and a.regs == b.regs \
			and all(a.info.get(s) == b.info.get(s) for s in self.live_sids(a)) and self.metas(a) == self.metas(b)

	def metas(self, st):
		return {r: (m.get("havoc"), m.get("zero")) for r, m in st.meta.items() if not anon(r) and r[0] != "Q"}

	def live_sids(self, st):
		out = set()
		for v in itertools.chain(st.mem.values(), st.regs.values()):
			if v[0] == "l":
				for s, _ in v[2]: out.add(s)
			elif v[0] == "p" and v[2][2]:
				for s, _ in v[2][2]: out.add(s)
		return out

	def join(self, a, b, tag, widen=False):
		"""Join of two states of one partition."""
		if a is b:
			return a
		r = State()
		r.trace = a.trace if len(a.trace) <= len(b.trace) else b.trace
		r.prev = a.prev
		r.own = dict(a.own); r.ts = dict(a.ts)
		for k, v in b.own.items():
			r.own[k] = max(v, r.own.get(k, 0))
		r.held = dict(a.held)
		for k, v in b.held.items():
			r.held[k] = max(v, r.held.get(k, 0))
		r.rel = {k: v for k, v in a.rel.items() if k in b.rel or k not in b.meta}
		for k, v in b.rel.items():
			if k not in a.meta or k in a.null: r.rel[k] = v
		for k, v in a.rel.items():
			if k in b.null: r.rel[k] = v
		r.lazy0 = {k: v for k, v in a.lazy0.items() if b.lazy0.get(k) == v}
		r.meta = {}
		sizes = []
		for k in set(a.meta) | set(b.meta):
			x, y = a.meta.get(k), b.meta.get(k)
			if x is None or y is None:
				r.meta[k] = x or y
			elif x is y or x == y:
				r.meta[k] = x
			else:
				m = dict(x)
				for q in set(x) | set(y):
					if x.get(q) != y.get(q):
						if q in ("havoc", "wild"): m[q] = bool(x.get(q) or y.get(q))
						elif q in ("zero", "undef"): m[q] = x.get(q) and y.get(q); m["havoc"] = True
						else: m[q] = None
				if m.get("size") is None and x.get("size") is not None and y.get("size") is not None and not anon(k):
					sizes.append((k, x["size"], y["size"], m))
				r.meta[k] = m
		r.null = frozenset(x for x in a.null | b.null if (x in a.null or x not in a.meta) and (x in b.null or x not in b.meta))
		r.nonnull = frozenset(x for x in a.nonnull | b.nonnull if (x in a.nonnull or x not in a.meta and x[0] != "nn") and (x in b.nonnull or x not in b.meta and x[0] != "nn"))
		changed = set()
		pmap, moved = {}, []
		suba, subb = {}, {}
		def jinfo(x, y):
			return (min(x[0], y[0]), max(x[1], y[1]), x[2] and y[2])
		for s in set(a.info) | set(b.info):
			x, y = a.info.get(s), b.info.get(s)
			if x is None or y is None:
				r.info[s] = x or y
			else:
				n = jinfo(x, y)
				if widen and n != x:
					n = (x[0] if n[0] >= x[0] else (0 if n[0] >= 0 else -INF), x[1] if n[1] <= x[1] else INF, n[2])
				r.info[s] = n
		def jval(x, y, name, size):
			if x == y and x[0] == "l": return x
			x, y = self.resolve(a, x), self.resolve(b, y)
			if x == y:
				return x
			if x[0] == "l" and y[0] == "l":
				la, ha = self.rng(a, x); lb, hb = self.rng(b, y)
				nz = self.truth(a, x) is True and self.truth(b, y) is True
				lo, hi = min(la, lb), max(ha, hb)
				sid = ("m", tag, name)
				old = a.info.get(sid)
				if widen:
					if lb < la: lo = 0 if lb >= 0 else max(-INF, -(1 << (8 * size - 1)) if size else -INF)
					if hb > ha: hi = (1 << (8 * size - 1)) - 1 if size and hb < (1 << (8 * size - 1)) else INF
				r.info[sid] = (lo, hi, nz)
				changed.add(sid)
				suba[sid] = x; subb[sid] = y
				return ("l", 0, ((sid, 1),))
			if x[0] in ("p", "n") and y[0] in ("p", "n"):
				sid = ("m", tag, name)
				rid = ("D", sid)
				if x[0] == "p" and y[0] == "p" and x[1] != y[1] and x[2] == y[2] == C(0):
					if (x[1], y[1]) in pmap:
						return ("p", pmap[(x[1], y[1])], C(0))
					pmap[(x[1], y[1])] = rid
					na, nb = a.own.get(x[1], 0), b.own.get(y[1], 0)
					if na == nb and na > 0:
						moved.append((rid, x[1], y[1], na, max(a.held.get(x[1], 0), b.held.get(y[1], 0))))
				tx = a.meta.get(x[1], {}).get("ty") if x[0] == "p" else None
				ty = b.meta.get(y[1], {}).get("ty") if y[0] == "p" else None
				if x[0] == "p" and y[0] == "p" and x[1] == y[1]:
					la, ha = self.rng(a, x[2]); lb, hb = self.rng(b, y[2])
					lo, hi = min(la, lb), max(ha, hb)
					if widen:
						if lb < la: lo = 0 if lb >= 0 else -INF
						if hb > ha: hi = INF
					r.info[sid] = (lo, hi, False)
					changed.add(sid)
					suba[sid] = x[2]; subb[sid] = y[2]
					return ("p", x[1], ("l", 0, ((sid, 1),)))
				mm = {"kind": "D", "ty": tx or ty, "size": None}
				ma = a.meta.get(x[1], {}) if x[0] == "p" else {}
				mb = b.meta.get(y[1], {}) if y[0] == "p" else {}
				for q in ("src", "inown", "coll", "arr", "shared", "cls", "ln", "fn", "rln", "rfn"):
					va, vb = ma.get(q), mb.get(q)
					if va and (va == vb or not mb): mm[q] = va
					elif vb and not ma: mm[q] = vb
				r.meta[rid] = mm
				if x[0] == "n" or y[0] == "n" or (x[1] in a.rel and y[1] in b.rel):
					w = a.rel.get(x[1]) if x[0] == "p" else b.rel.get(y[1]) if y[0] == "p" else None
					if w: r.rel[rid] = w
					q, qs, os = (x, a, b) if y[0] == "n" else (y, b, a)
					if q[0] == "p" and q[2] == C(0) and qs.own.get(q[1], 0) > 0 and anon(q[1]) and q[1] not in os.own:
						moved.append((rid, q[1], q[1], qs.own[q[1]], qs.held.get(q[1], 0)))
				nn = x[0] == "p" and y[0] == "p" and self.is_nonnull(a, x) and self.is_nonnull(b, y)
				r.null = r.null - {rid}
				if nn: r.nonnull |= {rid}
				else:
					r.nonnull = r.nonnull - {rid}
					o = ma.get("opt") or mb.get("opt")
					if o: mm["opt"] = o
				return ("p", rid, C(0))
			if UNDEF in (x, y):
				return ("t", ("m", tag, name))
			return ("t", ("m", tag, name))
		for k in set(a.mem) | set(b.mem):
			x, y = a.mem.get(k), b.mem.get(k)
			if x is None or y is None:
				st2, other = (b, a) if x is None else (a, b)
				v = x if y is None else y
				mo = other.meta.get(k[0])
				if mo is None:
					if widen and not isinstance(k[1], int) and anon(k[0]): continue
					r.mem[k] = v     # region unknown to the other state
					continue
				if not isinstance(k[1], int):
					continue
				if self.stable(other, k[0]) and self.field_of(other, ("p", k[0], C(k[1])), k[2]):
					w = self.read(other, ("p", k[0], C(k[1])), k[2], "ptr" if v[0] in ("p", "n") else 8 * k[2])
					for q, m in other.meta.items():
						if q not in r.meta: r.meta[q] = m
					for q, m in other.info.items():
						if q not in r.info: r.info[q] = m
					r.mem[k] = jval(v, w, k, k[2]) if y is None else jval(w, v, k, k[2])
					continue
				if mo.get("kind") == "L" and not mo.get("havoc") and not mo.get("zero"):
					if v == UNDEF: r.mem[k] = v
					else: r.mem[k] = v if k[0] not in other.meta else ("t", ("m", tag, k))
					continue
				if mo.get("zero") and not mo.get("havoc"):
					w = NULL if v[0] in ("p", "n") else C(0)
					r.mem[k] = jval(v, w, k, k[2]) if y is None else jval(w, v, k, k[2])
				continue
			if k[0][0] == "Z": continue
			r.mem[k] = jval(x, y, k, k[2])
		same = {}
		zeq = []
		for sid in suba:
			same.setdefault((suba[sid], subb[sid]), []).append(sid)
		for k in set(a.mem) & set(b.mem):
			if k[0][0] == "Z":
				# a checker's own cells stay equal to what the program's cells hold
				x, y = self.resolve(a, a.mem[k]), self.resolve(b, b.mem[k])
				z = None
				if x != y and (x, y) in same:
					z = ("l", 0, ((min(same[(x, y)], key=repr), 1),))
					zeq += [lin_add(z, ("l", 0, ((s, 1),)), -1) for s in same[(x, y)][:4]]
				elif x != y and x[0] == "l" and y[0] == "l":
					# or a multiple of it
					for s in sorted(suba, key=repr):
						qa, qb = suba[s], subb[s]
						if qa[0] != "l" or qb[0] != "l": continue
						d, e = lin_add(y, x, -1), lin_add(qb, qa, -1)
						if is_const(d) and is_const(e) and e[1] and d[1] % e[1] == 0: f = d[1] // e[1]
						else:
							# the multiple follows from a symbol they have in common
							cx = dict(x[2])
							f = next((cx[q] // k for q, k in qa[2] if q in cx and cx[q] % k == 0), None)
							if f is None: continue
						c = lin_add(x, lin_mul(qa, f), -1)
						if c == lin_add(y, lin_mul(qb, f), -1) and not any(q in changed for q, _ in c[2]):
							z = lin_add(lin_mul(("l", 0, ((s, 1),)), f), c)
							break
				r.mem[k] = z or jval(x, y, k, k[2])
		for k, x, y, m in sizes:
			# storage whose size is what a memory cell holds stays that way
			x, y = self.resolve(a, x), self.resolve(b, y)
			if x == y: m["size"] = x
			elif (x, y) in same: m["size"] = ("l", 0, ((min(same[(x, y)], key=repr), 1),))
		for k in set(a.regs) & set(b.regs):
			x, y = self.resolve(a, a.regs[k]), self.resolve(b, b.regs[k])
			if x[0] == "l" and x != y and (x, y) in same:
				# a register that holds what a memory cell holds stays equal to it
				r.regs[k] = ("l", 0, ((min(same[(x, y)], key=repr), 1),))
				continue
			r.regs[k] = jval(a.regs[k], b.regs[k], ("r", k), 0)
		for rid, x, y, n, h in moved:
			for o, st2 in ((x, b), (y, a)):
				if x == y or o not in st2.meta or st2.own.get(o, 0) == 0:
					r.own.pop(o, None); r.held.pop(o, None)
			r.own[rid] = n
			if h: r.held[rid] = h
			else: r.held[rid] = 0
		r.cons = a.cons & b.cons
		if changed:
			r.cons = frozenset(c for c in r.cons if not any(s in changed for s, _ in c[2]))
		for e in zeq:
			if not is_const(e): r.cons |= {e, lin_mul(e, -1)}
		# constraints of one state that the other one implies
		for x, y in ((a, b), (b, a)):
			for c in x.cons - y.cons:
				if len(r.cons) < 40 and not any(s in changed for s, _ in c[2]) and self.le0(y, c, 1):
					r.cons |= {c}
		# relations that involve joined symbols: keep those of the first state that hold for the second one's values
		if changed:
			inv = {}
			for sid, v in suba.items():
				for q, kq in v[2]:
					if abs(kq) == 1: inv.setdefault(q, []).append((sid, v, kq))
			for c in a.cons:
				if len(r.cons) >= 40: break
				opts, new = [c], [c]
				for _ in (1, 2):
					nxt = []
					for c2 in new:
						for s, k in c2[2]:
							for sid, v, kq in inv.get(s, ()):
								# v = sid in state a
								o = lin_add(lin_add(c2, v, -k * kq), ("l", 0, ((sid, 1),)), k * kq)
								if len(o[2]) <= len(c2[2]) and o not in opts and len(opts) < 16:
									opts.append(o); nxt.append(o)
					new = nxt
				for o in opts:
					if not any(s in changed for s, _ in o[2]):
						continue
					t = o
					for s, k in o[2]:
						if s in changed:
							t = lin_add(lin_add(t, ("l", 0, ((s, 1),)), -k), lin_mul(subb[s], k))
					if self.le0(b, t, 2):
						r.cons |= {o}
			ch = sorted(changed, key=repr)
			if self.relate:
				# order between a checker's own cells and what the program holds
				zs = sorted((k for k in r.mem if k[0][0] == "Z" and k in a.mem and k in b.mem), key=repr)
				for k in zs:
					z, za, zb = r.mem[k], a.mem[k], b.mem[k]
					for k2 in zs:
						d = lin_add(z, r.mem[k2], -1)
						if k2 != k and d[2] and any(s in changed for s, _ in d[2]) and len(r.cons) < 40 and self.le0(a, lin_add(za, a.mem[k2], -1), 3) and self.le0(b, lin_add(zb, b.mem[k2], -1), 3): r.cons |= {d}
					for s1 in ch if self.relate == "all" else ():
						me = ("l", 0, ((s1, 1),))
						if z == me or len(r.cons) >= 40: continue
						for sg in (1, -1):
							if self.le0(a, lin_mul(lin_add(suba[s1], za, -1), sg), 3) and self.le0(b, lin_mul(lin_add(subb[s1], zb, -1), sg), 3):
								r.cons |= {lin_mul(lin_add(me, z, -1), sg)}
			if widen is not None and len(ch) <= 12:
				# symbols that move in lock step:  d2*s1 - d1*s2 stays what it was
				dl = {}
				for s1 in ch:
					d1 = lin_add(subb[s1], suba[s1], -1)
					if not d1[2] and d1[1] and abs(d1[1]) <= 64: dl[s1] = d1[1]
				for s1 in ch:
					for s2 in ch:
						if repr(s1) >= repr(s2) or s1 not in dl or s2 not in dl or dl[s1] == dl[s2] or len(r.cons) >= 38: continue
						E = lin_add(lin_mul(suba[s1], dl[s2]), lin_mul(suba[s2], dl[s1]), -1)
						if any(q in changed for q, _ in E[2]) or len(E[2]) > 1: continue
						L = lin_add(lin_add(("l", 0, ((s1, dl[s2]),)), ("l", 0, ((s2, dl[s1]),)), -1), E, -1)
						r.cons |= {L, lin_mul(L, -1)}
				# relations to symbols the joined values are made of
				for s1 in ch:
					for x, y, p, q in ((suba, subb, a, b), (subb, suba, b, a)):
						v = x[s1]
						if len(v[2]) != 1 or v[2][0][1] != 1 or v[2][0][0] in changed or len(r.cons) >= 38: continue
						d = lin_add(y[s1], v, -1)     # other - this
						me = ("l", 0, ((s1, 1),))
						if self.le0(q, d, 4): r.cons |= {lin_add(me, v, -1)}
						elif self.ge0(q, d): r.cons |= {lin_add(v, me, -1)}
			# differences between joined symbols
			if len(ch) <= 12:
				for s1 in ch:
					for s2 in ch:
						if s1 == s2 or len(r.cons) >= 40: continue
						da, db = lin_add(suba[s1], suba[s2], -1), lin_add(subb[s1], subb[s2], -1)
						cand = {0, -1}
						if not da[2] and -1024 < da[1] < 1024: cand.add(da[1])
						if not db[2] and -1024 < db[1] < 1024: cand.add(db[1])
						for c in sorted(cand):
							# s1 - s2 <= c
							if self.rng(r, ("l", -c, ((s1, 1), (s2, -1))), 0)[1] <= 0: break
							if self.le0(a, lin_add(da, C(-c)), 2) and self.le0(b, lin_add(db, C(-c)), 2):
								r.cons |= {lin_add(("l", -c, ((s1, 1),)), ("l", 0, ((s2, 1),)), -1)}
								break
		return r

	# ---- garbage collection / reachability
	def roots(self, st, fr):
		out = set()
		for v in st.regs.values():
			if v[0] == "p": out.add(v[1])
		return out

	def reach(self, st, extra=(), skip=()):
		adj = {}
		for (r, o, s), v in st.mem.items():
			if v[0] == "p":
				adj.setdefault(r, set()).add(v[1])
			elif v[0] == "cmp":
				for x in (v[2], v[3]):
					if x[0] == "p": adj.setdefault(r, set()).add(x[1])
		work = [r for r, m in st.meta.items() if (r[0] in "LGDQ" or m.get("keep")) and r not in skip] + list(extra)
		seen = set()
		while work:
			r = work.pop()
			if r in seen: continue
			seen.add(r)
			m = st.meta.get(r)
			work += list(adj.get(r, ()))
		return seen

	def check_leaks(self, st, fr, ins, extra=(), skip=()):
		regs = [v[1] for v in st.regs.values() if v[0] == "p"]
		seen = self.reach(st, list(extra) + regs, skip)
		for r in list(st.own):
			if st.own[r] > 0 and r not in seen:
				for c in self.checkers:
					c.on_leak(self, st, fr, ins, r)
				del st.own[r]
			elif st.own[r] == 0 and r not in seen:
				del st.own[r]
		# forget unreachable heap objects
		for r in [r for r in st.meta if r[0] == "H" and r not in seen and r not in st.own]:
			del st.meta[r]
			st.rel.pop(r, None)
			st.held.pop(r, None)
			for k in [k for k in st.mem if k[0] == r]:
				del st.mem[k]

	def prune(self, st, fr, b, pr):
		live = pr["live"][b]
		dead = pr["simple"] - live
		if dead:
			fid = fr.id
			for k in [k for k in st.mem if k[0][0] == "L" and k[0][1] == fid and k[0][2] in dead]:
				del st.mem[k]
		rl = pr["rlive"][b]
		st.regs = {r: v for r, v in st.regs.items() if r in rl or r < len(fr.fn.params)}
		# drop lazily created pointees nobody can name any more
		seen = set()
		names = set()
		for v in itertools.chain(st.mem.values(), st.regs.values()):
			if v[0] == "p": names.add(v[1])
			elif v[0] == "cmp":
				for x in (v[2], v[3]):
					if x[0] == "p": names.add(x[1])
			elif v[0] == "pi": names.add(v[1][1])
		gone = [r for r in st.meta if r[0] in "DQ" and r not in names and not st.meta[r].get("keep") and r not in st.own]
		if gone:
			gs = set(gone)
			for r in gone:
				del st.meta[r]
				st.rel.pop(r, None)
				st.held.pop(r, None)
			for k in [k for k in st.mem if k[0] in gs]:
				del st.mem[k]
			st.null -= gs
			st.nonnull -= gs
		sids = self.live_sids(st)
		csids = set()
		if st.cons:
			lost = {s for c in st.cons for s, _ in c[2] if s not in sids}
			if lost:
				# carry what a dead symbol says about live ones over to them
				cons = set(st.cons)
				for s in sorted(lost, key=repr):
					pos = [c for c in cons if dict(c[2]).get(s) == 1]
					neg = [c for c in cons if dict(c[2]).get(s) == -1]
					if pos and neg and len(pos) * len(neg) <= 16 and len(cons) < 50:
						for c1 in pos:
							for c2 in neg:
								w = lin_add(c1, c2)
								if 1 < len(w[2]) <= 3: cons.add(w)
				st.cons = frozenset(cons)
			st.cons = frozenset(c for c in st.cons if sum(1 for s, _ in c[2] if s in sids) >= 1 and not self._implied(st, c))
			for c in st.cons:
				for s, _ in c[2]: csids.add(s)
		keep = sids | csids
		for c in st.meta.values():
			z = c.get("size")
			if z is not None and z[2]:
				for s, _ in z[2]: keep.add(s)
		if len(st.info) > len(keep) + 40:
			st.info = {s: i for s, i in st.info.items() if s in keep or s[0] == "k"}

	def _implied(self, st, c):
		return self.rng(st, c)[1] <= 0

	# ---- running
	def run(self, fn, st, args, fr_parent=None, call=None):
		"""Analyses fn from st with the given argument values: list of (state, return value)."""
		depth = fr_parent.depth + 1 if fr_parent else 0
		fid = (depth, fn.name)
		fr = Frame(fn, fid, depth, call, fr_parent)
		self.analysed.add((fn.rel, fn.name))
		pr = self.prep(fn)
		saved_regs = st.regs
		saved_prev = st.prev
		st = st.copy()
		st.regs = {}
		st.prev = None
		for a in fn.allocas.values():
			rid = ("L", fid, a.id)
			t = a.d.get("dity")
			st.meta[rid] = {"kind": "L", "ty": t, "size": C(a.d["size"]) if a.d["size"] >= 0 else None, "var": a.d.get("var")}
		for i, p in enumerate(fn.params):
			st.regs[i] = args[i] if i < len(args) else self.typed_unknown(st, p["ty"], 8)
		exits = {}
		pending = {0: {None: st}}
		seen = {}
		visits = {}
		while pending:
			b = min(pending, key=lambda x: pr["prio"].get(x, 1 << 30))
			group = pending.pop(b)
			for key, s in list(group.items()):
				self.steps += 1
				if self.deadline and not self.steps & 15 and time.monotonic() > self.deadline:
					raise AnalysisError("time limit exceeded in %s (entry %s)" % (fn.name, fr.chain()[-1]))
				if self.steps > self.budget:
					raise AnalysisError("analysis budget exceeded in %s (entry %s)" % (fn.name, fr.chain()[-1]))
				if b in pr["heads"]:
					self.prune(s, fr, b, pr)
					self.check_leaks(s, fr, None)
					vis = visits.get(b, 0)
					k2 = self.key(s, fr, b, vis < 4)
					sb = seen.setdefault(b, {})
					old = sb.get(k2)
					visits[b] = vis + 1
					if old is not None:
						self.age(s, (fid, b))
						j = self.join(old, s, (fid, b), widen=vis > 6)
						j.prev = s.prev
						self.prune(j, fr, b, pr)
						if self.same(j, old):
							continue
						if self.debug: self.debug(self, fr, b, j, old)
						sb[k2] = j
						s = j.copy()
					else:
						sb[k2] = s
						s = s.copy()
				for dst, ns in self.exec_block(fr, b, s, exits):
					if dst is None:
						continue
					ns.prev = b
					if not self.do_phis(fr, dst, ns, b):
						continue
					if dst not in pr["heads"]:
						self.prune(ns, fr, dst, pr)
					k = self.key(ns, fr, dst, True)
					pd = pending.setdefault(dst, {})
					o = pd.get(k)
					if o is None:
						pd[k] = ns
					elif self.same(o, ns):
						pass
					else:
						pd[k] = self.join(o, ns, (fid, dst, "j"))
						pd[k].prev = b
		out = []
		for (s, v, ins) in exits.values():
			if fr_parent is None:
				for c in self.checkers:
					c.on_ret(self, s, fr, ins, v)
			else:
				for c in self.checkers:
					c.on_inner_ret(self, s, fr, ins, v)
			# drop the frame
			if fr_parent is not None:
				for k in [k for k in s.mem if k[0][0] == "L" and k[0][1] == fid]:
					del s.mem[k]
				for r in [r for r in s.meta if r[0] == "L" and r[1] == fid]:
					del s.meta[r]
			s.regs = dict(saved_regs)
			s.prev = saved_prev
			out.append((s, v))
		return out

	def do_phis(self, fr, dst, st, src):
		vals = {}
		for i in fr.fn.blocks[dst]:
			if i.op != "phi":
				break
			for x, pb in i.d["in"]:
				if pb == src:
					vals[i.id] = self.val(st, fr, x)
					break
		st.regs.update(vals)
		return True

	def exec_block(self, fr, b, st, exits):
		"""Yields (successor, state)."""
		ins = fr.fn.blocks[b]
		work = [(st, 0)]
		while work:
			s, i = work.pop()
			n = len(ins)
			while i < n:
				I = ins[i]
				if I.op == "phi":
					i += 1
					continue
				if I.op in ("call", "invoke"):
					res = self.do_call(fr, s, I)
					i += 1
					if not res:
						s = None
						break
					if len(res) > 1:
						res = self.compact(res, fr)
					for ns, v in res[1:]:
						if I.ty != "void":
							ns.regs[I.id] = v
						work.append((ns, i))
					s, v = res[0]
					if I.ty != "void":
						s.regs[I.id] = v
					continue
				if I.op == "ret":
					v = self.val(s, fr, I.d["a"][0]) if I.d.get("a") else None
					self.do_ret(fr, s, I, v, exits)
					s = None
					break
				if I.op == "br":
					t = I.d["t"]
					if len(t) == 1:
						yield t[0], s
					else:
						c = self.val(s, fr, I.d["c"])
						for ck in self.checkers:
							ck.on_branch(self, s, fr, I, c)
						if c == UNDEF:
							for ck in self.checkers:
								ck.on_undef(self, s, fr, I, "branch condition")
						s2 = s.copy()
						if self.assume(s, c, True):
							s.note("%s:%d true" % (fr.fn.rel.split("/")[-1], I.ln))
							yield t[0], s
						if self.assume(s2, c, False):
							s2.note("%s:%d false" % (fr.fn.rel.split("/")[-1], I.ln))
							yield t[1], s2
					s = None
					break
				if I.op == "switch":
					c = self.val(s, fr, I.d["c"])
					w = I.d["w"]
					cases = I.d["cases"]
					if c[0] != "l":
						for d in dict.fromkeys([I.d["def"]] + [x[1] for x in cases]):
							yield d, s.copy()
					else:
						bydst = {}
						d = s.copy()
						ok = True
						for cv, dst in cases:
							cs = s.copy()
							if self.assume(cs, ("cmp", "eq", c, C(cv), w), True):
								cs.note("%s:%d case %d" % (fr.fn.rel.split("/")[-1], I.ln, cv))
								yield dst, cs
							if ok and not self.assume(d, ("cmp", "eq", c, C(cv), w), False):
								ok = False
						if ok:
							d.note("%s:%d default" % (fr.fn.rel.split("/")[-1], I.ln))
							yield I.d["def"], d
					s = None
					break
				if I.op == "unreachable":
					s = None
					break
				if I.op in ("add", "sub") and I.ty != 1:
					# arithmetic with the outcome of a comparison: one state for either outcome
					x = next((a[1] for a in I.d["a"] if a[0] == "v" and s.regs.get(a[1], ("", ))[0] == "cmp"), None)
					if x is not None:
						c = s.regs[x]
						s2 = s.copy()
						if self.assume(s2, c, False):
							s2.regs[x] = C(0)
							work.append((s2, i))
						if not self.assume(s, c, True):
							s = None
							break
						s.regs[x] = C(1)
						continue
				s = self.exec_ins(fr, s, I)
				if s is None:
					break
				i += 1

	def compact(self, res, fr):
		"""Joins the outcomes of a call that fall into one partition."""
		out = {}
		order = []
		for s, v in res:
			s.regs["$ret"] = v if v is not None else C(0)
			k = self.key(s, fr, 0, True)
			if k in out:
				out[k] = self.join(out[k], s, (fr.id, "ret", id(fr.fn) and 0))
			else:
				out[k] = s
				order.append(k)
		r = []
		for k in order:
			s = out[k]
			v = s.regs.pop("$ret", None)
			r.append((s, v))
		return r

	def do_ret(self, fr, s, ins, v, exits):
		s.regs = {}
		s.regs["$ret"] = v if v is not None else C(0)
		# locals die
		for k in [k for k in s.mem if k[0][0] == "L" and k[0][1] == fr.id]:
			if fr.parent is not None or True:
				if not getattr(self, "keep_locals", False):
					del s.mem[k]
		keep = [r for r in s.meta if r[0] == "L" and r[1] == fr.id]
		self.ret_line = ins.ln
		for c in self.checkers:
			if hasattr(c, "before_exit"):
				c.before_exit(self, s, fr, ins, v)
		self.check_leaks(s, fr, ins, skip=set(keep))
		pr = self.prep(fr.fn)
		k = (self.key(s, fr, -1, True), ins.ln if fr.parent is None and getattr(self, "split_exits", False) else 0)
		if k in exits:
			o, ov, oi = exits[k]
			j = self.join(o, s, (fr.id, "exit"))
			exits[k] = (j, j.regs.get("$ret"), oi)
		else:
			exits[k] = (s, v, ins)

	def undef_use(self, st, fr, ins, what):
		for c in self.checkers:
			c.on_undef(self, st, fr, ins, what)

	def deref(self, st, fr, ins, p, size, write):
		"""Common checks on an access; returns a pointer value or None when the path cannot go on."""
		if p == NULL or p[0] == "np":
			for c in self.checkers:
				c.on_null(self, st, fr, ins, "write" if write else "read")
			return None
		if p == UNDEF:
			self.undef_use(st, fr, ins, "pointer")
			return None
		if p[0] != "p":
			return self.fresh_ptr(st, nonnull=True)
		for c in self.checkers:
			c.on_deref(self, st, fr, ins, p, size, write)
		if p[1][0] == "D" and p[1] not in st.nonnull:
			st.nonnull |= {p[1]}
		return p

	# ---- intrusive lists (<sys/queue.h>): members are summarised, a list owns what is linked into it
	def link_field(self, st, p):
		if p[1][0] == "Q" or not is_const(p[2]):
			return None
		f = self.field_of(st, p, 8)
		if not f:
			return None
		n = f[1].rsplit(".", 1)[-1]
		return n if n in ("tqh_first", "tqh_last", "tqe_next", "tqe_prev", "lh_first", "le_next", "le_prev", "slh_first", "sle_next", "stqh_first", "stqh_last", "stqe_next") else None

	def link_load(self, st, p, size):
		if p[1][0] == "Q":
			return self.fresh_ptr(st)
		n = self.link_field(st, p)
		if n in ("tqh_last", "tqe_prev", "stqh_last", "le_prev"):
			rid = ("Q", "last" if n.endswith("last") else "prev", p[1], p[2][1])
			st.meta.setdefault(rid, {"kind": "Q", "ty": None, "size": None})
			return ("p", rid, C(0))
		return None

	def learn_type(self, st, p, v):
		m = st.meta.get(v[1])
		if m is None or m.get("ty") not in (None, "", "void", "const void"): return
		t = None
		mm = st.meta.get(p[1], {})
		if p[1][0] == "L" and is_const(p[2]) and p[2][1] == 0:
			t = mm.get("ty")
		if not t or not t.endswith("*"):
			f = self.field_of(st, p, 8)
			t = f[2] if f else None
		if not t and mm.get("ty", "") and mm["ty"].endswith("*"):
			t = mm["ty"]
		if t and t.endswith("*") and t not in ("void*", "const void*"):
			st.meta[v[1]] = dict(m, ty=t[:-1])

	def link_store(self, st, fr, I, p, v):
		if p[1][0] == "Q":
			# *tqh_last = elm (insertion) or *elm->tqe_prev = elm->tqe_next (removal)
			ins = p[1][1] == "last"
			for k in [k for k in st.mem if isinstance(k[1], int) and k[2] == 8 and self.link_field(st, ("p", k[0], C(k[1])))]:
				del st.mem[k]
			owner = p[1][2]
			if ins:
				if v[0] == "p":
					for c in self.checkers:
						if hasattr(c, "on_link"): c.on_link(self, st, fr, I, v[1])
				ft = C(p[1][3] - 8)
				m = st.meta.get(owner, {})
				ty = st.meta.get(v[1], {}).get("ty") if v[0] == "p" else None
				e = self.fresh_ptr(st, ty, nonnull=True, coll=True)
				st.mem[(owner, p[1][3] - 8, 8)] = e
			else:
				for c in self.checkers:
					if hasattr(c, "on_unlink"): c.on_unlink(self, st, fr, I, owner)
				for r, m in list(st.meta.items()):
					if m.get("kind") == "L" and not m.get("havoc"):
						s = self.prog.structs.get((m.get("ty") or "").replace("struct ", ""))
						if s and any(f[0] == "tqh_first" for f in s["fields"]):
							st.meta[r] = dict(m, havoc=True)
			return True
		n = self.link_field(st, p)
		if n is None:
			return False
		if n in ("tqh_last", "tqe_prev", "stqh_last", "le_prev"):
			return True
		if n in ("tqe_next", "stqe_next", "le_next", "sle_next"):
			return True
		return False

	def exec_ins(self, fr, st, I):
		op = I.op
		d = I.d
		R = st.regs
		if op == "alloca":
			if d["size"] < 0:
				n = self.val(st, fr, d["n"])
				st.meta[("L", fr.id, I.id)] = {"kind": "L", "ty": d.get("dity"), "size": lin_mul(n, d["esz"]) if n[0] == "l" else None, "var": d.get("var")}
			else:
				rid = ("L", fr.id, I.id)
				R[I.id] = ("p", rid, C(0))
			return st
		if op == "load":
			p = self.val(st, fr, d["a"][0])
			p = self.deref(st, fr, I, p, d["sz"], False)
			if p is None:
				return None
			v = self.link_load(st, p, d["sz"]) if I.ty == "ptr" else None
			if v is None:
				v = self.read(st, p, d["sz"], I.ty, fr, I)
			for c in self.checkers:
				c.on_load(self, st, fr, I, p, d["sz"], v)
			R[I.id] = v
			return st
		if op == "store":
			v = self.val(st, fr, d["a"][0])
			p = self.val(st, fr, d["a"][1])
			p = self.deref(st, fr, I, p, d["sz"], True)
			if p is None:
				return None
			if v == UNDEF and not (p[1][0] == "L"):
				self.undef_use(st, fr, I, "stored value")
			if v[0] == "p" and v[1][0] in "HD" and d["sz"] == 8:
				self.learn_type(st, p, v)
			if d["sz"] == 8 and self.link_store(st, fr, I, p, v):
				return st
			for c in self.checkers:
				if c.on_store(self, st, fr, I, p, d["sz"], v) == "stop": return None
			if d.get("sty", "") and isinstance(d["sty"], str) and d["sty"].startswith("agg"):
				for k in [k for k in st.mem if k[0] == p[1]]:
					del st.mem[k]
				st.meta[p[1]] = dict(st.meta.get(p[1], {}), havoc=True)
				return st
			self.write(st, p, d["sz"], v)
			return st
		if op == "getelementptr":
			R[I.id] = self.gep(fr, st, I, d["gep"])
			return st
		if op == "icmp":
			a, b = self.val(st, fr, d["a"][0]), self.val(st, fr, d["a"][1])
			if UNDEF in (a, b):
				self.undef_use(st, fr, I, "compared value")
				R[I.id] = self.fresh(st, 0, 1)
				return st
			c = ("cmp", d["pred"], a, b, d["cty"] if isinstance(d["cty"], int) else 64)
			t = self.truth(st, c)
			R[I.id] = C(1 if t else 0) if t is not None else c
			return st
		if op in ("zext", "sext", "trunc"):
			v = self.val(st, fr, d["a"][0])
			R[I.id] = self.cast(st, op, v, d["from"], I.ty)
			return st
		if op in ("bitcast", "addrspacecast", "freeze"):
			R[I.id] = self.val(st, fr, d["a"][0])
			return st
		if op == "ptrtoint":
			v = self.val(st, fr, d["a"][0])
			R[I.id] = ("pi", v) if v[0] == "p" else C(0) if v == NULL else v
			return st
		if op == "inttoptr":
			v = self.val(st, fr, d["a"][0])
			R[I.id] = v[1] if v[0] == "pi" else NULL if v == C(0) else self.fresh_ptr(st)
			return st
		if op in ("uitofp", "sitofp"):
			n = next(self.fresh_n)
			self.fpsrc[n] = (self.val(st, fr, d["a"][0]), op == "uitofp", d["from"])
			R[I.id] = ("t", n)
			return st
		if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
			a, b = self.val(st, fr, d["a"][0]), self.val(st, fr, d["a"][1])
			if UNDEF in (a, b):
				self.undef_use(st, fr, I, "arithmetic operand")
			for c in self.checkers:
				c.on_arith(self, st, fr, I, op, a, b)
			R[I.id] = self.arith(st, op, a, b, I.ty, d)
			return st
		if op == "select":
			c = self.val(st, fr, d["a"][0])
			t = self.truth(st, c)
			a, b = self.val(st, fr, d["a"][1]), self.val(st, fr, d["a"][2])
			if t is None and a != b and a[0] == "l" and b[0] == "l":
				ra, rb = self.rng(st, a), self.rng(st, b)
				R[I.id] = self.fresh(st, min(ra[0], rb[0]), max(ra[1], rb[1]))
				return st
			R[I.id] = a if t is True else b if t is False else a if a == b else self.typed_unknown(st, I.ty, 8)
			return st
		if op == "extractvalue":
			x = self.extract(self, st, self.val(st, fr, d["a"][0]), d.get("ix")) if self.extract else None
			R[I.id] = x if x is not None else self.typed_unknown(st, I.ty, 8)
			return st
		R[I.id] = self.typed_unknown(st, I.ty, 8) if I.ty != "void" else ("t", 0)
		return st

	def gep(self, fr, st, I, g):
		b = self.val(st, fr, g[1])
		off = C(g[2])
		for x, sc, n in g[3]:
			v = self.val(st, fr, x)
			if v == UNDEF:
				self.undef_use(st, fr, I, "array index")
			if v[0] == "pi":
				# pointer difference handled elsewhere
				return self.fresh_ptr(st)
			if v[0] != "l":
				v = self.fresh(st, -(1 << 63), (1 << 63) - 1)
			for c in self.checkers:
				c.on_index(self, st, fr, I, v, n)
			off = lin_add(off, lin_mul(v, sc))
		if b == NULL:
			if off == C(0):
				return NULL
			# &NULL->field: report on use
			return ("np", off)
		if b[0] == "np":
			return b
		if b == UNDEF:
			return UNDEF
		if b[0] != "p":
			return self.fresh_ptr(st)
		return ("p", b[1], lin_add(b[2], off))

	def cast(self, st, op, v, frm, to):
		if v == UNDEF or v[0] in ("cmp", "p", "n", "t"):
			if v[0] == "t":
				return self.typed_unknown(st, to, 8)
			return v
		if v[0] == "pi":
			return v if to == 64 else self.typed_unknown(st, to, 8)
		if v[0] != "l":
			return self.typed_unknown(st, to, 8)
		if op == "zext":
			if is_const(v):
				return C(v[1] & ((1 << frm) - 1))
			lo, hi = self.rng(st, v)
			if lo >= 0 and hi < (1 << frm):
				return v
			if self.ge0(st, v):
				return v
			return self.derived(st, ("zx", v, frm), 0, (1 << frm) - 1)
		if op == "sext":
			if is_const(v):
				return C(self.sx(v[1], frm))
			lo, hi = self.rng(st, v)
			if hi < (1 << (frm - 1)) and lo >= -(1 << (frm - 1)):
				return v
			if (lo >= -(1 << (frm - 1)) or self.ge0(st, v)) and self.le0(st, lin_add(v, C(1 - (1 << (frm - 1))))):
				return v
			return self.derived(st, ("sx", v, frm), -(1 << (frm - 1)), (1 << (frm - 1)) - 1)
		# trunc
		if is_const(v):
			if to == 1:
				return C(v[1] & 1)
			return C(self.sx(v[1], to))
		lo, hi = self.rng(st, v)
		if lo >= -(1 << (to - 1)) and hi < (1 << to):
			return v
		return self.derived(st, ("tr", v, to), -(1 << (to - 1)), (1 << (to - 1)) - 1)

	def binop_div(self, st, a, k, lo, hi):
		q = self.derived(st, ("div", a, k), lo // k if lo >= 0 else 0, hi // k)
		# k*q <= a  and  a <= k*q + k-1
		st.cons |= {lin_add(lin_mul(q, k), a, -1), lin_add(lin_add(a, lin_mul(q, k), -1), C(-(k - 1)))}
		if a[1] >= 0 and k > 1 and len(a[2]) == 2 and a[2][0][1] > 0 > a[2][1][1] or a[2][0][1] < 0 < a[2][-1][1] and len(a[2]) == 2:
			if self.ge0(st, a): st.cons |= {lin_add(q, a, -1)}
		elif k == 2 and abs(a[1]) <= 4 and len(a[2]) == 2 and a[2][0][1] == a[2][1][1] == 1:
			# the middle of two values lies between them
			for m, n in ((0, 1), (1, 0)):
				for e in (2, 1, 0, -1, -2):
					x, y = ("l", e, ((a[2][m][0], 1),)), ("l", a[1] - e, ((a[2][n][0], 1),))
					if self.le0(st, lin_add(x, y, -1)):
						st.cons |= {lin_add(x, q, -1), lin_add(q, y, -1)}
						break
				else: continue
				break
		return q
	def derived(self, st, name, lo, hi):
		"""A symbol that is a function of another value: the same expression gives the same symbol."""
		sid = self.intern(name)
		if sid not in st.info:
			st.info[sid] = (lo, hi, False)
		return ("l", 0, ((sid, 1),))

	def intern(self, name):
		r = self.dnames.get(name)
		if r is None:
			depth = 1
			for x in name:
				if type(x) is tuple and x and x[0] == "l":
					for s, _ in x[2]:
						if s[0] == "d":
							depth = max(depth, self.ddefs[s[1]][1] + 1)
			if depth > 5:
				return ("f", next(self.fresh_n))
			n = len(self.ddefs)
			r = self.dnames[name] = ("d", n)
			self.ddefs.append((name, depth))
		return r

	def arith(self, st, op, a, b, w, d):
		if a[0] == "pi" or b[0] == "pi":
			if op == "sub" and a[0] == "pi" and b[0] == "pi" and a[1][0] == "p" and b[1][0] == "p" and a[1][1] == b[1][1]:
				return lin_add(a[1][2], b[1][2], -1)
			if op in ("add", "sub") and a[0] == "pi" and b[0] == "l":
				return ("pi", ("p", a[1][1], lin_add(a[1][2], b, 1 if op == "add" else -1)))
			return self.fresh(st, -(1 << 63), (1 << 63) - 1)
		if not isinstance(w, int):
			return ("t", next(self.fresh_n))
		if a[0] == "cmp" or b[0] == "cmp":
			if w == 1 and op == "xor" and b == C(1) and a[0] == "cmp":
				return ("cmp", self.NEG[a[1]], a[2], a[3], a[4])
			return self.fresh(st, -(1 << (w - 1)) if w > 1 else 0, (1 << (w - 1)) - 1 if w > 1 else 1)
		if a[0] != "l" or b[0] != "l":
			return self.fresh(st, -(1 << (w - 1)), (1 << (w - 1)) - 1)
		M = (1 << w) - 1
		if is_const(a) and is_const(b):
			x, y = a[1], b[1]
			ux, uy = x & M, y & M
			try:
				r = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "and": lambda: ux & uy, "or": lambda: ux | uy, "xor": lambda: ux ^ uy,
					"shl": lambda: ux << uy if uy < w else 0, "lshr": lambda: ux >> uy if uy < w else 0, "ashr": lambda: self.sx(x, w) >> uy if uy < w else 0,
					"udiv": lambda: ux // uy, "urem": lambda: ux % uy, "sdiv": lambda: int(x / y) if abs(x) < 2**50 else x // y, "srem": lambda: x - int(x / y) * y}[op]()
			except ZeroDivisionError:
				return self.fresh(st)
			if w == 1:
				return C(r & 1)
			return C(self.sx(r, w))
		if op in ("or", "xor") and C(0) in (a, b): return b if a == C(0) else a
		if op in ("and", "or") and a == b: return a
		if op in ("add", "sub"):
			r = lin_add(a, b, 1 if op == "add" else -1)
			return self.fit(st, r, w, d)
		if op == "mul" and (is_const(a) or is_const(b)):
			r = lin_mul(a, b[1]) if is_const(b) else lin_mul(b, a[1])
			return self.fit(st, r, w, d)
		if op == "shl" and is_const(b) and 0 <= b[1] < w:
			return self.fit(st, lin_mul(a, 1 << b[1]), w, d)
		lo, hi = self.rng(st, a)
		if op == "and" and is_const(b) and b[1] >= 0:
			if 0 <= lo and hi <= b[1] and (b[1] & (b[1] + 1)) == 0:
				return a
			return self.derived(st, ("and", a, b[1]), 0, min(b[1], hi) if lo >= 0 else b[1])
		if op in ("urem", "srem") and is_const(b) and b[1] > 0:
			if 0 <= lo and hi < b[1]:
				return a
			if lo >= 0:
				# a - k * (a / k)
				r = self.derived(st, (op, a, b[1]), 0, b[1] - 1)
				e = lin_add(lin_add(a, lin_mul(self.binop_div(st, a, b[1], lo, hi), b[1]), -1), r, -1)
				st.cons |= {e, lin_mul(e, -1)}
				return r
			return self.derived(st, (op, a, b[1]), 0 if op == "urem" else -b[1] + 1, b[1] - 1)
		if op in ("udiv", "sdiv", "lshr", "ashr") and is_const(b) and (lo >= 0 or len(a[2]) == 2 and self.ge0(st, a)) and b[1] >= 0:
			k = b[1] if op in ("udiv", "sdiv") else 1 << b[1]
			if k: return self.binop_div(st, a, k, lo, hi)
		if op == "udiv" and is_const(b) and b[1] > 1:
			return self.fresh(st, 0, M // b[1])
		if op == "sub" or op == "xor":
			pass
		lob, hib = self.rng(st, b)
		if op == "or" and lo >= 0 and lob >= 0:
			return self.derived(st, ("or", a, b), max(lo, lob), (1 << max(hi, hib).bit_length()) - 1 if max(hi, hib) < INF else INF)
		if op == "and" and (lob >= 0 or lo >= 0):
			return self.derived(st, ("and2", a, b), 0, min(hib if lob >= 0 else INF, hi if lo >= 0 else INF))
		return self.fresh(st, -(1 << (w - 1)), M if op in ("lshr", "udiv", "urem") else (1 << (w - 1)) - 1)

	def fit(self, st, r, w, d):
		"""r as a w-bit result: exact when it provably does not wrap (or wrapping is undefined behaviour)."""
		if d.get("nsw"):
			return r
		lo, hi = self.rng(st, r)
		if lo >= -(1 << (w - 1)) and hi <= (1 << w) - 1:
			return r
		lo_ok = lo >= -(1 << (w - 1)) or self.ge0(st, r)
		hi_ok = hi <= (1 << w) - 1 or self.le0(st, lin_add(r, C(-((1 << w) - 1))))
		if lo_ok and hi_ok:
			return r
		return self.derived(st, ("wrap", r, w), -(1 << (w - 1)), (1 << w) - 1)

	# ---- calls
	def do_call(self, fr, st, I):
		d = I.d
		name = d.get("fn")
		args = [self.val(st, fr, a) for a in d["a"]]
		if name is None:
			f = self.val(st, fr, d["ind"]) if "ind" in d else None
			if f is not None and f[0] == "f":
				name = f[1]
			elif f is not None and f[0] == "p" and (st.meta.get(f[1], {}).get("src") or (0, ""))[1] and "->" + str(st.meta[f[1]]["src"][1]) in self.models:
				name = "->" + st.meta[f[1]]["src"][1]
			elif f == NULL:
				for c in self.checkers:
					c.on_null(self, st, fr, I, "call through")
				return []
		if name is None:
			for c in self.checkers:
				c.on_call(self, st, fr, I, "<indirect>", args)
			return self.unknown_call(fr, st, I, "<indirect>", args)
		for c in self.checkers:
			c.on_call(self, st, fr, I, name, args)
		m = self.models.get(name)
		if m is None and name.startswith("llvm."):
			base = name.split(".")[1]
			m = INTRINSICS.get(base)
		if m is not None:
			r = m(self, fr, st, I, args)
			if r is not NotImplemented:
				return r
		body = self.prog.lookup(fr.fn.unit, name)
		if d.get("noreturn") or (body is None and self.prog.decls.get(name, {}).get("noreturn")):
			for c in self.checkers:
				c.on_noreturn(self, st, fr, I, name)
			return []
		if body is not None and self.inline and name not in self.noinline and fr.depth < self.MAXDEPTH and name not in fr.chain():
			st.note("call %s:%d %s" % (fr.fn.rel.split("/")[-1], I.ln, name))
			for i in d.get("byval", ()):
				# callee works on its own copy
				args[i] = self.fresh_ptr(st, nonnull=True)
			return self.run(body, st, args, fr, I)
		return self.unknown_call(fr, st, I, name, args)

	_mods = {}
	def param_mods(self, fn):
		"""What a function may write through each of its pointer parameters themselves: 'all' or a set of (offset, size)."""
		k = (id(self.prog), fn.unit.rel, fn.name)
		if k in self._mods:
			return self._mods[k]
		mods = self._mods[k] = [set() for _ in fn.params]
		home = {}
		for b in fn.blocks:
			for i in b:
				if i.op == "store" and i.d["a"][0][0] == "v" and i.d["a"][0][1] < len(fn.params) and i.d["a"][1][0] == "v" and i.d["a"][1][1] in fn.allocas:
					home.setdefault(i.d["a"][1][1], []).append(i.d["a"][0][1])
				elif i.op == "store" and i.d["a"][1][0] == "v" and i.d["a"][1][1] in fn.allocas:
					home.setdefault(i.d["a"][1][1], []).append(None)
		home = {a: v[0] for a, v in home.items() if len(v) == 1 and v[0] is not None}
		def trace(v):
			if v[0] != "v": return None
			if v[1] < len(fn.params): return (v[1], 0)
			i = fn.instrs.get(v[1])
			if i is None: return None
			if i.op == "load" and i.d["a"][0][0] == "v" and i.d["a"][0][1] in home:
				return (home[i.d["a"][0][1]], 0)
			if i.op == "getelementptr":
				g = i.d["gep"]
				t = trace(g[1])
				if t is None: return None
				return (t[0], t[1] + g[2] if t[1] is not None and not g[3] else None)
			return None
		for b in fn.blocks:
			for i in b:
				if i.op == "store":
					t = trace(i.d["a"][1])
					if t is not None and mods[t[0]] != "all":
						mods[t[0]] = "all" if t[1] is None else mods[t[0]] | {(t[1], i.d.get("sz", 8))}
				elif i.op in ("call", "invoke"):
					n = i.d.get("fn")
					body = self.prog.lookup(fn.unit, n) if n else None
					for j, a in enumerate(i.d["a"]):
						t = trace(a)
						if t is None or mods[t[0]] == "all": continue
						if body is not None and j < len(body.params):
							m = self.param_mods(body)[j]
							mods[t[0]] = "all" if m == "all" or (m and t[1] is None) else mods[t[0]] | {(o + t[1], z) for o, z in m}
						elif n in READS_ONLY or (n or "").startswith("llvm.dbg"):
							pass
						else:
							mods[t[0]] = "all"
		self._mods[k] = mods
		return mods

	def unknown_call(self, fr, st, I, name, args):
		self.havoced_calls.add(name)
		body = self.prog.lookup(fr.fn.unit, name)
		if body is not None:
			for a, m in zip(args, self.param_mods(body)):
				if a[0] != "p" or a[1][0] not in "LHD": continue
				if m == "all" or (m and not is_const(a[2])):
					self.havoc_region(st, a[1])
					continue
				for o, z in m:
					lo = a[2][1] + o
					for k in [k for k in st.mem if k[0] == a[1] and (not isinstance(k[1], int) or (k[1] < lo + z and lo < k[1] + k[2]))]:
						del st.mem[k]
				if m:
					mm = st.meta.get(a[1], {})
					if mm.get("kind") == "D": st.meta[a[1]] = dict(mm, wild=True)
					elif mm.get("zero") or mm.get("kind") == "L": st.meta[a[1]] = dict(mm, havoc=True)
			args = ()
		for a in args:
			if a[0] == "p" and a[1][0] in "LH":
				self.havoc_region(st, a[1])
			elif a[0] == "p" and a[1][0] == "D":
				self.havoc_region(st, a[1])
		v = None
		if I.ty != "void":
			body = self.prog.lookup(fr.fn.unit, name)
			fty = body.sig[0] if body is not None and body.sig else None
			v = self.typed_unknown(st, I.ty, 8, fty)
		out = [(st, v)]
		for c in self.checkers:
			out = [o for s, w in out for o in c.on_unknown(self, s, fr, I, name, w)]
		return out

	# ---- entry
	def entry(self, fn, setup=None, optional=()):
		"""Analyses fn as an entry point with unknown, correctly typed arguments."""
		self.top = fn
		st = State()
		args = []
		for i, p in enumerate(fn.params):
			ty = fn.sig[i + 1] if i + 1 < len(fn.sig) else None
			if p["ty"] == "ptr":
				t = ty
				if t and t.endswith("*"):
					t = t[:-1]
				a = self.fresh_ptr(st, t, nonnull=(i not in optional), name=("k", fn.name, i), keep=True, param=i)
			else:
				a = self.typed_unknown(st, p["ty"], 8, ty, name=("k", fn.name, i))
			args.append(a)
		if setup:
			setup(self, st, args)
		return self.run(fn, st, args)

def _ceil_div(a, k):
	# smallest integer >= a/k for k > 0
	return -((-a) // k)

# ---- built-in models -----------------------------------------------------------------------------

def m_ret(lo, hi):
	def f(I, fr, st, ins, args):
		return [(st, I.fresh(st, lo, hi))]
	return f

def const_len(I, st, v):
	v = I.resolve(st, v)
	return v[1] if is_const(v) else None

def copy_mem(I, st, dst, src, n):
	"""memcpy of a constant number of bytes."""
	if dst[0] != "p":
		return
	if n is None or src[0] != "p" or not is_const(dst[2]):
		I.havoc_region(st, dst[1])
		return
	if not is_const(src[2]):
		cells = None
	else:
		so = src[2][1]
		cells = {k: v for k, v in st.mem.items() if k[0] == src[1] and isinstance(k[1], int) and so <= k[1] and k[1] + k[2] <= so + n}
	m = st.meta.get(src[1], {})
	do = dst[2][1]
	for k in [k for k in st.mem if k[0] == dst[1] and (not isinstance(k[1], int) or (k[1] < do + n and do < k[1] + k[2]))]:
		del st.mem[k]
	md = st.meta.get(dst[1], {})
	if m.get("kind") == "L" and not m.get("havoc") and not m.get("zero") and cells is not None:
		pass
	elif m.get("zero") and not m.get("havoc") and cells is not None:
		for b in range(n):
			st.mem[(dst[1], do + b, 1)] = C(0)
	elif m.get("kind") == "G" and cells is not None and n <= 64:
		for b in range(n):
			v = I.global_read(st, src[1], src[2][1] + b, 1, 8)
			st.mem[(dst[1], do + b, 1)] = v if v is not None else I.fresh(st, -128, 127)
	else:
		st.meta[dst[1]] = dict(md, havoc=True)
	for k, v in (cells or {}).items():
		o = k[1] - src[2][1] + do
		for kk in [kk for kk in st.mem if kk[0] == dst[1] and isinstance(kk[1], int) and kk[1] < o + k[2] and o < kk[1] + kk[2]]:
			del st.mem[kk]
		st.mem[(dst[1], o, k[2])] = v

def m_memcpy(I, fr, st, ins, args):
	n = const_len(I, st, args[2]) if args[2][0] == "l" else None
	d = I.deref(st, fr, ins, args[0], args[2], True)
	s = I.deref(st, fr, ins, args[1], args[2], False)
	if d is None or s is None:
		return []
	copy_mem(I, st, d, s, n)
	return [(st, args[0])]

def m_memset(I, fr, st, ins, args):
	d = I.deref(st, fr, ins, args[0], args[2], True)
	if d is None:
		return []
	n = const_len(I, st, args[2]) if args[2][0] == "l" else None
	if n is None or not is_const(d[2]):
		I.havoc_region(st, d[1])
		return [(st, args[0])]
	o = d[2][1]
	m = st.meta.get(d[1], {})
	for k in [k for k in st.mem if k[0] == d[1] and (not isinstance(k[1], int) or (k[1] < o + n and o < k[1] + k[2]))]:
		del st.mem[k]
	sz = m.get("size")
	b = args[1][1] if is_const(args[1]) else None
	if b == 0 and o == 0 and sz is not None and is_const(sz) and sz[1] <= n:
		st.meta[d[1]] = dict(m, zero=True, havoc=False)
	elif n <= 256:
		for i in range(n):
			st.mem[(d[1], o + i, 1)] = C(I.sx(b, 8)) if b is not None else I.fresh(st, -128, 127)
	else:
		st.meta[d[1]] = dict(m, havoc=True)
	return [(st, args[0])]

def site(fr, ins):
	return (fr.fn.name, ins.id)

def m_alloc(zero, sizef, undef=True):
	def f(I, fr, st, ins, args):
		f2 = st.copy()
		f2.note("%s:%d allocation fails" % (fr.fn.rel.split("/")[-1], ins.ln))
		p = I.new_heap(st, site(fr, ins), size=sizef(I, st, args), zero=zero, undef=not zero and undef, cls="malloc", ln=ins.ln, fn=fr.fn.name)
		return [(st, p), (f2, NULL)]
	return f

def sz_mul(I, st, args):
	a, b = args[0], args[1]
	if a[0] == "l" and b[0] == "l" and is_const(a):
		return lin_mul(b, a[1])
	if a[0] == "l" and b[0] == "l" and is_const(b):
		return lin_mul(a, b[1])
	return None

def m_free(I, fr, st, ins, args):
	p = args[0]
	if p == NULL:
		return [(st, None)]
	if p == UNDEF:
		I.undef_use(st, fr, ins, "freed pointer")
		return []
	if p[0] == "p":
		for c in I.checkers:
			c.on_free(I, st, fr, ins, p[1])
		st.own.pop(p[1], None)
		st.held.pop(p[1], None)
		st.rel[p[1]] = "%s:%d" % (fr.fn.rel, ins.ln)
	return [(st, None)]

def m_realloc(I, fr, st, ins, args):
	p = args[0]
	fail = st.copy()
	fail.note("%s:%d realloc fails" % (fr.fn.rel.split("/")[-1], ins.ln))
	if p == UNDEF:
		I.undef_use(st, fr, ins, "pointer"); return []
	ty = st.meta.get(p[1], {}).get("ty") if p[0] == "p" else None
	if p[0] == "p":
		for c in I.checkers:
			c.on_free(I, st, fr, ins, p[1])
		st.own.pop(p[1], None)
		st.held.pop(p[1], None)
		st.rel[p[1]] = "%s:%d" % (fr.fn.rel, ins.ln)
	size = args[1] if ins.d["fn"] == "realloc" else sz_mul(I, st, args[1:])
	n = I.new_heap(st, site(fr, ins), size=size if size and size[0] == "l" else None, cls="malloc", ty=ty, ln=ins.ln, fn=fr.fn.name)
	return [(st, n), (fail, NULL)]

def m_strdup(I, fr, st, ins, args):
	p = I.deref(st, fr, ins, args[0], 1, False)
	if p is None:
		return []
	f2 = st.copy()
	f2.note("%s:%d allocation fails" % (fr.fn.rel.split("/")[-1], ins.ln))
	n = I.new_heap(st, site(fr, ins), cls="malloc", ty="char", ln=ins.ln, fn=fr.fn.name)
	return [(st, n), (f2, NULL)]

def m_asprintf(I, fr, st, ins, args):
	p = I.deref(st, fr, ins, args[0], 8, True)
	if p is None:
		return []
	f2 = st.copy()
	f2.note("%s:%d asprintf fails" % (fr.fn.rel.split("/")[-1], ins.ln))
	n = I.new_heap(st, site(fr, ins), cls="malloc", ty="char", ln=ins.ln, fn=fr.fn.name)
	p = I.val(st, fr, ins.d["a"][0])
	I.write(st, p, 8, n)
	return [(st, I.fresh(st, 0, 1 << 30)), (f2, C(-1))]

def reads(*idx):
	"""External function that only reads the memory of its pointer arguments."""
	def f(I, fr, st, ins, args):
		for i in idx:
			if i < len(args):
				p = I.deref(st, fr, ins, args[i], 1, False)
				if p is None:
					return []
		v = None
		if ins.ty != "void":
			v = I.typed_unknown(st, ins.ty, 8)
		return [(st, v)]
	return f

def fills(i, n=1, lo=None, hi=None, also=()):
	"""External function that fills the buffer its i-th argument points to and reads those in also."""
	def f(I, fr, st, ins, args):
		for j in also:
			if I.deref(st, fr, ins, args[j], 1, False) is None: return []
		p = I.deref(st, fr, ins, args[i], n, True)
		if p is None: return []
		I.havoc_region(st, p[1])
		if ins.ty == "void": return [(st, None)]
		if lo is not None: return [(st, I.fresh(st, lo, hi))]
		return [(st, I.typed_unknown(st, ins.ty, 8))]
	return f

def pure(lo=None, hi=None, nonnull=False):
	def f(I, fr, st, ins, args):
		if ins.ty == "void":
			return [(st, None)]
		if ins.ty == "ptr":
			return [(st, I.fresh_ptr(st, nonnull=nonnull))]
		if lo is not None:
			return [(st, I.fresh(st, lo, hi))]
		return [(st, I.typed_unknown(st, ins.ty, 8))]
	return f

def m_bswap(I, fr, st, ins, args):
	a = args[0]
	w = ins.ty
	if is_const(a):
		n = int.from_bytes((a[1] & ((1 << w) - 1)).to_bytes(w // 8, "little"), "big")
		return [(st, C(I.sx(n, w)))]
	if a[0] == "l":
		if len(a[2]) == 1 and a[1] == 0 and a[2][0][1] == 1 and a[2][0][0][0] == "d" and I.ddefs[a[2][0][0][1]][0][0] == "bswap":
			return [(st, I.ddefs[a[2][0][0][1]][0][1])]
		return [(st, I.derived(st, ("bswap", a, w), 0, (1 << w) - 1))]
	return [(st, I.fresh(st, 0, (1 << w) - 1))]

def m_strlen(I, fr, st, ins, a):
	p = I.deref(st, fr, ins, a[0], 1, False)
	if p is None:
		return []
	if p[0] == "p" and p[1][0] == "G" and is_const(p[2]):
		n = set()
		for u in I.prog.units:
			g = u.globals.get(p[1][1])
			if g and g.get("const") and g.get("init", ("",))[0] == "zero" and p[2][1] < g["init"][1]: n.add(0)
			if g and g.get("const") and g.get("init", ("",))[0] == "str":
				b = bytes.fromhex(g["init"][1])[p[2][1]:]
				n.add(b.index(0) if 0 in b else None)
		# private strings have the same name in several units
		if len(n) == 1 and None not in n: return [(st, C(n.pop()))]
	v = I.fresh(st, 0, 1 << 40)
	# strings end inside the object they lie in
	z = st.meta.get(p[1], {}).get("size") if p[0] == "p" else None
	if isinstance(z, int): z = C(z)
	if z is not None and z[0] == "l" and p[2][0] == "l": I.add_le(st, lin_add(lin_add(lin_add(v, p[2]), C(1)), z, -1))
	return [(st, v)]

def m_errno(I, fr, st, ins, args):
	rid = ("G", "errno")
	if rid not in st.meta:
		st.meta[rid] = {"kind": "G", "ty": "int", "size": C(4)}
		st.nonnull |= {rid}
	return [(st, ("p", rid, C(0)))]

def m_lpad_minmax(k):
	def f(I, fr, st, ins, args):
		return [(st, I.typed_unknown(st, ins.ty, 8))]
	return f

def m_ctz(I, fr, st, ins, args):
	return [(st, I.fresh(st, 0, ins.ty if isinstance(ins.ty, int) else 64))]

INTRINSICS = {
	"memcpy": m_memcpy, "memmove": m_memcpy, "memset": m_memset, "bswap": m_bswap, "htonl": m_bswap, "ntohl": m_bswap, "htons": m_bswap, "ntohs": m_bswap,
	"ctlz": m_ctz, "cttz": m_ctz, "ctpop": m_ctz, "va_start": pure(), "va_end": pure(), "va_copy": pure(), "expect": lambda I, fr, st, ins, a: [(st, a[0])],
	"assume": pure(), "stacksave": pure(), "stackrestore": pure(), "umax": pure(), "umin": pure(), "smax": pure(), "smin": pure(), "abs": pure(),
	"dbg": pure(), "is": pure(), "objectsize": pure(), "trap": pure(),
}

READS_ONLY = {"strlen", "strcmp", "strncmp", "strcasecmp", "memcmp", "strcasestr", "strstr", "strchr", "strrchr", "atoi", "loc_log", "loc_get_log_priority", "fprintf", "printf", "strdup", "free"}

BASE_MODELS = {
	"malloc": m_alloc(False, lambda I, st, a: a[0] if a[0][0] == "l" else None),
	"calloc": m_alloc(True, sz_mul), "realloc": m_realloc, "reallocarray": m_realloc, "free": m_free,
	"strdup": m_strdup, "strndup": m_strdup, "asprintf": m_asprintf, "vasprintf": m_asprintf,
	"memcpy": m_memcpy, "memmove": m_memcpy, "memset": m_memset,
	"__errno_location": m_errno, "htonl": m_bswap, "ntohl": m_bswap, "htons": m_bswap, "ntohs": m_bswap,
	"strlen": m_strlen,
	"strcmp": reads(0, 1), "strncmp": reads(0, 1), "strcasecmp": reads(0, 1), "memcmp": reads(0, 1), "strcasestr": reads(0, 1), "strstr": reads(0, 1), "strchr": reads(0),
	"strrchr": reads(0), "atoi": reads(0),
	"inet_pton": fills(2, 4, -1, 1, also=(1,)), 
	"time": pure(0, 1 << 40), "clock": pure(0, 1 << 60), "tolower": pure(0, 255), "toupper": pure(0, 255), "isalpha": pure(),
	"__ctype_b_loc": pure(nonnull=True), "__ctype_tolower_loc": pure(nonnull=True), "__ctype_toupper_loc": pure(nonnull=True),
	"ERR_get_error": pure(), "ERR_error_string": pure(nonnull=True), "strerror": pure(nonnull=True),
	"getenv": pure(), "secure_getenv": pure(), "fileno": pure(0, 1 << 30), "loc_get_log_priority": pure(0, 7),
	"loc_log": pure(), "fprintf": pure(), "printf": pure(), "vfprintf": pure(), "feof": pure(), "ferror": pure(), "rewind": pure(),
}
