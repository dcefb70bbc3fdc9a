"""Where every single bit of a value comes from: dataflow over the domain of boolean functions of at most LIMIT input bits.
Used for the primitives on addresses, whose loops have constant bounds. A branch that the domain cannot decide ends the analysis of that function
(Undecided); nothing is executed and no solver is asked."""
from frontend import AnalysisError

LIMIT = 4
ZERO, ONE = ((), (0,)), ((), (1,))
TOP = None

class Undecided(Exception): pass

def var(*k): return ((k,), (0, 1))
def combine(f, *xs):
	"""f on bits, canonical: no variable without influence."""
	if any(x is TOP for x in xs):
		# a constant may still decide
		r = {f(*c) for c in _cases(xs)}
		return (ZERO, ONE)[r.pop()] if len(r) == 1 else TOP
	vs = sorted({v for x in xs for v in x[0]}, key=repr)
	if len(vs) > LIMIT: return TOP
	t = []
	for m in range(1 << len(vs)):
		env = {v: m >> i & 1 for i, v in enumerate(vs)}
		t.append(f(*(x[1][sum(env[v] << i for i, v in enumerate(x[0]))] for x in xs)))
	for i in reversed(range(len(vs))):
		if all(t[m] == t[m ^ (1 << i)] for m in range(len(t))):
			t = [t[m] for m in range(len(t)) if not m >> i & 1]
			vs.pop(i)
	return (tuple(vs), tuple(t))
def _cases(xs):
	out = [()]
	for x in xs:
		out = [o + (c,) for o in out for c in ((x[1][0],) if x is not TOP and not x[0] else (0, 1))]
	return out
def const(n, w): return tuple(ONE if n >> i & 1 else ZERO for i in range(w))
def number(b):
	"""Value of bits that are all known, else None."""
	if any(x is TOP or x[0] for x in b): return None
	return sum(x[1][0] << i for i, x in enumerate(b))
def signed(n, w): return n - (1 << w) if n >> (w - 1) & 1 else n
def add(a, b, c=ZERO):
	out = []
	for x, y in zip(a, b):
		out.append(combine(lambda p, q, r: p ^ q ^ r, x, y, c))
		c = combine(lambda p, q, r: (p & q) | (p & r) | (q & r), x, y, c)
	return tuple(out)
def inv(a): return tuple(combine(lambda p: 1 - p, x) for x in a)

class Bits:
	def __init__(self, prog, order=None, steps=20000):
		self.prog, self.order, self.steps = prog, order, steps
		self.mem, self.n = {}, 0
	def region(self, name, size=16):
		self.mem[name] = {i: tuple(var(name, i, j) for j in range(8)) for i in range(size)}
		return ("ptr", name, 0)
	def load(self, p, n):
		if p[0] != "ptr" or p[2] is None: raise Undecided("address")
		m = self.mem.get(p[1])
		if m is None: raise Undecided("region")
		out = ()
		for i in range(n):
			if p[2] + i not in m: raise Undecided("read of byte %d of %s" % (p[2] + i, p[1]))
			x = m[p[2] + i]
			if x and x[0] == "ptr":
				if n == 8 and i == 0: return x
				raise Undecided("pointer")
			out += x
		return out
	def store(self, p, v, n):
		if p[0] != "ptr" or p[2] is None: raise Undecided("address")
		m = self.mem.setdefault(p[1], {})
		if v[0] == "ptr":
			for i in range(n): m[p[2] + i] = v
			return
		for i in range(n): m[p[2] + i] = tuple(v[8 * i:8 * i + 8])
	def call(self, f, args, depth=0):
		if depth > 6: raise Undecided("depth")
		env = dict(enumerate(args))
		fid = (f.name, self.n)
		b, prev = 0, None
		while True:
			for i in f.blocks[b]:
				self.n += 1
				if self.n > self.steps: raise Undecided("steps")
				if i.op == "ret": return self.val(f, env, i.d["a"][0]) if i.d["a"] else None
				if i.op == "br":
					t = i.d["t"]
					if len(t) == 1: nb = t[0]
					else:
						c = number(self.val(f, env, i.d["c"]))
						if c is None: raise Undecided("branch in line %d" % i.ln)
						nb = t[0] if c else t[1]
					break
				if i.op == "phi":
					v = [x for x, src in i.d["in"] if src == prev]
					if not v: raise Undecided("phi")
					env[i.id] = self.val(f, env, v[0])
					continue
				env[i.id] = self.ins(f, env, i, fid, depth)
			else: raise Undecided("end of block")
			b, prev = nb, b
	def val(self, f, env, v):
		if v[0] == "v":
			if v[1] not in env or env[v[1]] is None: raise Undecided("value")
			return env[v[1]]
		if v[0] == "i": return const(v[2] & ((1 << v[1]) - 1), v[1])
		if v[0] == "null": return ("ptr", "null", 0)
		if v[0] == "gep": return self.gep(f, env, v)
		raise Undecided("operand %s" % v[0])
	def gep(self, f, env, g):
		p = self.val(f, env, g[1])
		if p[0] != "ptr": raise Undecided("address")
		o = p[2] + g[2]
		for idx, k, _ in g[3]:
			v = self.val(f, env, idx)
			n = number(v)
			if n is None: raise Undecided("index")
			o += signed(n, len(v)) * k
		return ("ptr", p[1], o)
	def ins(self, f, env, i, fid, depth):
		op = i.op
		if op == "alloca":
			self.mem[(fid, i.id)] = {}
			return ("ptr", (fid, i.id), 0)
		if op == "getelementptr": return self.gep(f, env, i.d["gep"])
		if op in ("call", "invoke"): return self.do_call(f, env, i, depth)
		a = [self.val(f, env, x) for x in i.d["a"]]
		if op == "store": self.store(a[1], a[0], i.d["sz"]); return None
		if op == "load":
			v = self.load(a[0], i.d["sz"])
			return v if v[0] == "ptr" or not isinstance(i.ty, int) else v[:i.ty]
		if op == "select":
			c = number(a[0])
			if c is None: raise Undecided("select")
			return a[1] if c else a[2]
		if any(x[0] == "ptr" for x in a): raise Undecided(op)
		if op == "zext": return a[0] + (ZERO,) * (i.ty - len(a[0]))
		if op == "sext": return a[0] + (a[0][-1],) * (i.ty - len(a[0]))
		if op == "trunc": return a[0][:i.ty]
		w = len(a[0])
		if op == "and": return tuple(combine(lambda p, q: p & q, x, y) for x, y in zip(*a))
		if op == "or": return tuple(combine(lambda p, q: p | q, x, y) for x, y in zip(*a))
		if op == "xor": return tuple(combine(lambda p, q: p ^ q, x, y) for x, y in zip(*a))
		if op == "add": return add(*a)
		if op == "sub": return add(a[0], inv(a[1]), ONE)
		if op == "icmp": return (self.icmp(i.d["pred"], *a),)
		n, k = number(a[0]), number(a[1]) if len(a) > 1 else None
		if op in ("shl", "lshr", "ashr"):
			if k is None or k >= w: raise Undecided(op)
			if op == "shl": return (ZERO,) * k + a[0][:w - k]
			return a[0][k:] + (ZERO if op == "lshr" else a[0][-1],) * k
		if op == "mul" and n is not None and k is not None: return const(n * k & ((1 << w) - 1), w)
		if op in ("udiv", "urem") and k:
			if n is not None: return const(n // k if op == "udiv" else n % k, w)
			if k & (k - 1) == 0:
				s = k.bit_length() - 1
				return a[0][s:] + (ZERO,) * s if op == "udiv" else a[0][:s] + (ZERO,) * (w - s)
		if op in ("sdiv", "srem") and k and n is not None:
			x, y = signed(n, w), signed(k, w)
			q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
			return const((q if op == "sdiv" else x - q * y) & ((1 << w) - 1), w)
		raise Undecided(op)
	def octets(self, b):
		"""Bytes of an input the bits are, most significant first."""
		out = []
		for j in range(0, len(b), 8):
			o = b[j:j + 8]
			if number(o) == 0: out.append(None); continue
			if len(o) != 8 or o[0] is TOP or len(o[0][0]) != 1: return None
			r, i, _ = o[0][0][0]
			if o != tuple(var(r, i, k) for k in range(8)): return None
			out.append((r, i))
		out.reverse()
		while out and out[0] is None: out.pop(0)
		return out if None not in out else None
	def icmp(self, pred, a, b):
		w = len(a)
		x, y = number(a), number(b)
		if x is not None and y is not None:
			if pred[0] == "s": x, y = signed(x, w), signed(y, w)
			return (ZERO, ONE)[{"eq": x == y, "ne": x != y, "gt": x > y, "ge": x >= y, "lt": x < y, "le": x <= y}[pred if pred in ("eq", "ne") else pred[1:]]]
		if self.order:
			p, q = self.octets(a), self.octets(b)
			if p and q and len(p) == len(q) and [i for _, i in p] == [i for _, i in q] and len({r for r, _ in p}) == 1 and len({r for r, _ in q}) == 1 and not (pred[0] == "s" and 8 * len(p) == w):
				c = self.compare(p[0][0], q[0][0], [i for _, i in p])
				return (ZERO, ONE)[{"eq": c == 0, "ne": c != 0, "gt": c > 0, "ge": c >= 0, "lt": c < 0, "le": c <= 0}[pred if pred in ("eq", "ne") else pred[1:]]]
		if pred[0] == "u" and len(pred) == 3:
			# all values of one are on the same side of all values of the other
			lo = [sum((1 if b is not TOP and b == ONE else 0) << i for i, b in enumerate(v)) for v in (a, b)]
			hi = [sum((0 if b is not TOP and b == ZERO else 1) << i for i, b in enumerate(v)) for v in (a, b)]
			q = pred[1:]
			if q in ("gt", "le"): lo, hi = lo[::-1], hi[::-1]
			# now "lt" or its negation "ge"
			if hi[0] < lo[1]: return ONE if q in ("lt", "gt") else ZERO
			if lo[0] >= hi[1]: return ZERO if q in ("lt", "gt") else ONE
			return TOP
		if pred[0] == "s" and all(v[-1] == ZERO for v in (a, b)): return self.icmp("u" + pred[1:], a, b)
		if pred in ("eq", "ne"):
			r = ONE
			for s, t in zip(a, b): r = combine(lambda u, v, o: o & (u == v), s, t, r)
			return r if pred == "eq" else combine(lambda u: 1 - u, r)
		return TOP
	def compare(self, r, s, idx):
		"""Order of the given bytes of two inputs; order = (r, s, first byte that differs or None, sign)."""
		o = self.order
		if r == s: return 0
		sign = o[3] if (r, s) == o[:2] else -o[3] if (s, r) == o[:2] else None
		if sign is None: raise Undecided("order")
		for i in idx:
			if o[2] is not None and i == o[2]: return sign
			if o[2] is not None and i > o[2]: raise Undecided("order of bytes behind the difference")
		return 0
	def do_call(self, f, env, i, depth):
		n = i.d.get("fn") or ""
		if n.startswith("llvm.dbg"): return None
		args = [self.val(f, env, x) for x in i.d["a"]]
		if n.startswith("llvm.cttz"):
			for k, b in enumerate(args[0]):
				if b == ONE: return const(k, len(args[0]))
				if b != ZERO: raise Undecided(n)
			return const(len(args[0]), len(args[0]))
		if n.startswith("llvm.bswap"): return tuple(x for j in reversed(range(0, len(args[0]), 8)) for x in args[0][j:j + 8])
		if n.startswith("llvm.memset") or n == "memset":
			k = number(args[2])
			if k is None: raise Undecided(n)
			for j in range(k): self.store(("ptr", args[0][1], args[0][2] + j), args[1][:8], 1)
			return args[0]
		if n.startswith(("llvm.memcpy", "llvm.memmove")) or n in ("memcpy", "memmove"):
			k = number(args[2])
			if k is None: raise Undecided(n)
			self.mem.setdefault(args[0][1], {}).update({args[0][2] + j: self.mem[args[1][1]][args[1][2] + j] for j in range(k)})
			return args[0]
		if n in ("memcmp", "bcmp") and self.order:
			k = number(args[2])
			bs = [[self.octets(self.load(("ptr", p[1], p[2] + j), 1)) for j in range(k or 0)] for p in args[:2]]
			if not k or any(not x for y in bs for x in y) or [x[0][1] for x in bs[0]] != [x[0][1] for x in bs[1]]: raise Undecided(n)
			c = 0
			for x, y in zip(*bs):
				c = self.compare(x[0][0], y[0][0], [x[0][1]])
				if c: break
			return const(c & 0xffffffff, 32)
		if n in ("htonl", "ntohl", "htons", "ntohs"): return tuple(x for j in reversed(range(0, len(args[0]), 8)) for x in args[0][j:j + 8])
		g = self.prog.lookup(f.unit, n)
		if g is None: raise Undecided(n or "indirect call")
		return self.call(g, args, depth + 1)

def result(prog, f, args, order=None):
	"""Bits a function returns and its memory afterwards."""
	b = Bits(prog, order)
	a = []
	for x in args:
		a.append(b.region(x) if isinstance(x, str) else const(x & 0xffffffff, 32))
	return b.call(f, a), b.mem

def get_bit(prog, f, i):
	r, m = result(prog, f, ["a", i])
	return r[0] == var("a", i // 8, 7 - i % 8) and all(x == ZERO for x in r[1:])
def set_bit(prog, f, i):
	for v in (0, 1):
		_, m = result(prog, f, ["a", i, v])
		for k in range(16):
			want = tuple((ONE if v else ZERO) if (k, j) == (i // 8, 7 - i % 8) else var("a", k, j) for j in range(8))
			if m["a"].get(k) != want: return False
	return True
def mask_bits(p): return const(sum(1 << (8 * (i // 8) + 7 - i % 8) for i in range(p)), 128)
def bitmask(prog, f, p):
	r, _ = result(prog, f, [p])
	return r == mask_bits(p)
def masked(prog, f, how):
	r, _ = result(prog, f, ["a", "m"])
	return r == tuple(combine(how, var("a", i // 8, i % 8), var("m", i // 8, i % 8)) for i in range(128))
def compared(prog, f, k, sign):
	r, _ = result(prog, f, ["a", "b"], ("a", "b", k, sign))
	n = number(r)
	if n is None: raise Undecided("result")
	n = signed(n, len(r))
	return (n > 0) - (n < 0) == (sign if k is not None else 0)

MAPPED = [0] * 10 + [255, 255]
MARKS = (0, 7)
def tails(v4, x):
	"""Addresses whose last bits are x up to one that is not, and anything before that: (number of those bits, region). Split further by the first byte that
	is not all ones, and one of its bits that is not."""
	n = 32 if v4 else 128
	for t in range(n + 1):
		m = {i: [var("a", i, j) for j in range(8)] for i in range(16)}
		if v4:
			for i, c in enumerate(MAPPED): m[i] = list(const(c, 8))
		for k in range(min(t + 1, n)): m[15 - k // 8][k % 8] = (ONE if x else ZERO) if k < t else (ZERO if x else ONE)
		if not v4 and t < 127: m[0][7] = ONE	# it is not a mapped one
		first = 12 if v4 else 0
		seen = set()
		for i in range(first, 16 if v4 else 2):
			for j in MARKS:
				c = {k: list(b) for k, b in m.items()}
				if any(ZERO in c[k] for k in range(first, i)) or c[i][j] == ONE: continue
				for k in range(first, i): c[k] = [ONE] * 8
				c[i][j] = ZERO
				c = {k: tuple(b) for k, b in c.items()}
				if repr(c) not in seen:
					seen.add(repr(c))
					yield t, c
		if all(b == ONE or b not in (ZERO, ONE) for k in range(first, 16) for b in m[k]): yield t, {k: tuple(b) if k < first else (ONE,) * 8 for k, b in m.items()}
def on_tail(prog, f, m):
	b = Bits(prog)
	b.mem["a"] = dict(m)
	r = b.call(f, [("ptr", "a", 0)])
	return r, b.mem["a"]
def with_tails(prog, f, x, right):
	"""Cases of tails and whether right(number of bits, tail, result, memory before, memory after) holds. Where the domain cannot decide a case, parts of it
	may still be wrong."""
	out = []
	for v4 in (0, 1):
		n = 32 if v4 else 128
		for t, m in tails(v4, x):
			try: out.append((n - t, right(n, t, m, *on_tail(prog, f, m))))
			except Undecided:
				for fill in (ONE, ZERO):
					c = {i: tuple(y if y in (ZERO, ONE) else fill for y in b) for i, b in m.items()}
					if not right(n, t, c, *on_tail(prog, f, c)): out.append((n - t, False)); break
				else: raise
	return out
def length(prog, f): return with_tails(prog, f, 0, lambda n, t, m, r, a: r is not None and number(r) == n - t)
def increment(prog, f):
	def right(n, t, m, r, a):
		want = {i: list(b) for i, b in m.items()}
		if t < n:
			for k in range(t + 1): want[15 - k // 8][k % 8] = ONE if k == t else ZERO
		return all(a.get(i) == tuple(b) for i, b in want.items())
	return with_tails(prog, f, 1, right)

PRIMITIVES = {
	"loc_address_get_bit": ("bit %d of an address is not the one that is returned", lambda p, f: [(i, get_bit(p, f, i)) for i in range(128)]),
	"loc_address_set_bit": ("not exactly bit %d of an address is changed", lambda p, f: [(i, set_bit(p, f, i)) for i in range(128)]),
	"loc_prefix_to_bitmask": ("the mask of a prefix of %d has not exactly that many leading ones", lambda p, f: [(i, bitmask(p, f, i)) for i in range(129)]),
	"loc_address_and": ("the first address of a network is not the address and its mask", lambda p, f: [(0, masked(p, f, lambda a, m: a & m))]),
	"loc_address_or": ("the last address of a network is not the address or the inverse of its mask", lambda p, f: [(0, masked(p, f, lambda a, m: a | 1 - m))]),
	"loc_address_bit_length": ("the length of an address of %d bits is not that number", length),
	"loc_address_increment": ("the address after one is not the next one if only its first %d bits stay, or all change", increment),
	"loc_address_cmp": ("addresses whose first difference is in byte %d are ordered the wrong way", lambda p, f: [(k, compared(p, f, k, s)) for k in range(16) for s in (-1, 1)] + [(-1, compared(p, f, None, 0))]),
}
