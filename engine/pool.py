"""The string pool: a string is found under the offset it was added under.
Every offset that is handed out is the one of an equal string, or the end of the pool, where the whole string has been copied to."""
from absint import *
import own
from frontend import AnalysisError

class Pool(Checker):
	def __init__(self, prog, entry):
		super().__init__()
		self.prog, self.entry = prog, entry
		self.S = {n: (o, z, t) for n, o, z, t in prog.structs["loc_stringpool"]["fields"]}
		for n in ("data", "length", "blocks", "size"):
			if n not in self.S: raise AnalysisError("loc_stringpool.%s is gone" % n)
	def get(self, I, st, n):
		o, z, t = self.S[n]
		return I.read(st, ("p", self.pool, C(o)), z, "ptr" if "*" in t else 8 * z)
	def cell(self, st, c, *v):
		c = ("Y", c)
		if not v: return st.mem.get((c, 0, 8))
		if v[0] is None: st.mem.pop((c, 0, 8), None); return
		st.meta[c] = {"kind": "Z", "size": C(8)}
		st.mem[(c, 0, 8)] = v[0]
	def same(self, I, st, a, b):
		if a is None or b is None: return False
		if a == b: return True
		if a[0] == "p" and b[0] == "p": return a[1] == b[1] and self.same(I, st, a[2], b[2])
		if a[0] == "l" and b[0] == "l":
			d = lin_add(a, b, -1)
			return I.le0(st, d, 2) and I.le0(st, lin_mul(d, -1), 2)
		return False
	def is_string(self, st, p): return p[0] == "p" and p[1] == self.string and p[2] == C(0)
	def m_strlen(self, I, fr, st, ins, args):
		if self.is_string(st, args[0]): return [(st, self.len)]
		return m_strlen(I, fr, st, ins, args)
	def m_cmp(self, I, fr, st, ins, args):
		eq, ne = st, st.copy()
		o = [a for a in args[:2] if not self.is_string(st, a)]
		whole = len(args) < 3 or args[2][0] == "l" and I.le0(st, lin_add(lin_add(self.len, C(1)), args[2], -1), 2)
		self.count("comparisons")
		self.cell(eq, "equal", o[0] if len(o) == 1 and o[0][0] == "p" and whole and ins.d["fn"] in ("strcmp", "strncmp", "memcmp", "bcmp") else None)
		v = I.fresh(ne, -255, 255)
		self.cell(ne, "equal", None)
		ne.ts.pop("how", None)
		if self.cell(eq, "equal") is not None: eq.ts["how"] = "equal"
		I.assume_int(ne, "ne", v, C(0), 32)
		return [(eq, C(0)), (ne, v)]
	def m_copy(self, I, fr, st, ins, args):
		n = args[2] if len(args) > 2 else lin_add(self.len, C(1)) if self.is_string(st, args[1]) else None
		self.count("copies")
		self.cell(st, "to", args[0] if args[0][0] == "p" else None)
		ok = n is not None and n[0] == "l" and self.is_string(st, args[1])
		self.cell(st, "bytes", n if ok else None)
		st.ts["how"] = "copied"
		return [(st, args[0])]
	def on_ret(self, I, st, fr, ins, v):
		self.count("offsets handed out")
		v = I.resolve(st, v)
		if v[0] == "l" and I.le0(st, lin_add(v, C(1)), 2): return
		data, blocks, length = self.get(I, st, "data"), self.get(I, st, "blocks"), self.get(I, st, "length")
		e = self.cell(st, "equal")
		if e is not None and data[0] == "p" and v[0] == "l" and self.same(I, st, length, self.length) and self.same(I, st, e, ("p", data[1], lin_add(data[2], v))): return
		to, n = self.cell(st, "to"), self.cell(st, "bytes")
		if to is not None and n is not None and blocks[0] == "p" and v[0] == "l":
			why = None
			if not self.same(I, st, to, ("p", blocks[1], lin_add(blocks[2], v))): why = "is not the one the string was copied to"
			elif not self.same(I, st, n, lin_add(self.len, C(1))): why = "is that of a string that was not copied entirely"
			elif not self.same(I, st, v, self.length): why = "is not the end of the pool"
			elif not self.same(I, st, length, lin_add(self.length, n)): why = "is followed by less or more than the string"
			elif not self.same(I, st, data, blocks): why = "refers to another storage than the pool is read from"
			if why is None: return
		else: why = "is neither that of an equal string nor that of a copy"
		self.report("string", fr.fn, ins, "the offset a string is given in the string pool %s" % why, st, key=why)

class Get(Pool):
	def on_ret(self, I, st, fr, ins, v):
		self.count("strings handed out")
		v = I.resolve(st, v)
		if v == NULL: return
		data = self.get(I, st, "data")
		if data[0] == "p" and v[0] == "p" and self.same(I, st, v, ("p", data[1], lin_add(data[2], self.offset))): return
		self.report("string", fr.fn, ins, "what is returned for an offset is not what is stored there", st, key="get")

def strings(prog, contracts, budget=60000):
	out = []
	for name, cls in (("loc_stringpool_add", Pool), ("loc_stringpool_get", Get)):
		f = prog.fn(name)
		if f is None: raise AnalysisError("%s is gone" % name)
		ck = cls(prog, f)
		I = Interp(prog, [], budget=budget)
		I.checkers = [ck]
		I.relate = "all"
		I.models = dict(BASE_MODELS); I.models.update(contracts.all_models())
		for n in [n for n in I.models if n.startswith("loc_stringpool_")]: I.models.pop(n)
		I.models["strlen"] = ck.m_strlen
		for n in ("strcmp", "strncmp", "memcmp", "bcmp", "strcasecmp", "strncasecmp"): I.models[n] = ck.m_cmp
		for n in ("memcpy", "memmove", "mempcpy", "strcpy", "stpcpy"): I.models[n] = ck.m_copy
		for n in ("llvm.memcpy.p0.p0.i64", "llvm.memmove.p0.p0.i64", "llvm.memcpy.p0.p0.i32"): I.models[n] = ck.m_copy
		def setup(I2, st, args):
			ck.pool = args[0][1]
			b = ("storage",)
			st.meta[b] = {"kind": "D", "ty": "char", "size": None}
			st.nonnull |= {b}
			for n in ("data", "blocks"): I2.write(st, ("p", ck.pool, C(ck.S[n][0])), 8, ("p", b, C(0)))
			ck.length, size = I2.fresh(st, 0, 1 << 40), I2.fresh(st, 0, 1 << 40)
			I2.add_le(st, lin_add(ck.length, size, -1))
			I2.write(st, ("p", ck.pool, C(ck.S["length"][0])), 8, ck.length)
			I2.write(st, ("p", ck.pool, C(ck.S["size"][0])), 8, size)
			if cls is Pool:
				ck.string = args[1][1]
				ck.len = I2.fresh(st, 0, 1 << 30)
			else: ck.offset = args[1]; ck.string = None
		I.entry(f, setup)
		out.append(ck)
	return out
