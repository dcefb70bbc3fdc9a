"""Every byte handed to the file (or to a digest) has been set: intervals of initialised bytes of the local buffers, per path."""
from absint import *
import own, layout
from sig import const_of
from frontend import AnalysisError

class Init(Checker):
	def __init__(self, prog, entry):
		super().__init__()
		self.prog, self.entry = prog, entry
		self.buffers = set()
	def size(self, st, r):
		z = st.meta.get(r, {}).get("size")
		return z[1] if z is not None and is_const(z) else None
	def local(self, st, ptr):
		return ptr[0] == "p" and ptr[1][0] == "L" and (self.size(st, ptr[1]) or 0) > 0
	def add(self, I, st, ptr, n):
		if not self.local(st, ptr) or n is None: return
		t = (st.meta[ptr[1]].get("ty") or "")
		if "loc_database_" not in t and self.size(st, ptr[1]) <= 16: return
		lo, hi = I.rng(st, ptr[2])
		z = self.size(st, ptr[1])
		if hi >= z: lo = hi = lo if lo < z else 0
		if lo < 0: return
		cur = list(st.ts.get(("set", ptr[1]), ())) + [(lo, min(hi + n, z))]
		out = []
		for a, b in sorted(cur):
			if out and a <= out[-1][1]: out[-1] = (out[-1][0], max(b, out[-1][1]))
			else: out.append((a, b))
		st.ts[("set", ptr[1])] = tuple(out)
	def on_store(self, I, st, fr, ins, ptr, size, val):
		if val != UNDEF: self.add(I, st, ptr, size)
	def on_call(self, I, st, fr, ins, name, args):
		b = name.split(".")[1] if name.startswith("llvm.") else name
		if b in ("memset", "memcpy", "memmove", "__memset_chk", "__memcpy_chk") and args[0][0] == "p":
			n = const_of(I, st, args[2])
			self.add(I, st, args[0], n if n is not None else 1)
		elif b in ("fread", "fwrite"): pass
		elif b in ("EVP_DigestSignUpdate", "EVP_DigestUpdate"): self.check(I, st, fr, ins, args[1], const_of(I, st, args[2]), "signed")
	def check(self, I, st, fr, ins, p, n, what):
		if not self.local(st, p) or n is None or not is_const(p[2]): return
		t = (st.meta[p[1]].get("ty") or "")
		if "loc_database_" not in t and self.size(st, p[1]) <= 16: return
		self.count("buffers checked")
		self.buffers.add(t)
		o = p[2][1]
		at = o
		for a, b in st.ts.get(("set", p[1]), ()):
			if a <= at < b: at = b
		if at < o + n:
			s = t.replace("const ", "").replace("struct ", "").strip()
			f = self.prog.field(s, at)
			self.report("uninitialised", fr.fn, ins, "bytes of %s that were never set are %s: %s" % (s or "a buffer", what, f[0] if f else "padding at %d" % at), st, key="%s %s" % (s, f[0] if f else at))
	def m_fwrite(self, I, fr, st, ins, args):
		a, b = const_of(I, st, args[1]), const_of(I, st, args[2])
		self.check(I, st, fr, ins, args[0], a * b if a is not None and b is not None else None, "written")
		return [(st, args[2])]
	def m_fread(self, I, fr, st, ins, args):
		p = I.deref(st, fr, ins, args[0], 1, True)
		if p is None: return []
		I.havoc_region(st, p[1])
		a, b = const_of(I, st, args[1]), const_of(I, st, args[2])
		f2 = st.copy()
		if a and b: self.add(I, st, p, a * b)
		return [(st, args[2]), (f2, I.fresh(f2, 0, max(0, (b or 1) - 1)))]

def run(prog, contracts, name="loc_writer_write", budget=250000):
	f = prog.fn(name)
	if f is None: raise AnalysisError("%s is gone" % name)
	ck = Init(prog, f)
	I = Interp(prog, [], budget=budget)
	I.checkers = [ck]
	I.models = dict(BASE_MODELS); I.models.update(contracts.all_models())
	ok = lambda v: lambda I2, fr, st, ins, args: [(st, v)]
	I.models.update({"fseek": ok(C(0)), "fseeko": ok(C(0)), "fflush": ok(C(0)), "fwrite": ck.m_fwrite, "fread": ck.m_fread})
	for n in ("loc_stringpool_write", "loc_stringpool_get_size"): I.models.pop(n, None)
	for n in list(I.models):
		if n.endswith("_to_database_v1"): I.models.pop(n)
	I.field_range = own.list_ranges(prog)
	I.entry(f)
	return ck, I
