"""Elements of lists: whatever leaves a list is released or handed out."""
from absint import *
import own
from walk import Path, machine

SEEN, SEENB = ("Z", "seen"), ("Z", "seen bytes")

class Elements(Path):
	def position(self, I, st, ptr):
		e = self.get(I, st, self.list, self.lty, "elements")
		if e[0] == "p": self.arrays.add(e[1])
		if e[0] != "p" or ptr[1] not in self.arrays or ptr[2][0] != "l": return None
		return lin_add(ptr[2], e[2], -1)
	def on_load(self, I, st, fr, ins, ptr, size, v):
		if ptr[0] != "p" or size != 8: return
		if ptr[1] == self.list and ptr[2] == C(self.off(self.lty, "elements")[0]) and v[0] == "p": self.arrays.add(v[1])
		d = self.position(I, st, ptr)
		if d is None or v[0] != "p": return
		self.known.add(v)
		if d[0] != "l": return
		i = ("l", d[1] // 8, tuple((s, c // 8) for s, c in d[2])) if not d[1] % 8 and not any(c % 8 for _, c in d[2]) else None
		self.cell(st, ("Z", "index"), i)
		self.cell(st, ("Z", "bytes"), d)
		st.mem[(("Y", "element"), 0, 8)] = v
		st.meta[("Y", "element")] = {"kind": "Z", "size": C(8)}
		st.ts["element"] = 1
	def key(self, I, st):
		if not st.ts.get("all") and not st.ts.get("resized"):
			size = self.get(I, st, self.list, self.lty, "size")
			for n, k in ((self.cell(st, SEEN), 1), (self.cell(st, SEENB), 8)):
				if n is not None and I.le0(st, lin_add(lin_mul(size, k), n, -1), 4): st.ts["all"] = 1
		return st.ts.get("all")
	def on_call(self, I, st, fr, ins, name, args):
		if own.UNREF.match(name) and args and args[0][0] == "p" and (args[0] in self.known):
			self.count("elements released")
			st.ts["given"] = 1
			el = st.mem.get((("Y", "element"), 0, 8)) if st.ts.get("element") else None
			if el != args[0]: return
			i, n, b, m = self.cell(st, ("Z", "index")), self.cell(st, SEEN), self.cell(st, ("Z", "bytes")), self.cell(st, SEENB)
			if not st.ts.get("first") and not self.same(I, st, b, C(0)):
				size = self.get(I, st, self.list, self.lty, "size")
				if st.ts.get("resized") or self.same(I, st, i, lin_add(size, C(-1))) or self.same(I, st, b, lin_mul(lin_add(size, C(-1)), 8)): st.ts["down"] = 1
			st.ts["first"] = 1
			if self.same(I, st, i, n) or self.same(I, st, b, m):
				self.cell(st, SEEN, lin_add(n, C(1)) if n is not None else None)
				self.cell(st, SEENB, lin_add(m, C(8)) if m is not None else None)
		elif name == "free" and args and args[0][0] == "p" and args[0][1] in self.arrays:
			self.emptied(I, st, fr, ins)
	def emptied(self, I, st, fr, ins):
		self.count("lists emptied")
		if st.ts.get("emptied"): return
		st.ts["emptied"] = 1
		self.key(I, st)
		if not st.ts.get("all") and not st.ts.get("down"): self.report("leak", fr.fn, ins, "a list is emptied without all of its elements having been released", st, key="emptied")
	def on_store(self, I, st, fr, ins, ptr, size, val):
		if ptr[0] != "p" or ptr[1] != self.list or ptr[2] != C(self.off(self.lty, "size")[0]): return
		old = self.get(I, st, self.list, self.lty, "size")
		self.key(I, st)
		if val == C(0) and old != C(0): self.emptied(I, st, fr, ins)
		elif val[0] == "l" and old[0] == "l" and self.same(I, st, val, lin_add(old, C(-1))):
			self.count("elements removed")
			st.ts["removed"] = 1
		st.ts["resized"] = 1
	def on_ret(self, I, st, fr, ins, v):
		self.count("returns checked")
		if st.ts.get("removed") and not st.ts.get("given") and not st.ts.get("emptied") and not (v is not None and I.resolve(st, v) in self.known | {v} and v in self.known):
			self.report("leak", fr.fn, ins, "an element is removed from a list, but its reference is neither released nor handed out", st, key="removed")

def functions(prog):
	types = [n for n, d in prog.structs.items() if n.endswith("_list") and {"elements", "size"} <= {f[0] for f in d["fields"]}]
	return [(f, own.struct_ptr(f.sig[1])) for f in prog.repo_fns() if len(f.sig) > 1 and own.struct_ptr(f.sig[1]) in types and not f.name.endswith("_remove_with_prefix_smaller_than")]

def analyse(prog, contracts, f, t, budget=20000):
	ck = Elements(prog, contracts, f)
	ck.lty, ck.known, ck.arrays = t, set(), set()
	I = machine(prog, contracts, ck, budget)
	I.models.pop(f.name, None)
	def setup(I2, st, args):
		ck.list = args[0][1]
		ck.cell(st, SEEN, C(0)); ck.cell(st, SEENB, C(0))
		I2.field_range[(t, "size")] = (0, 1 << 31)
	I.entry(f, setup)
	return ck
