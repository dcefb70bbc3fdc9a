"""Lookups by key in a sorted section: a record that is there is found.
The wanted record is at a symbolic position k of the section; a record at position i has a smaller key for i < k, the wanted key for i = k
and a greater one for i > k. Every return that neither follows a failure nor hands out the record at k is a violation."""
from absint import *
import own, bounds
from sig import const_of
from frontend import AnalysisError

K = ("Z", "wanted")

class Bisect(bounds.Bounds):
	def __init__(self, prog, contracts, entry, section, rec):
		super().__init__(prog, contracts, entry)
		self.section, self.rec = section, rec
		self.recsize = prog.structs[rec]["size"]
	# only what the lookup needs of the database
	def field_hook(self, I, st, ptr, f, v):
		r = super().field_hook(I, st, ptr, f, v)
		if f[0] == "loc_database" and f[1] == self.section + ".data" and r is not None:
			n = self.get(I, st, ptr[1], f[0], self.section + ".count")
			l = self.get(I, st, ptr[1], f[0], "length")
			I.add_le(st, lin_add(lin_add(r[2], lin_mul(n, self.recsize)), l, -1))
			self.base = r
		return r
	def on_deref(self, *a): pass
	def on_index(self, *a): pass
	def on_store(self, *a): pass
	def on_load(self, *a): pass
	def on_call(self, I, st, fr, ins, name, args):
		rec = st.ts.get("record")
		if rec is not None and own.UNREF.match(name) and args[0][0] == "p" and args[0][1] == rec[0]: st.ts.pop("record")
	def before_exit(self, *a): pass
	def position(self, I, st, p):
		"""Position of the record p points to."""
		b = getattr(self, "base", None)
		if p[0] != "p" or b is None or p[1] != b[1]: return None
		d = lin_add(p[2], b[2], -1)
		if d[0] != "l" or d[1] % self.recsize or any(c % self.recsize for _, c in d[2]): return None
		return ("l", d[1] // self.recsize, tuple((s, c // self.recsize) for s, c in d[2]))
	def m_record(self, inner, out, field, keyarg):
		def m(I, fr, st, ins, args):
			self.count("records fetched")
			i = self.position(I, st, args[-1])
			res = []
			for s, v in inner(I, fr, st, ins, args):
				if v[0] == "l" and I.truth(s, v) is not False:
					s.ts["failed"] = 1
					res.append((s, v)); continue
				p = I.read(s, args[out], 8, "ptr")
				if p[0] != "p": res.append((s, v)); continue
				for c in (-1, 0, 1):
					t = s.copy()
					if i is not None:
						k = t.mem[(K, 0, 8)]
						d = lin_add(i, k, -1)
						ok = I.add_le(t, lin_add(d, C(1))) if c < 0 else I.add_le(t, lin_add(C(1), d, -1)) if c > 0 else I.add_le(t, d) and I.add_le(t, lin_mul(d, -1))
						if not ok: continue
					t.meta[p[1]] = dict(t.meta.get(p[1], {}), order=c if i is not None else None)
					t.ts["record"] = (p[1], c if i is not None else None)
					if field:
						o, z = self.off(self.out_type, field)
						n = I.fresh(t, 0, (1 << 8 * z) - 1)
						d = lin_add(n, self.want, -1)
						if i is not None and not (I.add_le(t, lin_add(d, C(1))) if c < 0 else I.add_le(t, lin_add(C(1), d, -1)) if c > 0 else I.add_le(t, d) and I.add_le(t, lin_mul(d, -1))): continue
						I.write(t, ("p", p[1], C(o)), z, n)
					res.append((t, v))
			return res
		return m
	def m_cmp(self, I, fr, st, ins, args):
		"""strcmp and its kin: between the wanted key and the key of a record."""
		rec = st.ts.get("record")
		m = [a[0] == "p" and rec is not None and (a[1] == rec[0] or st.meta.get(a[1], {}).get("inown") == rec[0] or self.part_of(st, a, rec[0])) for a in args[:2]]
		key = [a[0] == "p" and a[1] == self.keyreg for a in args[:2]]
		v = I.fresh(st, -255, 255)
		full = len(args) < 3 or (const_of(I, st, args[2]) or 0) >= 2
		if full and rec is not None and rec[1] is not None:
			c = None
			if m[0] and key[1]: c = rec[1]
			elif m[1] and key[0]: c = -rec[1]
			if c == 0: v = C(0)
			elif c is not None: I.assume_int(st, "slt" if c < 0 else "sgt", v, C(0), 32)
			if c is not None: self.count("comparisons")
		return [(st, v)]
	def part_of(self, st, a, r):
		x = a[1]
		while x is not None and x != r:
			m = st.meta.get(x, {})
			x = m.get("src", (None,))[0] if m.get("src") and isinstance(m["src"][0], tuple) else None
		return x == r
	def on_ret(self, I, st, fr, ins, v):
		self.count("returns checked")
		if st.ts.get("failed"): return
		rec = st.ts.get("record")
		if rec is not None and rec[1] == 0 and rec[0] not in st.rel:
			w = st.mem.get((self.outreg, 0, 8))
			if w is not None and w[0] == "p" and w[1] == rec[0] and v == C(0): return
		self.report("not-found", fr.fn, ins, "returns without the record although it is in the database", st, key=self.section)

def lookup(prog, contracts, name, section, rec, maker, field, budget=100000):
	f = prog.fn(name)
	if f is None: raise AnalysisError("%s is gone" % name)
	ck = Bisect(prog, contracts, f, section, rec)
	I = Interp(prog, [], budget=budget)
	I.checkers = [ck]
	I.relate = "all"
	I.models = dict(BASE_MODELS); I.models.update(contracts.all_models())
	for n in bounds.inlined(contracts): I.models.pop(n, None)
	inner = contracts.all_models()[maker]
	mk = prog.fn(maker)
	out = [i for i, t in enumerate(mk.sig[1:]) if own.struct_ptr(t, 2)][0]
	ck.out_type = own.struct_ptr(mk.sig[out + 1], 2)
	I.models[maker] = ck.m_record(inner, out, field, 2)
	for n in ("strcmp", "strncmp", "strcasecmp", "strncasecmp", "memcmp"): I.models[n] = ck.m_cmp
	# the code of a record is a valid one
	I.models["loc_country_code_is_valid"] = lambda I2, fr, st, ins, args: [(st, C(1))]
	I.field_hook = ck.field_hook
	I.field_range = ck.ranges()
	I.field_range[("loc_database", "version")] = (1, 1)
	I.track = ck.track
	ck.outs_now = {}
	def setup(I2, st, args):
		n = ck.get(I2, st, args[0][1], "loc_database", section + ".count")
		k = I2.fresh(st, 0, bounds.U32)
		I2.add_le(st, lin_add(lin_add(k, n, -1), C(1)))
		st.meta[K] = {"kind": "Z", "size": C(8)}
		st.mem[(K, 0, 8)] = k
		for c, v in ((("Z", "last"), lin_add(n, C(-1))), (("Z", "count"), n)):
			st.meta[c] = {"kind": "Z", "size": C(8)}
			st.mem[(c, 0, 8)] = v
		ck.want = args[2]
		ck.keyreg = args[2][1] if args[2][0] == "p" else None
		ck.outreg = args[1][1]
	I.entry(f, setup)
	return ck, I

class Sorter(Checker):
	"""A sort function hands the whole list to qsort()."""
	def __init__(self, prog, entry, ty):
		super().__init__()
		self.prog, self.entry, self.ty = prog, entry, ty
		self.cmps = set()
	def field(self, I, st, r, f):
		for n, o, z, t in self.prog.structs[self.ty]["fields"]:
			if n == f: return I.read(st, ("p", r, C(o)), z, "ptr" if t.endswith("*") else 8 * z)
		raise AnalysisError("%s.%s is gone" % (self.ty, f))
	def m_qsort(self, I, fr, st, ins, args):
		r = self.list
		e, n = self.field(I, st, r, "elements"), self.field(I, st, r, "size")
		self.count("sorts checked")
		if args[0] != e or args[1] != n or args[2] != C(8): self.report("sort", fr.fn, ins, "not all elements of the list are sorted", st, key=self.ty)
		f = args[3] if args[3][0] != "p" else args[3][1]
		name = f[1] if f[0] in ("F", "G", "g", "f") else None
		b = self.prog.lookup(fr.fn.unit, name) if isinstance(name, str) else None
		if b is None: raise AnalysisError("the comparison of %s was not found" % self.entry.name)
		self.cmps.add(b)
		st.ts["sorted"] = 1
		return [(st, None)]
	def on_ret(self, I, st, fr, ins, v):
		self.count("returns checked")
		if st.ts.get("sorted"): return
		n = self.field(I, st, self.list, "size")
		if n[0] == "l" and I.le0(st, lin_add(n, C(-1))): return
		self.report("sort", fr.fn, ins, "returns without having sorted the list", st, key=self.ty)

class Order(Checker):
	"""The comparison of two elements: its sign is that of the order of their keys."""
	def __init__(self, prog, entry, obj, field):
		super().__init__()
		self.prog, self.entry, self.obj, self.field = prog, entry, obj, field
	def m_cmp(self, I, fr, st, ins, args):
		w = []
		for a in args[:2]:
			w.append(next((i for i in (0, 1) if a[0] == "p" and self.part(st, a[1], ("elem", i))), None))
		v = I.fresh(st, -255, 255)
		full = len(args) < 3 or (const_of(I, st, args[2]) or 0) >= 2
		if full and None not in w:
			c = 0 if w[0] == w[1] else st.ts["order"] if w == [0, 1] else -st.ts["order"]
			self.count("comparisons")
			if c == 0: v = C(0)
			else: I.assume_int(st, "slt" if c < 0 else "sgt", v, C(0), 32)
		return [(st, v)]
	def part(self, st, x, r):
		n = 0
		while isinstance(x, tuple) and n < 9:
			if x == r: return True
			m = st.meta.get(x, {})
			x = m["src"][0] if m.get("src") else m.get("inown")
			n += 1
		return False
	def on_ret(self, I, st, fr, ins, v):
		self.count("orders checked")
		c = st.ts["order"]
		v = I.resolve(st, v)
		ok = v[0] == "l" and (I.le0(st, v) and I.ge0(st, v) if c == 0 else I.le0(st, lin_add(v, C(1))) if c < 0 else I.ge0(st, lin_add(v, C(-1))))
		if not ok: self.report("order", fr.fn, ins, "the result is not the order of the keys (%s)" % {-1: "smaller", 0: "equal", 1: "greater"}[c], st, key=str(c))

def sorting(prog, contracts, name, ty, obj, field, budget=100000):
	f = prog.fn(name)
	if f is None: raise AnalysisError("%s is gone" % name)
	ck = Sorter(prog, f, ty)
	I = Interp(prog, [], budget=budget)
	I.checkers = [ck]
	I.models = dict(BASE_MODELS); I.models.update(contracts.all_models())
	I.models["qsort"] = ck.m_qsort
	I.field_range = own.list_ranges(prog)
	def setup(I2, st, args): ck.list = args[0][1]
	I.entry(f, setup)
	cks = [ck]
	for g in sorted(ck.cmps, key=lambda g: g.name):
		for c in (-1, 0, 1):
			o = Order(prog, g, obj, field)
			J = Interp(prog, [], budget=budget)
			J.checkers = [o]
			J.models = dict(BASE_MODELS); J.models.update(contracts.all_models())
			for n in bounds.inlined(contracts) | {n for n in contracts.public if n.endswith("_cmp")}: J.models.pop(n, None)
			for n in ("strcmp", "strncmp", "memcmp", "strcasecmp", "strncasecmp"): J.models[n] = o.m_cmp
			def setup2(I2, st, args):
				ks = []
				for i in (0, 1):
					r = ("elem", i)
					st.meta[r] = {"kind": "D", "ty": obj, "size": None}
					st.nonnull |= {r}
					I2.write(st, args[i], 8, ("p", r, C(0)))
					if field:
						o2, z = next((o3, z3) for n3, o3, z3, t3 in prog.structs[obj]["fields"] if n3 == field)
						k = I2.fresh(st, 0, (1 << 8 * z) - 1)
						I2.write(st, ("p", r, C(o2)), z, k)
						ks.append(k)
				st.ts["order"] = c
				if ks:
					d = lin_add(ks[0], ks[1], -1)
					if c < 0: I2.add_le(st, lin_add(d, C(1)))
					elif c > 0: I2.add_le(st, lin_add(C(1), d, -1))
					else: I2.add_le(st, d); I2.add_le(st, lin_mul(d, -1))
			J.entry(g, setup2)
			cks.append(o)
	return cks
