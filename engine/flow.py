"""Provenance of values: which field every stored value comes from, and through which conversions (byte swaps with their width,
truncations, arithmetic). Flow-insensitive, field-sensitive, with callees analysed anew at each call site; explicit flows only."""
from frontend import AnalysisError

SWAPS = {"__bswap_16": 16, "__bswap_32": 32, "__bswap_64": 64, "htonl": 32, "ntohl": 32, "htons": 16, "ntohs": 16}
PASS = {"strdup": 0, "strndup": 0, "__strdup": 0, "loc_stringpool_add": 1, "loc_stringpool_get": 1}
E = frozenset()

def swap_width(n):
	if n in SWAPS: return SWAPS[n]
	if n and n.startswith("llvm.bswap.i"): return int(n.rsplit("i", 1)[1])
	return None

class Flow:
	"""Labels are (source, conversion, narrowest width): source ('field', struct, index) or ('call', name) or ('param', i)."""
	def __init__(self, prog, entry, depth=9, unit=None, named=()):
		self.named = named
		self.prog, self.entry, self.depth, self.unit = prog, entry, depth, unit
		self.vals, self.mem, self.types = {}, {}, {}
		self.changed = True
		self.calls = {}
		self.ret = (E, E)
		args = []
		for i, p in enumerate(entry.params):
			if p["ty"] == "ptr": args.append((frozenset([(("arg", i), 0, None)]), frozenset([(("param", i), "", 64)])))
			else: args.append((E, frozenset([(("param", i), "", 64)])))
		n = 0
		while self.changed:
			self.changed = False
			self.ret = self.run(entry, args, (), None)
			n += 1
			if n > 60: raise AnalysisError("provenance of %s does not stabilise" % entry.name)
	def put(self, table, k, v):
		o = table.get(k, (E, E))
		n = (o[0] | v[0], o[1] | v[1])
		if n != o:
			if len(n[0]) > 200 or len(n[1]) > 400: raise AnalysisError("provenance of %s is too coarse" % self.entry.name)
			table[k] = n
			self.changed = True
	# -- labels
	def conv(self, ls, c=None, w=None):
		out = set()
		for s, k, z in ls:
			if c is not None: k = "" if k == c and c.startswith("s") else c if k == "" else k if c == k else "mixed"
			out.add((s, k, min(z, w) if w else z))
		return frozenset(out)
	def value(self, ctx, fn, v):
		k = v[0]
		if k == "v":
			return self.vals.get((ctx, fn.name, v[1]), (E, E))
		if k == "gep":
			return self.gep(ctx, fn, v)
		if k == "g":
			return (frozenset([(("glob", v[1]), 0, None)]), E)
		return (E, E)
	def gep(self, ctx, fn, g):
		base, ls = self.value(ctx, fn, g[1])
		out = set()
		for b, o, t in base:
			path = g[5]
			tag = (path[-1][0], path[-1][1]) if path else t
			out.add((b, (o + g[2]) if o is not None and abs(o + g[2]) < 1 << 16 else None, tag))
		for x in g[3]: ls = ls | self.value(ctx, fn, x[0])[1]
		return (frozenset(out), ls)
	def tagged(self, tag):
		if not tag or not tag[0].startswith("struct."): return None
		s = self.prog.structs.get(tag[0][7:].split(".")[0])
		if not s or tag[1] >= len(s["fields"]): return None
		return ("field", tag[0][7:].split(".")[0], s["fields"][tag[1]][0])
	def load(self, ptrs, ty, size):
		ps, ls = set(), set()
		for b, o, t in ptrs:
			v = self.mem.get((b, o))
			s = self.tagged(t)
			if s and s[1] in self.named:
				# a value of an object that is only used here: known by its field
				if v: ps |= v[0]
				ls.add((s, "", 8 * size if isinstance(size, int) else 64))
				continue
			if v: ps |= v[0]; ls |= v[1]
			if b[0] in ("arg", "ind", "mem"):
				s = self.tagged(t)
				if s: ls.add((s, "", 8 * size if isinstance(size, int) else 64))
				if ty == "ptr" and len(str(b)) < 300: ps.add((("ind", b, o), 0, None))
		return (frozenset(ps), frozenset(ls))
	def store(self, ptrs, v, tagged=True):
		for b, o, t in ptrs:
			self.put(self.mem, (b, o), v)
			s = self.tagged(t)
			if s: self.put(self.types, (s[1], s[2]), (E, v[1]))
	# -- execution
	def run(self, fn, args, ctx, call):
		for i, a in enumerate(args): self.put(self.vals, (ctx, fn.name, i), a)
		ret = (E, E)
		for b in fn.blocks:
			for i in b:
				r = self.step(ctx, fn, i)
				if r is not None and i.op == "ret": ret = (ret[0] | r[0], ret[1] | r[1])
				elif r is not None: self.put(self.vals, (ctx, fn.name, i.id), r)
		return ret
	def step(self, ctx, fn, i):
		d, op = i.d, i.op
		val = lambda v: self.value(ctx, fn, v)
		if op == "alloca": return (frozenset([(("loc", ctx, fn.name, i.id), 0, None)]), E)
		if op == "getelementptr": return self.gep(ctx, fn, d["gep"])
		if op == "load": return self.load(val(d["a"][0])[0], i.ty, d.get("sz", 8))
		if op == "store":
			self.store(val(d["a"][1])[0], val(d["a"][0]))
			return None
		if op in ("zext", "sext", "bitcast", "freeze"): return val(d["a"][0])
		if op == "trunc": p, l = val(d["a"][0]); return (E, self.conv(l, None, i.ty if isinstance(i.ty, int) else None))
		if op in ("ptrtoint", "inttoptr"): return val(d["a"][0])
		if op == "phi":
			p, l = set(), set()
			for x, _ in d["in"]:
				v = val(x); p |= v[0]; l |= v[1]
			return (frozenset(p), frozenset(l))
		if op == "select":
			a, b = val(d["a"][1]), val(d["a"][2])
			return (a[0] | b[0], a[1] | b[1])
		if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr"):
			a, b = val(d["a"][0]), val(d["a"][1])
			if op == "or" and d["a"][0][0] != "i" and d["a"][1][0] != "i": return (E, a[1] | b[1])   # adding flags to those there are
			return (E, self.conv(a[1] | b[1], "arith"))
		if op in ("icmp", "fcmp"): return None
		if op == "ret": return val(d["a"][0]) if d.get("a") else None
		if op in ("call", "invoke"): return self.call(ctx, fn, i)
		return None
	def call(self, ctx, fn, i):
		d = i.d; n = d.get("fn")
		args = [self.value(ctx, fn, a) for a in d["a"]]
		if n is None: return (E, E)
		w = swap_width(n)
		if w: return (E, self.conv(args[0][1], "s%d" % w, w))
		key = (fn.name, i.id, n)
		o = self.calls.setdefault(key, [])
		if args not in o: o.append(args)
		if n in PASS and PASS[n] < len(args): return (frozenset([(("heap", ctx, fn.name, i.id), 0, None)]) if i.ty == "ptr" else E, args[PASS[n]][1])
		b = n.split(".")[1] if n.startswith("llvm.") else n
		if b in ("memcpy", "memmove", "strncpy", "strcpy"):
			m = d["a"][2][2] if len(d["a"]) > 2 and d["a"][2][0] == "i" else 1 << 16
			for sb, so, stg in args[1][0]:
				for db, do, dt in args[0][0]:
					for (xb, xo), v in list(self.mem.items()):
						if xb == sb and xo is not None and so is not None and so <= xo < so + m and do is not None:
							self.put(self.mem, (db, do + xo - so), v)
					v = self.load([(sb, so, stg)], 8, 8)
					self.store([(db, do, dt)], v)
			return args[0]
		if b in ("calloc", "malloc", "realloc", "reallocarray"):
			return (frozenset([(("heap", ctx, fn.name, i.id), 0, None)]), E)
		if b == "mmap": return (frozenset([(("mem", ctx, fn.name, i.id), 0, None)]), E)
		if b == "time": return (E, frozenset([(("call", "time"), "", 64)]))
		body = self.prog.lookup(fn.unit, n)
		if body is not None and (self.unit is None or body.unit is self.unit or body.unit.fns.get(n) is not body) and len(ctx) < self.depth and n != fn.name and not any(c[0] == n for c in ctx):
			return self.run(body, args[:len(body.params)], ctx + ((fn.name, i.id),), i)
		return (E, E)
	# -- results
	def object(self, base, off, size):
		"""Labels of what is stored into a range of an object."""
		out = set()
		for (b, o), v in self.mem.items():
			if b == base and o is not None and off <= o < off + size: out |= v[1]
		return out
