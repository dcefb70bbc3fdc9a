"""Executes functions of the bindings over tokens. A value is one of
  ("i", n)  ("s", text)  ("g", name)  ("p", base, offset)  ("arg", n)  ("ld", base, offset)  ("call", name, args)  ("out", name, args, index)
where the result of a call that is not modelled is the token of that call. Conditions over tokens are decided both ways, the same way every time on a path.
The outcome is the list of (decisions, returned value, memory, calls) of all paths."""
from frontend import AnalysisError

NEG = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}
SWAP = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "eq": "eq", "ne": "ne"}
ZERO = ("i", 0)
TOP = ("top",)

class Stop(Exception): pass

class State:
	def __init__(self): self.mem, self.dec, self.calls, self.n = {}, {}, [], 0

class Machine:
	def __init__(self, prog, group, models=None, inline=None, limit=20000, visits=3):
		self.prog, self.group, self.models, self.limit, self.visits = prog, group, models or {}, limit, visits
		self.inline = inline or (lambda g: g.unit.group == group)
	def text(self, unit, v):
		import pynames
		try: return pynames.text(unit, v)
		except Exception: return None
	def run(self, fn, args):
		"""All paths through fn."""
		self.out, todo, seen = [], [[]], 0
		while todo:
			self.plan, self.used = todo.pop(), []
			seen += 1
			if seen > self.limit: raise AnalysisError("%s: too many paths" % fn.name)
			st = State(); self.st = st
			try: v = self.call(fn, args, 0)
			except Stop: v = None
			for k in range(len(self.plan), len(self.used)):
				todo.append([x for x in self.used[:k]] + [not self.used[k]])
			if v is not None: self.out.append((dict(st.dec), v, st.mem, st.calls))
		return self.out
	def choose(self, key):
		if key in self.st.dec: return self.st.dec[key]
		k = len(self.used)
		v = self.plan[k] if k < len(self.plan) else True
		self.used.append(v); self.st.dec[key] = v
		return v
	def test(self, pred, a, b):
		if a[0] == "i" and b[0] == "i":
			x, y = a[1], b[1]
			if pred[0] == "u": x, y = x & (2**64 - 1), y & (2**64 - 1)
			return {"eq": x == y, "ne": x != y, "lt": x < y, "gt": x > y, "le": x <= y, "ge": x >= y}[pred if pred in ("eq", "ne") else pred[1:]]
		if pred in ("eq", "ne"):
			if a == b and a != TOP: return pred == "eq"
			solid = lambda v: v[0] in ("g", "p", "s")
			if solid(a) and solid(b) or solid(a) and b == ZERO or solid(b) and a == ZERO: return pred == "ne"
			if a[0] == "i" or repr(a) > repr(b) and b[0] != "i": a, b = b, a
			return self.choose(("eq", a, b)) == (pred == "eq")
		if a[0] == "i": a, b, pred = b, a, SWAP[pred]
		if a == b: return pred[1:] in ("le", "ge")
		known = self.sign(a) if b == ZERO and pred[0] == "s" else None
		if known is not None: return {"lt": known < 0, "gt": known > 0, "le": known <= 0, "ge": known >= 0}[pred[1:]]
		for p, r in ((pred, True), (NEG[pred], False)):
			if (p, a, b) in self.st.dec: return self.st.dec[(p, a, b)] == r
		if pred[1:] in ("ge", "le"): return not self.choose((NEG[pred], a, b))
		return self.choose((pred, a, b))
	def sign(self, a):
		d = self.st.dec
		if d.get(("eq", a, ZERO)): return 0
		if d.get(("slt", a, ZERO)): return -1
		if d.get(("sgt", a, ZERO)): return 1
		return None
	# memory
	def load(self, p, size):
		if p[0] == "p":
			k = (p[1], p[2])
			if k in self.st.mem: return self.st.mem[k]
			return TOP if p[1][0] == "al" else ("ld", p[1], p[2])
		if p[0] == "g":
			return self.st.mem.get((p, 0), ("ld", p, 0))
		return self.st.mem.get((p, 0), ("ld", p, 0))
	def store(self, p, v):
		if p[0] == "p": self.st.mem[(p[1], p[2])] = v
		else: self.st.mem[(p, 0)] = v
	def add(self, p, off):
		if off == 0: return p
		if p[0] == "p": return ("p", p[1], p[2] + off) if isinstance(p[2], int) else ("p", p[1], TOP)
		return ("p", p, off)
	def val(self, regs, fn, v):
		k = v[0]
		if k == "v": return regs.get(v[1], TOP)
		if k == "i": return ("i", v[2])
		if k == "null": return ZERO
		if k == "g":
			t = self.text(fn.unit, v)
			return ("s", t) if t is not None and v[1].startswith((".str", "__func", "__PRETTY")) else ("g", v[1])
		if k == "fn": return ("g", v[1])
		if k == "gep": return self.gep(regs, fn, v)
		return TOP
	def gep(self, regs, fn, g):
		base, off = self.val(regs, fn, g[1]), g[2]
		for x, s in [(y[0], y[1]) for y in g[3]]:
			i = self.val(regs, fn, x)
			if i[0] != "i": return ("p", base, TOP)
			off += i[1] * s
		return self.add(base, off)
	def call(self, fn, args, depth):
		if depth > 12: raise Stop
		regs, b, prev, count = {}, 0, None, {}
		for i, a in enumerate(args[:len(fn.params)]): regs[i] = a
		self.st.n += 1; frame = self.st.n
		while True:
			count[b] = count.get(b, 0) + 1
			if count[b] > self.visits: raise Stop
			for ins in fn.blocks[b]:
				o, d = ins.op, ins.d
				if o == "alloca": regs[ins.id] = ("p", ("al", frame, ins.id), 0)
				elif o == "load": regs[ins.id] = self.load(self.val(regs, fn, d["a"][0]), d["sz"])
				elif o == "store": self.store(self.val(regs, fn, d["a"][1]), self.val(regs, fn, d["a"][0]))
				elif o == "getelementptr": regs[ins.id] = self.gep(regs, fn, d["gep"])
				elif o == "icmp":
					x, y = self.val(regs, fn, d["a"][0]), self.val(regs, fn, d["a"][1])
					regs[ins.id] = ("i", int(self.test(d["pred"], x, y)))
				elif o in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "freeze"): regs[ins.id] = self.val(regs, fn, d["a"][0])
				elif o == "call":
					r = self.invoke(regs, fn, ins, depth)
					regs[ins.id] = r
				elif o == "phi":
					regs[ins.id] = TOP
					for w, p in d["in"]:
						if p == prev: regs[ins.id] = self.val(regs, fn, w)
				elif o == "select":
					c = self.val(regs, fn, d["a"][0])
					if c[0] != "i": c = ("i", int(self.test("ne", c, ZERO)))
					regs[ins.id] = self.val(regs, fn, d["a"][1 if c[1] else 2])
				elif o == "ret":
					return self.val(regs, fn, d["a"][0]) if d.get("a") else ("void",)
				elif o == "br":
					if len(d["t"]) == 1: nb = d["t"][0]
					else:
						c = self.val(regs, fn, d["c"])
						if c[0] != "i": c = ("i", int(self.test("ne", c, ZERO)))
						nb = d["t"][0 if c[1] else 1]
					prev, b = b, nb
					break
				elif o == "switch":
					c = self.val(regs, fn, d["c"]); nb = None
					for k, t in d["cases"]:
						if self.test("eq", c, ("i", k)): nb = t; break
					if nb is None: nb = d["def"]
					prev, b = b, nb
					break
				elif o == "unreachable": raise Stop
				elif "a" in d:
					x = tuple(self.val(regs, fn, y) for y in d["a"])
					regs[ins.id] = self.arith(o, x)
					if ins.ty in (1, "i1") and regs[ins.id][0] == "i": regs[ins.id] = ("i", regs[ins.id][1] & 1)
					elif ins.ty in (1, "i1") and o == "xor" and x[1][0] == "i" and x[1][1] & 1: regs[ins.id] = ("i", int(not self.test("ne", x[0], ZERO)))
				else: regs[ins.id] = TOP
			else: raise Stop
	def arith(self, o, x):
		if len(x) == 2 and all(y[0] == "i" for y in x):
			p, q = x[0][1], x[1][1]
			f = {"add": lambda: p + q, "sub": lambda: p - q, "mul": lambda: p * q, "and": lambda: p & q, "or": lambda: p | q, "xor": lambda: p ^ q, "shl": lambda: p << q, "lshr": lambda: p >> q, "ashr": lambda: p >> q}.get(o)
			if f: return ("i", f())
		return ("call", o, x)
	def invoke(self, regs, fn, ins, depth):
		d = ins.d
		name = d.get("fn")
		args = tuple(self.val(regs, fn, a) for a in d["a"])
		if name is None: name = "*"
		if name.startswith("llvm."): return TOP
		m = self.models.get(name)
		if m is not None: return m(self, fn, args)
		g = self.prog.lookup(fn.unit, name) if name != "*" else None
		if g is not None and g.blocks and self.inline(g): return self.call(g, args, depth + 1)
		t = ("call", name, tuple(self.clean(a) for a in args))
		if name == "*" or name.endswith(("_list_empty", "_list_pop", "_list_pop_first")):
			t = t[:2] + (t[2] + (("n", sum(c[1] == name for c in self.st.calls)),),)
		self.st.calls.append(t)
		for i, a in enumerate(args):
			if a[0] == "p" and a[1][0] in ("al", "new"): self.store(a, ("out", name, t[2], i))
		return t
	def clean(self, a):
		"""What is at the place that is passed, if it has been set."""
		if a[0] == "p" and a[1][0] in ("al", "new"):
			v = self.st.mem.get((a[1], a[2]))
			return ("at", v) if v is not None and v != ZERO else ("&",)
		return a
