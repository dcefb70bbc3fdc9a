"""Path-sensitive abstract interpretation of Python syntax trees.

States are finite: values are terms over call sites and parameters, facts are truth values of such terms, objects
with a protocol (files, connections, databases) have a typestate that models update.  A statement has several
outcomes (falls through, returns, raises, breaks, continues); loops are iterated to a fixed point of states."""
import ast, builtins, importlib
from frontend import AnalysisError

NONE = ("k", None)
TRUE, FALSE = ("k", True), ("k", False)
def K(v): return ("k", v)
def const(v): return v[0] == "k"

class State:
	__slots__ = ("env", "heap", "ts", "facts", "trace")
	def __init__(self): self.env, self.heap, self.ts, self.facts, self.trace = {}, {}, {}, {}, ()
	def copy(self):
		s = State(); s.env, s.heap, s.ts, s.facts, s.trace = dict(self.env), dict(self.heap), dict(self.ts), dict(self.facts), self.trace
		return s
	def key(self):
		return (frozenset(self.env.items()), frozenset(self.heap.items()), frozenset(self.ts.items()), frozenset(self.facts.items()))

def mentions(v, x):
	if v == x: return True
	return isinstance(v, tuple) and any(mentions(y, x) for y in v)
def replace(v, x, y):
	if v == x: return y
	if isinstance(v, tuple): return tuple(replace(z, x, y) for z in v)
	return v

CLASSES = {}		# exception classes of modules that are not installed
def deep(v): return 1 + max((deep(x) for x in v if isinstance(x, tuple)), default=0) if isinstance(v, tuple) else 0
def pyclass(name):
	"""Class object of the standard library a dotted name stands for."""
	if name in CLASSES: return CLASSES[name]
	if "." in name:
		m, c = name.rsplit(".", 1)
		try: return getattr(importlib.import_module(m), c, None)
		except ImportError: return None
	return getattr(builtins, name, None)

def catches(handler, exc):
	"""True/False/None (perhaps): does a handler for one class catch an exception of another."""
	h, e = pyclass(handler), pyclass(exc)
	if not isinstance(h, type) or not isinstance(e, type): return handler == exc or None
	if issubclass(e, h): return True
	return None if issubclass(h, e) else False

def sites(v, out):
	if isinstance(v, tuple):
		if v and v[0] in ("site", "old", "expr", "exc", "o"): out.add(v)
		for x in v: sites(x, out)

def collect(st, roots=()):
	"""Forgets what is known about values that nothing refers to any more."""
	live = set()
	sites(tuple(st.env.values()), live); sites(tuple(st.ts.items()), live); sites(tuple(roots), live)
	for (b, a), v in st.heap.items():
		if b[0] == "self": sites(v, live)
	while True:
		n = len(live)
		for (b, a), v in st.heap.items():
			l = set(); sites(b, l)
			if l <= live: sites(v, live)
		if len(live) == n: break
	def dead(k):
		l = set(); sites(k, l)
		return not l <= live
	for d in (st.facts, st.heap):
		for k in [k for k in d if dead(k)]: del d[k]

def loads(n):
	return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Store)}
def live(stmts, out, brk, cnt, exc):
	"""Variables whose values may be read from the beginning of the statements on; out, brk, cnt, exc: those read after them."""
	l = set(out)
	for n in reversed(stmts):
		if isinstance(n, (ast.Return, ast.Raise)): l = loads(n) | exc
		elif isinstance(n, ast.Break): l = set(brk)
		elif isinstance(n, ast.Continue): l = set(cnt)
		elif isinstance(n, (ast.Assign, ast.AnnAssign)):
			t = n.targets if isinstance(n, ast.Assign) else [n.target]
			d = {x.id for y in t for x in ast.walk(y) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
			l = (l - d) | loads(n) | exc
		elif isinstance(n, ast.If): l = loads(n.test) | live(n.body, l, brk, cnt, exc) | live(n.orelse, l, brk, cnt, exc)
		elif isinstance(n, (ast.For, ast.AsyncFor, ast.While)):
			after = live(n.orelse, l, brk, cnt, exc)
			d = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)} if not isinstance(n, ast.While) else set()
			h = after | loads(n.test if isinstance(n, ast.While) else n.iter) | exc
			while True:
				b = live(n.body, h, l, h, exc)
				h2 = h | (b - d)
				if h2 == h: break
				h = h2
			n.head_live = (h if isinstance(n, ast.While) else h - (loads(n.iter) - after - b) if False else h) | exc
			l = h
		elif isinstance(n, (ast.With, ast.AsyncWith)):
			l = live(n.body, l, brk, cnt, exc)
			for i in reversed(n.items):
				if i.optional_vars is not None: l = l - {x.id for x in ast.walk(i.optional_vars) if isinstance(x, ast.Name)}
				l = l | loads(i.context_expr)
		elif isinstance(n, ast.Try):
			f = live(n.finalbody, l | exc | brk | cnt, brk, cnt, exc) if n.finalbody else None
			o = f if f is not None else l
			b2, c2, e2 = (f, f, f) if f is not None else (brk, cnt, exc)
			h = set(e2)
			for x in n.handlers: h |= live(x.body, o, b2, c2, e2) | (loads(x.type) if x.type is not None else set())
			l = live(n.body, live(n.orelse, o, b2, c2, e2), b2, c2, h)
		else: l = l | loads(n) | exc
	return l

def synchronous(tree):
	"""Turns coroutines into functions (marked is_async) and marks calls that are awaited or handed on."""
	class T(ast.NodeTransformer):
		def visit_AsyncFunctionDef(self, n):
			self.generic_visit(n)
			m = ast.copy_location(ast.FunctionDef(name=n.name, args=n.args, body=n.body, decorator_list=n.decorator_list, returns=n.returns, type_comment=None, type_params=[]), n)
			m.is_async = True
			return m
	tree = T().visit(tree)
	for n in ast.walk(tree):
		for c in ast.iter_child_nodes(n):
			if isinstance(c, ast.Call) and not isinstance(n, (ast.Expr, ast.Assign)): c.consumed = True
			if isinstance(c, ast.Call) and isinstance(n, ast.Assign): c.consumed = True
	return tree

class Frame:
	def __init__(self, rel, cls, fn, selfv, depth): self.rel, self.cls, self.fn, self.selfv, self.depth = rel, cls, fn, selfv, depth
	def name(self): return ("%s.%s" % (self.cls.name, self.fn.name)) if self.cls is not None else self.fn.name

class Flow:
	"""models: function name (dotted) -> model; methods: attribute name -> model(I, fr, st, node, base, args, kw) or None when it does not apply.
	A model returns a list of ("v", state, value) and ("exc", state, ("exc", class, origin))."""
	MAXDEPTH = 12
	coarse = False		# keep only what values are, nothing about how they were computed, and no facts
	def __init__(self, trees, models=None, methods=None, hooks=None, budget=200000):
		self.trees = trees		# rel -> ast.Module
		self.models, self.methods, self.hooks = models or {}, methods or {}, hooks
		self.imports, self.top, self.budget, self.steps = {}, {}, budget, 0
		self.calls, self.reports, self.stack, self.pinned = 0, {}, [], []
		for rel, t in trees.items():
			im, top = {}, {}
			for n in ast.walk(t):
				if isinstance(n, ast.Import):
					for a in n.names:
						if a.asname: im[a.asname] = a.name
						else: im[a.name.split(".")[0]] = a.name.split(".")[0]
				elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
					for a in n.names: im[a.asname or a.name] = n.module + "." + a.name
			for n in t.body:
				if isinstance(n, (ast.FunctionDef, ast.ClassDef)): top[n.name] = n
				elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name): top[n.targets[0].id] = n
			self.imports[rel], self.top[rel] = im, top
	def report(self, rule, fr, node, msg, st=None, key=None):
		k = (rule, fr.name(), key if key is not None else node.lineno)
		if k not in self.reports:
			self.reports[k] = dict(rule=rule, file=fr.rel, line=getattr(node, "lineno", fr.fn.lineno), function=fr.name(), message=msg, key=str(key or ""), path=list(st.trace) if st else [])
	def mark(self, st, node, what): st.trace = (st.trace + ("line %d: %s" % (node.lineno, what),))[-16:]
	# -- names
	def member(self, fr, name):
		"""Method of the class of the frame (or of a base class in the same file)."""
		c, seen = fr.cls, 0
		while c is not None and seen < 8:
			for n in c.body:
				if isinstance(n, ast.FunctionDef) and n.name == name: return n
			c = next((self.top[fr.rel].get(b.id) for b in c.bases if isinstance(b, ast.Name) and isinstance(self.top[fr.rel].get(b.id), ast.ClassDef)), None); seen += 1
		return None
	def dotted(self, fr, v):
		"""Dotted name of a module member a value stands for."""
		if v[0] == "mod": return v[1]
		return None
	# -- sites
	def fresh(self, st, fr, node, tag=""):
		v = ("s", ("site", fr.name(), node.lineno, node.col_offset, tag))
		self.forget(st, v)
		return v
	def forget(self, st, v):
		"""A value of an earlier visit of the same site becomes an old one."""
		old = ("s", ("old", v[1]))
		ren = lambda d: {replace(k, v, old): replace(x, v, old) for k, x in d.items()}
		if any(mentions(x, v) or mentions(k, v) for d in (st.env, st.heap, st.facts) for k, x in d.items()):
			for k in [k for k in st.facts if mentions(k, old)]: del st.facts[k]
			st.env, st.heap, st.facts = ren(st.env), ren(st.heap), ren(st.facts)
	# -- truth
	def truth(self, fr, st, v, node):
		"""[(state, bool)]"""
		if v[0] == "k": return [(st, bool(v[1]))]
		if v[0] in ("o", "self", "fn", "mod", "exc"): return [(st, True)]
		if v[0] == "t": return [(st, len(v[1]) > 0)]
		if v[0] == "s" and v[1][0] == "not": return [(s, not b) for s, b in self.truth(fr, st, v[1][1], node)]
		if v in st.facts: return [(st, st.facts[v])]
		out = []
		for b in (True, False):
			s = st.copy()
			if not self.coarse: s.facts[v] = b
			if self.hooks: 
				if self.hooks.assume(self, fr, s, v, b, node) is False: continue
			out.append((s, b))
		return out
	# -- expressions: list of ("v", state, value) / ("exc", state, exc)
	def seq(self, fr, st, nodes):
		"""Evaluates expressions in order: [("v", state, [values])] and exceptions."""
		outs = [("v", st, [])]
		for n in nodes:
			new = []
			for k, s, vs in outs:
				if k != "v": new.append((k, s, vs)); continue
				for k2, s2, v in self.ev(fr, s, n): new.append((k2, s2, vs + [v] if k2 == "v" else v))
			outs = new
		return outs
	def ev(self, fr, st, n):
		self.steps += 1
		if self.steps > self.budget: raise AnalysisError("%s: more than %d steps" % (fr.name(), self.budget))
		m = getattr(self, "ev_" + type(n).__name__, None)
		if m: return m(fr, st, n)
		# anything else: operands for their effects, an opaque value
		kids = [c for c in ast.iter_child_nodes(n) if isinstance(c, ast.expr)]
		return [(k, s, ("s", ("expr", fr.name(), n.lineno, n.col_offset)) if k == "v" else v) for k, s, v in self.seq(fr, st, kids)]
	def opaque(self, fr, st, n): return [("v", st, self.fresh(st, fr, n))]
	ev_ListComp = ev_SetComp = ev_DictComp = ev_GeneratorExp = ev_Lambda = lambda self, fr, st, n: self.opaque(fr, st, n)
	def ev_JoinedStr(self, fr, st, n):
		out = []
		for k, s, vs in self.seq(fr, st, [x.value if isinstance(x, ast.FormattedValue) else x for x in n.values]):
			if k != "v": out.append((k, s, vs))
			elif all(const(x) for x in vs) and not any(isinstance(x, ast.FormattedValue) and (x.format_spec or x.conversion != -1) for x in n.values): out.append(("v", s, K("".join(str(x[1]) for x in vs))))
			else: out += self.opaque(fr, s, n)
		return out
	def ev_Constant(self, fr, st, n): return [("v", st, K(n.value))]
	def ev_Name(self, fr, st, n):
		if n.id in st.env: return [("v", st, st.env[n.id])]
		top = self.top[fr.rel].get(n.id)
		if isinstance(top, (ast.FunctionDef, ast.ClassDef)): return [("v", st, ("fn", fr.rel, None, n.id))]
		if n.id in self.imports[fr.rel]: return [("v", st, ("mod", self.imports[fr.rel][n.id]))]
		if isinstance(top, ast.Assign): return [("v", st, ("s", ("global", fr.rel, n.id)))]
		return [("v", st, ("mod", n.id))]
	def ev_Attribute(self, fr, st, n):
		out = []
		for k, s, b in self.ev(fr, st, n.value):
			out.append((k, s, self.attr(fr, s, b, n.attr) if k == "v" else b))
		return out
	def attr(self, fr, st, b, a):
		if b[0] == "mod": return ("mod", b[1] + "." + a)
		if (b, a) in st.heap: return st.heap[(b, a)]
		if b[0] == "self":
			m = self.member(fr, a) or self.member(fr, "_%s%s" % (fr.cls.name, a))
			if m is not None and not any(isinstance(d, ast.Name) and d.id == "property" for d in m.decorator_list): return ("bound", a)
		return ("s", ("attr", b, a))
	def ev_Tuple(self, fr, st, n):
		if any(isinstance(e, ast.Starred) for e in n.elts): return [(k, s, ("s", ("expr", fr.name(), n.lineno, n.col_offset)) if k == "v" else v) for k, s, v in self.seq(fr, st, [e.value if isinstance(e, ast.Starred) else e for e in n.elts])]
		return [(k, s, ("t", tuple(v)) if k == "v" else v) for k, s, v in self.seq(fr, st, n.elts)]
	def ev_List(self, fr, st, n):
		return [(k, s, ("s", ("list", n.lineno, n.col_offset)) if k == "v" and not v else ("t", tuple(v)) if k == "v" else v) for k, s, v in self.seq(fr, st, [e.value if isinstance(e, ast.Starred) else e for e in n.elts])]
	def ev_Dict(self, fr, st, n):
		return [(k, s, ("s", ("dict", n.lineno, n.col_offset)) if k == "v" else v) for k, s, v in self.seq(fr, st, [x for x in n.keys if x is not None] + n.values)]
	def ev_NamedExpr(self, fr, st, n):
		out = []
		for k, s, v in self.ev(fr, st, n.value):
			if k == "v": s = s.copy(); s.env[n.target.id] = v
			out.append((k, s, v))
		return out
	def ev_IfExp(self, fr, st, n):
		out = []
		for k, s, b in self.cond(fr, st, n.test):
			out += [(k, s, b)] if k == "exc" else self.ev(fr, s, n.body if b else n.orelse)
		return out
	def ev_BoolOp(self, fr, st, n):
		outs = self.ev(fr, st, n.values[0])
		for nxt in n.values[1:]:
			new = []
			for k, s, v in outs:
				if k == "exc": new.append((k, s, v)); continue
				if k == "done": new.append((k, s, v)); continue
				for s2, b in self.truth(fr, s, v, n):
					if b == isinstance(n.op, ast.Or): new.append(("done", s2, v))
					else: new += self.ev(fr, s2, nxt)
			outs = new
		return [("v" if k == "done" else k, s, v) for k, s, v in outs]
	def ev_UnaryOp(self, fr, st, n):
		if not isinstance(n.op, ast.Not): return [(k, s, (K(-v[1]) if isinstance(n.op, ast.USub) and v[0] == "k" and isinstance(v[1], (int, float)) else ("s", ("un", type(n.op).__name__, v))) if k == "v" else v) for k, s, v in self.ev(fr, st, n.operand)]
		return [(k, s, (K(not v[1]) if v[0] == "k" else ("s", ("not", v))) if k == "v" else v) for k, s, v in self.ev(fr, st, n.operand)]
	def ev_BinOp(self, fr, st, n):
		def val(a, b):
			flat = lambda x: x[1] if x[0] == "k" else tuple(flat(y) for y in x[1])
			ok = lambda x: x[0] == "k" or (x[0] == "t" and all(y[0] == "k" for y in x[1]))
			if ok(a) and ok(b) and a[0] == "k" and isinstance(a[1], str):
				try:
					if isinstance(n.op, ast.Mod): return K(a[1] % flat(b))
					if isinstance(n.op, ast.Add) and b[0] == "k": return K(a[1] + b[1])
				except (TypeError, ValueError): pass
			return ("s", ("bin", type(n.op).__name__, a, b))
		return [(k, s, val(v[0], v[1]) if k == "v" else v) for k, s, v in self.seq(fr, st, [n.left, n.right])]
		return [(k, s, ("s", ("bin", type(n.op).__name__, v[0], v[1])) if k == "v" else v) for k, s, v in self.seq(fr, st, [n.left, n.right])]
	def ev_Compare(self, fr, st, n):
		if len(n.ops) > 1: return [(k, s, ("s", ("expr", fr.name(), n.lineno, n.col_offset)) if k == "v" else v) for k, s, v in self.seq(fr, st, [n.left] + n.comparators)]
		out = []
		for k, s, v in self.seq(fr, st, [n.left, n.comparators[0]]):
			if k != "v": out.append((k, s, v)); continue
			a, b = v; op = type(n.ops[0]).__name__
			if op in ("Is", "IsNot", "Eq", "NotEq"):
				r = None
				if const(a) and const(b): r = a == b and type(a[1]) == type(b[1]) if op.startswith("Is") else a[1] == b[1]
				elif op.startswith("Is") and NONE in (a, b):
					x = b if a == NONE else a
					if x[0] in ("o", "self", "fn", "mod", "t", "exc", "bound"): r = False
					elif st.facts.get(x) is True: r = False
				elif a == b and op in ("Is", "Eq", "IsNot", "NotEq"): r = True
				if r is not None: out.append(("v", s, K(r == (op in ("Is", "Eq"))))); continue
				e = ("s", ("cmp", "is" if op.startswith("Is") else "eq", a, b))
				out.append(("v", s, e if op in ("Is", "Eq") else ("s", ("not", e))))
			elif const(a) and const(b) and op in ("Lt", "LtE", "Gt", "GtE"):
				try: out.append(("v", s, K({"Lt": a[1] < b[1], "LtE": a[1] <= b[1], "Gt": a[1] > b[1], "GtE": a[1] >= b[1]}[op])))
				except TypeError: out.append(("v", s, ("s", ("cmp", op, a, b))))
			elif op == "NotIn": out.append(("v", s, ("s", ("not", ("s", ("cmp", "In", a, b))))))
			else: out.append(("v", s, ("s", ("cmp", op, a, b))))
		return out
	def ev_Subscript(self, fr, st, n):
		return [(k, s, (s.heap.get((v[0], ("item", v[1]))) or ("s", ("item", v[0], v[1]))) if k == "v" else v) for k, s, v in self.seq(fr, st, [n.value, n.slice])]
	def ev_Slice(self, fr, st, n): return [("v", st, ("s", ("slice", n.lineno, n.col_offset)))]
	def ev_Await(self, fr, st, n): return self.ev(fr, st, n.value)
	def ev_Starred(self, fr, st, n): return self.ev(fr, st, n.value)
	def cond(self, fr, st, n):
		"""[("b", state, bool)] and exceptions."""
		if isinstance(n, ast.BoolOp):
			outs = [("go", st, None)]
			for x in n.values:
				new = []
				for k, s, b in outs:
					if k != "go": new.append((k, s, b)); continue
					for k2, s2, b2 in self.cond(fr, s, x):
						if k2 == "b" and b2 != isinstance(n.op, ast.Or): new.append(("go", s2, b2))
						else: new.append((k2, s2, b2))
				outs = new
			return [("b" if k == "go" else k, s, b) for k, s, b in outs]
		if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
			return [(k, s, not b if k == "b" else b) for k, s, b in self.cond(fr, st, n.operand)]
		out = []
		for k, s, v in self.ev(fr, st, n):
			if k == "exc": out.append((k, s, v)); continue
			out += [("b", s2, b) for s2, b in self.truth(fr, s, v, n)]
		return out
	# -- calls
	def ev_Call(self, fr, st, n):
		self.calls += 1
		kwn = [w.arg for w in n.keywords]
		out = []
		for k, s, vs in self.seq(fr, st, [n.func] + n.args + [w.value for w in n.keywords]):
			if k != "v": out.append((k, s, vs)); continue
			f, args, kw = vs[0], vs[1:1 + len(n.args)], dict(zip(kwn, vs[1 + len(n.args):]))
			if any(isinstance(a, ast.Starred) for a in n.args): args = [a for a, x in zip(args, n.args) if not isinstance(x, ast.Starred)]; kw["*"] = TRUE
			out += self.call(fr, s, n, f, args, kw)
		return out
	def call(self, fr, st, n, f, args, kw):
		name = f[1] if f[0] == "mod" else None
		if name is not None and name in self.models: return self.models[name](self, fr, st.copy(), n, args, kw)
		if name == "bool" and len(args) == 1: return [("v", s, K(b)) for s, b in self.truth(fr, st, args[0], n)]
		if f[0] == "bound":
			m = self.member(fr, f[1]) or self.member(fr, "_%s%s" % (fr.cls.name, f[1]))
			hk = self.methods.get("self." + f[1])
			if hk: return hk(self, fr, st.copy(), n, ("self",), args, kw)
			return self.inline(fr, st, n, fr.rel, fr.cls, m, ("self",), args, kw)
		if f[0] == "fn" and isinstance(self.top[f[1]].get(f[3]), ast.FunctionDef): return self.inline(fr, st, n, f[1], None, self.top[f[1]][f[3]], None, args, kw)
		if f[0] == "local": return self.inline(fr, st, n, fr.rel, fr.cls, f[1].node, None, args, kw, closure=True)
		if f[0] == "s" and f[1][0] == "attr":
			m = self.methods.get(f[1][2])
			if m:
				r = m(self, fr, st.copy(), n, f[1][1], args, kw)
				if r is not None: return r
		return self.unknown(fr, st, n, f, args, kw)
	def unknown(self, fr, st, n, f, args, kw):
		st = st.copy()
		v = self.fresh(st, fr, n)
		out = [("v", st, v)]
		if self.hooks: 
			e = self.hooks.unknown(self, fr, st, n, f, args, kw)
			if e: out.append(("exc", st.copy(), e))
		return out
	def inline(self, fr, st, n, rel, cls, fn, selfv, args, kw, closure=False):
		if fr.depth > self.MAXDEPTH: raise AnalysisError("%s: calls too deep or recursive" % fr.name())
		a = fn.args
		names = [x.arg for x in a.posonlyargs + a.args]
		decos = [d.id for d in fn.decorator_list if isinstance(d, ast.Name)]
		if selfv is not None and "staticmethod" not in decos: args = [selfv] + list(args)
		env = dict(st.env) if closure else {}
		for i, x in enumerate(names):
			if i < len(args): env[x] = args[i]
			elif x in kw: env[x] = kw[x]
			else:
				d = i - (len(names) - len(a.defaults))
				env[x] = (self.ev(fr, st, a.defaults[d])[0][2] if d >= 0 else ("s", ("arg", fn.name, x)))
		for x, d in zip(a.kwonlyargs, a.kw_defaults): env[x.arg] = kw.get(x.arg, self.ev(fr, st, d)[0][2] if d is not None else ("s", ("arg", fn.name, x.arg)))
		if a.vararg: env[a.vararg.arg] = ("t", tuple(args[len(names):]))
		if a.kwarg: env[a.kwarg.arg] = ("s", ("kwargs", fn.name, tuple(sorted((k, v) for k, v in kw.items() if k not in names))))
		s = st.copy(); saved = s.env; s.env = env
		f2 = Frame(rel, cls, fn, selfv, fr.depth + 1)
		f2.caller = fr
		out, seen = [], set()
		self.stack.append(tuple(saved.values()) + tuple(args) + tuple(kw.values()))
		body = self.block(f2, s, fn.body)
		self.stack.pop()
		for k, s2, v in body:
			s2 = s2.copy()
			mine = s2.env
			s2.env = dict(saved)
			if closure:
				for x in saved:
					if x in mine and x not in names: s2.env[x] = mine[x]
			if k == "n": k, v = "ret", NONE
			if k in ("brk", "cnt"): raise AnalysisError("break outside of a loop")
			o = ("v" if k == "ret" else k, s2, v)
			kk = (o[0], s2.key(), v)
			if kk not in seen: seen.add(kk); out.append(o)
		return out
	# -- statements: list of (kind, state, value)
	def block(self, fr, st, stmts):
		outs = [("n", st, None)]
		for x in stmts:
			new, seen = [], set()
			for k, s, v in outs:
				if k != "n":
					new.append((k, s, v)); continue
				for o in self.stmt(fr, s, x):
					collect(o[1], [o[2]] + self.stack + self.pinned)
					kk = (o[0], o[1].key(), o[2])
					if kk not in seen: seen.add(kk); new.append(o)
			outs = new
		return outs
	def stmt(self, fr, st, n):
		m = getattr(self, "st_" + type(n).__name__, None)
		if m is None: raise AnalysisError("%s:%d: %s statements are not supported" % (fr.rel, n.lineno, type(n).__name__))
		return m(fr, st, n)
	def _nop(self, fr, st, n): return [("n", st, None)]
	st_Pass = st_Import = st_ImportFrom = st_Global = st_Nonlocal = st_ClassDef = _nop
	def st_FunctionDef(self, fr, st, n):
		s = st.copy(); s.env[n.name] = ("local", Node(n)); return [("n", s, None)]
	def st_Break(self, fr, st, n): return [("brk", st, None)]
	def st_Continue(self, fr, st, n): return [("cnt", st, None)]
	def st_Delete(self, fr, st, n):
		s = st.copy()
		for t in n.targets:
			if isinstance(t, ast.Name): s.env.pop(t.id, None)
		return [("n", s, None)]
	def st_Expr(self, fr, st, n): return [("n" if k == "v" else k, s, v if k != "v" else None) for k, s, v in self.ev(fr, st, n.value)]
	def st_Assert(self, fr, st, n):
		out = []
		for k, s, b in self.cond(fr, st, n.test):
			if k == "exc": out.append((k, s, b))
			elif b: out.append(("n", s, None))
			else: out.append(("exc", s, ("exc", "AssertionError", "local")))
		return out
	def st_Return(self, fr, st, n):
		if n.value is None: return [("ret", st, NONE)]
		return [("ret" if k == "v" else k, s, v) for k, s, v in self.ev(fr, st, n.value)]
	def assign(self, fr, st, t, v):
		"""Stores into a target: [(kind, state, None)]"""
		if self.coarse and v[0] == "s" and (v[1][0] not in ("attr", "site", "arg", "global") or deep(v) > 6): v = ("s", ("var", fr.name(), t.id if isinstance(t, ast.Name) else ""))
		if deep(v) > 14: v = ("s", ("expr", fr.name(), t.lineno, t.col_offset))
		if isinstance(t, ast.Name): st.env[t.id] = v; return [("n", st, None)]
		if isinstance(t, (ast.Tuple, ast.List)):
			star = any(isinstance(e, ast.Starred) for e in t.elts)
			for i, e in enumerate(t.elts):
				if star and v[0] == "t" and not any(isinstance(y, ast.Starred) for y in t.elts[:i]) and i < len(v[1]): x = v[1][i] if not isinstance(e, ast.Starred) else ("t", v[1][i:len(v[1]) - (len(t.elts) - i - 1)])
				else: x = v[1][i] if v[0] == "t" and len(v[1]) == len(t.elts) else ("s", ("item", v, K(i)))
				self.assign(fr, st, e.value if isinstance(e, ast.Starred) else e, x)
			return [("n", st, None)]
		if isinstance(t, ast.Attribute):
			out = []
			for k, s, b in self.ev(fr, st, t.value):
				if k == "v" and (not self.coarse or b[0] == "self"): s.heap[(b, t.attr)] = v
				out.append(("n" if k == "v" else k, s, None if k == "v" else b))
			return out
		if isinstance(t, ast.Subscript):
			out = []
			for k, s, b in self.seq(fr, st, [t.value, t.slice]):
				if k == "v" and not self.coarse:
					for q in [q for q in s.heap if q[0] == b[0] and isinstance(q[1], tuple)]: del s.heap[q]
					if const(b[1]): s.heap[(b[0], ("item", b[1]))] = v
				out.append(("n" if k == "v" else k, s, None if k == "v" else b))
			return out
		raise AnalysisError("%s:%d: target" % (fr.rel, t.lineno))
	def st_Assign(self, fr, st, n):
		out = []
		for k, s, v in self.ev(fr, st, n.value):
			if k == "exc": out.append((k, s, v)); continue
			outs = [("n", s.copy(), None)]
			for t in n.targets:
				outs = [o2 for o in outs for o2 in (self.assign(fr, o[1], t, v) if o[0] == "n" else [o])]
			out += outs
		return out
	def st_AnnAssign(self, fr, st, n):
		if n.value is None: return [("n", st, None)]
		return self.st_Assign(fr, st, ast.copy_location(ast.Assign(targets=[n.target], value=n.value), n))
	def st_AugAssign(self, fr, st, n):
		b = ast.copy_location(ast.BinOp(left=_load(n.target), op=n.op, right=n.value), n)
		return self.st_Assign(fr, st, ast.copy_location(ast.Assign(targets=[n.target], value=b), n))
	def st_If(self, fr, st, n):
		out = []
		for k, s, b in self.cond(fr, st, n.test):
			if k == "exc": out.append((k, s, b)); continue
			out += self.block(fr, s, n.body if b else n.orelse)
		return out
	def st_Raise(self, fr, st, n):
		if n.exc is None:
			e = st.env.get("!exc")
			if e is None: raise AnalysisError("%s:%d: bare raise" % (fr.rel, n.lineno))
			return [("exc", st, e)]
		out = []
		x = n.exc
		if isinstance(x, ast.Call):
			for k, s, vs in self.seq(fr, st, x.args + [w.value for w in x.keywords]):
				if k != "v": out.append((k, s, vs)); continue
				for k2, s2, c in self.ev(fr, s, x.func):
					out.append(("exc", s2, ("exc", c[1] if c[0] == "mod" else c[3] if c[0] == "fn" else "Exception", "raised")) if k2 == "v" and c[0] in ("mod", "fn") else ("exc", s2, c if k2 == "exc" else ("exc", "Exception", "raised")))
			return out
		for k, s, v in self.ev(fr, st, x):
			out.append(("exc", s, v if v[0] == "exc" else ("exc", v[1], "raised") if v[0] == "mod" else ("exc", "Exception", "raised")))
		return out
	def types(self, fr, st, n):
		if n is None: return ["BaseException"]
		l = n.elts if isinstance(n, ast.Tuple) else [n]
		out = []
		for x in l:
			v = self.ev(fr, st, x)[0][2]
			if v[0] == "mod": out.append(v[1])
			elif v[0] == "t": out += [y[1] for y in v[1] if y[0] == "mod"]
			elif v[0] == "s" and v[1][0] == "global":
				g = self.top[v[1][1]].get(v[1][2])
				out += self.types(fr, st, g.value)
			else: out.append("?")
		return out
	def st_Try(self, fr, st, n):
		out, after = [], []
		for k, s, v in self.block(fr, st, n.body):
			if k == "n" and n.orelse: after += self.block(fr, s, n.orelse)
			elif k == "exc":
				live = True
				for h in n.handlers:
					r = [catches(t, v[1]) for t in self.types(fr, s, h.type)]
					if v[2] == "local": r = [x is True for x in r]
					if not any(x is not False for x in r): continue
					s2 = s.copy()
					prev = s2.env.get("!exc")
					s2.env["!exc"] = v
					if h.name: s2.env[h.name] = v
					if self.hooks: self.hooks.caught(self, fr, s2, h, v)
					for o in self.block(fr, s2, h.body):
						s3 = o[1].copy()
						if prev is None: s3.env.pop("!exc", None)
						else: s3.env["!exc"] = prev
						if h.name: s3.env.pop(h.name, None)
						after.append((o[0], s3, o[2]))
					if any(x is True for x in r): live = False; break
				if live: after.append((k, s, v))
			else: after.append((k, s, v))
		if not n.finalbody: return after
		for k, s, v in after:
			for k2, s2, v2 in self.block(fr, s, n.finalbody):
				out.append((k, s2, v) if k2 == "n" else (k2, s2, v2))
		return out
	st_TryStar = st_Try
	def st_With(self, fr, st, n):
		return self.withs(fr, st, n, 0)
	st_AsyncWith = st_With
	def withs(self, fr, st, n, i):
		if i == len(n.items): return self.block(fr, st, n.body)
		out = []
		it = n.items[i]
		for k, s, v in self.ev(fr, st, it.context_expr):
			if k == "exc": out.append((k, s, v)); continue
			s = s.copy()
			ent = self.hooks.enter(self, fr, s, it, v) if self.hooks else v
			starts = [("n", s, None)]
			if it.optional_vars is not None: starts = self.assign(fr, s, it.optional_vars, ent)
			for k0, s0, v0 in starts:
				if k0 != "n": out.append((k0, s0, v0)); continue
				self.pinned.append(v)
				inner = self.withs(fr, s0, n, i + 1)
				self.pinned.pop()
				for k2, s2, v2 in inner:
					s2 = s2.copy()
					sup = self.hooks.leave(self, fr, s2, it, v, k2, v2) if self.hooks else None
					if k2 == "exc" and sup: out.append(("n", s2, None))
					else: out.append((k2, s2, v2))
		return out
	def loop(self, fr, st, enter, body, orelse, n):
		"""enter(state) -> [("in"/"out"/"exc", state, value)]"""
		out, work, seen, rounds = [], [st], set(), 0
		if not hasattr(fr.fn, "live_done"):
			fr.fn.live_done = True
			live(fr.fn.body, set(), set(), set(), set())
		hl = getattr(n, "head_live", None)
		while work:
			s = work.pop()
			if hl is not None and any(x not in hl and x[0] != "!" and x != "self" for x in s.env):
				s = s.copy(); s.env = {x: v for x, v in s.env.items() if x in hl or x[0] == "!" or x == "self"}
				collect(s, self.stack + self.pinned)
			k = s.key()
			if k in seen: continue
			seen.add(k); rounds += 1
			if rounds > 3000: raise AnalysisError("%s:%d: loop does not converge" % (fr.rel, n.lineno))
			for k2, s2, v in enter(s):
				if k2 == "exc": out.append((k2, s2, v))
				elif k2 == "out": out += self.block(fr, s2, orelse)
				else:
					for k3, s3, v3 in self.block(fr, s2, body):
						if k3 in ("n", "cnt"): work.append(s3)
						elif k3 == "brk": out.append(("n", s3, None))
						else: out.append((k3, s3, v3))
		return out
	def st_While(self, fr, st, n):
		def enter(s): return [("exc", s2, b) if k == "exc" else ("in" if b else "out", s2, None) for k, s2, b in self.cond(fr, s, n.test)]
		return self.loop(fr, st, enter, n.body, n.orelse, n)
	def st_For(self, fr, st, n):
		out = []
		for k, s, it in self.ev(fr, st, n.iter):
			if k == "exc": out.append((k, s, it)); continue
			if it[0] == "t" and len(it[1]) <= 12 and all(x[0] in ("k", "t", "bound") for x in it[1]):
				outs = [("n", s, None)]; done = []
				for e in it[1]:
					new = []
					for k1, s1, v1 in outs:
						s1 = s1.copy()
						for o in self.assign(fr, s1, n.target, e):
							for k2, s2, v2 in self.block(fr, o[1], n.body) if o[0] == "n" else [o]:
								if k2 in ("n", "cnt"): new.append(("n", s2, None))
								elif k2 == "brk": done.append(("n", s2, None))
								else: done.append((k2, s2, v2))
					outs, kk = [], set()
					for o in new:
						if o[1].key() not in kk: kk.add(o[1].key()); outs.append(o)
				for k1, s1, v1 in outs: done += self.block(fr, s1, n.orelse)
				out += done; continue
			self.pinned.append(it)
			def enter(s1, it=it):
				a = s1.copy()
				if self.hooks: self.hooks.exhausted(self, fr, a, n, it)
				b = s1.copy()
				v = self.fresh(b, fr, n.target if hasattr(n.target, "lineno") else n, "elem")
				if self.hooks: self.hooks.element(self, fr, b, n, it, v)
				self.assign(fr, b, n.target, v)
				l = [("out", a, None), ("in", b, None)]
				if self.hooks:
					e = self.hooks.iteration(self, fr, s1, n, it)
					if e: l.append(("exc", s1.copy(), e))
				return l
			out += self.loop(fr, s, enter, n.body, n.orelse, n)
			self.pinned.pop()
		return out
	st_AsyncFor = st_For

class Node:
	"""A syntax tree node that can be part of a state."""
	def __init__(self, node): self.node = node
	def __hash__(self): return id(self.node)
	def __eq__(self, o): return isinstance(o, Node) and o.node is self.node

def _load(t):
	import copy
	t = copy.deepcopy(t)
	for x in ast.walk(t):
		if hasattr(x, "ctx"): x.ctx = ast.Load()
	return t

class Hooks:
	def assume(self, I, fr, st, v, b, node): pass
	def unknown(self, I, fr, st, n, f, args, kw): return None
	def caught(self, I, fr, st, h, v): pass
	def enter(self, I, fr, st, item, v): return v
	def leave(self, I, fr, st, item, v, kind, val): return None
	def exhausted(self, I, fr, st, n, it): pass
	def element(self, I, fr, st, n, it, v): pass
	def iteration(self, I, fr, st, n, it): return None
