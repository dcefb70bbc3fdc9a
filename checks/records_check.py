"""P23: a malformed record is skipped (exception escape analysis over the syntax tree)."""
import ast
import pynames
from pyflow import pyclass
from importer_check import REL
from common import *

FN = (ast.FunctionDef, ast.AsyncFunctionDef)
WRAP = {"csv.DictReader", "csv.reader", "io.TextIOWrapper", "io.BufferedReader", "json.load", "enumerate", "iter", "zip", "list", "sorted", "reversed", "filter", "map", "tuple"}
NETS = {"ip_network", "ip_address", "ip_interface", "IPv4Network", "IPv6Network", "IPv4Address", "IPv6Address"}

def dotted(n):
	try: return ast.unparse(n)
	except Exception: return ""
def names(n): return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}
def targets(t): return {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}

class Records:
	def __init__(self, tree):
		self.tree = tree
		self.fns, self.parent = {}, {}
		for n in ast.walk(tree):
			for c in ast.iter_child_nodes(n): self.parent[c] = n
			if isinstance(n, FN): self.fns[n.name] = n
		self.fn_of = {}
		for f in self.fns.values():
			for x in ast.walk(f): self.fn_of[x] = f
		# methods that are handed around as values
		self.referenced = set()
		for n in ast.walk(tree):
			if isinstance(n, ast.Attribute) and n.attr in self.fns and not (isinstance(self.parent.get(n), ast.Call) and self.parent[n].func is n): self.referenced.add(n.attr)
		self.stream, self.rec = {f: set() for f in self.fns}, {f: set() for f in self.fns}
		self.solve()
	def callee(self, c):
		f = c.func
		if isinstance(f, ast.Name) and f.id in self.fns: return [self.fns[f.id]]
		if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ("self", "cls") and f.attr in self.fns: return [self.fns[f.attr]]
		return []
	def dynamic(self, c):
		"""Calls of a local variable that holds a method."""
		if isinstance(c.func, ast.Name) and c.func.id not in self.fns and c.func.id not in dir(__builtins__) and c in self.fn_of:
			fn = self.fn_of[c]
			local = {a.arg for a in fn.args.args} | {y for x in ast.walk(fn) if isinstance(x, (ast.For, ast.AsyncFor)) for y in targets(x.target)}
			if c.func.id in local: return [self.fns[m] for m in self.referenced]
		return []
	def is_stream(self, fn, e):
		"""The expression is (made from) an open feed."""
		if isinstance(e, ast.Await): return self.is_stream(fn, e.value)
		if isinstance(e, ast.Name): return e.id in self.stream[fn.name]
		if isinstance(e, ast.Call):
			d = dotted(e.func)
			if isinstance(e.func, ast.Attribute) and e.func.attr == "retrieve" or d == "open": return True
			if d.endswith("to_thread") and e.args and isinstance(e.args[0], ast.Attribute) and e.args[0].attr == "retrieve": return True
			if d in WRAP or any(any(isinstance(y, (ast.Yield, ast.YieldFrom)) for y in ast.walk(g)) for g in self.callee(e)): return any(self.is_stream(fn, a) for a in e.args)
			if isinstance(e.func, ast.Attribute) and e.func.attr in ("get", "readlines", "read", "values", "items", "splitlines"): return self.is_stream(fn, e.func.value)
		if isinstance(e, ast.BinOp): return self.is_stream(fn, e.left) or self.is_stream(fn, e.right)
		if isinstance(e, ast.Subscript): return self.is_stream(fn, e.value)
		if isinstance(e, (ast.GeneratorExp, ast.ListComp)): return self.is_stream(fn, e.generators[0].iter)
		return False
	def solve(self):
		while True:
			before = sum(map(len, self.stream.values())) + sum(map(len, self.rec.values()))
			for f in self.fns.values():
				S, R = self.stream[f.name], self.rec[f.name]
				for x in ast.walk(f):
					if self.fn_of[x] is not f and not isinstance(x, FN): continue
					if isinstance(x, (ast.Assign, ast.NamedExpr)):
						t = x.targets if isinstance(x, ast.Assign) else [x.target]
						for y in t:
							if self.is_stream(f, x.value): S |= targets(y)
							elif names(x.value) & R: R |= targets(y)
							if isinstance(y, (ast.Subscript, ast.Attribute)) and names(x.value) & R and isinstance(y.value, ast.Name) and y.value.id != "self": R.add(y.value.id)
					elif isinstance(x, ast.withitem) and x.optional_vars is not None and self.is_stream(f, x.context_expr): S |= targets(x.optional_vars)
					elif isinstance(x, (ast.For, ast.AsyncFor, ast.comprehension)):
						if self.is_stream(f, x.iter) or names(x.iter) & R: R |= targets(x.target)
					elif isinstance(x, ast.Call):
						if isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "extend", "add", "insert") and isinstance(x.func.value, ast.Name) and any(names(a) & R for a in x.args): R.add(x.func.value.id)
						for g in self.callee(x) + self.dynamic(x):
							ps = [a.arg for a in g.args.posonlyargs + g.args.args]
							if ps and ps[0] in ("self", "cls"): ps = ps[1:]
							for i, a in enumerate(x.args):
								if isinstance(a, ast.Starred) or i >= len(ps): break
								if self.is_stream(f, a): self.stream[g.name].add(ps[i])
								elif names(a) & R: self.rec[g.name].add(ps[i])
							for k in x.keywords:
								if k.arg in ps:
									if self.is_stream(f, k.value): self.stream[g.name].add(k.arg)
									elif names(k.value) & R: self.rec[g.name].add(k.arg)
			if sum(map(len, self.stream.values())) + sum(map(len, self.rec.values())) == before: return
	def loops(self):
		out = []
		for f in self.fns.values():
			for x in ast.walk(f):
				if isinstance(x, (ast.For, ast.AsyncFor)) and self.fn_of[x] is f and self.is_stream(f, x.iter): out.append((f, x))
		return out
	# -- operations that are not defined for every record
	def guarded(self, f, n, words, text):
		"""An enclosing condition, or an earlier one that leaves, speaks about the operand."""
		p, c = self.parent.get(n), n
		while p is not None and p is not f:
			if isinstance(p, (ast.If, ast.IfExp, ast.While)) and c is not p.test and any(w in dotted(p.test) for w in words) and (text is None or text in dotted(p.test)): return True
			body = getattr(p, "body", None)
			for b in (getattr(p, "body", None), getattr(p, "orelse", None), getattr(p, "finalbody", None)):
				if isinstance(b, list) and c in b:
					for e in b[:b.index(c)]:
						for q in self.chain(e):
							if any(w in dotted(q.test) for w in words) and (text is None or text in dotted(q.test)) and any(isinstance(z, (ast.Return, ast.Continue, ast.Break, ast.Raise)) for z in q.body): return True
			c, p = p, self.parent.get(p)
		if isinstance(p, FN) and c in p.body:
			for e in p.body[:p.body.index(c)]:
				for q in self.chain(e):
					if any(w in dotted(q.test) for w in words) and (text is None or text in dotted(q.test)) and any(isinstance(z, (ast.Return, ast.Continue, ast.Break, ast.Raise)) for z in q.body): return True
		return False
	def chain(self, e):
		while isinstance(e, ast.If):
			yield e
			e = e.orelse[0] if len(e.orelse) == 1 else None
	def origin(self, f, e, want):
		"""The expression is, or is a variable that is only assigned, something of a kind."""
		if want(e): return True
		if isinstance(e, ast.Name):
			vs = [x.value for x in ast.walk(f) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in x.targets)]
			return any(want(v) for v in vs)
		return False
	def partial(self, f, n):
		"""Exception classes an operation raises for some record."""
		R = self.rec[f.name]
		t = lambda e: bool(names(e) & R) or any(isinstance(x, ast.Name) and x.id in self.stream[f.name] for x in ast.walk(e))
		is_split = lambda e: isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("split", "rsplit", "splitlines")
		is_get = lambda e: isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "get" and len(e.args) == 1
		is_match = lambda e: isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("group", "groups")
		if isinstance(n, ast.Call):
			d = dotted(n.func); last = d.split(".")[-1]
			if d in ("int", "float") and n.args and t(n.args[0]):
				a = n.args[0]
				if self.origin(f, a, is_match) or self.guarded(f, n, ("isdigit", "isdecimal", "isnumeric"), dotted(a)): return []
				if isinstance(a, ast.Call) and dotted(a.func).startswith("math."): return []
				return ["ValueError"] + (["TypeError"] if self.origin(f, a, is_get) and not self.guarded(f, n, (dotted(a),), None) else [])
			if last in NETS and n.args and t(n.args[0]): return ["ValueError"]
			if last == "summarize_address_range" and any(t(a) for a in n.args): return ["ValueError", "TypeError"]
			if last == "decode" and isinstance(n.func, ast.Attribute) and t(n.func.value):
				if any(k.arg == "errors" for k in n.keywords) or len(n.args) > 1: return []
				if n.args and isinstance(n.args[0], ast.Constant) and str(n.args[0].value).lower().replace("-", "").replace("_", "") in ("latin1", "iso88591"): return []
				return ["UnicodeDecodeError"]
			if d == "json.loads" and n.args and t(n.args[0]): return ["json.JSONDecodeError"]
			if last in ("log", "log2", "log10", "sqrt") and d.startswith("math.") and n.args and t(n.args[0]):
				return [] if self.guarded(f, n, ("<= 0", "< 1", "> 0", "not " + dotted(n.args[0])), dotted(n.args[0])) else ["ValueError"]
			if last in ("index", "rindex") and isinstance(n.func, ast.Attribute) and t(n.func.value): return ["ValueError"]
			if last in ("strptime", "fromisoformat", "fromhex") and any(t(a) for a in n.args): return ["ValueError"]
			if last in ("urlparse", "urlsplit") and n.args and t(n.args[0]): return ["ValueError"]
		if isinstance(n, ast.Assign) and any(isinstance(x, (ast.Tuple, ast.List)) for x in n.targets) and t(n.value):
			tt = next(x for x in n.targets if isinstance(x, (ast.Tuple, ast.List)))
			if any(isinstance(x, ast.Starred) for x in tt.elts): return []
			if is_split(n.value): return ["ValueError"]
			v = n.value
			if isinstance(v, ast.Subscript) and isinstance(v.slice, ast.Slice): v = v.value
			if is_split(v): return ["ValueError"]
			if isinstance(v, ast.Name) and self.origin(f, v, is_split) and not self.guarded(f, n, ("len(",), v.id): return ["ValueError"]
		if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
			k = n.slice
			if isinstance(k, ast.Constant) and isinstance(k.value, int) and k.value not in (0, -1) and self.origin(f, n.value, is_split) and t(n.value):
				return [] if self.guarded(f, n, ("len(", " in "), None) else ["IndexError"]
			if isinstance(k, ast.Name) and t(k) and (isinstance(n.value, ast.Name)) and not self.guarded(f, n, (k.id + " in ", k.id + " not in "), n.value.id): return ["KeyError"]
			if isinstance(k, ast.Constant) and isinstance(k.value, str) and t(n.value) and not self.guarded(f, n, (" in ", ".get("), None): return ["KeyError"]
		if isinstance(n, ast.Raise) and n.exc is not None:
			p = self.parent.get(n)
			while p is not None and p is not f:
				if isinstance(p, ast.If) and "isinstance" in dotted(p.test): return []
				p = self.parent.get(p)
			c = dotted(n.exc.func if isinstance(n.exc, ast.Call) else n.exc)
			return [c] if isinstance(pyclass(c), type) else []
		return []
	# -- escape
	def caught(self, f, n, cls, stop):
		"""The handler, within stop, that catches an exception raised at a node."""
		c, p = n, self.parent.get(n)
		while p is not None:
			if isinstance(p, ast.Try) and any(c is b for b in p.body):
				for h in p.handlers:
					ts = ["BaseException"] if h.type is None else [dotted(x) for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
					for x in ts:
						a, b = pyclass(x), pyclass(cls)
						if isinstance(a, type) and isinstance(b, type) and issubclass(b, a):
							if any(isinstance(z, ast.Raise) for z in ast.walk(h)): break
							return h
			if isinstance(p, (ast.With, ast.AsyncWith)) and any(c is b for b in p.body):
				for i in p.items:
					e = i.context_expr
					if isinstance(e, ast.Call) and dotted(e.func).endswith("suppress"):
						for a in e.args:
							a, b = pyclass(dotted(a)), pyclass(cls)
							if isinstance(a, type) and isinstance(b, type) and issubclass(b, a): return p
			if p is stop: return None
			c, p = p, self.parent.get(p)
		return None
	def escapes(self, f, root, seen):
		"""[(class, node, function, handler or None)] of what may be raised below root, not caught within it."""
		out = []
		for n in ast.walk(root):
			if n is not root and isinstance(n, FN): continue
			for cls in self.partial(f, n):
				self.ops.add(n)
				h = self.caught(f, n, cls, root)
				if h is None: out.append((cls, n, f))
				else: self.handlers.append((f, h, n, root))
			if isinstance(n, ast.Call):
				for g in self.callee(n):
					if g in seen or any(isinstance(y, (ast.Yield, ast.YieldFrom)) for y in ast.walk(g)): continue
					for cls, m, k in self.escapes(g, g, seen | {g}):
						h = self.caught(f, n, cls, root)
						if h is None: out.append((cls, m, k))
						else: self.handlers.append((f, h, m, root))
		return out

def records(tier):
	r = Result()
	tree = ast.parse(pynames.source(REL), REL)
	R = Records(tree)
	loops = R.loops()
	if len(loops) < 6: raise AnalysisError("only %d loops over records were found" % len(loops))
	R.ops = set()
	nh = 0
	for f, loop in loops:
		R.handlers = []
		for b in loop.body:
			for cls, n, g in R.escapes(f, b, {f}):
				# the statement itself may be inside of a try within the loop
				r.report("aborts", REL, n.lineno, g.name, "a record for which %s raises %s ends the whole import (records are read in %s)" % (dotted(n)[:60].split("\n")[0], cls, f.name), key="aborts:%s:%s" % (cls, dotted(n)[:60].split("\n")[0]))
		for g, h, n, root in R.handlers:
			nh += 1
			if g is not f: continue
			# a handler in the loop goes on to the next record
			for x in ast.walk(h):
				if isinstance(x, (ast.Return, ast.Break)):
					p, inner = R.parent.get(x), False
					while p is not None and p is not loop:
						if isinstance(p, (ast.For, ast.AsyncFor, ast.While)) and isinstance(x, ast.Break): inner = True
						p = R.parent.get(p)
					if p is loop and not inner: r.report("ends", REL, x.lineno, g.name, "the records after a malformed one are dropped", key="ends:%s" % dotted(n)[:60].split("\n")[0])
	# -- a record that names the same thing twice
	import importer_check, sql
	_, _, sites, bad = importer_check.load(tier)
	unique = sql.uniques(sites)
	nd = 0
	for s in sites:
		# by position: the nodes are those of another tree
		fn = s.fn.name
		if not any(names(a) & R.rec.get(fn, set()) for a in s.node.args[1:]): continue
		for q in s.statements:
			uq = {u for u in unique.get(q.table, ()) if not q.columns or u <= set(q.columns)} if q.kind == "INSERT" else set()
			if not uq: continue
			nd += 1
			if q.conflict is None: r.report("duplicate", REL, s.node.lineno, fn, "a record that names the same %s once more ends the whole import: %s is unique and INSERT has no ON CONFLICT" % (" and ".join(sorted(min(uq, key=sorted))), q.table), key="duplicate:%s:%s" % (fn, q.table))
			elif sql.target(q) is not None and uq != {sql.target(q)}: r.report("duplicate", REL, s.node.lineno, fn, "ON CONFLICT does not cover all unique columns of %s" % q.table, key="duplicate:%s:%s" % (fn, q.table))
	if nd < 6: raise AnalysisError("only %d statements that store records were found" % nd)
	if len(R.ops) < 8: raise AnalysisError("only %d operations on records were found" % len(R.ops))
	r.obligations = len(R.ops) + len(loops) + nh + nd
	r.coverage = dict(loops=len(loops), operations=len(R.ops), caught=nh, inserts=nd, functions=len({f.name for f, l in loops}))
	r.rules = ["aborts", "ends", "duplicate"]
	r.explanation = "which values stem from records is computed over all functions; every operation on such a value that is not defined for every value must be inside of a handler for the exception it raises, within the loop over the records or the functions called from it"
	r.assumptions = ["documents in JSON have the shape their publisher documents", "the operations with values that make them fail are those listed in the check"]
	return r
