"""P24: the importer's SQL fits its schema and values stay in their columns; P25: the most specific statement wins, overrides last."""
import ast, itertools, re
import sql, pynames
from sql import up, commas, find, closing
from common import *

REL = "src/scripts/location-importer.in"

class Folder:
	"""The constant texts an expression may stand for: a set of strings, or None when something else flows into it."""
	def __init__(self, tree):
		self.tree, self.fns, self.calls = tree, {}, {}
		self.glob = {}
		for n in ast.walk(tree):
			if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)): self.fns.setdefault(n.name, n)
			if isinstance(n, ast.Call):
				f = n.func
				name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
				if name: self.calls.setdefault(name, []).append(n)
		for n in tree.body:
			if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name): self.glob[n.targets[0].id] = n.value
			if isinstance(n, ast.ClassDef):
				for m in n.body:
					if isinstance(m, ast.Assign) and len(m.targets) == 1 and isinstance(m.targets[0], ast.Name): self.glob.setdefault(m.targets[0].id, m.value)
		self.owner = {}
		def own(n, fn):
			for c in ast.iter_child_nodes(n):
				f = c if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)) else fn
				self.owner[c] = f if not isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)) else c
				own(c, f)
		own(tree, None)
	def bindings(self, fn, name):
		"""Expressions a name of a function may be bound to; None: unknown."""
		out, unknown = [], False
		for x in ast.walk(fn):
			if isinstance(x, ast.Assign):
				for t in x.targets:
					if isinstance(t, ast.Name) and t.id == name: out.append(x.value)
					elif isinstance(t, (ast.Tuple, ast.List)) and any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(t)):
						k = [i for i, y in enumerate(t.elts) if isinstance(y, ast.Name) and y.id == name]
						if k and isinstance(x.value, (ast.Tuple, ast.List)) and len(x.value.elts) == len(t.elts): out.append(x.value.elts[k[0]])
						else: unknown = True
			elif isinstance(x, (ast.For, ast.AsyncFor, ast.comprehension)):
				t = x.target
				if isinstance(t, ast.Name) and t.id == name:
					e = self.elements(fn, x.iter)
					if e is None: unknown = True
					else: out += e
				elif any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(t)):
					e = self.elements(fn, x.iter)
					k = [i for i, y in enumerate(t.elts) if isinstance(y, ast.Name) and y.id == name] if isinstance(t, (ast.Tuple, ast.List)) else []
					if e is None or not k or not all(isinstance(y, (ast.Tuple, ast.List)) and len(y.elts) > k[0] for y in e): unknown = True
					else: out += [y.elts[k[0]] for y in e]
			elif isinstance(x, (ast.AugAssign, ast.NamedExpr)) and isinstance(x.target, ast.Name) and x.target.id == name: unknown = True
			elif isinstance(x, ast.withitem) and x.optional_vars is not None and any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(x.optional_vars)): unknown = True
		a = fn.args
		names = [p.arg for p in a.posonlyargs + a.args]
		if name in names + [p.arg for p in a.kwonlyargs]:
			i = names.index(name) if name in names else None
			for c in self.calls.get(fn.name, []):
				j = i - (1 if names and names[0] == "self" and isinstance(c.func, ast.Attribute) else 0) if i is not None else None
				kw = [w.value for w in c.keywords if w.arg == name]
				if kw: out.append(kw[0])
				elif j is not None and j < len(c.args) and not any(isinstance(z, ast.Starred) for z in c.args[:j + 1]): out.append(c.args[j])
				else:
					d = i - (len(names) - len(a.defaults)) if i is not None else -1
					if d >= 0: out.append(a.defaults[d])
					else: unknown = True
			if not self.calls.get(fn.name): unknown = True
		if unknown: return None
		return out
	def elements(self, fn, n):
		if isinstance(n, (ast.Tuple, ast.List, ast.Set)): return None if any(isinstance(e, ast.Starred) for e in n.elts) else list(n.elts)
		if isinstance(n, ast.Name):
			b = self.bindings(fn, n.id) if fn is not None else []
			if b is None: return None
			if not b and n.id in self.glob: b = [self.glob[n.id]]
			out = []
			for x in b:
				e = self.elements(fn, x)
				if e is None: return None
				out += e
			return out or None
		return None
	def texts(self, n, depth=0):
		if depth > 12: return None
		r = lambda x: self.texts(x, depth + 1)
		fn = self.owner.get(n)
		if isinstance(n, ast.Constant): return {n.value} if isinstance(n.value, str) else {str(n.value)} if isinstance(n.value, (int, float)) and not isinstance(n.value, bool) else None
		if isinstance(n, ast.Name):
			b = self.bindings(fn, n.id) if fn is not None else []
			if b is None: return None
			if not b: b = [self.glob[n.id]] if n.id in self.glob else None
			if b is None: return None
			out = set()
			for x in b:
				t = r(x)
				if t is None: return None
				out |= t
			return out
		if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in ("self", "cls", "CLI") and n.attr in self.glob: return r(self.glob[n.attr])
		if isinstance(n, ast.IfExp):
			a, b = r(n.body), r(n.orelse)
			return a | b if a is not None and b is not None else None
		if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add): return self.combine([n.left, n.right], lambda a, b: a + b, depth)
		if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod):
			args = n.right.elts if isinstance(n.right, ast.Tuple) else [n.right]
			return self.combine([n.left] + list(args), lambda f, *a: f % tuple(a), depth)
		if isinstance(n, ast.JoinedStr):
			return self.combine([v.value if isinstance(v, ast.FormattedValue) else v for v in n.values], lambda *a: "".join(a), depth)
		if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
			if n.func.attr == "format": return self.combine([n.func.value] + n.args + [w.value for w in n.keywords], lambda f, *a: f.format(*a[:len(n.args)], **{w.arg: v for w, v in zip(n.keywords, a[len(n.args):])}), depth)
			if n.func.attr in ("strip", "lstrip", "rstrip") and not n.args: return self.combine([n.func.value], lambda a: a.strip(), depth)
			if n.func.attr == "join" and len(n.args) == 1 and isinstance(n.args[0], (ast.Tuple, ast.List)): return self.combine([n.func.value] + n.args[0].elts, lambda s, *a: s.join(a), depth)
			if ast.unparse(n.func) == "textwrap.dedent": return r(n.args[0])
		return None
	def combine(self, parts, f, depth):
		ts = [self.texts(p, depth + 1) for p in parts]
		if any(t is None for t in ts): return None
		out = set()
		for c in itertools.islice(itertools.product(*[sorted(t) for t in ts]), 200):
			try: out.add(f(*c))
			except (TypeError, ValueError, IndexError, KeyError): return None
		return out

class Query:
	"""A statement text at the call that executes it."""
	def __init__(self, fn, node, verb, text): self.fn, self.node, self.verb, self.text = fn, node, verb, text

def load(tier):
	src = pynames.source(REL)
	tree = ast.parse(src, REL)
	fo = Folder(tree)
	sites, bad = [], []
	for s in sql_calls(tree):
		fn, node, verb = s
		t = fo.texts(node.args[0]) if node.args else None
		if t is None: bad.append(s); continue
		for x in sorted(t):
			q = sql.Site(fn, None, node, verb); q.text = x; q.where = "%s:%d" % (REL, node.lineno)
			q.statements = [sql.Statement(y, q.where) for y in sql.split(sql.tokens(x, q.where))]
			sites.append(q)
	return tree, fo, sites, bad

def sql_calls(tree):
	out = []
	def visit(node, fn):
		for c in ast.iter_child_nodes(node):
			if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)): visit(c, c)
			else:
				if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in sql.VERBS and sql.is_db(c.func.value) and fn is not None: out.append((fn, c, c.func.attr))
				visit(c, fn)
	visit(tree, None)
	return out

# -- scopes
def relations(t):
	"""(relation, alias) pairs named after FROM, JOIN, UPDATE, INTO, USING at any depth."""
	out = []
	for i, x in enumerate(t):
		if x.kind == "w" and x.upper() in ("FROM", "JOIN", "UPDATE", "INTO", "USING") and i + 1 < len(t) and t[i + 1].kind == "w":
			if x.upper() == "UPDATE" and i and up(t[i - 1]) == "DO": continue
			j = i + 1
			if up(t[j]) in ("SET", "SPGIST", "BTREE", "GIST", "LATERAL", "ONLY"): continue
			if x.upper() == "FROM" and i and up(t[i - 1]) == "DISTINCT": continue
			while True:
				name = t[j].lower(); alias = name; j += 1
				if j < len(t) and t[j] == "(": alias = None		# a function
				elif j < len(t) and up(t[j]) == "AS" and j + 1 < len(t): alias = t[j + 1].lower(); j += 2
				elif j < len(t) and t[j].kind == "w" and up(t[j]) not in KEYWORDS: alias = t[j].lower(); j += 1
				if alias is not None: out.append((name, alias))
				if x.upper() == "FROM" and j + 1 < len(t) and t[j] == "," and t[j + 1].kind == "w": j += 1; continue
				break
	return out
KEYWORDS = set("WHERE ON SET JOIN LEFT RIGHT INNER FULL OUTER CROSS ORDER GROUP HAVING LIMIT OFFSET UNION EXCEPT INTERSECT RETURNING USING VALUES SELECT AND OR NOT AS DEFAULT NATURAL WITH FOR FROM DO".split())

def parts(q):
	"""The common table expressions and the main statement: [(name or None, tokens, visible names)]"""
	t = q.toks
	out, seen = [], {}
	if up(t[0]) == "WITH":
		i = 1
		if up(t[i]) == "RECURSIVE": i += 1
		while True:
			name = t[i].lower(); i += 1
			if t[i] == "(": i = closing(t, i) + 1
			i += 1
			if up(t[i]) == "MATERIALIZED": i += 1
			j = closing(t, i)
			body = t[i + 1:j]
			out.append((name, body, dict(seen)))
			try: seen[name] = sql.select_outputs(body) if up(body[0]) == "SELECT" else None
			except (AnalysisError, IndexError): seen[name] = None
			i = j + 1
			if t[i] == ",": i += 1; continue
			break
		out.append((None, t[i:], dict(seen)))
	else: out.append((None, t, {}))
	return out

SYSTEM = {"excluded"}
def references(t):
	"""Qualified column references."""
	for i in range(len(t) - 2):
		if t[i].kind == "w" and t[i + 1] == "." and t[i + 1].kind == "o" and t[i + 2].kind == "w" and not (i and t[i - 1] == "."): yield t[i].lower(), t[i + 2].lower()

def norm(l): return l.lower().replace("-", "_")
def label(n):
	"""What an expression is called: the name of the variable, attribute or key it comes from."""
	if isinstance(n, ast.Name): return norm(n.id)
	if isinstance(n, ast.Attribute): return norm(n.attr)
	if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str): return norm(n.slice.value)
	if isinstance(n, ast.Call):
		k = [a.value for a in n.args if isinstance(a, ast.Constant) and isinstance(a.value, str)] + [w.value.value for w in n.keywords if isinstance(w.value, ast.Constant) and isinstance(w.value.value, str)]
		if k: return norm(k[-1] if not (isinstance(n.func, ast.Attribute) and n.func.attr == "get") else k[0])
		if isinstance(n.func, ast.Name) and n.func.id in ("str", "int") and len(n.args) == 1: return label(n.args[0])
	if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and n.left.value == "%s":
		return label(n.right.elts[0] if isinstance(n.right, ast.Tuple) and len(n.right.elts) == 1 else n.right)
	if isinstance(n, ast.JoinedStr) and len(n.values) == 1 and isinstance(n.values[0], ast.FormattedValue): return label(n.values[0].value)
	return None
SYNONYMS = {"asn": ("number", "autnum"), "org": ("organization", "handle"), "organisation": ("handle", "organization"), "org_name": ("name",), "descr": ("name",), "cc": ("country",), "country_code": ("country",)}
def other(l, own, cols):
	"""The other column a value is named after, if it is not named after its own."""
	if l is None: return None
	c = {l, "is_" + l} | set(SYNONYMS.get(l, ()))
	if own in c: return None
	x = [y for y in cols if y in c and y != own]
	return x[0] if x else None

def params(node, verb):
	"""Parameter expressions of a call; None: not known (starred)."""
	a = node.args[1:]
	if any(isinstance(x, ast.Starred) for x in a) or any(k.arg is None for k in node.keywords): return None
	if verb == "executemany":
		if len(a) != 1: return None
		x = a[0]
		if isinstance(x, (ast.GeneratorExp, ast.ListComp)) and isinstance(x.elt, ast.Tuple): return list(x.elt.elts)
		if isinstance(x, (ast.List, ast.Tuple)) and x.elts and all(isinstance(e, ast.Tuple) for e in x.elts):
			n = {len(e.elts) for e in x.elts}
			return list(x.elts[0].elts) if len(n) == 1 else None
		return None
	return a

def check_sql(tier, r, tree, fo, sites, bad):
	def V(rule, s, msg, key): r.report(rule, REL, s.node.lineno if hasattr(s, "node") else s[1].lineno, (s.fn if hasattr(s, "fn") else s[0]).name, msg, key=key)
	n = dict(statements=0, refs=0, params=0, rows=0)
	for fn, node, verb in bad:
		V("text", (fn, node, verb), "the text of the statement is put together from something other than constants: %s" % ast.unparse(node.args[0])[:80] if node.args else "no statement", "text:%s" % fn.name)
	tables, temp = sql.schema(sites)
	unique = sql.uniques(sites)
	# -- types that hold any AS number
	for s in sites:
		for q in s.statements:
			defs = list(q.types.items()) if q.kind == "CREATE TABLE" else list(q.added.items()) if q.kind == "ALTER" else []
			for c, ty in defs:
				if c in ("number", "autnum", "asn", "first_asn", "last_asn"):
					n["refs"] += 1
					if not ty or ty[0] not in ("BIGINT", "INT8", "NUMERIC", "OID", "DECIMAL"): V("width", s, "column %s of %s holds AS numbers, but %s cannot hold all 32 bits" % (c, q.table, " ".join(ty[:1]).lower()), "width:%s.%s" % (q.table, c))
	rows = {}
	for s in sites:
		for q in s.statements:
			n["statements"] += 1
			P = parts(q)
			ctes = {k for k, _, _ in P if k}
			if q.table is not None and q.kind not in ("CREATE TABLE", "DROP"):
				if q.table not in tables: V("table", s, "%s refers to table %s, which is created nowhere" % (q.kind, q.table), "table:%s" % q.table); continue
				for c in q.columns + list(q.added):
					n["refs"] += 1
					if c not in tables[q.table] and not (q.kind == "CREATE INDEX" and not re.match(r"^[a-z_]+$", c)) and c not in ("family", "masklen"): V("column", s, "%s refers to column %s of %s, which does not exist" % (q.kind, c, q.table), "column:%s.%s" % (q.table, c))
				if len(set(q.columns)) != len(q.columns) and q.kind in ("INSERT", "UPDATE"): V("twice", s, "a column of %s is given twice" % q.table, "twice:%s" % q.table)
			for name, body, visible in P:
				rel = relations(body)
				amap = {}
				for t, a in rel:
					if t in visible: amap[a] = visible[t]
					elif t in tables: amap[a] = list(tables[t])
					else:
						if t in ctes: pass
						elif t not in ("unnest", "generate_series", "lateral"): V("table", s, "the statement reads %s, which is neither a table nor defined in it" % t, "table:%s" % t)
						amap[a] = None
				if q.table in tables and name is None:
					amap.setdefault(q.table, list(tables[q.table])); amap["excluded"] = list(tables[q.table])
					if getattr(q, "alias", None): amap[q.alias] = list(tables[q.table])
				for a, c in references(body):
					n["refs"] += 1
					if a not in amap: V("alias", s, "%s.%s refers to %s, which the statement does not read" % (a, c, a), "alias:%s.%s" % (a, c))
					elif amap[a] is not None and c not in amap[a]: V("column", s, "%s.%s: there is no column %s in it" % (a, c, c), "column:%s.%s" % (a, c))
			# -- what a conflict is resolved by
			if q.kind == "INSERT" and q.conflict is not None:
				n["refs"] += 1
				g = sql.target(q)
				if g is not None and g not in unique.get(q.table, ()): V("conflict", s, "no unique index of %s has the columns ON CONFLICT names: %s" % (q.table, ", ".join(sorted(g))), "conflict:%s" % q.table)
			# -- widths of lists
			if q.kind == "INSERT":
				cols = q.columns or list(tables[q.table])
				for row in q.values or []:
					if len(row) != len(cols): V("values", s, "INSERT INTO %s names %d columns and gives %d values" % (q.table, len(cols), len(row)), "values:%s" % q.table)
				if q.select is not None and up(q.select[0]) == "SELECT":
					o = sql.select_outputs(q.select)
					if o is not None:
						if len(o) != len(cols): V("values", s, "INSERT INTO %s names %d columns and selects %d" % (q.table, len(cols), len(o)), "values:%s" % q.table)
						else:
							for c, x in zip(cols, o):
								m = other(x, c, cols)
								if m: V("swapped", s, "column %s of %s receives what is selected as %s" % (c, q.table, x), "swapped:%s.%s" % (q.table, c))
			if q.kind == "UPDATE":
				for c, e in q.sets:
					for a, x in references(e):
						m = other(x, c, q.columns + list(tables[q.table]))
						if m: V("swapped", s, "column %s of %s is set from %s.%s" % (c, q.table, a, x), "swapped:%s.%s" % (q.table, c))
			if q.kind == "INSERT" and q.conflict:
				i = find(q.conflict_toks, ("SET",))
				if i >= 0:
					for c in commas(q.conflict_toks[i + 1:]):
						k = find(c, ("=",))
						if k < 1: continue
						if c[k - 1].lower() not in tables[q.table]: V("column", s, "ON CONFLICT sets column %s of %s, which does not exist" % (c[k - 1], q.table), "column:%s.%s" % (q.table, c[k - 1]))
						for a, x in references(c[k + 1:]):
							if a == "excluded" and x != c[k - 1].lower(): V("swapped", s, "on a conflict, column %s of %s is set from the new value of %s" % (c[k - 1], q.table, x), "swapped:%s.%s" % (q.table, c[k - 1]))
		# -- parameters
		pa = params(s.node, s.verb)
		want = sum(1 for q in s.statements for t in q.toks if t.kind == "p" and t == "%s")
		named = {t[2:-2] for q in s.statements for t in q.toks if t.kind == "p" and t != "%s"}
		if pa is not None:
			n["params"] += len(pa)
			if want != len(pa): V("parameters", s, "the statement has %d placeholders and is given %d parameters" % (want, len(pa)), "parameters")
			if named - {k.arg for k in s.node.keywords}: V("parameters", s, "no parameter for %s" % ", ".join(sorted(named - {k.arg for k in s.node.keywords})), "parameters")
			if want == len(pa):
				i = 0
				for q in s.statements:
					cols = q.columns or list(tables.get(q.table, {}))
					target = {}
					for row in (q.values or []) if q.kind == "INSERT" else []:
						for c, item in zip(cols, row):
							for t in item:
								if t.kind == "p": target[id(t)] = (c, cols)
					if q.kind == "UPDATE":
						for c, e in q.sets:
							for t in e:
								if t.kind == "p": target[id(t)] = (c, q.columns)
					for t in q.toks:
						if t.kind != "p": continue
						x = pa[i]; i += 1
						if id(t) in target:
							c, cl = target[id(t)]
							m = other(label(x), c, cl)
							if m: V("swapped", s, "column %s of %s is given %s" % (c, q.table, ast.unparse(x)), "swapped:%s.%s" % (q.table, c))
		if s.verb in ("query", "get") and len(s.statements) == 1 and s.statements[0].kind == "SELECT":
			q = s.statements[0]
			o = q.outputs()
			if o is None:
				o = []
				for t, a in relations(q.main): o += list(tables.get(t, {}))
			rows[s.node] = (s, o)
	n["rows"] = check_rows(tree, rows, V)
	return tables, temp, n

def check_rows(tree, rows, V):
	"""Attributes of result rows are columns of the result; what is copied by attribute keeps its name."""
	count = 0
	fns = {f.name: f for f in ast.walk(tree) if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef))}
	work, done = [], set()
	for fn in fns.values():
		sets, one = {}, {}
		for _ in range(3):
			for x in ast.walk(fn):
				if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
					v = x.value
					if v in rows: (one if rows[v][0].verb == "get" else sets)[x.targets[0].id] = rows[v]
					elif isinstance(v, ast.Name) and v.id in sets: sets[x.targets[0].id] = sets[v.id]
				elif isinstance(x, (ast.For, ast.AsyncFor, ast.comprehension)) and isinstance(x.target, ast.Name):
					it = x.iter
					if it in rows: one[x.target.id] = rows[it]
					elif isinstance(it, ast.Name) and it.id in sets: one[x.target.id] = sets[it.id]
		# one name may stand for rows of several queries in sequence: resolve by the last binding before the use
		bind = []
		for x in ast.walk(fn):
			if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and x.value in rows: bind.append((x.lineno, x.targets[0].id, rows[x.value]))
		work.append((fn, one, sets, bind))
	def uses(fn, var, src, nodes):
		nonlocal count
		for root in nodes:
			for x in ast.walk(root):
				a = None
				if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == var and isinstance(x.ctx, ast.Load): a = x.attr
				elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "get" and isinstance(x.func.value, ast.Name) and x.func.value.id == var and x.args and isinstance(x.args[0], ast.Constant): a = x.args[0].value
				elif isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == var and isinstance(x.slice, ast.Constant) and isinstance(x.slice.value, str): a = x.slice.value
				if a is not None and a not in ("get", "items", "keys", "values"):
					count += 1
					if a not in src[1]: V("row", (fn, x, ""), "%s.%s: the query at line %d delivers no column %s" % (var, a, src[0].node.lineno, a), "row:%s.%s" % (var, a))
				if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Attribute) and isinstance(x.value, ast.Attribute) and isinstance(x.value.value, ast.Name) and x.value.value.id == var:
					if x.targets[0].attr in src[1] and x.value.attr != x.targets[0].attr: V("swapped", (fn, x, ""), "%s is set from column %s" % (ast.unparse(x.targets[0]), x.value.attr), "swapped:%s" % x.targets[0].attr)
				if isinstance(x, ast.If):
					attrs = {y.attr for y in ast.walk(x.test) if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == var and y.attr.startswith("is_")}
					for y in (z for b in x.body for z in ast.walk(b)):
						if isinstance(y, ast.Attribute) and y.attr.startswith("NETWORK_FLAG_") and attrs:
							count += 1
							if "is_" + y.attr[len("NETWORK_FLAG_"):].lower() not in attrs: V("swapped", (fn, y, ""), "%s depends on column %s" % (y.attr, ", ".join(sorted(attrs))), "swapped:%s" % y.attr)
				if isinstance(x, ast.Call):
					name = x.func.id if isinstance(x.func, ast.Name) else x.func.attr if isinstance(x.func, ast.Attribute) else None
					if name in fns:
						for i, y in enumerate(x.args):
							if isinstance(y, ast.Name) and y.id == var:
								ps = [p.arg for p in fns[name].args.args]
								j = i + (1 if ps and ps[0] == "self" and isinstance(x.func, ast.Attribute) else 0)
								if j < len(ps) and (name, ps[j]) not in done: done.add((name, ps[j])); uses(fns[name], ps[j], src, fns[name].body)
	for fn, one, sets, bind in work:
		for x in ast.walk(fn):
			if isinstance(x, (ast.For, ast.AsyncFor)) and isinstance(x.target, ast.Name):
				s = src_of(x.iter, x.lineno, rows, bind)
				if s: uses(fn, x.target.id, s, x.body)
			elif isinstance(x, (ast.GeneratorExp, ast.ListComp, ast.SetComp)):
				g = x.generators[0]
				if isinstance(g.target, ast.Name):
					s = src_of(g.iter, x.lineno, rows, bind)
					if s: uses(fn, g.target.id, s, [x.elt] + g.ifs)
		for line, name, s in bind:
			if s[0].verb == "get": uses(fn, name, s, [y for y in ast.walk(fn) if isinstance(y, ast.stmt) and not hasattr(y, "body") and line < y.lineno])
	return count
def src_of(it, line, rows, bind):
	if it in rows: return rows[it] if rows[it][0].verb == "query" else None
	if isinstance(it, ast.Name):
		b = [z for z in bind if z[1] == it.id and z[0] <= line]
		if b:
			s = max(b, key=lambda z: z[0])[2]
			return s if s[0].verb == "query" else None
	return None

def statements(tier):
	"""P24"""
	r = Result()
	tree, fo, sites, bad = load(tier)
	tables, temp, n = check_sql(tier, r, tree, fo, sites, bad)
	if n["statements"] < 40 or len(tables) < 8: raise AnalysisError("only %d statements and %d tables were found in the importer" % (n["statements"], len(tables)))
	r.obligations = sum(n.values())
	r.coverage = dict(n, tables=len(tables), temporary=len(temp), calls=len({s.node for s in sites}))
	r.rules = ["text", "parameters", "table", "column", "alias", "values", "swapped", "row", "width", "twice", "conflict"]
	r.explanation = "every SQL text the importer executes is reconstructed from the syntax tree, parsed, and compared with the schema its CREATE TABLE and ALTER TABLE statements set up, with the parameters of the call and with the columns results are read by"
	r.assumptions = ["values and columns that carry the name of a column belong to it", "the tables are those the importer creates itself"]
	return r

# -- P25
def precedence(tier):
	"""The most specific record wins, later sources override earlier ones, and overrides have the last word."""
	r = Result()
	tree, fo, sites, bad = load(tier)
	tables, temp = sql.schema(sites)
	n = dict(updates=0, windows=0, joins=0, coalesce=0)
	# the table that collects the networks that are written: the temporary one handle_write reads at the end
	fns = {}
	for s in sites: fns.setdefault(s.fn.name, []).append(s)
	collected = {q.table for s in sites for q in s.statements if q.kind == "UPDATE" and q.table in temp}
	order = flow_order(tree, sites)
	ups = []
	for s in sorted(sites, key=lambda s: order.get(s.node, (0,))):
		for q in s.statements:
			if q.kind == "UPDATE" and q.table in temp: ups.append((s, q))
	def V(rule, s, msg, key): r.report(rule, REL, s.node.lineno, s.fn.name, msg, key=key)
	rank = {}
	for s, q in ups:
		n["updates"] += 1
		src = set()
		for name, body, vis in parts(q):
			for t, a in relations(body):
				if t in tables and t not in temp and t not in vis: src.add(t)
		lvl = 3 if any(t.endswith("_overrides") for t in src) else 2 if any(t.endswith("_feeds") for t in src) else 1 if "geofeed_networks" in src else 0
		rank[(s.node, id(q))] = (lvl, src)
		for name, body, vis in parts(q): check_specific(V, s, q, name, body, n, tables, temp)
		check_rank(V, s, q, n)
		for c, e in q.sets:
			refs = list(references(e))
			n["coalesce"] += 1
			w = [up(x) for x in e]
			co = w[:1] == ["COALESCE"]
			own = {q.table} | ({q.alias} if q.alias else set())
			if co:
				items = commas(e[2:closing(e, 1)])
				first = list(references(items[0]))
				if first and first[0][0] in own: V("order", s, "%s: what is there already is kept although %s says something else" % (c, "/".join(sorted(src))), "order:%s:%s" % (c, "/".join(sorted(src))))
				if lvl >= 2 and not any(a in own for it in items[1:] for a, x in references(it)): V("forgets", s, "%s is reset when %s does not say anything about it" % (c, "/".join(sorted(src))), "forgets:%s:%s" % (c, "/".join(sorted(src))))
			elif lvl >= 2 and refs and not any(x == "CASE" for x in w) and not not_null(q, c): V("forgets", s, "%s is reset when %s does not say anything about it" % (c, "/".join(sorted(src))), "forgets:%s:%s" % (c, "/".join(sorted(src))))
	# -- order of the sources
	last = {}
	for s, q in ups:
		lvl, src = rank[(s.node, id(q))]
		for c in q.columns:
			if c in last and last[c][0] > lvl:
				V("precedence", s, "%s from %s is applied after %s and overwrites it" % (c, "/".join(sorted(src)), "/".join(sorted(last[c][1]))), "precedence:%s:%s" % (c, "/".join(sorted(src))))
			elif c not in last or lvl >= last[c][0]: last[c] = (lvl, src)
	# -- every source is applied
	covered = {}
	for s, q in ups:
		for t in rank[(s.node, id(q))][1]:
			for c in q.columns: covered.setdefault(t, set()).add(c)
	for t, cols in tables.items():
		if t in temp: continue
		dest = next(iter(collected), None)
		if dest is None: continue
		for c in cols:
			if c in tables[dest] and (c == "country" or c.startswith("is_")) and t not in ("countries",):
				n["updates"] += 1
				if c not in covered.get(t, set()): r.report("ignored", REL, 0, "handle_write", "%s of %s has no influence on the database that is written" % (c, t), key="ignored:%s.%s" % (t, c))
	# every flag that was collected is written
	for s in sites:
		pass
	dest = next(iter(collected), None)
	if dest is None or n["updates"] < 7: raise AnalysisError("the statements that collect the networks were not found")
	flags = {c for c in tables[dest] if c.startswith("is_")}
	hw = next((f for f in ast.walk(tree) if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)) and any(isinstance(x, ast.Attribute) and x.attr == "add_network" for x in ast.walk(f))), None)
	if hw is None: raise AnalysisError("nothing adds networks to a database")
	read = {x.attr for x in ast.walk(tree) if isinstance(x, ast.Attribute)} | {x.value for x in ast.walk(tree) if isinstance(x, ast.Constant) and isinstance(x.value, str)}
	const = {x.attr for x in ast.walk(tree) if isinstance(x, ast.Attribute) and x.attr.startswith("NETWORK_FLAG_")}
	for c in sorted(flags | {"country", "autnum"}):
		n["updates"] += 1
		if c not in read: r.report("ignored", REL, hw.lineno, hw.name, "column %s is collected but not written to the database" % c, key="unread:%s" % c)
	for c in sorted(flags):
		if "NETWORK_FLAG_" + c[3:].upper() not in const: r.report("ignored", REL, hw.lineno, hw.name, "flag %s is never set in the database" % c[3:], key="flag:%s" % c)
	r.obligations = sum(n.values())
	r.coverage = dict(n, destination=dest)
	r.rules = ["specific", "unranked", "direction", "order", "forgets", "precedence", "ignored"]
	r.explanation = "the UPDATE statements that collect country, AS and flags of each network are parsed; rules over their joins, windows, assigned expressions and order of execution"
	r.assumptions = ["statements of one function are executed in the order in which they stand", "a statement whose shape is not recognised is not judged"]
	return r

def not_null(q, c):
	"""The statement is restricted to rows with a value."""
	t = [up(x) for x in q.toks]
	for i in range(len(t) - 3):
		if t[i + 1:i + 4] == ["IS", "NOT", "NULL"] and q.toks[i].lower() == c: return True
	return False

def flow_order(tree, sites):
	"""Order of execution within a function: helpers are placed where they are called."""
	fns = {f.name: f for f in ast.walk(tree) if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef))}
	called = {}
	for f in fns.values():
		for x in ast.walk(f):
			if isinstance(x, ast.Call):
				name = x.func.attr if isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == "self" else x.func.id if isinstance(x.func, ast.Name) else None
				if name in fns: called.setdefault(name, []).append((f.name, x.lineno))
	def pos(fn, line, depth=0):
		if depth > 5 or len(called.get(fn, [])) != 1 or fn.startswith("handle_"): return (line,)
		f, l = called[fn][0]
		return pos(f, l, depth + 1) + (line,)
	return {s.node: pos(s.fn.name, s.node.lineno) for s in sites}

def check_specific(V, s, q, name, body, n, tables, temp):
	"""Windows and joins over networks."""
	for i, t in enumerate(body):
		if up(t) == "ROW_NUMBER" or up(t) in ("RANK", "DENSE_RANK"):
			j = i
			while j < len(body) and up(body[j]) != "OVER": j += 1
			if j >= len(body) or body[j + 1] != "(": continue
			e = closing(body, j + 1)
			w = body[j + 2:e]
			o = find(w, ("ORDER", "BY"))
			if o < 0: continue
			first = commas(w[o + 2:])[0]
			if up(first[0]) == "MASKLEN":
				n["windows"] += 1
				k = closing(first, 1)
				if "DESC" not in [up(x) for x in first[k:]]: V("specific", s, "the least specific network comes first", "specific:%s" % "/".join(sorted(a for a, b in relations(body))))
	for i, t in enumerate(body):
		if t.kind == "o" and t in (">>=", "<<=", ">>", "<<") and i >= 3 and i + 3 < len(body):
			a = body[i - 3].lower() if body[i - 2] == "." else None
			b = body[i + 1].lower() if body[i + 2] == "." else None
			if a is None or b is None: continue
			n["joins"] += 1
			if t in (">>", "<<"):
				if b in temp or a in temp: V("direction", s, "a record for exactly the network itself is not applied (%s.network %s %s.network)" % (a, t, b), "direction:%s:%s" % (a, b))
			if (t[0] == ">" and a in temp and b not in temp) or (t[0] == "<" and b in temp and a not in temp): V("direction", s, "records are applied to the networks that contain them, not to those they contain (%s.network %s %s.network)" % (a, t, b), "direction:%s:%s" % (a, b))

def check_rank(V, s, q, n):
	"""A window that numbers the candidates is used to select the first one."""
	P = parts(q)
	for name, body, vis in P:
		if name is None: continue
		w = [up(x) for x in body]
		if "ROW_NUMBER" not in w: continue
		i = w.index("ROW_NUMBER")
		j = w.index("OVER", i) if "OVER" in w[i:] else -1
		if j < 0: continue
		e = closing(body, j + 1)
		alias = body[e + 2].lower() if e + 2 < len(body) and w[e + 1] == "AS" else None
		if alias is None: continue
		ok = False
		for nm, b, v in P:
			if nm == name: continue
			for k in range(len(b) - 1):
				if b[k].lower() == alias and b[k + 1] in ("=", "<=", "<"):
					if (b[k + 1], b[k + 2]) in (("=", "1"), ("<=", "1"), ("<", "2")): ok = True
				if b[k].lower() == "1" and b[k + 1] == "=" and (b[k + 2].lower() == alias or (k + 4 < len(b) and b[k + 4].lower() == alias)): ok = True
		if not ok: V("unranked", s, "the candidates are numbered, but not only the first one is applied", "unranked:%s" % "/".join(sorted({t for t, a in relations(body)})))
