"""Statements of the importer: where SQL text is executed, what it does, and whether it fits the schema."""
import ast, re
from frontend import AnalysisError

VERBS = ("execute", "executemany", "query", "get")
TOK = re.compile(r"""\s+|--[^\n]*|/\*.*?\*/|(?P<s>'(?:[^']|'')*')|(?P<q>"[^"]*")|(?P<p>%s|%\(\w+\)s)|(?P<w>[A-Za-z_][A-Za-z_0-9$]*)|(?P<n>\d+(?:\.\d+)?)|(?P<o>::|<<=|>>=|<<|>>|&&|\|\||<=|>=|<>|!=|[-+*/%=<>(),;.\[\]@!~|&?:])""", re.S)

class Tok(str):
	"""A token; kind: w(ord), s(tring), p(laceholder), n(umber), o(perator), q(uoted name)."""
	kind = "o"
def tokens(text, where):
	out, i = [], 0
	while i < len(text):
		m = TOK.match(text, i)
		if m is None: raise AnalysisError("%s: cannot read the statement at %r" % (where, text[i:i + 20]))
		i = m.end()
		if m.lastgroup:
			t = Tok(m.group(m.lastgroup)); t.kind = m.lastgroup; out.append(t)
	return out

def up(t): return t.upper() if t.kind == "w" else t
def split(toks):
	"""Statements of a text."""
	out, cur = [], []
	for t in toks:
		if t == ";" and t.kind == "o":
			if cur: out.append(cur)
			cur = []
		else: cur.append(t)
	if cur: out.append(cur)
	return out
def closing(t, i):
	d = 0
	for j in range(i, len(t)):
		if t[j] == "(" and t[j].kind == "o": d += 1
		elif t[j] == ")" and t[j].kind == "o":
			d -= 1
			if d == 0: return j
	raise AnalysisError("unbalanced parentheses")
def commas(t):
	"""Items of a list at its own level."""
	out, cur, d = [], [], 0
	for x in t:
		if x.kind == "o" and x in ("(", "["): d += 1
		elif x.kind == "o" and x in (")", "]"): d -= 1
		if x.kind == "o" and x == "," and d == 0: out.append(cur); cur = []
		else: cur.append(x)
	if cur: out.append(cur)
	return out
def find(t, words, start=0):
	"""Position of a sequence of keywords outside of parentheses."""
	d = 0
	for i in range(start, len(t)):
		if t[i].kind == "o" and t[i] == "(": d += 1
		elif t[i].kind == "o" and t[i] == ")": d -= 1
		elif d == 0 and all(i + k < len(t) and up(t[i + k]) == w for k, w in enumerate(words)): return i
	return -1

class Statement:
	"""kind: INSERT UPDATE DELETE TRUNCATE SELECT CREATE ALTER DROP ANALYZE ...; table; columns; values (token lists) or None; conflict."""
	def __init__(self, toks, where):
		self.toks, self.where = toks, where
		self.kind, self.table, self.columns, self.values, self.conflict, self.temp, self.types, self.ctes = up(toks[0]), None, [], None, None, False, {}, set()
		self.added, self.dropped = {}, []
		t = toks
		if self.kind == "WITH":
			i = 1
			if up(t[i]) == "RECURSIVE": i += 1
			while True:
				self.ctes.add(t[i].lower()); i += 1
				if t[i] == "(": i = closing(t, i) + 1
				if up(t[i]) != "AS": raise AnalysisError("%s: WITH" % where)
				i += 1
				if up(t[i]) in ("MATERIALIZED",): i += 1
				i = closing(t, i) + 1
				if t[i] == ",": i += 1; continue
				break
			self.main = t[i:]; self.kind = up(t[i])
		else: self.main = t
		t = self.main
		m = getattr(self, "p_" + self.kind, None)
		if m: m(t)
	def p_INSERT(self, t):
		i = 2
		self.table = t[i].lower(); i += 1
		if i < len(t) and up(t[i]) == "AS": i += 2
		if t[i] == "(":
			j = closing(t, i)
			self.columns = [c[0].lower() for c in commas(t[i + 1:j])]; i = j + 1
		c = find(t, ("ON", "CONFLICT"), i)
		body = t[i:c] if c >= 0 else t[i:]
		if c >= 0: self.conflict = [up(x) for x in t[c:]]
		self.conflict_toks = t[c:] if c >= 0 else []
		if body and up(body[0]) == "VALUES":
			rows, k = [], 1
			while k < len(body):
				if body[k] == "(":
					j = closing(body, k); rows.append(commas(body[k + 1:j])); k = j + 1
				else: k += 1
			self.values = rows
		self.select = body if body and up(body[0]) in ("SELECT", "WITH", "(") else None
	def p_UPDATE(self, t):
		self.table = t[1].lower(); i = 2
		self.alias = None
		if i < len(t) and up(t[i]) == "AS": i += 1
		if up(t[i]) != "SET": self.alias = t[i].lower(); i += 1
		s = find(t, ("SET",))
		e = min([x for x in (find(t, ("FROM",), s), find(t, ("WHERE",), s), find(t, ("RETURNING",), s), len(t)) if x >= 0])
		self.columns, self.sets = [], []
		for c in commas(t[s + 1:e]):
			k = find(c, ("=",))
			self.columns.append(c[k - 1].lower()); self.sets.append((c[k - 1].lower(), c[k + 1:]))
	def p_DELETE(self, t):
		self.table = t[2].lower()
		w = find(t, ("WHERE",))
		self.where_toks = t[w + 1:] if w >= 0 else []
	def p_TRUNCATE(self, t):
		i = 2 if up(t[1]) == "TABLE" else 1
		self.table = t[i].lower()
	def p_CREATE(self, t):
		w = [up(x) for x in t]
		self.temp = "TEMPORARY" in w[:4] or "TEMP" in w[:4]
		if "TABLE" not in w[:4]: 
			self.kind = "CREATE INDEX"
			self.unique = "UNIQUE" in w[:3]
			k = w.index("INDEX") + 1
			if w[k:k + 3] == ["IF", "NOT", "EXISTS"]: k += 3
			self.index = t[k].lower()
			if find(t, ("WHERE",)) >= 0: self.unique = False
			o = find(t, ("ON",)); self.table = t[o + 1].lower()
			p = [k for k in range(o, len(t)) if t[k] == "("]
			self.columns = [x.lower() for c in commas(t[p[0] + 1:closing(t, p[0])]) for x in c[:1] if len(c) < 2 or c[1] != "("] if p else []
			return
		i = w.index("TABLE") + 1
		if w[i:i + 3] == ["IF", "NOT", "EXISTS"]: i += 3
		self.table = t[i].lower(); i += 1
		j = closing(t, i)
		for c in commas(t[i + 1:j]):
			if up(c[0]) in ("PRIMARY", "UNIQUE", "FOREIGN", "CONSTRAINT", "CHECK"): continue
			self.columns.append(c[0].lower()); self.types[c[0].lower()] = [up(x) for x in c[1:]]
		self.kind = "CREATE TABLE"
	def p_ALTER(self, t):
		w = [up(x) for x in t]
		self.table = t[2].lower()
		if w[3:5] == ["ADD", "COLUMN"]:
			i = 8 if w[5:8] == ["IF", "NOT", "EXISTS"] else 5
			self.added[t[i].lower()] = w[i + 1:]
		elif w[3:5] == ["DROP", "COLUMN"]:
			i = 7 if w[5:7] == ["IF", "EXISTS"] else 5
			self.dropped.append(t[i].lower())
		elif w[3:5] == ["ALTER", "COLUMN"]: self.columns = [t[5].lower()]
		else: raise AnalysisError("%s: ALTER %s" % (self.where, " ".join(w)))
	def p_ANALYZE(self, t):
		if len(t) > 1: self.table = t[1].lower()
	def p_DROP(self, t):
		w = [up(x) for x in t]
		self.index = t[4 if w[2:4] == ["IF", "EXISTS"] else 2].lower() if w[1] == "INDEX" else None
		if w[1] == "TABLE": self.table = t[4 if w[2:4] == ["IF", "EXISTS"] else 2].lower()
	def writes(self): return self.kind in ("INSERT", "UPDATE", "DELETE", "TRUNCATE")
	def outputs(self):
		"""Names of the columns a query delivers; None: everything (*)."""
		return select_outputs(self.main)

def select_outputs(t):
	i = 1
	if up(t[i]) == "DISTINCT":
		i += 1
		if up(t[i]) == "ON": i = closing(t, i + 1) + 1
	e = find(t, ("FROM",)); e = len(t) if e < 0 else e
	out = []
	for c in commas(t[i:e]):
		if c == ["*"]: return None
		k = find(c, ("AS",))
		if k >= 0: out.append(c[k + 1].lower())
		elif len(c) >= 2 and c[-1].kind == "w" and c[-2].kind in ("w",) and c[-2] != ".": out.append(c[-1].lower())
		elif c[-1].kind == "w": out.append(c[-1].lower())
		elif c[-1] == ")": out.append(c[0].lower())
		else: out.append("?column?")
	return out

class Site:
	"""A call that executes SQL text."""
	def __init__(self, fn, cls, node, verb): self.fn, self.cls, self.node, self.verb, self.statements, self.text = fn, cls, node, verb, [], None

def is_db(node, dbnames=("db",)):
	"""The receiver of a call is the connection: self.db, or a local named so that was assigned a Connection."""
	return isinstance(node, ast.Attribute) and node.attr in dbnames or isinstance(node, ast.Name) and node.id in dbnames

def fold(n, env):
	"""Constant text of an expression, or None."""
	if isinstance(n, ast.Constant) and isinstance(n.value, str): return n.value
	if isinstance(n, ast.Name) and n.id in env: return fold(env[n.id], {})
	if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
		a, b = fold(n.left, env), fold(n.right, env)
		return a + b if a is not None and b is not None else None
	if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("strip", "rstrip", "lstrip") and not n.args: return fold(n.func.value, env)
	if isinstance(n, ast.Call) and ast.unparse(n.func) == "textwrap.dedent" and len(n.args) == 1: return fold(n.args[0], env)
	if isinstance(n, ast.JoinedStr) and all(isinstance(v, ast.Constant) for v in n.values): return "".join(v.value for v in n.values)
	return None

def constants(tree):
	"""Names that are bound once, to a constant string, in a scope."""
	env = {}
	for n in tree.body:
		if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name): env[n.targets[0].id] = n.value
	return env

def collect(tree, rel):
	out = []
	top = constants(tree)
	def visit(node, fn, cls):
		for c in ast.iter_child_nodes(node):
			if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)): visit(c, fn + [c], cls)
			elif isinstance(c, ast.ClassDef): visit(c, fn, c)
			else:
				if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in VERBS and is_db(c.func.value) and fn:
					out.append(Site(fn[-1], cls, c, c.func.attr))
				visit(c, fn, cls)
	visit(tree, [], None)
	for s in out:
		env, count = dict(top), {}
		for x in ast.walk(s.fn):
			if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name): env[x.targets[0].id] = x.value; count[x.targets[0].id] = count.get(x.targets[0].id, 0) + 1
			elif isinstance(x, (ast.AugAssign, ast.For, ast.AnnAssign)) and isinstance(x.target, ast.Name): count[x.target.id] = 2
		for k, v in count.items():
			if v > 1: env.pop(k, None)
		s.where = "%s:%d" % (rel, s.node.lineno)
		s.text = fold(s.node.args[0], env) if s.node.args else None
		if s.text is not None: s.statements = [Statement(x, s.where) for x in split(tokens(s.text, s.where))]
	return out

def uniques(sites):
	"""Tables: name -> sets of columns that are unique in it."""
	out, gone = {}, {q.index for s in sites for q in s.statements if q.kind == "DROP" and getattr(q, "index", None)}
	for s in sites:
		for q in s.statements:
			if q.kind == "CREATE INDEX" and q.unique and q.index not in gone: out.setdefault(q.table, set()).add(frozenset(q.columns))
			if q.kind == "CREATE TABLE":
				for c, ty in q.types.items():
					if "UNIQUE" in ty or "PRIMARY" in ty: out.setdefault(q.table, set()).add(frozenset([c]))
	return out
def target(q):
	"""The columns an ON CONFLICT names; None when there are none."""
	t = q.conflict_toks
	if len(t) > 2 and t[2] == "(": return frozenset(c[0].lower() for c in commas(t[3:closing(t, 2)]))
	return None
def schema(sites):
	"""Tables: name -> {column: type}; names of the temporary ones."""
	tables, temp = {}, set()
	for s in sites:
		for q in s.statements:
			if q.kind == "CREATE TABLE":
				tables.setdefault(q.table, {}).update(q.types)
				if q.temp: temp.add(q.table)
			elif q.kind == "ALTER":
				for c, ty in q.added.items(): tables.setdefault(q.table, {}).setdefault(c, ty)
	for s in sites:
		for q in s.statements:
			if q.kind == "ALTER":
				for c in q.dropped: tables.get(q.table, {}).pop(c, None)
	return tables, temp
