"""P22: a source's data are replaced as a whole or not at all; sources do not affect one another (path-sensitive typestate)."""
import ast
import pyflow, pynames, sql
from pyflow import *
from importer_check import Folder, params, REL
from common import *

pyflow.CLASSES["psycopg.Error"] = type("Error", (Exception,), {})
DB = ("s", ("attr", ("self",), "db"))
RETRIEVE = ["urllib.error.HTTPError", "urllib.error.URLError", "TimeoutError", "http.client.InvalidURL", "http.client.RemoteDisconnected", "http.client.BadStatusLine", "ConnectionResetError"]
READ = ["EOFError", "gzip.BadGzipFile", "zlib.error"]
ALL = ("all",)

def v(s, x): return ("v", s, x)
def exc(s, c, origin): return ("exc", s.copy(), ("exc", c, origin))
def stream(x): return isinstance(x, tuple) and (x[:2] == ("o", "stream") or any(stream(y) for y in x if isinstance(y, tuple)))

class ImportFlow(Flow):
	coarse = True
	def inline(self, fr, st, n, rel, cls, fn, selfv, args, kw, closure=False):
		if getattr(fn, "is_async", False):
			self.hooks.stats["coroutines"] += 1
			if not getattr(n, "consumed", False): self.report("await", fr, n, "the coroutine %s is created but not awaited" % fn.name, st, key="await:%s" % fn.name)
		out = super().inline(fr, st, n, rel, cls, fn, selfv, args, kw, closure)
		if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fn)):
			g = ("o", "stream", "gen") if any(stream(a) for a in args) else None
			out = [(k, s, (g or self.fresh(s, fr, n)) if k == "v" else x) for k, s, x in out]
		return out
	def report(self, rule, fr, node, msg, st=None, key=None):
		super().report(rule, fr, node, msg, st, key)

class Import(Hooks):
	def __init__(self, folder, tables, temp):
		self.folder, self.tables, self.temp = folder, tables, temp
		self.stats = dict(statements=0, transactions=0, inserts=0, deletes=0, caught=0, sources=0, coroutines=0)
		self.seen = set()
	def count(self, what, n):
		if (what, n) not in self.seen: self.seen.add((what, n)); self.stats[what] += 1
	# -- what may fail
	def unknown(self, I, fr, st, n, f, args, kw):
		if any(stream(a) for a in list(args) + list(kw.values())) or (f[0] == "s" and f[1][0] == "attr" and stream(f[1][1])):
			return ("exc", "ValueError", "source") if not (f[0] == "mod" and f[1].startswith(("log.", "io.", "csv."))) else None
		return None
	def iteration(self, I, fr, st, n, it):
		if stream(it): return ("exc", "EOFError", "source")
		return None
	def caught(self, I, fr, st, h, e):
		if e[2] not in ("source", "db"): return
		self.count("caught", h)
		st.ts["failed"] = 1
		if any(k[0] == "del" for k in st.ts if isinstance(k, tuple)) and ("txn",) in st.ts:
			st.ts[("swallowed",)] = h.lineno
	# -- transactions
	def enter(self, I, fr, st, item, val):
		if val[:2] == ("o", "txn"):
			self.count("transactions", item)
			st.ts[("txn",)] = st.ts.get(("txn",), 0) + 1
		return val
	def leave(self, I, fr, st, item, val, kind, x):
		if val[:2] == ("o", "suppress") and kind == "exc" and x[2] in ("source", "db"):
			if any(catches(t, x[1]) for t in val[2]):
				st.ts["failed"] = 1
				if any(k[0] == "del" for k in st.ts if isinstance(k, tuple)) and ("txn",) in st.ts: st.ts[("swallowed",)] = item.context_expr.lineno
				return True
		if val[:2] != ("o", "txn"): return None
		d = st.ts.get(("txn",), 1) - 1
		if d: st.ts[("txn",)] = d; return None
		st.ts.pop(("txn",), None)
		sw = st.ts.pop(("swallowed",), None)
		if sw and kind != "exc":
			I.report("swallowed", fr, item.context_expr, "the transaction is committed although the source failed after its previous data had been deleted (caught at line %d)" % sw, st, key="swallowed")
		for k in [k for k in st.ts if isinstance(k, tuple) and k[0] == "del"]:
			del st.ts[k]
			if kind != "exc": st.ts[("gone", k[1])] = 1
		return None

def keycol(tables, t):
	for c in ("source", "geofeed_id"):
		if c in tables.get(t, {}): return c
	return None
WHOLE = {"countries", "network_overrides", "autnum_overrides"}

def equal(a, b):
	"""Whether two values are the same: True, False, None."""
	if a is None or b is None: return None
	if a == b: return True
	if const(a) and const(b): return False
	if a[0] == "s" and b[0] == "s" and a[1][0] == "attr" and b[1][0] == "attr": return False if a[1][1] != b[1][1] or a[1][2] != b[1][2] else True
	return None

def model(verb):
	def m(I, fr, st, n, base, args, kw):
		H = I.hooks
		if base != DB: return None
		texts = {args[0][1]} if args and const(args[0]) and isinstance(args[0][1], str) else H.folder.texts(n.args[0]) if n.args else None
		res = []
		st = st.copy()
		if texts is None: return [v(st, I.fresh(st, fr, n)), exc(st, "psycopg.Error", "db")]
		res.append(exc(st, "psycopg.Error", "db"))
		for text in sorted(texts):
			s = st.copy()
			i = 0
			for toks in sql.split(sql.tokens(text, "%s:%d" % (REL, n.lineno))):
				q = sql.Statement(toks, "%s:%d" % (REL, n.lineno))
				ph = {}
				for t in q.toks:
					if t.kind == "p": ph[id(t)] = i; i += 1
				apply(I, H, fr, s, n, q, ph, verb, args)
			res.append(v(s, I.fresh(s, fr, n)))
		return res
	return m

def value(tok_item, ph, verb, n, args):
	"""The value of an item of a VALUES list or condition."""
	for t in tok_item:
		if t.kind == "p" and id(t) in ph:
			k = ph[id(t)]
			if verb == "executemany":
				p = params(n, verb)
				x = p[k] if p and k < len(p) else None
				return K(x.value) if isinstance(x, ast.Constant) else None
			return args[k + 1] if k + 1 < len(args) else None
		if t.kind == "s": return K(t[1:-1])
	return None

def apply(I, H, fr, st, n, q, ph, verb, args):
	H.count("statements", (n, q.kind, q.table))
	T = q.table
	if not q.writes() or T in H.temp: return
	intxn = ("txn",) in st.ts
	if not intxn: I.report("transaction", fr, n, "%s %s is executed outside of a transaction" % (q.kind, T), st, key="transaction:%s:%s" % (q.kind, T))
	kc = keycol(H.tables, T)
	if q.kind == "TRUNCATE" or (q.kind == "DELETE" and not q.where_toks):
		H.count("deletes", (n, T))
		if kc is not None: I.report("alien", fr, n, "the data of every source are removed from %s" % T, st, key="alien:%s" % T)
		st.ts[("del", T)] = ALL
	elif q.kind == "DELETE":
		H.count("deletes", (n, T))
		w = q.where_toks
		if len(w) == 3 and w[1] == "=" and w[0].lower() == kc:
			st.ts[("del", T)] = value(w[2:], ph, verb, n, args) or ("unknown",)
		elif T in WHOLE: st.ts[("del", T)] = ("part",)
	elif q.kind == "UPDATE":
		if T == "geofeeds" and "error" in q.columns and any(up_(e) != "NULL" for c, e in q.sets if c == "error"): st.ts.pop("failed", None)
	elif q.kind == "INSERT":
		if kc is None and T not in WHOLE: return
		H.count("inserts", (n, T))
		d = st.ts.get(("del", T))
		if d is None:
			I.report("replace", fr, n, "data are added to %s, but what the source had there before was not removed in the same transaction%s" % (T, " (only in one that is already committed)" if ("gone", T) in st.ts else ""), st, key="replace:%s" % T)
		elif kc is not None and d != ALL and d[0] not in ("unknown", "part") and q.values:
			cols = q.columns or list(H.tables[T])
			for row in q.values:
				for c, item in zip(cols, row):
					if c == kc and equal(d, value(item, ph, verb, n, args)) is False:
						I.report("other-source", fr, n, "the data of %s are removed from %s, but data of %s are added" % (show(d), T, show(value(item, ph, verb, n, args))), st, key="other-source:%s" % T)
def up_(e): return " ".join(x.upper() for x in e)
def show(x): return repr(x[1]) if x and x[0] == "k" else str(x[1][2]) if x and x[0] == "s" and x[1][0] == "attr" else "another"

def m_transaction(I, fr, st, n, base, args, kw):
	if base != DB: return None
	return [v(st, ("o", "txn", n.lineno)), ]
def m_pipeline(I, fr, st, n, base, args, kw):
	return [v(st, ("o", "pipeline", n.lineno))] if base == DB else None
def m_retrieve(I, fr, st, n, base, args, kw):
	I.hooks.count("sources", n)
	return [v(st, ("o", "stream", n.lineno))] + [exc(st, c, "source") for c in RETRIEVE]
def m_thread(I, fr, st, n, args, kw):
	if not args: return [v(st, I.fresh(st, fr, n))]
	f = args[0]
	if f[0] == "s" and f[1][0] == "attr" and f[1][2] == "retrieve": return m_retrieve(I, fr, st, n, f[1][1], args[1:], kw)
	return I.call(fr, st, n, f, args[1:], kw)
def m_suppress(I, fr, st, n, args, kw): return [v(st, ("o", "suppress", tuple(a[1] for a in args if a[0] == "mod")))]
def derived(I, fr, st, n, args, kw):
	if any(stream(a) for a in args): return [v(st, ("o", "stream", n.lineno))]
	return [v(st, I.fresh(st, fr, n))]

def handlers(tree):
	"""Methods that carry out a command: those given to set_defaults(func=...)."""
	out = []
	for x in ast.walk(tree):
		if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "set_defaults":
			for k in x.keywords:
				if k.arg == "func" and isinstance(k.value, ast.Attribute): out.append(k.value.attr)
	return list(dict.fromkeys(out))

def flow(tree, folder, tables, temp):
	H = Import(folder, tables, temp)
	I = ImportFlow({REL: tree}, models={"asyncio.to_thread": m_thread, "contextlib.suppress": m_suppress, "io.TextIOWrapper": derived, "csv.DictReader": derived, "csv.reader": derived, "io.BufferedReader": derived},
		methods={"execute": model("execute"), "executemany": model("executemany"), "query": model("query"), "get": model("get"), "transaction": m_transaction, "pipeline": m_pipeline, "retrieve": m_retrieve}, hooks=H, budget=3000000)
	return I, H

def replacement(tier):
	r = Result()
	tree = pyflow.synchronous(ast.parse(pynames.source(REL), REL))
	folder = Folder(tree)
	sites = []
	import importer_check
	for fn, node, verb in importer_check.sql_calls(tree):
		for x in sorted(folder.texts(node.args[0]) or ()) if node.args else ():
			q = sql.Site(fn, None, node, verb); q.statements = [sql.Statement(y, REL) for y in sql.split(sql.tokens(x, REL))]
			sites.append(q)
	tables, temp = sql.schema(sites)
	cls = next((c for c in tree.body if isinstance(c, ast.ClassDef) and any(isinstance(m, ast.FunctionDef) and m.name == "run" for m in c.body)), None)
	if cls is None: raise AnalysisError("the importer has no class with a method run")
	hs = handlers(tree)
	if len(hs) < 5: raise AnalysisError("only %d commands found" % len(hs))
	tot = dict()
	jobs = hs
	def one(h):
		I, H = flow(tree, folder, tables, temp)
		fn = next((m for m in cls.body if isinstance(m, ast.FunctionDef) and m.name == h), None)
		if fn is None: raise AnalysisError("the command's method %s does not exist" % h)
		st = State(); fr = Frame(REL, cls, fn, ("self",), 0); fr.caller = None
		names = [a.arg for a in fn.args.args]
		st.env = {"self": ("self",)}
		for a in names[1:]: st.env[a] = ("p", a)
		outs = I.block(fr, st, fn.body)
		for k, s, x in outs:
			if k == "exc" and x[2] == "source":
				I.report("isolation", fr, fn, "when one source fails (%s), the others are not imported" % x[1], s, key="isolation")
			elif k != "exc" and "failed" in s.ts:
				if k == "n" or (x[0] == "k" and not x[1]): I.report("status", fr, fn, "a source failed, but the exit status is that of a success", s, key="status")
		return list(I.reports.values()), H.stats, I.calls, I.steps
	for h, o in zip(hs, parallel(one, jobs)):
		if o[0] == "ERR": raise AnalysisError("%s: %s" % (h, o[1]))
		for x in o[0]: r.report(x["rule"], x["file"], x["line"], x["function"], x["message"], x["key"], x["path"])
		for k, c in o[1].items(): tot[k] = tot.get(k, 0) + c
		tot["calls"] = tot.get("calls", 0) + o[2]; tot["steps"] = tot.get("steps", 0) + o[3]
	n1 = one_connection(r)
	n2 = exit_status(r, tree, cls)
	if tot["inserts"] < 8 or tot["transactions"] < 6 or tot["sources"] < 3: raise AnalysisError("the importer's transactions, insertions or sources were not found: %r" % tot)
	r.obligations = tot["statements"] + tot["transactions"] + tot["inserts"] + tot["deletes"] + tot["caught"] + tot["sources"] + tot["coroutines"] + n1 + n2
	r.coverage = dict(tot, commands=hs, connection_methods=n1)
	r.rules = ["transaction", "replace", "other-source", "alien", "swallowed", "isolation", "status", "await", "connection"]
	r.explanation = "every path through each command of the importer, with each download, each read and each statement succeeding or raising; open transactions, what was deleted in them and what was caught are typestates"
	r.assumptions = ["a transaction that is left by an exception is rolled back", "the exceptions urllib, gzip and zlib document are the ones they raise"]
	return r

def one_connection(r):
	"""Statements and transactions of one task use one connection."""
	rel = "src/python/location/database.py"
	t = pynames.tree(rel)
	cls = next((c for c in t.body if isinstance(c, ast.ClassDef) and any(isinstance(m, (ast.FunctionDef, ast.AsyncFunctionDef)) and m.name == "transaction" for m in c.body)), None)
	if cls is None: raise AnalysisError("%s: no class with transactions" % rel)
	n = 0
	ms = {m.name: m for m in cls.body if isinstance(m, (ast.FunctionDef, ast.AsyncFunctionDef))}
	takes = set()
	for m in ms.values():
		for x in ast.walk(m):
			if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("getconn", "connection") and isinstance(x.func.value, ast.Attribute) and x.func.value.attr == "pool": takes.add(m.name)
	for name in ("query", "execute", "executemany", "transaction", "pipeline"):
		if name not in ms: continue
		n += 1
		if name in takes: r.report("connection", rel, ms[name].lineno, "Connection.%s" % name, "a connection is taken from the pool for this call alone: it is outside of the task's transaction", key="connection:%s" % name)
	for name in takes:
		if name in ("query", "execute", "executemany", "transaction", "pipeline"): continue
		m = ms[name]; n += 1
		# the connection that is taken is the one later calls of the task find
		stored, key = False, None
		holds = set()
		for x in ast.walk(m):
			if isinstance(x, ast.Assign):
				from_pool = any(isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in ("getconn", "connection") for y in ast.walk(x.value))
				names = {y.id for tt in x.targets for y in [tt] if isinstance(y, ast.Name)}
				if from_pool: holds |= names
				if from_pool or (isinstance(x.value, ast.Name) and x.value.id in holds):
					for tt in x.targets:
						if isinstance(tt, ast.Subscript) and isinstance(tt.value, ast.Attribute): stored = True; key = (tt.value.attr, ast.unparse(tt.slice))
			if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "setdefault": stored = True
		if not stored: r.report("connection", rel, m.lineno, "Connection.%s" % name, "every call takes another connection: statements are not executed in the transaction that was opened", key="connection:%s" % name)
		elif key:
			found = any((isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Attribute) and x.value.attr == key[0] and ast.unparse(x.slice) == key[1]) or
				(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "get" and isinstance(x.func.value, ast.Attribute) and x.func.value.attr == key[0] and x.args and ast.unparse(x.args[0]) == key[1]) for x in ast.walk(m))
			if not found: r.report("connection", rel, m.lineno, "Connection.%s" % name, "the connection the task already has is not looked up", key="connection:%s" % name)
	if not takes: raise AnalysisError("%s: nothing takes connections from the pool" % rel)
	return n

def exit_status(r, tree, cls):
	"""What a command returns becomes the exit status."""
	n = 0
	for ret, want in ((K(1), True), (NONE, False), (K(0), False)):
		def m_func(I, fr, st, nd, base, args, kw): st = st.copy(); st.ts["ran"] = 1; return [v(st, ret)]
		def m_exit(I, fr, st, nd, args, kw): return [("exc", st, ("exc", "SystemExit", args[0] if args else NONE))]
		I = Flow({REL: tree}, models={"sys.exit": m_exit}, methods={"func": m_func, "self.parse_cli": lambda I, fr, st, nd, b, a, k: [v(st, ("s", ("arg", "run", "args")))], "self._setup_database": lambda I, fr, st, nd, b, a, k: [v(st, I.fresh(st, fr, nd))]}, hooks=Hooks())
		fn = next(m for m in cls.body if isinstance(m, ast.FunctionDef) and m.name == "run")
		st = State(); st.env = {"self": ("self",)}
		fr = Frame(REL, cls, fn, ("self",), 0); fr.caller = None
		for k, s, x in I.block(fr, st, fn.body):
			if "ran" not in s.ts: continue
			n += 1
			code = x[2] if k == "exc" and x[1] == "SystemExit" else NONE if k in ("n", "ret") else None
			if code is None: continue
			bad = const(code) and bool(code[1]) != want
			if bad: r.report("status", REL, fn.lineno, "CLI.run", "a command that %s makes the importer exit with status %r" % ("fails" if want else "succeeds", code[1] or 0), key="exit")
	return n
