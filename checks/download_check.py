"""P17: only verified, current databases are installed; mirrors are independent of one another (path-sensitive typestate over the Python syntax tree)."""
import ast
import pyflow, pynames
from pyflow import *
from common import *

LT, EQ, GT = "<", "=", ">"
ORD = {("Lt", True): {LT}, ("Lt", False): {EQ, GT}, ("LtE", True): {LT, EQ}, ("LtE", False): {GT}, ("Gt", True): {GT}, ("Gt", False): {LT, EQ},
	("GtE", True): {GT, EQ}, ("GtE", False): {LT}, ("eq", True): {EQ}, ("eq", False): {LT, GT}}
FLIP = {LT: GT, GT: LT, EQ: EQ}

NETWORK = ["urllib.error.HTTPError", "urllib.error.URLError", "http.client.RemoteDisconnected", "http.client.BadStatusLine", "TimeoutError"]
READ = ["http.client.IncompleteRead", "ConnectionResetError", "TimeoutError"]
DECOMPRESS = ["lzma.LZMAError", "EOFError"]

def v(s, x): return ("v", s, x)
def exc(s, c, origin): return ("exc", s.copy(), ("exc", c, origin))
def F(st, f): return st.ts.get(("file", f))
def setF(st, f, **kw):
	d = dict(F(st, f)); d.update(kw); st.ts[("file", f)] = tuple(sorted(d.items()))
def forget_check(st, f):
	for k in [k for k in st.ts if k[0] in ("verified", "order") and k[1] == f]: del st.ts[k]

def file_of(st, x):
	"""The temporary file a value is, or is the name of."""
	if x is None: return None
	if ("file", x) in st.ts: return x
	if x[0] == "s" and x[1][0] == "attr" and x[1][2] == "name" and ("file", x[1][1]) in st.ts: return x[1][1]
	if x[0] == "s" and x[1][0] == "call" and ("file", x[1][1]) in st.ts: return x[1][1]
	return None

class Download(Hooks):
	"""Rules: mixed, unflushed, unverified, outdated, refused, leftover, mirror, key."""
	def __init__(self): self.stats = dict(attempts=0, checks=0, writes=0, files=0, returned=0)
	# -- opaque calls may fail for local reasons
	QUIET = ("log.", "logging.", "print", "str", "len", "time.", "os.path.", "stat.", "random.", "int", "list", "isinstance", "urllib.parse.", "format", "getattr", "sorted", "enumerate", "urllib.request.Request", "lzma.LZMADecompressor", "tempfile.gettempdir")
	def unknown(self, I, fr, st, n, f, args, kw):
		if f[0] == "mod" and f[1].startswith(self.QUIET): return None
		if f[0] == "s" and f[1][0] == "attr":
			b = f[1][1]
			if b[0] == "s" and b[1][0] == "global": return None		# the logger
			if f[1][2] in ("set_proxy", "add_header", "header_items", "getheaders", "update", "items", "format", "append", "join", "strip", "debug", "info", "warning", "error", "get", "extend", "copy", "lower"): return None
		for a in args:
			if file_of(st, a) is not None: raise AnalysisError("%s:%d: %s is given the temporary file" % (fr.rel, n.lineno, ast.unparse(n.func)))
		return ("exc", "Exception", "local")
	def assume(self, I, fr, st, x, b, node):
		if x[0] != "s": return
		if x[1][0] == "verify":
			f = x[1][1][2]
			st.ts[("verified", f)] = b
			I.mark(st, node, "verified" if b else "not verified")
			if not b: st.ts[("why", 0)] = 1
		elif x[1][0] == "cmp" and len(x[1]) == 4:
			for a, c, flip in ((x[1][2], x[1][3], False), (x[1][3], x[1][2], True)):
				if a[0] == "s" and a[1][0] == "attr" and a[1][2] == "created_at" and a[1][1][0] == "o" and a[1][1][1] == "db":
					o = ORD.get((x[1][1], b))
					if o is None: continue
					if flip: o = {FLIP[q] for q in o}
					f = a[1][1][2]
					if c == self.stamp(st):
						old = set(st.ts.get(("order", f), "<=>"))
						new = old & o
						if not new: return False
						st.ts[("order", f)] = "".join(sorted(new))
						I.mark(st, node, "created_at %s timestamp" % "".join(sorted(new)))
		elif x[1][0] == "cmp" and x[1][1] == "In": pass
	def stamp(self, st): return ("p", "timestamp")
	def caught(self, I, fr, st, h, e):
		I.mark(st, h, "catches %s" % e[1])
		if e[2] == "mirror": st.ts[("why", 0)] = 1
	def enter(self, I, fr, st, item, x): return x
	def leave(self, I, fr, st, item, x, kind, val):
		if ("file", x) in st.ts: self.close(I, st, x)
		elif x[0] == "o" and x[1] == "suppress": 
			if kind == "exc":
				r = [catches(t[1], val[1]) for t in x[2]]
				if any(y is not False for y in r): st.ts[("why", 0)] = 1; return True
	def close(self, I, st, f):
		setF(st, f, dirty=0, open=0)
		if dict(F(st, f))["delete"]: setF(st, f, exists=0)
	def settled(self, I, fr, st, node):
		"""An attempt is over without its result being returned."""
		if st.ts.get(("why", 0)): return
		for f in [k[1] for k in st.ts if k[0] == "file"]:
			o = st.ts.get(("order", f))
			if o is not None and (EQ in o or GT in o) or o is None and st.ts.get(("verified", f)):
				I.report("refused", fr, node, "a database is refused although it %s" % ("is as recent as was asked for" if o is not None and EQ in o else "is recent and has been verified"), st, key="refused")
	def iteration(self, I, fr, st, n, it):
		if any(it == x for x in st.ts.get(("response",), ())): return ("exc", "http.client.IncompleteRead", "mirror")
	def exhausted(self, I, fr, st, n, it):
		if self.is_mirrors(it): self.settled(I, fr, st, n); st.ts[("tried", 0)] = 1
	def element(self, I, fr, st, n, it, e):
		if self.is_mirrors(it):
			self.settled(I, fr, st, n)
			st.ts[("mirror", 0)] = 1; st.ts.pop(("why", 0), None)
	def is_mirrors(self, it):
		return mentions(it, "mirrors")

def temp(I, fr, st, n, a, kw):
	h = I.hooks; h.stats["files"] += 1
	f = I.fresh(st, fr, n, "tmp")
	if ("file", f) in st.ts:
		leftover(I, fr, st, n, f); del st.ts[("file", f)]; forget_check(st, f)
	d = kw.get("delete", TRUE)
	if d[0] != "k": raise AnalysisError("%s:%d: delete=" % (fr.rel, n.lineno))
	st.ts[("file", f)] = tuple(sorted(dict(content="empty", pos="start", dirty=0, open=1, exists=1, delete=int(bool(d[1]))).items()))
	if "dir" in kw: st.ts[("dir", f)] = kw["dir"]
	return [v(st, f), exc(st_without(st, f), "OSError", "local")]
def st_without(st, f):
	s = st.copy(); del s.ts[("file", f)]; return s

def leftover(I, fr, st, n, f):
	d = dict(F(st, f))
	if d["exists"] and not d["delete"]: I.report("leftover", fr, n, "a temporary file is left behind", st, key="leftover")

def of_file(fn):
	def m(I, fr, st, n, base, a, kw):
		if ("file", base) not in st.ts: return None
		return fn(I, fr, st, n, base, a, kw)
	return m
def m_write(I, fr, st, n, f, a, kw):
	I.hooks.stats["writes"] += 1
	d = dict(F(st, f))
	c, pos = d["content"], d["pos"]
	if c == "empty": c = "fresh" if pos == "start" else "mixed"
	elif c == "fresh" and pos == "end": c = "fresh"
	else: c = "mixed"
	setF(st, f, content=c, pos="end" if pos != "far" else "end", dirty=1)
	forget_check(st, f)
	return [v(st, I.fresh(st, fr, n)), exc(st, "OSError", "local")]
def m_flush(I, fr, st, n, f, a, kw): 
	e = exc(st, "OSError", "local")
	setF(st, f, dirty=0); return [v(st, NONE), e]
def m_close(I, fr, st, n, f, a, kw): I.hooks.close(I, st, f); return [v(st, NONE)]
def m_seek(I, fr, st, n, f, a, kw):
	e = exc(st, "OSError", "local")
	wh = a[1] if len(a) > 1 else kw.get("whence", K(0))
	setF(st, f, dirty=0, pos="start" if a[0] == K(0) and (wh == K(0) or wh == ("mod", "os.SEEK_SET")) else "end"); return [v(st, I.fresh(st, fr, n)), e]
def m_truncate(I, fr, st, n, f, a, kw):
	e = exc(st, "OSError", "local")
	d = dict(F(st, f))
	if a and a[0] == K(0): setF(st, f, content="empty", pos="start" if d["pos"] == "start" or d["content"] == "empty" and d["pos"] != "far" else "far", dirty=0)
	elif not a or a[0] == NONE:
		if d["pos"] == "start": setF(st, f, content="empty", dirty=0)
	else: raise AnalysisError("%s:%d: truncate" % (fr.rel, n.lineno))
	forget_check(st, f)
	return [v(st, I.fresh(st, fr, n)), e]
def m_tell(I, fr, st, n, f, a, kw): return [v(st, I.fresh(st, fr, n))]
def m_fileno(I, fr, st, n, f, a, kw): return [v(st, ("s", ("call", f)))]

def unlink(I, fr, st, n, a, kw):
	f = file_of(st, a[0]) if a else None
	if f is None: return I.unknown(fr, st, n, ("mod", "os.unlink"), a, kw)
	e = exc(st, "OSError", "local")
	# a file that cannot be removed is not held against the program
	setF(e[1], f, exists=0)
	setF(st, f, exists=0)
	return [v(st, NONE), e]

def urlopen(I, fr, st, n, a, kw):
	h = I.hooks; h.stats["attempts"] += 1
	for k, d in list(st.ts.items()):
		if k[0] == "file":
			d = dict(d)
			if d["content"] == "fresh": setF(st, k[1], content="stale")
			forget_check(st, k[1])
	res = I.fresh(st, fr, n, "response")
	st.ts[("response", 0)] = res
	I.mark(st, n, "requests the file from a mirror")
	return [v(st, res)] + [exc(st, c, "mirror") for c in NETWORK] + [exc(st, "KeyboardInterrupt", "local")]

def m_read(I, fr, st, n, base, a, kw):
	if base == st.ts.get(("response", 0)):
		b = I.fresh(st, fr, n, "data")
		return [v(st, b)] + [exc(st, c, "mirror") for c in READ] + [exc(st, "KeyboardInterrupt", "local")]
	if ("file", base) in st.ts: setF(st, base, pos="end"); return [v(st, I.fresh(st, fr, n))]
	return None
def m_decompress(I, fr, st, n, base, a, kw):
	return [v(st, I.fresh(st, fr, n, "data"))] + [exc(st, c, "mirror") for c in DECOMPRESS]

def m_copyfileobj(I, fr, st, n, a, kw):
	if len(a) > 1 and ("file", a[1]) in st.ts:
		o = m_write(I, fr, st.copy(), n, a[1], a, kw)
		s = o[0][1]
		return o + [exc(s, c, "mirror") for c in READ + DECOMPRESS] + [v(st, NONE)]
	return I.unknown(fr, st, n, ("mod", "shutil.copyfileobj"), a, kw)

def database(I, fr, st, n, a, kw):
	h = I.hooks; h.stats["checks"] += 1
	f = file_of(st, a[0]) if a else None
	if f is None: return I.unknown(fr, st, n, ("mod", "_location.Database"), a, kw)
	d = dict(F(st, f))
	I.mark(st, n, "opens the downloaded file")
	if d["dirty"]: h_report(I, "unflushed", fr, n, "the downloaded file is opened before everything has been written to it", st)
	if d["content"] in ("stale", "mixed"): h_report(I, "mixed", fr, n, "what is checked may contain data of an earlier, failed attempt", st)
	if not d["exists"]: h_report(I, "mixed", fr, n, "the file has been deleted", st)
	forget_check(st, f)
	return [v(st, ("o", "db", f)), exc(st, "OSError", "mirror")]
def h_report(I, rule, fr, n, msg, st): I.report(rule, fr, n, msg, st, key=rule)

def m_verify(I, fr, st, n, base, a, kw):
	if base[0] == "o": return None
	return None
def call_verify(I, fr, st, n, base, a, kw):
	if not (base[0] == "o" and base[1] == "db"): return None
	k = a[0] if a else None
	if k is None or k[0] != "o" or k[1] != "key": 
		h_report(I, "key", fr, n, "the database is not verified with the public key that was given", st)
	else:
		if k[2] != ("p", "public_key"): h_report(I, "key", fr, n, "the database is not verified with the public key that was given", st)
		if st.ts.get(("used", k)): h_report(I, "key", fr, n, "the public key has already been read from this file, the database cannot be verified with it again", st)
		st.ts[("used", k)] = 1
	st.facts.pop(("s", ("verify", base)), None)
	return [v(st, ("s", ("verify", base))), exc(st, "OSError", "local"), exc(st, "ValueError", "local")]
def m_open(I, fr, st, n, a, kw):
	f = file_of(st, a[0]) if a else None
	if f is not None:
		m = a[1] if len(a) > 1 else kw.get("mode", K("r"))
		if m[0] != "k" or "r" not in m[1] or "+" in m[1]: raise AnalysisError("%s:%d: the temporary file is opened a second time for writing" % (fr.rel, n.lineno))
		return [v(st, I.fresh(st, fr, n)), exc(st, "OSError", "local")]
	k = ("o", "key", a[0] if a else NONE, n.lineno, n.col_offset)
	st.ts.pop(("used", k), None)
	return [v(st, k), exc(st, "OSError", "local")]
def suppress(I, fr, st, n, a, kw): return [v(st, ("o", "suppress", tuple(a)))]
def same(I, fr, st, n, a, kw): return [v(st, I.fresh(st, fr, n)), exc(st, "OSError", "local")]

MODELS = {"tempfile.NamedTemporaryFile": temp, "os.unlink": unlink, "os.remove": unlink, "urllib.request.urlopen": urlopen, "_location.Database": database, "location.Database": database,
	"open": m_open, "contextlib.suppress": suppress, "shutil.copyfileobj": m_copyfileobj, "os.chmod": same, "os.fchmod": same, "os.fsync": same,
	"lzma.decompress": lambda I, fr, st, n, a, kw: m_decompress(I, fr, st, n, None, a, kw)}
METHODS = {"write": of_file(m_write), "flush": of_file(m_flush), "close": of_file(m_close), "seek": of_file(m_seek), "truncate": of_file(m_truncate), "tell": of_file(m_tell), "fileno": of_file(m_fileno),
	"read": m_read, "readinto": m_read, "decompress": m_decompress, "verify": call_verify}

def find_class(trees, rel, meth):
	for c in trees[rel].body:
		if isinstance(c, ast.ClassDef):
			for f in c.body:
				if isinstance(f, ast.FunctionDef) and f.name == meth: return c, f
	raise AnalysisError("%s: there is no %s()" % (rel, meth))

def run_download(trees, rel, r):
	c, f = find_class(trees, rel, "download")
	h = Download()
	I = Flow({rel: trees[rel]}, MODELS, METHODS, h)
	fr = Frame(rel, c, f, ("self",), 0)
	st = State()
	st.env = {a.arg: ("p", a.arg) for a in f.args.args[1:]}
	for need in ("public_key", "timestamp"):
		if need not in st.env: raise AnalysisError("download() has no argument %s" % need)
	st.env[f.args.args[0].arg] = ("self",)
	if f.args.kwarg: st.env[f.args.kwarg.arg] = ("p", f.args.kwarg.arg)
	paths = 0
	for k, s, val in I.block(fr, st, f.body):
		paths += 1
		if k == "n": k, val = "ret", NONE
		ret = file_of(s, val) if k == "ret" else None
		for q in [q for q in s.ts if q[0] == "file"]:
			if q[1] != ret: leftover(I, fr, s, f, q[1])
		if k == "exc":
			if val[2] == "mirror": I.report("mirror", fr, f, "a mirror that fails with %s ends the download, the other mirrors are not tried" % val[1], s, key=val[1])
			continue
		if ret is None:
			if not (val == NONE): raise AnalysisError("download() returns something that is not understood: %r" % (val,))
			continue
		h.stats["returned"] += 1
		d = dict(F(s, ret))
		if not d["exists"]: I.report("leftover", fr, f, "the file that is returned has been deleted", s, key="deleted")
		if not s.ts.get(("verified", ret)): I.report("unverified", fr, f, "a file is returned that has not been verified successfully since it was last written to", s, key="unverified")
		o = s.ts.get(("order", ret), "<=>")
		if LT in o and s.facts.get(h.stamp(s)) is not False and not s.facts.get(("s", ("cmp", "is", h.stamp(s), NONE))): I.report("outdated", fr, f, "a database may be returned that is older than asked for", s, key="outdated")
		if d["dirty"]: I.report("unflushed", fr, f, "a file is returned that is not entirely written", s, key="returned")
	if not h.stats["returned"] and not I.reports: raise AnalysisError("download() never returns a file")
	for x in I.reports.values(): r.reports.append(x)
	return I, h, paths

# -- the command line tool
class Tool(Hooks):
	def __init__(self): self.stats = dict(downloads=0, installs=0, verifications=0)
	def unknown(self, I, fr, st, n, f, args, kw):
		if f[0] == "mod" and f[1].startswith(Download.QUIET + ("datetime.", "location.i18n.", "sys.stderr", "os.path.")): return None
		if any(is_target(a) for a in args) and f[0] == "mod" and f[1].startswith(("os.", "shutil.", "open", "io.")):
			I.report("install", fr, n, "%s touches the installed database" % f[1], st, key=f[1])
		if f[0] == "s" and f[1][0] == "attr" and (f[1][1][0] == "s" and f[1][1][1][0] == "global" or f[1][2] in ("total_seconds", "write", "format")): return None
		return ("exc", "Exception", "local")
	def assume(self, I, fr, st, x, b, node):
		if x[0] != "s": return
		if x[1][0] == "verify": st.ts[("verified", 0)] = b; I.mark(st, node, "verified" if b else "not verified")
		elif x[1][0] == "cmp" and len(x[1]) == 4:
			for p, q, flip in ((x[1][2], x[1][3], False), (x[1][3], x[1][2], True)):
				if p == ("s", ("attr", ("p", "db"), "created_at")) and q == ("s", ("latest",)):
					o = ORD.get((x[1][1], b))
					if o is None: continue
					if flip: o = {FLIP[z] for z in o}
					new = set(st.ts.get(("order", 0), "<=>")) & o
					if not new: return False
					st.ts[("order", 0)] = "".join(sorted(new)); I.mark(st, node, "installed database %s latest" % "".join(sorted(new)))

def ns(attr): return ("s", ("attr", ("p", "ns"), attr))
def is_target(x): return x == ns("database")

def u_download(I, fr, st, n, base, a, kw):
	I.hooks.stats["downloads"] += 1
	I.mark(st, n, "downloads")
	names = ["public_key", "timestamp", "tmpdir"]
	kw = dict(dict(zip(names, a)), **kw)
	if kw.get("public_key") != ns("public_key"): h_report(I, "key", fr, n, "the download is not verified with the public key that was asked for", st)
	if kw.get("timestamp") != ("s", ("latest",)): h_report(I, "outdated", fr, n, "the download is not required to be as recent as the latest version", st)
	d = kw.get("tmpdir", NONE)
	if not (mentions(d, "dirname") and mentions(d, ns("database"))): h_report(I, "install", fr, n, "the database is not downloaded to the directory it is installed to, it will not be replaced in one step", st)
	st.ts[("tried", 0)] = 1
	new = ("o", "new", n.lineno, n.col_offset)
	e1, e2 = exc(st, "FileNotFoundError", "local"), exc(st, "OSError", "local")
	st.ts[("new", 0)] = 1
	return [v(st, new), e1, e2]
def u_move(I, fr, st, n, a, kw):
	src, dst = (a + [kw.get("src", NONE), kw.get("dst", NONE)])[:2] if len(a) < 2 else a[:2]
	if not is_target(dst): return I.unknown(fr, st, n, ("mod", "shutil.move"), a, kw)
	I.hooks.stats["installs"] += 1
	I.mark(st, n, "installs")
	if not (src[0] == "s" and src[1][0] == "attr" and src[1][2] == "name" and src[1][1][0] == "o" and src[1][1][1] == "new"):
		h_report(I, "install", fr, n, "something else than the downloaded database is installed", st)
	e = exc(st, "OSError", "local")
	st.ts[("installed", 0)] = 1; st.ts.pop(("new", 0), None)
	return [v(st, NONE), e]
def u_unlink(I, fr, st, n, a, kw):
	if a and a[0][0] == "s" and a[0][1][0] == "attr" and a[0][1][1][0] == "o": st.ts.pop(("new", 0), None); return [v(st, NONE)]
	return I.unknown(fr, st, n, ("mod", "os.unlink"), a, kw)
def u_path(I, fr, st, n, a, kw): return [v(st, ("s", ("dirname" if ast.unparse(n.func).endswith("dirname") else "path",) + tuple(a)))]
def u_verify(I, fr, st, n, base, a, kw):
	if base != ("p", "db"): return None
	I.hooks.stats["verifications"] += 1
	k = a[0] if a else None
	if k is None or k[0] != "o" or k[1] != "key" or k[2] != ns("public_key"): h_report(I, "key", fr, n, "the database is not verified with the public key that was given", st)
	return [v(st, ("s", ("verify", base))), exc(st, "OSError", "local"), exc(st, "ValueError", "local")]
def u_exit(I, fr, st, n, a, kw):
	st.ts[("exit", 0)] = a[0] if a else K(0)
	return [exc(st, "SystemExit", "exit")]

TOOL = {"shutil.move": u_move, "os.replace": u_move, "os.rename": u_move, "os.unlink": u_unlink, "os.remove": u_unlink, "os.path.dirname": u_path, "os.path.abspath": u_path, "os.path.realpath": u_path,
	"location.discover_latest_version": lambda I, fr, st, n, a, kw: [v(st, ("s", ("latest",)))], "open": m_open, "sys.exit": u_exit, "exit": u_exit}

def handler(cls, command):
	"""The method that runs a command of the command line tool."""
	var = None
	for x in ast.walk(cls):
		if isinstance(x, ast.Assign) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) and x.value.func.attr == "add_parser" and x.value.args \
				and isinstance(x.value.args[0], ast.Constant) and x.value.args[0].value == command: var = ast.unparse(x.targets[0])
	for x in ast.walk(cls):
		if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "set_defaults" and var and ast.unparse(x.func.value) == var:
			for w in x.keywords:
				if w.arg == "func" and isinstance(w.value, ast.Attribute):
					for f in cls.body:
						if isinstance(f, ast.FunctionDef) and f.name == w.value.attr: return f
	for f in cls.body:
		if isinstance(f, ast.FunctionDef) and f.name == "handle_" + command.replace("-", "_"): return f
	raise AnalysisError("no function for the command %s" % command)

def start(f, names):
	st = State()
	a = [x.arg for x in f.args.args]
	st.env[a[0]] = ("self",)
	for x, n in zip(a[1:], names): st.env[x] = ("p", n)
	return st

def run_tool(trees, rel, r):
	cls, run = find_class(trees, rel, "run")
	h = Tool()
	I = Flow({rel: trees[rel]}, dict(TOOL), {"download": u_download, "verify": u_verify}, h)
	paths = 0
	f = handler(cls, "update")
	fr = Frame(rel, cls, f, ("self",), 0)
	for k, s, x in I.block(fr, start(f, ["db", "ns"]), f.body):
		paths += 1
		if s.ts.get(("new", 0)) and k != "exc": I.report("leftover", fr, f, "the downloaded database is neither installed nor removed", s, key="leftover")
		if k == "exc": continue
		if k == "n": x = NONE
		if x[0] != "k": raise AnalysisError("%s returns something that is not understood: %r" % (f.name, x))
		ok = not x[1]
		o = s.ts.get(("order", 0), "<=>")
		if ok and not s.ts.get(("installed", 0)):
			if s.ts.get(("tried", 0)): I.report("status", fr, f, "success is reported although no database has been installed", s, key="not installed")
			elif LT in o: I.report("status", fr, f, "success is reported without an update although the installed database may be older than the latest one", s, key="outdated")
		if not ok and s.ts.get(("installed", 0)): I.report("status", fr, f, "failure is reported although the database has been installed", s, key="installed")
	g = handler(cls, "verify")
	fr = Frame(rel, cls, g, ("self",), 0)
	for k, s, x in I.block(fr, start(g, ["db", "ns"]), g.body):
		paths += 1
		if k == "exc": continue
		if k == "n": x = NONE
		if x[0] != "k": raise AnalysisError("%s returns something that is not understood: %r" % (g.name, x))
		if (not x[1]) != bool(s.ts.get(("verified", 0))): I.report("status", fr, g, "%s is reported although the database %s" % ("success" if not x[1] else "failure", "has not been verified" if not x[1] else "has been verified"), s, key="verify")
	# what becomes of the result
	def func(I, fr, st, n, base, a, kw):
		o = [exc(st, "ValueError", "handler"), exc(st, "FileNotFoundError", "handler"), exc(st, "OSError", "handler")]
		for e in o: e[1].ts[("failed", 0)] = 1
		st.ts[("ran", 0)] = 1
		return [v(st, ("s", ("result",)))] + o
	J = Flow({rel: trees[rel]}, dict(TOOL, **{"_location.Database": lambda I, fr, st, n, a, kw: [v(st, ("p", "db")), exc(st, "FileNotFoundError", "local"), exc(st, "OSError", "local")]}), {"func": func, "self.parse_cli": lambda I, fr, st, n, b, a, kw: [v(st, ("p", "args"))]}, Tool())
	J.models["location.Database"] = J.models["_location.Database"]
	fr = Frame(rel, cls, run, ("self",), 0)
	for k, s, x in J.block(fr, start(run, []), run.body):
		paths += 1
		code = s.ts.get(("exit", 0)) if k == "exc" and x[1] == "SystemExit" else (K(0) if k != "exc" else K(1))
		bad = None
		if s.ts.get(("failed", 0)):
			if code == K(0) or code == NONE or code[0] != "k": bad = "a command that failed ends with the status of a success"
		elif s.ts.get(("ran", 0)):
			t = s.facts.get(("s", ("result",)))
			if code == ("s", ("result",)): pass
			elif t is True and code in (K(0), NONE): bad = "a command that returned an error ends with the status of a success"
			elif t is False and not (code in (K(0), NONE)): bad = "a command that succeeded ends with the status of a failure"
			elif t is None and code[0] == "k": bad = "the result of the command has no influence on the status"
		if bad: J.report("status", fr, run, bad, s, key=bad)
	if h.stats["downloads"] < 1 or h.stats["verifications"] < 1: raise AnalysisError("the command line tool does not download or does not verify")
	if not h.stats["installs"]: I.report("install", Frame(rel, cls, f, ("self",), 0), f, "the downloaded database is never moved to where the database is", None, key="never")
	for x in list(I.reports.values()) + list(J.reports.values()): r.reports.append(x)
	return I, h, paths

def downloads(tier):
	r = Result()
	rel, tool = "src/python/location/downloader.py", "src/scripts/location.in"
	trees = {rel: pynames.tree(rel), tool: pynames.tree(tool)}
	I, h, paths = run_download(trees, rel, r)
	J, g, paths2 = run_tool(trees, tool, r)
	r.obligations = paths + paths2 + h.stats["checks"] + h.stats["writes"]
	r.coverage = dict(download_paths=paths, tool_paths=paths2, abstract_steps=I.steps + J.steps, calls=I.calls + J.calls, **h.stats, **g.stats)
	r.rules = ["mixed", "unflushed", "unverified", "outdated", "refused", "leftover", "mirror", "key", "install", "status"]
	r.explanation = "every path through Downloader.download() and what it calls, and through the update, verify and result handling of the command line tool, with every network, decompression, file and database operation succeeding or raising, and for any number of mirrors"
	r.assumptions = ["opening a damaged database raises OSError", "the exceptions urllib, http.client and lzma document are the ones they raise", "moving a file within one directory replaces the target in one step"]
	return r
