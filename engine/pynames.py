"""The interface of the extension module, as its tables declare it, and type checking of the Python sources against it.

Nothing is imported or run: the tables come from the module's LLVM IR, the Python sources go through pyright."""
import ast, json, os, re, shutil, subprocess, sys, tempfile
from frontend import AnalysisError, REPO

def text(u, op):
	"""String literal an operand refers to."""
	if not op or op[0] != "g": return None
	g = u.globals.get(op[1])
	if not g or not g.get("init") or g["init"][0] != "str": return None
	return bytes.fromhex(g["init"][1]).split(b"\0")[0].decode("latin-1")

def fields(prog, init):
	"""field name -> initialiser, of a struct initialiser."""
	n = init[1].split(".", 1)[-1]
	s = prog.structs.get({"_typeobject": "PyTypeObject", "_object": "PyObject"}.get(n, n)) or prog.structs.get(n)
	if not s: raise AnalysisError("no layout of %s" % init[1])
	at = {x[1]: x[0] for x in s["fields"]}
	return {at.get(o, o): v for o, v in init[2]}

def table(prog, u, name):
	g = u.globals.get(name)
	if not g or not g.get("init"): return []
	i = g["init"]
	out = []
	for e in i[2] if i[0] == "arr" else []:
		if e[0] != "st": continue
		d = fields(prog, e)
		if text(u, next(iter(d.values()))) is None: continue
		out.append(d)
	return out

ITEM = re.compile(r"O!|O&|[szy][#*]?|es#?|et#?|[UOSYwCcDfd]|[bBhHiIlkLKnp]|[|$]")

def signature(prog, u, fname, flags):
	"""(required, total, names or None) of a function from how it parses its arguments; None: anything."""
	if flags & 4: return (0, 0, None)
	if flags & 8: return (1, 1, None)
	f = u.fns.get(fname)
	if f is None: return None
	for c in f.calls():
		n = c.d.get("fn") or ""
		n = n.replace("_SizeT", "").lstrip("_")
		if n in ("PyArg_ParseTuple", "PyArg_ParseTupleAndKeywords"):
			kw = n.endswith("Keywords")
			fmt = text(u, c.d["a"][2 if kw else 1])
			if fmt is None: return None
			names = None
			if kw:
				names = []
				for cc in f.calls():
					pass
				for gname, g in u.globals.items():
					if gname.startswith("__const.%s." % fname) and g.get("init") and g["init"][0] == "arr":
						names = [text(u, e) for e in g["init"][2] if e[0] == "g"]
				if not names:
					k = c.d["a"][3]
					g = u.globals.get(k[1]) if k[0] == "g" else None
					if g and g.get("init") and g["init"][0] == "arr": names = [text(u, e) for e in g["init"][2] if e[0] == "g"]
				if not names or None in names: return None
			body = fmt.split(":")[0].split(";")[0]
			req = tot = 0; opt = False
			for it in ITEM.findall(body):
				if it == "|": opt = True
				elif it != "$":
					tot += 1
					if not opt: req += 1
			if names and len(names) != tot: return None
			return (req, tot, names)
	return (0, 0, None) if flags & 1 else None

def created(prog, u, fname, seen=None):
	"""Type objects whose instances a function creates."""
	seen = seen if seen is not None else set()
	if fname in seen: return set()
	seen.add(fname)
	f = prog.lookup(u, fname)
	if f is None or f.unit.group != "python": return set()
	out = set()
	for b in f.blocks:
		for i in b:
			fn = i.d.get("fn") if i.op in ("call", "invoke") else None
			if i.op == "load" or fn and (prog.lookup(f.unit, fn) is not None and prog.lookup(f.unit, fn).rel.startswith("src/") or "New" in fn):
				out |= set(re.findall(r'"(\w+Type)"', json.dumps(i.d)))
	for c in f.calls():
		if c.d.get("fn"): out |= created(prog, f.unit, c.d["fn"], seen)
	return out

def returns_self(f): return False

def interface(prog):
	I = dict(consts={}, functions={}, classes={}, types={})
	typed = {}
	for u in prog.units:
		if u.group != "python": continue
		for n, g in u.globals.items():
			if g.get("init") and g["init"][0] == "st" and g["init"][1] == "struct._typeobject": typed[n] = (u, fields(prog, g["init"]))
	mod = next((u for u in prog.units if u.group == "python" and any(n.startswith("PyInit_") for n in u.fns)), None)
	if mod is None: raise AnalysisError("no module initialisation found")
	init = next(f for n, f in mod.fns.items() if n.startswith("PyInit_"))
	I["module"] = init.name[7:]
	for c in init.calls():
		n, a = c.d.get("fn") or "", c.d["a"]
		s = [text(mod, x) for x in a]
		t = [x[1] for x in a if x[0] == "g" and x[1] in typed]
		name = next((x for x in s if x is not None), None)
		if name is None: continue
		if n.startswith("PyModule_AddIntConstant"):
			I["consts"][name] = a[2][2] if a[2][0] == "i" else None
		elif n.startswith("PyModule_AddStringConstant"): I["consts"][name] = "str"
		elif t: I["types"][t[0]] = name
		elif n.startswith(("PyModule_Add", "PyDict_Set")): I["consts"][name] = None
	for n, g in mod.globals.items():
		if g.get("init") and g["init"][0] == "st" and g["init"][1] == "struct.PyModuleDef":
			d = fields(prog, g["init"])
			m = d.get("m_methods")
			for e in table(prog, mod, m[1]) if m and m[0] == "g" else []:
				I["functions"][text(mod, e["ml_name"])] = (e["ml_meth"][1], signature(prog, mod, e["ml_meth"][1], e["ml_flags"][2]))
	for n, (u, d) in typed.items():
		c = I["classes"][n] = dict(unit=u.rel, attrs={}, methods={}, slots={}, init=None)
		for k, v in d.items():
			if isinstance(k, str) and v[0] == "fn": c["slots"][k] = v[1]
		g = d.get("tp_getset")
		for e in table(prog, u, g[1]) if g and g[0] == "g" else []:
			c["attrs"][text(u, e["name"])] = (e["get"][1] if e["get"][0] == "fn" else None, e["set"][1] if e["set"][0] == "fn" else None)
		m = d.get("tp_methods")
		for e in table(prog, u, m[1]) if m and m[0] == "g" else []:
			c["methods"][text(u, e["ml_name"])] = (e["ml_meth"][1], signature(prog, u, e["ml_meth"][1], e["ml_flags"][2]))
		if "tp_init" in c["slots"]: c["init"] = signature(prog, u, c["slots"]["tp_init"], 2)
		c["returns"] = {}
		for name, f in [(k, v[0]) for k, v in list(c["attrs"].items()) + list(c["methods"].items())] + [("__next__", c["slots"].get("tp_iternext"))]:
			if f: c["returns"][name] = created(prog, u, f) & set(typed)
	I["returns"] = {k: created(prog, mod, v[0]) & set(typed) for k, v in I["functions"].items()}
	if len(I["classes"]) < 5 or len(I["consts"]) < 5: raise AnalysisError("only %d types and %d constants found in the module" % (len(I["classes"]), len(I["consts"])))
	return I

def params(sig, self=True):
	p = ["self"] if self else []
	if sig is None: return ", ".join(p + ["*args: Any", "**kwargs: Any"])
	req, tot, names = sig
	for i in range(tot):
		p.append("%s: Any%s" % (names[i] if names else "a%d" % i, "" if i < req else " = ..."))
	if not names and tot: p.append("/")
	return ", ".join(p)

def stub(I):
	pub = lambda t: I["types"].get(t, "_" + t)
	def ret(types):
		if len(types) == 1: return pub(next(iter(types)))
		if types and all(t in I["classes"] for t in types): return "_Element"
		return "Any"
	o = ["from typing import Any", "class _Element:"]
	el = {}
	for t, c in I["classes"].items():
		if "tp_iternext" not in c["slots"]:
			for a in list(c["attrs"]) + list(c["methods"]): el[a] = 1
	o += ["\t%s: Any" % a for a in el]
	for n, v in I["consts"].items(): o.append("%s: %s" % (n, "str" if v == "str" else "int" if isinstance(v, int) else "Any"))
	for n, (f, s) in I["functions"].items(): o.append("def %s(%s) -> %s: ..." % (n, params(s, False), ret(I["returns"][n])))
	for t, c in I["classes"].items():
		o.append("class %s:" % pub(t))
		if c["init"] is not None: o.append("\tdef __init__(%s) -> None: ..." % params(c["init"]))
		elif "tp_init" in c["slots"]: o.append("\tdef __init__(self, *args: Any, **kwargs: Any) -> None: ...")
		for a, (g, s) in c["attrs"].items():
			o += ["\t@property", "\tdef %s(self) -> %s: ..." % (a, ret(c["returns"].get(a, ())))]
			if s: o += ["\t@%s.setter" % a, "\tdef %s(self, v: Any) -> None: ..." % a]
		for m, (f, s) in c["methods"].items():
			o.append("\tdef %s(%s) -> %s: ..." % (m, params(s), ret(c["returns"].get(m, ()))))
		if "tp_iter" in c["slots"]: o.append("\tdef __iter__(self) -> %s: ..." % (pub(t) if "tp_iternext" in c["slots"] else "Any"))
		if "tp_iternext" in c["slots"]: o.append("\tdef __next__(self) -> %s: ..." % ret(c["returns"].get("__next__", ())))
		if "tp_richcompare" in c["slots"]: o += ["\tdef __%s__(self, o: Any) -> Any: ..." % x for x in ("lt", "le", "gt", "ge")]
		for sl, nm in (("sq_length", "__len__"), ("mp_length", "__len__")):
			pass
		o += ["\tdef __len__(self) -> int: ...", "\tdef __getitem__(self, i: Any) -> Any: ...", "\tdef __contains__(self, o: Any) -> bool: ..."] if c["slots"].get("tp_iter") is None and False else []
		o.append("\t_: Any")
	return "\n".join(o) + "\n"

SCRIPTS = ("location", "location-importer")

def python_files():
	"""name in the scratch directory -> path in /repo."""
	d = os.path.join(REPO, "src/python/location")
	out = {"location/" + f: "src/python/location/" + f for f in sorted(os.listdir(d)) if f.endswith(".py")}
	d = os.path.join(REPO, "src/scripts")
	for f in sorted(os.listdir(d)):
		if f.endswith(".in"): out[f[:-3].replace("-", "_") + "_script.py"] = "src/scripts/" + f
	if len(out) < 6: raise AnalysisError("only %d Python sources found" % len(out))
	return out

def source(rel):
	return re.sub(r"@(\w+)@", "0", open(os.path.join(REPO, rel)).read())
_trees = {}
def tree(rel):
	if rel not in _trees:
		try: _trees[rel] = ast.parse(source(rel))
		except SyntaxError as e: raise AnalysisError("%s: %s" % (rel, e))
	return _trees[rel]

# what parameters hold that are named like this
SEED = {"db": "_location.Database", "network": "_location.Network", "n": "_location.Network"}

def seeded(rel):
	"""Source with the parameters annotated that hold objects of the extension module (same lines)."""
	s = source(rel).split("\n")
	edits = []
	db = not rel.endswith(("database.py",))
	calls = {}
	for fn in ast.walk(tree(rel)):
		if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
			for a in fn.args.args:
				if a.annotation is None and a.arg in SEED and (a.arg != "n" or False) and rel != "src/scripts/location-importer.in":
					edits.append((a.end_lineno, a.end_col_offset, ": \"%s\"" % SEED[a.arg]))
	for ln, col, t in sorted(edits, reverse=True):
		l = s[ln - 1].encode(); s[ln - 1] = (l[:col] + t.encode() + l[col:]).decode()
	if edits: s.append("import _location")
	return "\n".join(s)

RULES = {"reportUndefinedVariable", "reportAttributeAccessIssue", "reportCallIssue", "reportUnboundVariable"}

def pyright(I):
	tmp = tempfile.mkdtemp(prefix="libloc-py-")
	try:
		files = python_files()
		for name, rel in files.items():
			p = os.path.join(tmp, name); os.makedirs(os.path.dirname(p), exist_ok=True)
			open(p, "w").write(seeded(rel))
		ty = os.path.join(tmp, "typings"); os.makedirs(ty)
		st = stub(I)
		public = list(I["consts"]) + list(I["functions"]) + list(I["types"].values())
		open(os.path.join(ty, I["module"] + ".pyi"), "w").write(st)
		anym = "from typing import Any\ndef __getattr__(n: str) -> Any: ...\n"
		for m in ("psycopg", "psycopg_pool"):
			os.makedirs(os.path.join(ty, m)); open(os.path.join(ty, m, "__init__.pyi"), "w").write(anym)
		json.dump(dict(stubPath="typings", typeCheckingMode="basic", pythonVersion="3.12", reportMissingModuleSource="none",
			reportOptionalMemberAccess="none", reportOptionalSubscript="none", reportOptionalIterable="none", reportArgumentType="none",
			reportIndexIssue="none"), open(os.path.join(tmp, "pyrightconfig.json"), "w"))
		r = subprocess.run(["pyright", "--outputjson", "."], cwd=tmp, capture_output=True, text=True, timeout=300)
		try: out = json.loads(r.stdout)
		except ValueError: raise AnalysisError("pyright: " + (r.stdout + r.stderr)[-500:])
		back = {os.path.join(os.path.realpath(tmp), n): rel for n, rel in files.items()}
		res = []
		for d in out["generalDiagnostics"]:
			rel = back.get(os.path.realpath(d["file"]))
			res.append((rel or d["file"], d["range"]["start"]["line"] + 1, d.get("rule", "syntax"), d["message"], d["severity"]))
		return res, out["summary"], len(st.split("\n"))
	finally:
		shutil.rmtree(tmp, ignore_errors=True)

# -- classes of the sources
class Classes:
	"""Classes and functions of the Python sources, by file."""
	def __init__(self):
		self.files = python_files()
		self.cls, self.fns = {}, {}
		for name, rel in self.files.items():
			for n in tree(rel).body:
				if isinstance(n, ast.ClassDef): self.cls[(rel, n.name)] = n
				elif isinstance(n, ast.FunctionDef): self.fns[(rel, n.name)] = n
	def bases(self, rel, c):
		out = [(rel, c)]
		for b in c.bases:
			n = b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else None
			for (r, m), d in self.cls.items():
				if m == n and (r == rel or isinstance(b, ast.Attribute) or True): out += self.bases(r, d); break
		return out
	def members(self, c):
		return {n.name: n for n in c.body if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))}

def readonly(fn, cls):
	"""True for a property without a setter."""
	if not any(isinstance(d, ast.Name) and d.id == "property" for d in fn.decorator_list): return False
	return not any(isinstance(n, ast.FunctionDef) and any(isinstance(d, ast.Attribute) and d.attr == "setter" and isinstance(d.value, ast.Name) and d.value.id == fn.name for d in n.decorator_list) for n in cls.body)

def overridden_properties(k):
	"""Assignments to self.X in a method that a class inherits in which X is a read-only property."""
	out, n = [], 0
	for (rel, name), c in k.cls.items():
		mro = k.bases(rel, c)
		ro, seen, meth = {}, set(), {}
		for r, b in mro:
			for m, f in k.members(b).items():
				if m in seen: continue
				seen.add(m)
				if readonly(f, b): ro[m] = (r, b)
				meth[m] = (r, b, f)
			for s in b.body:
				if isinstance(s, ast.Assign):
					for t in s.targets:
						if isinstance(t, ast.Name): seen.add(t.id)
		for m, (r, b, f) in meth.items():
			me = f.args.args[0].arg if f.args.args else None
			for x in ast.walk(f):
				if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Name) and x.value.id == me:
					n += 1
					if x.attr in ro: out.append((r, x.lineno, "%s.%s" % (b.name, m), "assigns self.%s, which is a property without a setter in %s" % (x.attr, name), "%s.%s" % (name, x.attr)))
	return out, n

def only_exception(rel, x):
	"""True if a name is bound as an exception by a handler around the expression."""
	for h in ast.walk(tree(rel)):
		if isinstance(h, ast.ExceptHandler) and h.name == x.right.id and h.lineno <= x.lineno <= h.end_lineno:
			return not any(isinstance(y, ast.Name) and y.id == h.name and isinstance(y.ctx, ast.Store) for b in h.body for y in ast.walk(b))
	return False

def exception_attributes(rel):
	"""([(line, message)], attributes looked at): what handlers read from the exceptions of the standard library they catch."""
	import inspect, io
	from pyflow import pyclass
	out, n = [], 0
	def known(c):
		k = set(dir(c)) | {"__traceback__", "__cause__", "__context__"}
		for b in c.__mro__:
			if b.__module__ == "builtins": continue
			try: t = ast.parse(__import__("textwrap").dedent(inspect.getsource(b)))
			except (OSError, TypeError, SyntaxError): return None
			for x in ast.walk(t):
				if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == "self": k.add(x.attr)
			# a wrapper passes on what files have
			if "__getattr__" in vars(b): k |= set(dir(io.BufferedReader)) | set(dir(io.BytesIO))
		return k
	for h in ast.walk(tree(rel)):
		if not isinstance(h, ast.ExceptHandler) or h.name is None or h.type is None: continue
		cs = [pyclass(ast.unparse(x)) for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
		if not all(isinstance(c, type) for c in cs): continue
		ks = [known(c) for c in cs]
		if any(k is None for k in ks) or any(isinstance(x, ast.Name) and x.id == h.name and isinstance(x.ctx, ast.Store) for b in h.body for x in ast.walk(b)): continue
		narrowed = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("isinstance", "hasattr") for b in h.body for x in ast.walk(b))
		for b in h.body:
			for x in ast.walk(b):
				if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == h.name:
					n += 1
					bad = [c.__name__ for c, k in zip(cs, ks) if x.attr not in k]
					if bad and not narrowed: out.append((x.lineno, "%s has no attribute %s" % (" and ".join(bad), x.attr)))
	return out, n

def formats(rel):
	"""Literal % tuple with another number of values than it has places."""
	out, n = [], 0
	for x in ast.walk(tree(rel)):
		if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mod):
			l = x.left
			if isinstance(l, ast.Call) and isinstance(l.func, ast.Name) and l.func.id == "_" and len(l.args) == 1: l = l.args[0]
			if not (isinstance(l, ast.Constant) and isinstance(l.value, (str, bytes))): continue
			s = l.value if isinstance(l.value, str) else l.value.decode("latin-1")
			n += 1
			named = re.findall(r"%\((\w+)\)", s)
			places = len(re.findall(r"%[-#0 +]*(?:\*|\d+)?(?:\.\d+)?[a-zA-Z]", s.replace("%%", ""))) if not named else 0
			if named:
				if isinstance(x.right, ast.Dict) and all(isinstance(k, ast.Constant) for k in x.right.keys):
					miss = set(named) - {k.value for k in x.right.keys}
					if miss: out.append((x.lineno, "the text asks for %s, which it is not given" % ", ".join(sorted(miss))))
			elif isinstance(x.right, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in x.right.elts):
				if len(x.right.elts) != places: out.append((x.lineno, "the text has %d places for %d values" % (places, len(x.right.elts))))
			elif places != 1 and (isinstance(x.right, (ast.Constant, ast.JoinedStr)) or isinstance(x.right, ast.Name) and only_exception(rel, x)):
				out.append((x.lineno, "the text has %d places for one value" % places))
	return out, n

def options(k):
	"""What the handlers of the command line read from the parsed arguments, against what the parsers define."""
	out, n = [], 0
	for (rel, cname), c in k.cls.items():
		mem = k.members(c)
		def method(x):
			"""The method of this class that an expression names."""
			if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id in ("self", "cls", cname): return mem.get(x.attr)
			if isinstance(x, ast.Name): return k.fns.get((rel, x.id))
			return None
		def formals(g): return [a.arg for a in g.args.args][1 if g.name in mem and not any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in g.decorator_list) else 0:]
		for mname, f in mem.items():
			parsers, subs, handlers = set(), {}, {}
			def define(f, env, depth):
				"""Follows parser objects through a method; env: variable -> parser."""
				nonlocal n
				if depth > 6: return
				for s in sorted((s for s in ast.walk(f) if isinstance(s, (ast.Assign, ast.Call))), key=lambda s: (s.lineno, isinstance(s, ast.Call), s.col_offset)):
					if isinstance(s, ast.Assign):
						if len(s.targets) != 1 or not isinstance(s.targets[0], ast.Name): continue
						t, v = s.targets[0].id, s.value
						if isinstance(v, ast.Name) and v.id in env: env[t] = env[v.id]; continue
						if not isinstance(v, ast.Call): continue
						fn = v.func
						nm = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else ""
						if nm == "ArgumentParser": env[t] = (f.name, t, v.lineno); parsers.add(env[t]); subs.setdefault(env[t], {})
						elif nm == "add_parser": env[t] = (f.name, t, v.lineno); subs.setdefault(env[t], {})
						elif nm in ("add_argument_group", "add_mutually_exclusive_group") and isinstance(fn.value, ast.Name) and fn.value.id in env: env[t] = env[fn.value.id]
						elif method(fn) is not None and any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "add_parser" for x in ast.walk(method(fn))):
							env[t] = (f.name, t, v.lineno); subs.setdefault(env[t], {})["*"] = None
						continue
					if isinstance(s.func, ast.Attribute) and isinstance(s.func.value, ast.Name) and s.func.value.id in env:
						v = env[s.func.value.id]
						if s.func.attr == "add_argument":
							names = [a.value for a in s.args if isinstance(a, ast.Constant)]
							kw = {w.arg: w.value for w in s.keywords}
							dest = kw["dest"].value if isinstance(kw.get("dest"), ast.Constant) else None
							act = kw["action"].value if isinstance(kw.get("action"), ast.Constant) else None
							n += 1
							if len(names) != len(s.args) or not names and not dest or None in kw: subs[v]["*"] = None; continue
							long = [x for x in names if x.startswith("--")]
							dest = dest or (long[0][2:] if long else names[0].lstrip("-")).replace("-", "_")
							if act in ("version", "help"): continue
							subs[v][dest] = s.lineno
						elif s.func.attr == "set_defaults":
							for w in s.keywords:
								if w.arg == "func" and isinstance(w.value, ast.Attribute): handlers.setdefault(w.value.attr, set()).add(v)
								subs[v][w.arg or "*"] = None
						continue
					g = method(s.func)
					passed = {j: a.id for j, a in enumerate(s.args) if isinstance(a, ast.Name) and a.id in env}
					if passed and g is not None:
						q = formals(g)
						define(g, {q[j]: env[v] for j, v in passed.items() if j < len(q)}, depth + 1)
					elif passed or any(isinstance(w.value, ast.Name) and w.value.id in env for w in s.keywords):
						for v in list(passed.values()) + [w.value.id for w in s.keywords if isinstance(w.value, ast.Name) and w.value.id in env]: subs[env[v]]["*"] = None
			define(f, {}, 0)
			if not parsers: continue
			glob = {}
			for p in parsers: glob.update(subs[p])
			def reads(g, ns, seen):
				"""Attributes read of parameter ns (followed into the methods it is passed to); "*": anything."""
				if (g.name, ns) in seen: return {}
				seen.add((g.name, ns))
				names, r, known = {ns}, {}, set()
				for _ in range(3):
					for x in ast.walk(g):
						if isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) and x.value.id in names:
							for t in x.targets:
								if isinstance(t, ast.Name): names.add(t.id); known.add(id(x.value))
				for x in ast.walk(g):
					if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id in names:
						known.add(id(x.value)); r.setdefault(x.attr, (x.lineno, g.name))
					elif isinstance(x, ast.Call):
						h = method(x.func)
						for j, a in enumerate(x.args):
							if isinstance(a, ast.Name) and a.id in names:
								if h is not None and j < len(formals(h)): known.add(id(a)); r.update(reads(h, formals(h)[j], seen))
								elif isinstance(x.func, ast.Name) and x.func.id in ("getattr", "hasattr") and len(x.args) > 1 and isinstance(x.args[1], ast.Constant):
									known.add(id(a)); r.setdefault(x.args[1].value, (x.lineno, g.name))
						for w in x.keywords:
							if isinstance(w.value, ast.Name) and w.value.id in names and h is not None: known.add(id(w.value)); r.update(reads(h, w.arg, seen))
				for x in ast.walk(g):
					if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in names and id(x) not in known: r["*"] = (x.lineno, g.name)
				return r
			for h, vs in handlers.items():
				g = mem.get(h)
				if g is None: continue		# reported as an unknown attribute
				args = formals(g)
				r = reads(g, args[-1], set()) if args else {}
				for v in vs:
					have = set(glob) | set(subs.get(v, ()))
					for a, (ln, m) in r.items():
						n += 1
						if a not in have and "*" not in have and a != "*" and not hasattr(__import__("argparse").Namespace, a):
							out.append((rel, ln, "%s.%s" % (cname, m), "reads option %r, which the parser of this command does not define" % a, "%s:%s" % (h, a)))
					if "*" not in r:
						for d, ln in subs.get(v, {}).items():
							if v not in parsers and d not in r and ln is not None:
								out.append((rel, ln, "%s.%s" % (cname, mname), "option %r is accepted but never looked at by %s" % (d, h), "%s:%s" % (h, d)))
			for d, ln in glob.items():
				if ln is None: continue
				if not any(isinstance(x, ast.Attribute) and x.attr == d and isinstance(x.ctx, ast.Load) or isinstance(x, ast.Constant) and x.value == d for x in ast.walk(c)):
					out.append((rel, ln, "%s.%s" % (cname, mname), "option %r is accepted but never looked at" % d, "*:%s" % d))
	return out, n
