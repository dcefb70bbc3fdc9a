"""Front end: compiles /repo's current C sources to LLVM IR (clang -O0 -g, never linked or run)
and loads them as Python objects.  Also turns Location.xs into C through xsubpp."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
CLANG = "/usr/bin/clang-18"
CLANGXX = "/usr/bin/clang++-18"

class AnalysisError(Exception):
	"""The analysis could not be carried out (never a pass, never a violation)."""

CONFIG = {
	"HAVE_ARPA_INET_H": "1", "HAVE_ARPA_NAMESER_COMPAT_H": "1", "HAVE_ARPA_NAMESER_H": "1",
	"HAVE_DLFCN_H": "1", "HAVE_ENDIAN_H": "1", "HAVE_INTTYPES_H": "1", "HAVE_MADVISE": "1",
	"HAVE_MMAP": "1", "HAVE_MUNMAP": "1", "HAVE_NETINET_IN_H": "1", "HAVE_QSORT": "1",
	"HAVE_RESOLV_H": "1", "HAVE_RES_QUERY": "1", "HAVE_SECURE_GETENV": "1", "HAVE_STDINT_H": "1",
	"HAVE_STDIO_H": "1", "HAVE_STDLIB_H": "1", "HAVE_STRINGS_H": "1", "HAVE_STRING_H": "1",
	"HAVE_SYS_STAT_H": "1", "HAVE_SYS_TYPES_H": "1", "HAVE_UNISTD_H": "1", "HAVE_WCHAR_H": "1",
	"LIBLOC_DEFAULT_DATABASE_PATH": '"/var/lib/location/database.db"',
	"PACKAGE_VERSION": '"0"', "VERSION": '"0"', "PACKAGE_NAME": '"libloc"', "PACKAGE": '"libloc"',
	"_GNU_SOURCE": "1", "SYSCONFDIR": '"/etc"',
}

def tool():
	"""Path of the IR exporter, building it when it is missing or older than its source."""
	src = os.path.join(HERE, "irexport.cpp")
	h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
	d = os.path.join(HERE, "build")
	out = os.path.join(d, "irexport-" + h)
	if os.path.exists(out):
		return out
	os.makedirs(d, exist_ok=True)
	cfg = lambda *a: subprocess.run(["/usr/bin/llvm-config", *a], check=True, capture_output=True, text=True).stdout.split()
	tmp = out + ".%d" % os.getpid()
	subprocess.run([CLANGXX, "-O1", *cfg("--cxxflags"), src, "-o", tmp, *cfg("--ldflags", "--libs")], check=True)
	os.rename(tmp, out)
	return out

def sources(group):
	d = {"lib": "src", "python": "src/python", "lua": "src/lua"}.get(group)
	if group == "perl":
		return ["src/perl/Location.xs"]
	p = os.path.join(REPO, d)
	return sorted(os.path.join(d, f) for f in os.listdir(p) if f.endswith(".c") and not f.startswith("test-"))

def python_include():
	import sysconfig
	r = subprocess.run(["/usr/bin/python3", "-c", "import sysconfig;print(sysconfig.get_paths()['include'])"], capture_output=True, text=True)
	return r.stdout.strip()

def compile_unit(group, rel, tmp):
	src = os.path.join(REPO, rel)
	cfgh = os.path.join(tmp, "config.h")
	flags = ["-std=gnu17", "-O0", "-g", "-w", "-fno-discard-value-names", "-Xclang", "-disable-O0-optnone",
		"-I" + os.path.join(REPO, "src"), "-I" + REPO, "-DHAVE_CONFIG_H"]
	if group != "perl":
		flags += ["-include", cfgh]
	if group == "lib":
		flags += ["-DLIBLOC_PRIVATE"]
	elif group == "python":
		# the reference counting functions are always inlined otherwise
		flags += ["-I" + python_include(), "-Xclang", "-disable-llvm-passes"]
	elif group == "lua":
		flags += ["-I/usr/include/lua5.4"]
	elif group == "perl":
		c = os.path.join(tmp, "Location.c")
		priv = subprocess.run(["perl", "-MConfig", "-e", "print qq($Config{privlibexp}\\n$Config{archlibexp}/CORE)"], capture_output=True, text=True).stdout.split("\n")
		r = subprocess.run(["/usr/bin/xsubpp", "-typemap", os.path.join(priv[0], "ExtUtils/typemap"),
			"-typemap", os.path.join(REPO, "src/perl/typemap"), src], capture_output=True, text=True, cwd=os.path.join(REPO, "src/perl"))
		if r.returncode:
			raise AnalysisError("xsubpp failed: " + r.stderr)
		open(c, "w").write(r.stdout)
		src = c
		flags += ["-I" + priv[1], "-D_REENTRANT", "-D_GNU_SOURCE", "-fwrapv", "-fno-strict-aliasing", "-D_FILE_OFFSET_BITS=64",
			'-DVERSION="0"', '-DXS_VERSION="0"']
	bc = os.path.join(tmp, group + "-" + os.path.basename(rel) + ".bc")
	r = subprocess.run([CLANG, *flags, "-emit-llvm", "-c", src, "-o", bc], capture_output=True, text=True)
	if r.returncode:
		raise AnalysisError("cannot compile %s:\n%s" % (rel, r.stderr[-3000:]))
	r = subprocess.run([tool(), bc], capture_output=True)
	if r.returncode:
		raise AnalysisError("irexport failed on %s: %s" % (rel, r.stderr.decode()[-2000:]))
	return json.loads(r.stdout)

class Instr:
	__slots__ = ("id", "op", "ty", "ln", "col", "d", "idx")
	def __init__(self, o):
		self.id = o["id"]; self.op = o["op"]; self.ty = o["ty"]; self.ln = o.get("ln", 0); self.col = o.get("col", 0); self.d = o
	def __repr__(self):
		return "<%s %s@%d>" % (self.op, self.id, self.ln)

class Fn:
	def __init__(self, o, unit):
		self.name = o["name"]; self.unit = unit; self.file = o["file"]; self.line = o["line"]
		self.ret = o["ret"]; self.sig = o["sig"]; self.params = o["params"]; self.internal = o["internal"]
		self.noreturn = o["noreturn"]
		self.blocks = [[Instr(i) for i in b] for b in o["blocks"]]
		self.instrs = {i.id: i for b in self.blocks for i in b}
		self.allocas = {i.id: i for b in self.blocks for i in b if i.op == "alloca"}
		self._succ = None
	def succ(self, b):
		t = self.blocks[b][-1]
		if t.op == "br":
			return t.d["t"]
		if t.op == "switch":
			return [t.d["def"]] + [c[1] for c in t.d["cases"]]
		return []
	def calls(self):
		for b in self.blocks:
			for i in b:
				if i.op in ("call", "invoke"):
					yield i
	@property
	def rel(self):
		f = self.file
		if f.startswith(REPO + "/"):
			f = f[len(REPO) + 1:]
		return f
	def where(self, ins=None):
		return "%s:%d (%s)" % (self.rel, ins.ln if ins is not None and ins.ln else self.line, self.name)

class Unit:
	def __init__(self, rel, group, o):
		self.rel = rel; self.group = group; self.structs = o["structs"]; self.enums = o["enums"]; self.globals = o["globals"]
		self.decls = {d["name"]: d for d in o["decls"]}
		self.fns = {n: Fn(f, self) for n, f in o["functions"].items()}

def qualify(o, rel, seen):
	"""Private variables (string literals above all) that have namesakes in other units get a name of their own."""
	new = {n: "%s@%s" % (n, rel) for n, g in o["globals"].items() if g.get("internal") and seen[n] > 1}
	def walk(x):
		if isinstance(x, list):
			if len(x) == 2 and x[0] == "g" and x[1] in new: x[1] = new[x[1]]
			else:
				for y in x: walk(y)
		elif isinstance(x, dict):
			for y in x.values(): walk(y)
	walk(o["functions"]); walk([g.get("init") for g in o["globals"].values()])
	o["globals"] = {new.get(n, n): g for n, g in o["globals"].items()}

def thread_locals(o):
	"""The address of a variable every thread has its own of is the variable, for what one thread does."""
	for f in o["functions"].values():
		m = {i["id"]: i["a"][0] for b in f["blocks"] for i in b if i["op"] == "call" and (i.get("fn") or "").startswith("llvm.threadlocal.address")}
		if not m: continue
		def walk(x):
			if isinstance(x, list):
				for k, y in enumerate(x):
					if isinstance(y, list) and len(y) == 2 and y[0] == "v" and y[1] in m: x[k] = m[y[1]]
					else: walk(y)
			elif isinstance(x, dict):
				for k, y in x.items():
					if isinstance(y, list) and len(y) == 2 and y[0] == "v" and y[1] in m: x[k] = m[y[1]]
					else: walk(y)
		f["blocks"] = [[i for i in b if i["id"] not in m] for b in f["blocks"]]
		walk(f["blocks"])

class Program:
	def __init__(self, groups=("lib",), only=None):
		self.units = []
		tmp = tempfile.mkdtemp(prefix="libloc-ir-")
		try:
			with open(os.path.join(tmp, "config.h"), "w") as f:
				for k, v in CONFIG.items():
					f.write("#ifndef %s\n#define %s %s\n#endif\n" % (k, k, v))
			tool()
			jobs = [(g, r) for g in groups for r in sources(g) if only is None or r in only]
			with ThreadPoolExecutor(8) as ex:
				objs = list(zip(jobs, ex.map(lambda j: compile_unit(j[0], j[1], tmp), jobs)))
			seen = {}
			for _, o in objs:
				for n in o["globals"]: seen[n] = seen.get(n, 0) + 1
			for (g, r), o in objs:
				thread_locals(o)
				qualify(o, r, seen)
				self.units.append(Unit(r, g, o))
		finally:
			shutil.rmtree(tmp, ignore_errors=True)
		self.structs = {}
		self.enums = {}
		self.decls = {}
		self.ext = {}
		for u in self.units:
			for n, s in u.structs.items():
				self.structs.setdefault(n, s)
			self.enums.update(u.enums)
			self.decls.update(u.decls)
			for n, f in u.fns.items():
				if not f.internal:
					self.ext[n] = f
	def lookup(self, unit, name):
		"""Body of a function as seen from a unit (static functions first)."""
		f = unit.fns.get(name) if unit is not None else None
		if f is None:
			f = self.ext.get(name)
		return f
	def fn(self, name, unit=None):
		if unit:
			for u in self.units:
				if u.rel == unit and name in u.fns:
					return u.fns[name]
		if name in self.ext:
			return self.ext[name]
		for u in self.units:
			if name in u.fns:
				return u.fns[name]
		return None
	def repo_fns(self):
		for u in self.units:
			for f in u.fns.values():
				if f.file.startswith(REPO) or u.group == "perl":
					yield f
	def field(self, struct, off, size=None, depth=0):
		"""Name, type of the (innermost) field of struct at byte offset off."""
		s = self.structs.get(struct)
		if not s:
			return None
		for n, o, sz, t in s["fields"]:
			if o <= off < o + max(sz, 1):
				if not t.endswith("*") and not t.endswith("[]") and (t.startswith("struct ") or t in self.structs) and (off != o or size != sz):
					sub = self.field(t[7:] if t.startswith("struct ") else t, off - o, size, depth + 1)
					if sub:
						return (n + "." + sub[0], sub[1], sub[2])
				return (n, t, sz)
		return None
