"""State that threads share although none of their objects has anything to do with those of the others.
  state   a variable of the library that exists once per process is never written to
  call    no function of the operating system is called that keeps its result, or a position, in such a variable
What a pointer to such a variable is passed on to, or stored in, is followed: through registers, local variables, parameters and results."""
import re
from frontend import AnalysisError

# functions POSIX does not require to be thread-safe, and those that change what belongs to the process
UNSAFE = set("""asctime basename catgets crypt ctime dbm_clearerr dirname dlerror drand48 ecvt encrypt endgrent endpwent endutxent fcvt ftw gcvt getdate getgrent
getgrgid getgrnam gethostbyaddr gethostbyname gethostent getlogin getmntent getnetbyaddr getnetbyname getnetent getopt getopt_long getprotobyname getprotobynumber getprotoent
getpwent getpwnam getpwuid getservbyname getservbyport getservent getutxent getutxid getutxline hcreate hdestroy hsearch inet_ntoa inet_nsap_ntoa ether_ntoa ether_aton l64a lgamma localeconv
localtime gmtime lrand48 mblen mbtowc mrand48 nftw nl_langinfo ptsname putenv pututxline rand random readdir setenv setgrent setkey setlocale setpwent setutxent
srand srandom srand48 strtok tmpnam tempnam ttyname unsetenv wctomb chdir fchdir umask signal sigaction clearenv alarm strsignal initstate setstate lcong48 seed48
res_mkquery_hook uselocale_global setlogmask openlog closelog fgetgrent fgetpwent getusershell getttyent qecvt re_comp re_exec efopen""".split())
# functions that only read what the argument refers to: positions, or "all"
READS = {"strlen": "all", "strcmp": "all", "strncmp": "all", "strcasecmp": "all", "strncasecmp": "all", "memcmp": "all", "bcmp": "all", "strdup": "all", "strndup": "all", "puts": "all", "perror": "all",
	"printf": "all", "fprintf": (1, 99), "dprintf": "all", "snprintf": (2, 99), "sprintf": (1, 99), "asprintf": (1, 99), "strcpy": (1,), "strncpy": (1,), "memcpy": (1,), "memmove": (1,), "strcat": (1,), "strncat": (1,),
	"fwrite": (0,), "write": (1,), "atoi": "all", "strtol": (0,), "strtoul": (0,), "inet_pton": (1,), "inet_ntop": (1,), "fputs": (0,), "strptime": (0, 1), "strftime": (2, 3), "getenv": "all", "secure_getenv": "all",
	"fopen": "all", "open": "all", "free": "all", "bsearch": (0, 1), "strcspn": "all", "strspn": "all", "strcasestr": "results", "strstr": "results", "strchr": "results", "strrchr": "results", "memchr": "results", "strpbrk": "results"}
LOCKS = re.compile(r"^(pthread_mutex_lock|pthread_rwlock_wrlock|pthread_spin_lock|mtx_lock|call_once|pthread_once)$")

def reads(name, k):
	n = re.sub(r"^llvm\.|\.p0.*$|^__builtin_|^__isoc\d+_", "", name or "")
	n = re.sub(r"^__(.*)_chk$", r"\1", n)
	r = READS.get(n)
	if r is None: return None
	if r in ("all", "results"): return r
	return "all" if k in r or 99 in r and k >= min(r) else None

class Shared:
	def __init__(self, prog):
		self.prog = prog
		self.stats = {}
		self.found = []
		self.states = {}
	def count(self, k, n=1): self.stats[k] = self.stats.get(k, 0) + n
	def var(self, unit, name):
		g = unit.globals.get(name)
		return g is not None and not g.get("const") and not g.get("decl") and not g.get("tls") and not name.startswith(".str") and not name.startswith("llvm.")
	def roots(self, f, v, env):
		"""Shared variables, and parameters, an operand may point into."""
		if not isinstance(v, (list, tuple)) or not v: return frozenset()
		if v[0] == "v": return env.get(v[1], frozenset())
		if v[0] == "g": return frozenset({v[1]}) if self.var(f.unit, v[1]) else frozenset()
		r = frozenset()
		for x in v[1:]:
			if isinstance(x, (list, tuple)): r |= self.roots(f, x, env)
		return r
	def analyse(self, f, params):
		"""params: shared variables the parameters may point into. Returns what the result may point into, the variables written to, and what is passed on."""
		env = {k: v for k, v in enumerate(params)}
		held = {}
		changed = True
		while changed:
			changed = False
			for b in f.blocks:
				for i in b:
					r = frozenset()
					d = i.d
					if i.op == "getelementptr": r = self.roots(f, d["gep"], env)
					elif i.op == "load" and i.ty == "ptr":
						a = d["a"][0]
						if a[0] == "v" and a[1] in f.allocas: r = held.get(a[1], frozenset())
						else: r = frozenset()
					elif i.op == "phi": r = frozenset().union(*[self.roots(f, x, env) for x, _ in d["in"]])
					elif i.op in ("select", "bitcast", "inttoptr", "addrspacecast"):
						r = frozenset().union(*[self.roots(f, x, env) for x in d["a"]]) if d.get("a") else frozenset()
					elif i.op in ("call", "invoke") and i.ty == "ptr":
						h = self.prog.lookup(f.unit, d.get("fn"))
						if h is not None: r = self.summary(h, [self.roots(f, x, env) for x in d["a"]])[0]
						elif reads(d.get("fn"), 0) == "results" or (d.get("fn") or "") in ("inet_ntop", "strcpy", "memcpy", "fgets", "strcat", "strncpy"): r = frozenset().union(*[self.roots(f, x, env) for x in d["a"]], frozenset())
					elif i.op == "store":
						p = d["a"][1]
						if p[0] == "v" and p[1] in f.allocas:
							s = self.roots(f, d["a"][0], env)
							if not s <= held.get(p[1], frozenset()):
								held[p[1]] = held.get(p[1], frozenset()) | s
								changed = True
					if r and not r <= env.get(i.id, frozenset()):
						env[i.id] = env.get(i.id, frozenset()) | r
						changed = True
		return env, held
	def summary(self, f, params):
		params = tuple(params[:len(f.params)]) + (frozenset(),) * (len(f.params) - len(params))
		k = (f.unit.rel, f.name, params)
		if k in self.states: return self.states[k]
		self.states[k] = (frozenset(), {})
		for _ in range(4):
			env, held = self.analyse(f, params)
			res, writes = frozenset(), {}
			for b in f.blocks:
				for i in b:
					d = i.d
					if i.op == "ret" and d.get("a"): res |= self.roots(f, d["a"][0], env)
					elif i.op == "store":
						for g in self.roots(f, d["a"][1], env): writes.setdefault(g, (f, i))
						p = d["a"][1]
						if not (p[0] == "v" and p[1] in f.allocas):
							# kept in an object: whoever has that may write to it
							for g in self.roots(f, d["a"][0], env): writes.setdefault(g, (f, i))
					elif i.op in ("call", "invoke"):
						rs = [self.roots(f, x, env) for x in d.get("a", ())]
						h = self.prog.lookup(f.unit, d.get("fn"))
						if h is not None:
							if any(rs):
								for g, w in self.summary(h, rs)[1].items(): writes.setdefault(g, w)
						elif (d.get("fn") or "").startswith("llvm.dbg") or (d.get("fn") or "").startswith("llvm.lifetime"): pass
						else:
							for n, s in enumerate(rs):
								if s and not reads(d.get("fn"), n):
									for g in s: writes.setdefault(g, (f, i))
			new = (res, writes)
			if new[0] == self.states[k][0] and set(new[1]) == set(self.states[k][1]): break
			self.states[k] = new
		return self.states[k]
	def locked(self, f): return any(LOCKS.match(i.d.get("fn") or "") for i in f.calls())
	def run(self, group="lib"):
		for u in self.prog.units:
			if u.group != group: continue
			for n in u.globals:
				self.count("variables")
				if self.var(u, n): self.count("variables that are not constant")
		for f in self.prog.repo_fns():
			if f.unit.group != group: continue
			self.count("functions")
			for i in f.calls():
				self.count("calls")
				n = re.sub(r"^__(isoc\d+_)?|_chk$", "", i.d.get("fn") or "") if (i.d.get("fn") or "").startswith("__") else i.d.get("fn")
				if n in UNSAFE and self.prog.lookup(f.unit, i.d.get("fn")) is None: self.found.append(("call", f, i, "calls %s, which keeps what it returns, or changes something, for all threads" % n, n))
			if self.locked(f): continue
			for g, (h, i) in self.summary(f, ())[1].items():
				if self.locked(h): continue
				x = f.unit.globals.get(g) or h.unit.globals.get(g) or {}
				self.found.append(("state", h, i, "the variable %s is written to, or handed out, which all threads share" % (x.get("diname") or g), g))
			for b in f.blocks:
				for i in b:
					if i.op == "store": self.count("stores")
		return self.found
