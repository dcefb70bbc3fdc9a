"""P27: the command line tool reports what the database says about everything it was asked for, and tells by its exit status when it cannot."""
import ast, itertools, re
import pynames
from pyeval import *
from export_check import AF, FLAG, attempt, show
from common import *

REL = "src/scripts/location.in"
FLAGS = {k: Lib(v.name.replace("_location", "location")) for k, v in FLAG.items()}

class Re:
	pass

def commands(tree):
	"""Subcommand -> name of its handler."""
	parsers, out = {}, {}
	for n in ast.walk(tree):
		if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and n.value.func.attr == "add_parser" and n.value.args and isinstance(n.value.args[0], ast.Constant):
			for t in n.targets:
				if isinstance(t, ast.Name): parsers[t.id] = n.value.args[0].value
	for n in ast.walk(tree):
		if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "set_defaults":
			for k in n.keywords:
				if k.arg != "func" or not isinstance(k.value, ast.Attribute): continue
				b = n.func.value
				if isinstance(b, ast.Name) and b.id in parsers: out[parsers[b.id]] = k.value.attr
	return out

class Tool:
	def __init__(self, r, tree):
		self.r, self.tree, self.n = r, tree, 0
		self.cmds = commands(tree)
		self.cls = next((x for x in tree.body if isinstance(x, ast.ClassDef) and any(isinstance(m, ast.FunctionDef) and m.name in self.cmds.values() for m in x.body)), None)
		if self.cls is None: raise AnalysisError("%s: no commands" % REL)
		self.out, self.err, self.writers, self.exports, self.bad = [], [], [], [], set()
		def stream(l): return Obj(name="stream", methods=dict(write=lambda x: l.append(str(x)), flush=lambda: None, writelines=lambda xs: [l.append(str(x)) for x in xs]))
		self.stdout, self.stderr = stream(self.out), stream(self.err)
		def pr(*a, file=None, sep=" ", end="\n", flush=False):
			f = file if file is not None else self.stdout
			f.methods["write"](sep.join(str(x) for x in a) + end)
		def writer(kind):
			def make(name=None, family=None, directory=None, f=None):
				w = Obj(name="writer")
				w.kind, w.args, w.got, w.end = kind, (str(name), family, f), [], 0
				def fin(): w.end += 1
				def write(x):
					if w.end: self.rep("unfinished", "writes to an output that was finished")
					w.got.append(x)
				w.methods = dict(write=write, finish=fin)
				self.writers.append(w)
				return w
			return make
		def exporter(db, w):
			def export(directory=None, families=None, countries=None, asns=None): self.exports.append((w, directory, list(families), list(countries), list(asns)))
			return Obj(name="exporter", methods=dict(export=export))
		class Formats(dict): pass
		self.formats = {k: writer(k) for k in ("ipset", "list", "nftables", "xt_geoip")}
		def match(p, s, *a):
			m = re.match(p, s)
			return None if m is None else Obj(name="match", methods=dict(group=lambda *g: m.group(*g), groups=lambda: m.groups()))
		self.models = {"print": pr, "location.i18n._": lambda *a: a[0], "_": lambda *a: a[0], "location.export.Exporter": exporter, "re.match": match, "re.fullmatch": lambda p, s, *a: match("(?:%s)$" % p, s), "location.country_code_is_valid": lambda c: isinstance(c, str) and bool(re.match("^[A-Z]{2}$", c)) and c != "XD",
			"time.strftime": lambda *a: "TIME", "time.gmtime": lambda *a: Opaque("gmtime")}
		self.I = Eval(tree, REL, self.models)
		self.I.load()
		self.I.glob["_"] = lambda *a: a[0]
		tool = self
		attr = self.I.attr
		def attr2(o, a, n):
			if isinstance(o, Lib):
				if o.name == "sys" and a == "stdout": return tool.stdout
				if o.name == "sys" and a == "stderr": return tool.stderr
				if o.name == "location.export" and a == "formats": return tool.formats
				if o.name == "location.export" and a == "OutputWriter": return tool.formats["list"]
			return attr(o, a, n)
		self.I.attr = attr2
		call = self.I.call
		def call2(f, args, kw, n):
			if isinstance(f, Lib) and f.name == "print": return pr(*args, **kw)
			if isinstance(f, Lib) and f.name == "int" and args and isinstance(args[0], str):
				try: return int(args[0])
				except ValueError: raise Raised("ValueError", n)
			return call(f, args, kw, n)
		self.I.call = call2
	def handler(self, cmd):
		h = self.cmds.get(cmd)
		if h is None: raise AnalysisError("%s: no command %s" % (REL, cmd))
		m = next((m for m in self.cls.body if isinstance(m, ast.FunctionDef) and m.name == h), None)
		if m is None: raise AnalysisError("%s: no %s()" % (REL, h))
		return m
	def rep(self, rule, msg):
		if (rule, self.fn.name) not in self.bad:
			self.bad.add((rule, self.fn.name))
			self.r.report(rule, REL, self.fn.lineno, "%s.%s" % (self.cls.name, self.fn.name), msg, key=rule)
	def run(self, cmd, db, **ns):
		"""Every way a command may go: what it returns or raises, prints, and writes."""
		self.fn = self.handler(cmd)
		def go():
			for l in (self.out, self.err, self.writers, self.exports): l.clear()
			o = Obj(self.I.glob[self.cls.name], name="cli")
			args = Obj(name="ns", attrs=dict(ns))
			try: x = self.I.call(self.I.attr(o, self.fn.name, self.fn), [db, args], {}, self.fn)
			except Raised as e: x = e
			return x
		for x in self.I.runs(go):
			self.n += 1
			yield x, "".join(self.out), "".join(self.err), list(self.writers), list(self.exports)

def network(name, cc=None, asn=0, flags=(), fam=4):
	o = Obj(name=name, attrs=dict(country_code=cc, asn=asn, family=AF[fam]))
	o.data = (fam, cc, asn, frozenset(flags))
	def has_flag(f):
		fs = {f} if isinstance(f, Lib) else f if isinstance(f, frozenset) else set()
		return any(FLAGS[x] in fs for x in flags)
	o.methods = dict(has_flag=has_flag)
	return o
def country(code, name, cont="CONT"): return Obj(name=code, attrs=dict(code=code, name=name, continent_code=cont))
def asobj(number, name): return Obj(name="as%d" % number, attrs=dict(number=number, name=name))
def status(x): return 0 if x is None or x == 0 else x

def lookup(t):
	cs = {"DE": country("DE", "name-of-DE"), "IT": country("IT", ""), "FR": None}
	ases = {64512: asobj(64512, "name-of-64512"), 64513: None}
	def db(table):
		def look(a):
			if table[a] is ValueError: raise Raised("ValueError")
			return table[a]
		return Obj(name="db", methods=dict(lookup=look, get_country=lambda c: cs.get(c), get_as=lambda n: ases.get(n)))
	base = {}
	for cc, asn in itertools.product((None, "DE", "FR", "IT"), (0, 64512, 64513)):
		lines = {}
		for fl in [()] + [(x,) for x in FLAGS] + [tuple(FLAGS)]:
			for x, out, err, ws, es in t.run("lookup", db({"ADDRESS": network("NET", cc, asn, fl)}), address=["ADDRESS"]):
				what = "a network %s country, %s AS" % ("without a" if not cc else "with a", "without an" if not asn else "with an")
				if isinstance(x, Raised): t.rep("raises", "looking up an address in %s raises %s" % (what, x.name)); continue
				if status(x) != 0: t.rep("status", "a lookup that finds something fails with %r" % x)
				if "\x01NET\x02" not in out: t.rep("network", "the network that was found is not printed")
				if cc == "DE" and "name-of-DE" not in out: t.rep("country", "the country of the network is not printed")
				if cc in ("FR", "IT") and cc not in out: t.rep("country", "a country that %s is not printed at all" % ("is not in the database" if cc == "FR" else "has no name"))
				if "None" in out: t.rep("none", "something that is not known is printed as None")
				if asn and not ("\x01as%d\x02" % asn in out or str(asn) in out): t.rep("as", "the AS of the network is not printed%s" % ("" if asn == 64512 else " when the database does not know it"))
				if not asn and re.search(r"AS0|as0", out): t.rep("as", "an AS is printed although the network has none")
				if not cc and re.search(r"name-of-(DE|IT|FR)", out): t.rep("country", "a country is printed although the network has none")
				lines.setdefault(fl, set()).add(tuple(sorted(out.splitlines())))
		b = lines.get(())
		if not b or len(b) != 1: continue
		b = next(iter(b)); own = {}
		for x in FLAGS:
			for l in lines.get((x,), ()):
				more = list(l)
				for y in b:
					if y in more: more.remove(y)
				if len(l) != len(b) + 1 or len(more) != 1: t.rep("flag", "the flag %s of a network is not printed" % x)
				else: own[x] = more[0]
		if len(set(own.values())) != len(own): t.rep("flag", "two flags are printed in the same way")
		for l in lines.get(tuple(FLAGS), ()):
			if sorted(l) != sorted(list(b) + list(own.values())): t.rep("flag", "not all flags of a network are printed")
	table = {"A": network("NET-A"), "B": network("NET-B"), "NONE": None, "BAD": ValueError}
	for asked in (["A", "B"], ["NONE"], ["A", "NONE"], ["NONE", "A"], ["BAD"], ["A", "BAD"], ["NONE", "A", "B"]):
		for x, out, err, ws, es in t.run("lookup", db(table), address=asked):
			if isinstance(x, Raised): t.rep("raises", "looking up addresses raises %s" % x.name); continue
			ok = not ("NONE" in asked or "BAD" in asked)
			if (status(x) == 0) != ok: t.rep("status", "the lookup of %s ends with status %r" % (", ".join({"NONE": "an address that is not in the database", "BAD": "something that is not an address"}.get(a, "an address") for a in asked), x))
			for a in asked[:asked.index("BAD")] if "BAD" in asked else asked:
				if a in "AB" and out.count("\x01NET-%s\x02" % a) != 1: t.rep("missing", "an address is not looked up%s" % (" after another was not found" if "NONE" in asked else ""))
			if not ok and not err: t.rep("silent", "nothing is said about an address that cannot be looked up")

def ases(t):
	known = {64512: asobj(64512, "name-of-64512"), 64513: asobj(64513, "name-of-64513")}
	db = Obj(name="db", methods=dict(get_as=lambda n: known.get(n), search_as=lambda q: [known[64512], known[64513]] if q == "Q" else []))
	for asked in (["64512"], ["64512", "64513"], ["1"], ["1", "64512"], ["64512", "1"], ["junk"], ["junk", "64513"]):
		for x, out, err, ws, es in t.run("get-as", db, asn=asked):
			if isinstance(x, Raised): t.rep("raises", "asking for an AS raises %s" % x.name); continue
			ok = not ({"1", "junk"} & set(asked))
			if (status(x) == 0) != ok: t.rep("status", "asking for %s ends with status %r" % ("ASes that exist" if ok else "an AS that does not exist", x))
			for a in asked:
				if a.startswith("645") and out.count("name-of-" + a) != 1: t.rep("missing", "an AS is not printed")
			if not ok and not err: t.rep("silent", "nothing is said about an AS that does not exist")
	for x, out, err, ws, es in t.run("search-as", db, query=["Q"]):
		if isinstance(x, Raised): t.rep("raises", "searching for ASes raises %s" % x.name); continue
		for a in known:
			if len(re.findall(r"\x01as%d\x02|%d" % (a, a), out)) != 1: t.rep("missing", "an AS that was found is not printed")

def countries(t):
	cs = [country("DE", "name-of-DE"), country("FR", "name-of-FR"), country("IT", "", None)]
	db = Obj(name="db", attrs=dict(countries=cs))
	for name, cont in itertools.product((False, True), repeat=2):
		for x, out, err, ws, es in t.run("list-countries", db, show_name=name, show_continent=cont):
			if isinstance(x, Raised): t.rep("raises", "listing countries raises %s%s" % (x.name, " when one has no continent" if cont else "")); continue
			ls = out.splitlines()
			for c in cs:
				l = [y for y in ls if y.split()[:1] == [c.name]]
				if len(l) != 1: t.rep("missing", "a country is not listed, or more than once")
				elif "None" in l[0]: t.rep("none", "something that is not known is printed as None")
				elif ("name-of-" + c.name in l[0]) != (name and c.attrs["name"] != "") or ("CONT" in l[0]) != (cont and c.attrs["continent_code"] is not None): t.rep("fields", "a country is listed without what was asked for, or with something else")

def lists(t):
	nets = [network("N%d" % k, cc, asn, fl, fam) for k, (fam, cc, asn, fl) in enumerate(itertools.product((4, 6), ("DE", None), (64512, 0), [()] + [(x,) for x in FLAGS]))]
	asked = []
	def search(country_codes=None, asns=None, flags=0, family=0, flatten=False):
		if isinstance(flags, Lib): flags = frozenset({flags})
		fl = flags if isinstance(flags, frozenset) else frozenset()
		return [o for o in nets if (not family or family == AF[o.data[0]]) and ((country_codes is None and asns is None and not fl) or o.data[1] in (country_codes or ()) or o.data[2] in (asns or ()) or any(FLAGS[x] in fl for x in o.data[3]))]
	db = Obj(name="db", methods=dict(search_networks=search, list_bogons=lambda family=0: [o for o in nets if not family or family == AF[o.data[0]]]))
	off = dict(anonymous_proxy=False, satellite_provider=False, anycast=False, drop=False)
	opt = dict(A1="anonymous_proxy", A2="satellite_provider", A3="anycast", XD="drop")
	jobs = [("list-networks-by-as", dict(asn=[64512]), lambda o: o.data[2] == 64512), ("list-networks-by-cc", dict(country_code=["DE"]), lambda o: o.data[1] == "DE"), ("list-bogons", {}, lambda o: True)]
	for fl in [(x,) for x in FLAGS] + list(itertools.combinations(FLAGS, 2)): jobs.append(("list-networks-by-flags", dict(off, **{opt[x]: True for x in fl}), lambda o, fl=fl: bool(o.data[3] & set(fl))))
	for (cmd, ns, want), fam, fmt in itertools.product(jobs, (0, 4, 6), ("list", "ipset", "nftables")):
		for x, out, err, ws, es in t.run(cmd, db, family=AF[fam] if fam else 0, format=fmt, **ns):
			if isinstance(x, Raised): t.rep("raises", "%s raises %s" % (cmd, x.name)); continue
			if len(ws) != 1: t.rep("output", "%d outputs are made" % len(ws)); continue
			w = ws[0]
			if w.kind != fmt: t.rep("output", "the output is formatted as %s instead of %s" % (w.kind, fmt))
			if w.args[1] != (AF[fam] if fam else 0): t.rep("output", "the output is not told the family")
			if w.args[2] is not t.stdout: t.rep("output", "networks are not written to standard output")
			if w.end != 1: t.rep("unfinished", "the output is not finished")
			for o in nets:
				c, d = w.got.count(o), int(want(o) and (not fam or o.data[0] == fam))
				if c < d: t.rep("missing", "a network is missing from the list")
				elif c > d: t.rep("wrong", "a network is listed that was not asked for, or twice")
			if status(x) != 0: t.rep("status", "%s ends with status %r" % (cmd, x))
	for x, out, err, ws, es in t.run("list-networks-by-flags", db, family=0, format="list", **off):
		if not isinstance(x, Raised) and (status(x) == 0 or ws): t.rep("status", "all networks are listed when no flag is given")

def dump(t):
	nets = [network("N%d" % k, cc, asn, fl) for k, (cc, asn, fl) in enumerate(itertools.product(("DE", None), (64512, 0), [()] + [(x,) for x in FLAGS] + [tuple(FLAGS)]))]
	aa = [asobj(64512, "name-of-64512"), asobj(64513, "")]
	for meta in ("", None, "text"):
		db = Obj(name="db", attrs=dict(created_at=Opaque("time"), vendor=meta and "VENDOR", license=meta and "LICENSE", description=meta and "LINE1\nLINE2", ases=aa, networks=nets))
		for to in (False, True):
			got = []
			f = Obj(name="file", methods=dict(write=lambda x: got.append(str(x)), flush=lambda: None, close=lambda: None))
			for x, out, err, ws, es in t.run("dump", db, output=f if to else None):
				text = "".join(got) if to else out
				got.clear()
				if isinstance(x, Raised): t.rep("raises", "dumping a database raises %s" % x.name); continue
				if to and out: t.rep("output", "some of the dump goes to standard output instead of the file")
				if meta:
					for w in ("VENDOR", "LICENSE", "LINE1", "LINE2"):
						if w not in text: t.rep("meta", "the dump lacks the vendor, the license or the description")
				if any(l and not l.startswith("#") and ("LINE" in l or "VENDOR" in l or "LICENSE" in l) for l in text.splitlines()): t.rep("meta", "the description is not in comments")
				blocks = [b for b in text.split("\n\n")]
				if "None" in text: t.rep("none", "something that is not known is written as None")
				for a in aa:
					b = [y for y in blocks if re.search(r"^aut-num: +AS%d$" % a.attrs["number"], y, re.M) and not re.search(r"^net:", y, re.M)]
					if len(b) != 1: t.rep("missing", "an AS is missing from the dump, or there more than once")
					elif a.attrs["name"] and not re.search(r"^name: +%s$" % a.attrs["name"], b[0], re.M): t.rep("fields", "the name of an AS is missing from the dump")
				keys = {}
				for o in nets:
					b = [y for y in blocks if re.search(r"^net: +\x01%s\x02$" % o.name, y, re.M)]
					if len(b) != 1: t.rep("missing", "a network is missing from the dump, or there more than once"); continue
					_, cc, asn, fl = o.data
					if bool(re.search(r"^country: +DE$", b[0], re.M)) != bool(cc) or b[0].count("country:") > 1: t.rep("fields", "the country of a network is missing from the dump, or wrong")
					if bool(re.search(r"^aut-num: +(AS)?64512$", b[0], re.M)) != bool(asn) or ("aut-num:" in b[0]) != bool(asn): t.rep("fields", "the AS of a network is missing from the dump, or wrong")
					ks = re.findall(r"^([\w-]+): +yes$", b[0], re.M)
					if len(ks) != len(fl) or len(set(ks)) != len(ks): t.rep("flag", "not the flags of a network are in the dump")
					elif len(fl) == 1:
						if keys.setdefault(ks[0], next(iter(fl))) != next(iter(fl)): t.rep("flag", "two flags have the same name in the dump")

def exports(t):
	db = Obj(name="db", attrs=dict(countries=[country("DE", "x"), country("FR", "y")]))
	both = [AF[4], AF[6]]
	for objs, wc, wa in (([], ["DE", "FR", "A1", "A2", "A3", "XD"], []), (["DE"], ["DE"], []), (["AS64512"], [], [64512]), (["DE", "AS1", "A1"], ["DE", "A1"], [1]), (["A3", "XD", "A2"], ["A3", "XD", "A2"], []), (["bogus", "FR"], ["FR"], []), (["AS12x", "AS5"], [], [5])):
		for fam, fmt in itertools.product((0, 4, 6), ("list", "ipset", "nftables", "xt_geoip")):
			for x, out, err, ws, es in t.run("export", db, objects=objs, family=AF[fam] if fam else 0, format=fmt, directory="DIR"):
				if isinstance(x, Raised): t.rep("raises", "exporting raises %s" % x.name); continue
				if len(es) != 1: t.rep("export", "%d exports are made" % len(es)); continue
				w, d, fs, cc, aa = es[0]
				if w is not t.formats[fmt]: t.rep("output", "the format that was asked for is not used")
				if d != "DIR": t.rep("output", "the directory is not used")
				if sorted(map(str, fs)) != sorted(map(str, [AF[fam]] if fam else both)): t.rep("family", "not the families that were asked for are exported")
				if sorted(cc) != sorted(wc): t.rep("wanted", "asked for %s, the countries %s are exported" % (" ".join(objs) or "everything", " ".join(cc) or "(none)"))
				if sorted(aa) != sorted(wa): t.rep("wanted", "asked for %s, the ASes %s are exported" % (" ".join(objs) or "everything", " ".join(map(str, aa)) or "(none)"))

def run(t):
	"""What arguments mean reaches the command, what it returns becomes the exit status."""
	t.fn = next((m for m in t.cls.body if isinstance(m, ast.FunctionDef) and m.name == "run"), None)
	if t.fn is None: raise AnalysisError("%s: no run()" % REL)
	def ex(x=0): raise Raised("exit %r" % (x,))
	t.models["sys.exit"] = ex
	t.models["location.Database"] = lambda *a: Obj(name="db")
	for fam, (ret, want) in itertools.product(("ipv6", "ipv4", None), ((None, 0), (0, 0), (1, 1), (2, 2), ("ValueError", 2), ("KeyError", 1), ("OSError", 1))):
		seen = []
		def go():
			seen.clear(); t.err.clear()
			ns = Obj(name="ns", attrs=dict(database="DB", family=fam))
			def func(db, args):
				seen.append(args.attrs.get("family"))
				if isinstance(ret, str): raise Raised(ret)
				return ret
			ns.attrs["func"] = func
			o = Obj(t.I.glob[t.cls.name], name="cli", attrs=dict(parse_cli=lambda: ns))
			try: t.I.call(t.I.attr(o, "run", t.fn), [], {}, t.fn); return "exit 0"
			except Raised as e: return e.name
		for x in t.I.runs(go):
			t.n += 1
			if len(seen) != 1: t.rep("command", "the command is not called"); continue
			if seen[0] != {"ipv6": AF[6], "ipv4": AF[4], None: 0}[fam]: t.rep("family", "%s is not what the command is told" % (fam or "any family"))
			if x != "exit %d" % want and not (want == 0 and x == "exit None"): t.rep("status", "a command that %s makes the tool end with %s instead of status %d" % ("raises " + ret if isinstance(ret, str) else "returns %r" % ret, x, want))
			if isinstance(ret, str) and not t.err: t.rep("silent", "nothing is said about a command that failed")

def tool(tier):
	r = Result()
	r.rules = ["missing", "wrong", "network", "country", "as", "flag", "fields", "meta", "none", "status", "silent", "output", "unfinished", "wanted", "family", "command", "raises"]
	t = Tool(r, pynames.tree(REL))
	cases = {}
	for f in (lookup, ases, countries, lists, dump, exports, run):
		a = t.n
		f(t)
		cases[f.__name__] = t.n - a
		if t.n == a: raise AnalysisError("%s: nothing analysed" % f.__name__)
	r.obligations = t.n
	r.coverage = dict(cases, commands=len(t.cmds), lines=len(t.I.lines))
	r.explanation = "each command that answers questions, over every kind of network, AS and country it may meet (with and without country, name, AS, each flag; known to the database or not) and every kind of request"
	r.assumptions = ["the database's methods do what their contracts say (P11, P12)", "networks, countries and ASes are only told apart by what is asked about them"]
	return r
