"""P26: exports: every network to the file of each country, AS and flag it has; every file in the format of its kind, complete."""
import ast, itertools, re
import pynames
from pyeval import *
from common import *

REL = "src/python/location/export.py"
AF = {4: Lib("socket.AF_INET"), 6: Lib("socket.AF_INET6")}
FLAG = {"A1": Lib("_location.NETWORK_FLAG_ANONYMOUS_PROXY"), "A2": Lib("_location.NETWORK_FLAG_SATELLITE_PROVIDER"), "A3": Lib("_location.NETWORK_FLAG_ANYCAST"), "XD": Lib("_location.NETWORK_FLAG_DROP")}

def models(extra=None):
	m = {"contextlib.suppress": lambda *a: ("suppress", [x.name for x in a])}
	m.update(extra or {})
	return m

def export(r, tree, tier):
	"""What reaches which file, for every kind of network and everything that may be asked for."""
	n = 0
	cls = next((x for x in tree.body if isinstance(x, ast.ClassDef) and any(isinstance(m, ast.FunctionDef) and m.name == "export" for m in x.body)), None)
	if cls is None: raise AnalysisError("%s: nothing exports" % REL)
	fn = next(m for m in cls.body if isinstance(m, ast.FunctionDef) and m.name == "export")
	where = "%s.export" % cls.name
	bad = set()
	def rep(rule, msg):
		if rule not in bad: bad.add(rule); r.report(rule, REL, fn.lineno, where, msg, key=rule)
	I = Eval(tree, REL, models())
	I.load()
	nets = []
	for fam, cc, asn, fl in itertools.product((4, 6), ("DE", "FR", None), (64512, 1, 0), ((), ("A1",), ("A1", "A2"), ("A3",), ("XD",))):
		o = Obj(name="network %s %s AS%s %s" % (fam, cc, asn, "+".join(fl)))
		o.data = (fam, cc, asn, frozenset(fl))
		o.attrs = dict(country_code=cc, asn=asn, family=AF[fam])
		def has_flag(f, fl=fl):
			fs = {f} if isinstance(f, Lib) else f if isinstance(f, frozenset) else set()
			return any(FLAG[x] in fs for x in fl)
		o.methods = dict(has_flag=has_flag)
		nets.append(o)
	asked = ([], ["DE"], ["A1"], ["DE", "A1"], ["A1", "A2", "DE"], ["XD", "FR", "DE"], ["A3", "XD"])
	for countries, asns, fams, directory in itertools.product(asked, ([], [64512]), ((4, 6), (6,)), (Opaque("directory"), None)):
		if not countries and not asns: continue
		log = []
		def search(country_codes=None, asns=None, flags=0, family=0, flatten=False):
			if isinstance(flags, Lib): flags = frozenset({flags})
			if flags == 0: flags = frozenset()
			if not isinstance(flags, frozenset): raise AnalysisError("%s: flags" % REL)
			if not flatten: rep("flatten", "networks are not cut at the ones within them that belong elsewhere")
			out = []
			for o in nets:
				f, cc, a, fl = o.data
				if family and family != AF[f]: continue
				if not (country_codes is None and asns is None and not flags):
					if not (cc in (country_codes or ()) or a in (asns or ()) or any(FLAG[x] in flags for x in fl)): continue
				out.append(o)
			return out
		def writer(name=None, family=None, directory=None, f=None):
			w = Obj(name="writer %s" % name)
			w.made = (str(name), family, directory)
			w.got, w.end = [], []
			def write(x):
				if w.end: rep("finish", "networks are written to a file that was finished before")
				w.got.append(x)
			w.methods = dict(write=write, finish=lambda: w.end.append("finish"), print=lambda: w.end.append("print"))
			log.append(w)
			return w
		db = Obj(name="db", methods=dict(search_networks=search))
		what = "%s of %s" % (" ".join(countries + ["AS%d" % a for a in asns]), " and ".join("IPv%d" % f for f in fams))
		def go():
			log.clear()
			e = I.call(I.glob[cls.name], [db, writer], {}, fn)
			I.call(I.attr(e, "export", fn), [directory, [AF[f] for f in fams], list(countries), list(asns)] if [a.arg for a in fn.args.args][1:] == ["directory", "families", "countries", "asns"] else [], {} if [a.arg for a in fn.args.args][1:] == ["directory", "families", "countries", "asns"] else dict(directory=directory, families=[AF[f] for f in fams], countries=list(countries), asns=list(asns)), fn)
			return list(log)
		for _ in range(1):
			for ws in I.runs(lambda: attempt(go)):
				if isinstance(ws, Raised):
					rep("raises", "exporting %s raises %s" % (what, ws.name)); continue
				want = {}
				for f in fams:
					for c in countries: want[(c, AF[f])] = [o for o in nets if o.data[0] == f and (c in o.data[3] if c in FLAG else o.data[1] == c)]
					for a in asns: want[("AS%d" % a, AF[f])] = [o for o in nets if o.data[0] == f and o.data[2] == a]
				made = [w.made[:2] for w in ws]
				n += len(want)
				for k in want:
					if made.count(k) != 1: rep("files", "exporting %s: %d files are made for %s" % (what, made.count(k), k[0]))
				for w in ws:
					k = w.made[:2]
					if k not in want: rep("files", "exporting %s: a file is made for %s, which was not asked for" % (what, k[0])); continue
					if w.made[2] != directory: rep("files", "exporting %s: %s is not written to the directory" % (what, k[0]))
					for o in nets:
						n += 1
						c, d = w.got.count(o), want[k].count(o)
						if c < d: rep("missing", "exporting %s: a %s is missing from the file of %s" % (what, o.name, k[0]))
						elif c > d: rep("wrong" if not d else "twice", "exporting %s: a %s is written to the file of %s%s" % (what, o.name, k[0], "" if not d else " more than once"))
					end = ["finish"] if directory is not None else ["finish", "print"]
					if w.end != end: rep("finish", "exporting %s: the file of %s is %s" % (what, k[0], "not finished" if "finish" not in w.end else "finished more than once" if w.end.count("finish") > 1 else "not printed" if directory is None and "print" not in w.end else "printed before it is finished" if directory is None else "printed instead of being kept"))
	return n, I

def attempt(f):
	try: return f()
	except Raised as e: return e

NET = "\x01network\x02"
FORMATS = {
	# what comes before, for each network, and after; {t}: the name of the set
	"list": ("", "%s\n" % NET, ""),
	"ipset": ("create {t} hash:net family {i} hashsize N maxelem 1048576 -exist\nflush {t}\n", "add {t} %s\n" % NET, ""),
	"nftables": ("define {t} = {{\n", "%s,\n" % NET, "}}\n"),
	"xt_geoip": ("", "\x01network._first_address\x02|\x01network._last_address\x02", ""),
}

def squeeze(s):
	s = re.sub(r"\x01num:[^\x02]*\x02", "N", s)
	s = re.sub(r"(hashsize) +\d+", r"\1 N", s)
	return "\n".join(re.sub(r"[ \t]+", " ", x).strip() for x in s.split("\n"))

def formats(r, tree):
	n = 0
	I = Eval(tree, REL, {})
	I.load()
	table = I.glob.get("formats")
	if not isinstance(table, dict): raise AnalysisError("%s: no table of formats" % REL)
	class File:
		def __init__(self, kind, name=None, seekable=True):
			self.kind, self.name, self.ops, self.seekable = kind, name, [], seekable
			def write(x): self.ops.append(("w", x))
			def seek(x, *a):
				if not self.seekable: raise Raised("io.UnsupportedOperation")
				self.ops.append(("seek", x)); return x
			self.obj = Obj(name=kind, methods=dict(write=write, seek=seek, flush=lambda: self.ops.append(("flush",)), writelines=lambda l: [write(x) for x in l],
				tell=lambda: Num(), seekable=lambda: self.seekable, close=lambda: self.ops.append(("close",)), **{"*": lambda a: Opaque("?file." + a)}))
	files = []
	def op(name, mode="r", *a, **k): f = File("file " + mode, str(name)); files.append(f); return f.obj
	def mem(kind): 
		def make(*a): f = File(kind); files.append(f); return f.obj
		return make
	I.models = models({"open": op, "io.StringIO": mem("io.StringIO"), "io.BytesIO": mem("io.BytesIO")})
	names = {}
	for kind in sorted(FORMATS):
		c = table.get(kind)
		if not isinstance(c, Cls): r.report("format", REL, 1, "formats", "the format %s does not exist" % kind, key=kind); continue
		bad = set()
		def rep(rule, msg, c=c):
			if (rule, c.name) not in bad: bad.add((rule, c.name)); r.report(rule, REL, c.node.lineno, c.name, "%s: %s" % (kind, msg), key="%s:%s" % (kind, rule))
		for fam, where, count in itertools.product((4, 6), ("directory", "memory", "stream", "pipe"), (0, 1, 2)):
			if where in ("stream", "pipe") and kind == "xt_geoip": continue		# binary data to a text stream is refused
			net = Obj(name="network", attrs=dict(_first_address=Opaque("network._first_address"), _last_address=Opaque("network._last_address"), family=AF[fam]), methods={})
			given = File("stream", seekable=where == "stream")
			def go():
				files.clear(); given.ops.clear()
				kw = dict(family=AF[fam])
				if where == "directory": kw["directory"] = "DIR"
				if where in ("stream", "pipe"): kw["f"] = given.obj
				w = I.call(c, ["NAME"], kw, c.node)
				for _ in range(count): I.call(I.attr(w, "write", c.node), [net], {}, c.node)
				I.call(I.attr(w, "finish", c.node), [], {}, c.node)
				f = files[-1] if files and where in ("directory", "memory") else given
				return list(f.ops), f, len(files)
			for res in I.runs(lambda: attempt(go)):
				n += 1
				if isinstance(res, Raised): rep("raises", "writing %d networks to a %s raises %s" % (count, where, res.name)); continue
				ops, f, made = res
				if where in ("directory", "memory") and made != 1: rep("file", "%d files are opened" % made); continue
				binary = kind == "xt_geoip"
				if where == "directory" and (not f.kind.startswith("file w") or ("b" in f.kind[5:]) != binary): rep("file", "the file is opened as %s" % f.kind[5:])
				if where == "memory" and (f.kind == "io.BytesIO") != binary: rep("file", "what is written goes to %s" % f.kind)
				if where == "directory":
					if not f.name.startswith("DIR/") or "NAME" not in f.name: rep("name", "the file is called %s" % f.name)
					if str(fam) not in re.sub("DIR|NAME", "", f.name) or str(10 - fam) in re.sub("DIR|NAME", "", f.name): rep("name", "the file of IPv%d is called %s" % (fam, f.name))
					other = names.setdefault((f.name), (kind, fam))
					if other != (kind, fam): rep("name", "%s of IPv%d and %s of IPv%d are written to the same file" % (kind, fam, other[0], other[1]))
				if where != "stream" and where != "pipe" and (not ops or ops[-1][0] not in ("flush", "close")): rep("flush", "what is written last is not flushed")
				# what the file contains in the end
				out, k = [], 0
				over = None
				for o in ops:
					if o[0] == "w":
						if over is not None: over += str(o[1])
						else: out.append(str(o[1]))
					elif o[0] == "seek":
						if o[1] != 0: rep("seek", "the position is set to something that is not the beginning")
						over = ""
				pre, each, post = FORMATS[kind]
				sep = "|" if binary else ""
				tags = re.search(r"(?:create|define) (\S+)", "".join(out))
				t = tags.group(1) if tags else "NAMEv%d" % fam
				if tags and ("NAME" not in t or str(fam) not in t.replace("NAME", "")): rep("tag", "the set is called %s for IPv%d" % (t, fam))
				i = "inet6" if fam == 6 else "inet"
				want = squeeze(pre.format(t=t, i=i) + sep.join([each.replace("{t}", t)] * count) + post.format(t=t, i=i))
				got = squeeze(sep.join(out))
				if got != want: rep("format", "%d networks are written as %r instead of %r" % (count, show(got), show(want)))
				if over is not None:
					head = squeeze(pre.format(t=t, i=i))
					if squeeze(over) != head: rep("rewrite", "the beginning is overwritten with %r" % show(over))
					if width(over) is None: rep("rewrite", "how long the beginning is depends on the number of networks, so that overwriting it destroys what follows")
					else:
						h = "".join(out)
						# the first writing of the header, up to where the networks begin
						k = h.find(NET)
						h0 = h if k < 0 else h[:h.rfind("\n", 0, k) + 1]
						if width(h0) != width(over): rep("rewrite", "the beginning that is overwritten has another length: %s instead of %s characters" % (width(over), width(h0)))
				if kind == "ipset" and where == "directory" and count and over is None: rep("rewrite", "the size of the set is not written once the number of networks is known")
	return n, I

def width(s):
	"""Length of a text; None when it depends on a number that is not known."""
	if "\x01num:?\x02" in s: return None
	return len(re.sub(r"\x01num:(\d+)\x02", lambda m: "x" * int(m.group(1)), s))
def show(s): return s.replace("\x01", "<").replace("\x02", ">")

def exports(tier):
	r = Result()
	r.rules = ["missing", "wrong", "twice", "files", "finish", "flatten", "format", "rewrite", "file", "name", "flush", "tag", "seek", "raises"]
	tree = pynames.tree(REL)
	a, I = export(r, tree, tier)
	b, J = formats(r, tree)
	if a < 1000 or b < 30: raise AnalysisError("only %d and %d cases" % (a, b))
	r.obligations = a + b
	r.coverage = dict(exports=a, writings=b, lines=len(I.lines | J.lines))
	r.explanation = "every kind of network (each family, a country that is asked for, another or none, an AS that is asked for, another or none, flags) against every kind of thing asked for; each format with no, one and more networks, to a file, to memory and to a stream"
	r.assumptions = ["networks, countries and ASes are only told apart by what is asked about them", "a search returns the networks that have one of the countries, ASes or flags given"]
	return r
