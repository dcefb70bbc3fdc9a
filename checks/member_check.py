"""P28: what the Python, Lua and Perl bindings return is what the library says of the object they stand for, and what is set gets there."""
import re
import pynames, tokens
from tokens import *
from common import *

def outs(fmt):
	"""Number of pointers each unit of an argument format takes: (index of argument, kind, pointers)."""
	r, i, k = [], 0, 0
	fmt = re.split("[:;]", fmt)[0]
	while i < len(fmt):
		c = fmt[i]; i += 1
		if c in "|$": continue
		n = 1
		if i < len(fmt) and fmt[i] in "#*!&": 
			n = 2 if fmt[i] in "#!&" else 1
			c += fmt[i]; i += 1
		r.append((k, c, n)); k += 1
	return r

def parse(first):
	def m(M, fn, args):
		f = args[first - 1 if first == 2 else 2]
		if f[0] != "s": raise AnalysisError("%s: format of the arguments" % fn.name)
		opt, j = "|" in f[1], first if first == 2 else 4
		for k, c, n in outs(f[1]):
			for x in range(n):
				if c.endswith("!") and x == 0: j += 1; continue
				p = args[j]; j += 1
				if c.endswith("!"): v = ("arg", "a%d" % k)
				else: v = ("arg", "a%d" % k)
				M.store(p, v)
		return ("i", 1)
	return m

MODELS = {"PyArg_ParseTuple": parse(2), "PyArg_ParseTupleAndKeywords": parse(4)}

CONV = re.compile(r"^_?Py\w+_As\w+$|^strdup$|^strndup$")
REF = re.compile(r"^loc_\w+_ref$")
SKIP = re.compile(r"^loc_\w+_(ref|unref)$")

def norm(v):
	"""Objects stand for what they wrap, converted values for what was converted."""
	k = v[0]
	if k == "ld":
		b = norm(v[1])
		if b[0] == "arg" and v[2] == 16: return b
		if b[0] == "g" and v[2] == 0: return ("ctx",)
		return ("ld", b, v[2])
	if k == "p":
		b = norm(v[1]) if v[1][0] != "al" else v[1]
		if b[0] == "arg" and v[2] == 16: return ("place", b)
		return ("p", b, v[2])
	if k in ("call", "out"):
		a = tuple(norm(x) for x in v[2])
		if k == "call" and v[1] in ("fptoui", "fptosi", "uitofp", "sitofp"): return a[0]
		if k == "call" and (CONV.match(v[1]) or REF.match(v[1])) and a: return a[0]
		return (k, v[1][:-2] if v[1].endswith("open64") else v[1], a) + v[3:]
	if k == "at": return norm(v[1])
	return v

def show(v, d=0):
	k = v[0]
	if d > 12: return "..."
	if k == "i": return str(v[1])
	if k == "n": return "#%d" % v[1]
	if k == "s": return repr(v[1])
	if k == "g": return v[1].replace("_Py_", "").replace("Struct", "")
	if k == "arg": return v[1]
	if k == "ctx": return "ctx"
	if k == "place": return "&" + show(v[1])
	if k == "ld": return "%s.%s" % (show(v[1], d + 1), v[2])
	if k == "p": return "%s+%s" % (show(v[1], d + 1), v[2])
	if k == "al": return "local"
	if k == "&": return "&"
	if k == "call": return "%s(%s)" % (v[1], ", ".join(show(x, d + 1) for x in v[2]))
	if k == "out": return "%s(%s)->" % (v[1], ", ".join(show(x, d + 1) for x in v[2]))
	return k

def leaves(v, out):
	"""The library's answers that a value is made from."""
	if v[0] in ("call", "out") and v[1].startswith("loc_"): out.add(show(v))
	elif v[0] in ("call", "out"):
		for x in v[2]: leaves(x, out)
	elif v[0] in ("ld", "p") and v[1][0] != "al": leaves(v[1], out)
	return out

class Path:
	def __init__(self, dec, v, mem, calls):
		self.raw, self.v = v, norm(v)
		self.dec = {(q, show(norm(a)), show(norm(b))): r for (q, a, b), r in dec.items()}
		self.calls = [show(norm(c)) for c in calls if c[1].startswith("loc_") and not SKIP.match(c[1])]
		self.rawcalls = calls
		self.items = ["(%s)" % ", ".join(show(norm(x)) for x in c[2]) for c in calls if c[1] == "PyList_GetItem"]
		self.mem = mem
		self.dead = any(q == "eq" and b == "0" and r and re.match(r"(\*|Py\w+_New)\(", a) for (q, a, b), r in self.dec.items())
		if v[0] == "call" and v[1] == "*":
			f = [norm(x) for (b, o), x in mem.items() if b == v]
			self.v = f[0] if len(f) == 1 else ("call", "object", tuple(f))
	def zero(self, x):
		"""Whether a value is known to be 0 (True), not to be (False), or neither (None)."""
		for (q, a, b), r in self.dec.items():
			if a == x and b == "0":
				if q == "eq": return r
				if q in ("slt", "sgt") and r: return False
			if a == x and q == "eq" and r: return b == "0"
		return None
	def status(self, x): return self.zero(x[:-2]) if x.endswith("->") else None
	def one(self): return show(self.v)

NONE, TRUE, FALSE = "None", "True", "False"
E_NEW = "loc_database_enumerator_new(&, self, %s, %s)"

# What the members are expected to be: (type, member) -> (kind, answers of the library that they stand for)
EXPECT = {
	("AS", "name"): ("value", "loc_as_get_name(self)"), ("AS", "name="): ("do", "loc_as_set_name(self, a0)"), ("AS", "number"): ("value", "loc_as_get_number(self)"),
	("AS", "tp_init"): ("do", "loc_as_new(ctx, &self, a0)"), ("AS", "tp_hash"): ("value", "loc_as_get_number(self)"), ("AS", "tp_richcompare"): ("compare", "loc_as_cmp(self, a0)"),
	("Country", "code"): ("value", "loc_country_get_code(self)"), ("Country", "name"): ("value", "loc_country_get_name(self)"), ("Country", "name="): ("do", "loc_country_set_name(self, a0)"),
	("Country", "continent_code"): ("value", "loc_country_get_continent_code(self)"), ("Country", "continent_code="): ("do", "loc_country_set_continent_code(self, a0)"),
	("Country", "tp_init"): ("do", "loc_country_new(ctx, &self, a0)"), ("Country", "tp_hash"): ("value", "loc_country_get_code(self)"), ("Country", "tp_str"): ("value", "loc_country_get_code(self)"),
	("Country", "tp_richcompare"): ("compare", "loc_country_cmp(self, a0)"),
	("Network", "asn"): ("value", "loc_network_get_asn(self)"), ("Network", "asn="): ("do", "loc_network_set_asn(self, a0)"),
	("Network", "country_code"): ("value", "loc_network_get_country_code(self)"), ("Network", "country_code="): ("do", "loc_network_set_country_code(self, a0)"),
	("Network", "family"): ("value", "loc_network_address_family(self)"), ("Network", "first_address"): ("value", "loc_network_format_first_address(self)"),
	("Network", "last_address"): ("value", "loc_network_format_last_address(self)"), ("Network", "_first_address"): ("octets", "loc_network_get_first_address(self)"),
	("Network", "_last_address"): ("octets", "loc_network_get_last_address(self)"),
	("Network", "has_flag"): ("bool", "loc_network_has_flag(self, a0)"), ("Network", "set_flag"): ("do", "loc_network_set_flag(self, a0)"),
	("Network", "is_subnet_of"): ("bool", "loc_network_is_subnet(a0, self)"), ("Network", "reverse_pointer"): ("value", "loc_network_reverse_pointer(self, a0)"),
	("Network", "exclude"): ("list", "loc_network_exclude(self, a0)"), ("Network", "tp_str"): ("value", "loc_network_str(self)"),
	("Network", "tp_init"): ("do", "loc_network_new_from_string(ctx, &self, a0)"), ("Network", "tp_richcompare"): ("compare", "loc_network_cmp(self, a0)"),
	("Database", "description"): ("value", "loc_database_get_description(self)"), ("Database", "license"): ("value", "loc_database_get_license(self)"),
	("Database", "vendor"): ("value", "loc_database_get_vendor(self)"), ("Database", "created_at"): ("value", "loc_database_created_at(self)"),
	("Database", "get_as"): ("value", "loc_database_get_as(self, &, a0)->"), ("Database", "get_country"): ("value", "loc_database_get_country(self, &, a0)->"),
	("Database", "lookup"): ("value", "loc_database_lookup_from_string(self, a0, &)->"), ("Database", "verify"): ("success", r"loc_database_verify\(self, \w+\(.*a0.*\)\)"),
	("Database", "ases"): ("search", "AS", {}), ("Database", "countries"): ("search", "COUNTRIES", {}), ("Database", "networks"): ("search", "NETWORKS", {}),
	("Database", "networks_flattened"): ("search", "NETWORKS", {"flattened": True}), ("Database", "search_as"): ("search", "AS", {0: "string"}),
	("Database", "list_bogons"): ("search", "BOGONS", {"family": "family"}),
	("Database", "search_networks"): ("search", "NETWORKS", {"country_codes": "countries", "asns": "asns", "flags": "flag", "family": "family", "flatten": "?"}),
	("DatabaseEnumerator", "tp_iternext"): ("next", ["loc_database_enumerator_next_%s(self, &)->" % x for x in ("network", "as", "country")]),
	("Writer", "description"): ("value", "loc_writer_get_description(self)"), ("Writer", "license"): ("value", "loc_writer_get_license(self)"), ("Writer", "vendor"): ("value", "loc_writer_get_vendor(self)"),
	("Writer", "description="): ("do", "loc_writer_set_description(self, a0)"), ("Writer", "license="): ("do", "loc_writer_set_license(self, a0)"), ("Writer", "vendor="): ("do", "loc_writer_set_vendor(self, a0)"),
	("Writer", "write"): ("calls", r"loc_writer_write\(self, \w+\(a0, .*\), a1\)"), ("Database", "tp_init"): ("calls", r"loc_database_new\(ctx, &self, \w+\(.*a0.*\)\)"),
	("Writer", "tp_init"): ("keys", "loc_writer_new", ["a0", "a1"]),
	("Writer", "add_as"): ("value", "loc_writer_add_as(self, &, a0)->"), ("Writer", "add_country"): ("value", "loc_writer_add_country(self, &, a0)->"), ("Writer", "add_network"): ("value", "loc_writer_add_network(self, &, a0)->"),
}

SETTERS = {"countries": ("loc_database_enumerator_set_countries", "loc_country_list", "loc_country_new"), "asns": ("loc_database_enumerator_set_asns", "loc_as_list", "loc_as_new")}

class Members:
	def __init__(self, r, prog, I):
		self.r, self.prog, self.I, self.n = r, prog, I, 0
		self.M = Machine(prog, "python", MODELS)
	def bad(self, f, what, sub):
		self.r.report("member", f.rel, f.line, f.name, what, key="%s:%s" % (f.name, sub))
	def paths(self, f, args):
		out = [Path(*x) for x in self.M.run(f, args)]
		out = [p for p in out if not p.dead]
		self.n += len(out)
		if not out: raise AnalysisError("%s: no paths" % f.name)
		return out
	def check(self, cls, name, fname, spec, names):
		f = next((u.fns[fname] for u in self.prog.units if u.group == "python" and fname in u.fns), None)
		if f is None: raise AnalysisError("%s of %s: %s is not a function of this module" % (name, cls, fname))
		kind = spec[0]
		S, V = ("arg", "self"), ("arg", "a0")
		what = "%s.%s" % (cls, name.rstrip("="))
		if kind == "compare": return self.compare(f, what, spec[1])
		args = [S, V, ZERO] if name.endswith("=") else [S, ("arg", "args"), ("arg", "kwargs")]
		P = self.paths(f, args[:max(len(f.params), 1)])
		getattr(self, kind)(f, what, P, *spec[1:], **({"names": names} if kind == "search" else {}))
	def failed(self, p, f):
		"""Raises an exception."""
		return p.v == ZERO and f.ret == "ptr" or p.v[0] == "i" and p.v[1] & 0xffffffff == 0xffffffff
	def value(self, f, what, P, x):
		good = 0
		for p in P:
			v = p.one()
			if v == NONE:
				if not (p.zero(x) or p.zero(x + ".0") or p.status(x) is False): self.bad(f, "%s is None although %s may have an answer" % (what, x), "none")
				continue
			if self.failed(p, f): continue
			l = leaves(p.v, set())
			if l != {x}: self.bad(f, "%s is made from %s instead of %s" % (what, ", ".join(sorted(l)) or v, x), "value")
			elif p.zero(x) or p.status(x) is False: self.bad(f, "%s is made from %s when there is no answer" % (what, x), "absent")
			else: good += 1
		if not good: self.bad(f, "%s never is what %s says" % (what, x), "never")
	def octets(self, f, what, P, x):
		"""The bytes of an address: the last four of an IPv4 address."""
		self.value(f, what, P, x)
		for p in P:
			v = p.v
			if v[0] != "call" or not v[1].startswith("PyBytes_From") or len(v[2]) < 2: continue
			v4 = sum(r and q == "eq" and any(("%s.%d" % (x, o)) in (a, b) for o in (0, 4, 8)) for (q, a, b), r in p.dec.items()) == 3
			got = (show(v[2][0]), v[2][1])
			if v4 and (got[0] not in (x + ".12", x + "+12") or got[1] != ("i", 4)) or not v4 and got != (x, ("i", 16)):
				self.bad(f, "%s of an IPv%d address is %s bytes from %s" % (what, 4 if v4 else 6, show(got[1]), got[0]), "octets")
	def bool(self, f, what, P, x):
		seen = set()
		for p in P:
			v, z = p.one(), p.zero(x)
			if self.failed(p, f): continue
			if v in (TRUE, FALSE) and z is not None and (v == TRUE) == (not z): seen.add(v); continue
			if leaves(p.v, set()) == {x} and p.v[0] == "call" and p.v[1].startswith("PyBool"): seen |= {TRUE, FALSE}; continue
			self.bad(f, "%s returns %s when %s is %s" % (what, v, x, {True: "0", False: "not 0", None: "not known"}[z]), "bool")
		if seen != {TRUE, FALSE}: self.bad(f, "%s does not tell what %s says" % (what, x), "never")
	def success(self, f, what, P, rx):
		seen = set()
		for p in P:
			if self.failed(p, f): continue
			c = [x for x in p.calls if re.fullmatch(rx, x)]
			v = p.one()
			z = p.zero(c[0]) if c else None
			if v in (TRUE, FALSE) and z is not None and (v == TRUE) == z: seen.add(v); continue
			self.bad(f, "%s returns %s when the library's answer is %s" % (what, v, {True: "0", False: "not 0", None: "not known"}[z]), "bool")
		if seen != {TRUE, FALSE}: self.bad(f, "%s does not tell what the library says" % what, "never")
	def do(self, f, what, P, x):
		good = 0
		for p in P:
			if self.failed(p, f): continue
			z = p.zero(x)
			if p.calls.count(x) != 1 or any(re.match(r"loc_\w+_(set|add|new|append)", c) and c != x for c in p.calls):
				self.bad(f, "%s succeeds having called %s instead of %s once" % (what, ", ".join(p.calls) or "nothing", x), "do"); continue
			if z is False: self.bad(f, "%s succeeds although %s failed" % (what, x), "failed"); continue
			good += 1
		if not good: self.bad(f, "%s never succeeds" % what, "never")
	def calls(self, f, what, P, rx):
		for p in P:
			if self.failed(p, f): continue
			c = [x for x in p.calls if re.fullmatch(rx, x)]
			if len(c) != 1: self.bad(f, "%s succeeds having called %s" % (what, ", ".join(p.calls) or "nothing"), "do")
			elif p.zero(c[0]) is False: self.bad(f, "%s succeeds although %s failed" % (what, c[0]), "failed")
		if all(self.failed(p, f) for p in P): self.bad(f, "%s never succeeds" % what, "never")
	def keys(self, f, what, P, fn, args):
		"""Every file that is given is passed on, in its place."""
		good = set()
		for p in P:
			if self.failed(p, f): continue
			c = [x for x in p.rawcalls if x[1] == fn]
			if len(c) != 1 or show(norm(c[0][2][1])) != "&self": self.bad(f, "%s succeeds having called %s" % (what, ", ".join(p.calls) or "nothing"), "do"); continue
			for i, a in enumerate(args):
				v = show(norm(c[0][2][2 + i]))
				given = p.zero(a) is False and p.dec.get(("eq", a, NONE), p.dec.get(("eq", NONE, a))) is not True
				ok = re.search(r"\b%s\b" % a, v) if given or p.zero(a) is None and p.dec.get(("eq", a, NONE), p.dec.get(("eq", NONE, a))) is not True else v == "0"
				if not ok: self.bad(f, "%s passes on %s as argument %d when %s %s" % (what, v, i + 1, a, "is given" if given else "is not given"), "arg%d" % i)
				elif given: good.add(a)
		for a in args:
			if a not in good: self.bad(f, "%s never uses %s" % (what, a), "never:" + a)
	def list(self, f, what, P, x):
		most = 0
		for p in P:
			if self.failed(p, f): continue
			if not p.one().startswith("PyList_New("): self.bad(f, "%s returns %s" % (what, p.one()), "value"); continue
			if x not in p.calls: self.bad(f, "%s returns without having called %s" % (what, x), "value"); continue
			got = []
			for c in self.raw_calls(p, "PyList_Append"):
				o = c[2][1]
				l = set()
				for (b, off), v in p.mem.items():
					if b == o or b == ("at", o): leaves(norm(v), l)
				got.append(l)
			for l in got:
				if len(l) != 1 or x not in next(iter(l)): self.bad(f, "%s contains %s" % (what, ", ".join(sorted(l)) or "something else"), "value")
			most = max(most, len(got))
		if not most: self.bad(f, "%s never returns anything" % what, "never")
	def raw_calls(self, p, name): return [c for c in p.rawcalls if c[1] == name]
	def compare(self, f, what, x):
		for op, nm, fn in ((0, "<", lambda s: s < 0), (1, "<=", lambda s: s <= 0), (2, "==", lambda s: s == 0), (3, "!=", lambda s: s != 0), (4, ">", lambda s: s > 0), (5, ">=", lambda s: s >= 0)):
			seen = set()
			for p in self.paths(f, [("arg", "self"), ("arg", "a0"), ("i", op)]):
				v = p.one()
				if v not in (TRUE, FALSE): continue
				s = {-1, 0, 1}
				for (q, a, b), r in p.dec.items():
					if a != x or b != "0": continue
					s = {y for y in s if {"eq": y == 0, "slt": y < 0, "sgt": y > 0}.get(q, r) == r}
				if x not in p.calls or any((v == TRUE) != fn(y) for y in s):
					self.bad(f, "%s: a %s b is %s when %s is %s" % (what, nm, v, x, " or ".join({-1: "negative", 0: "0", 1: "positive"}[y] for y in sorted(s))), "cmp:%s" % nm)
				else: seen.add(v)
			if op in (0, 2) and seen != {TRUE, FALSE}: self.bad(f, "%s: objects cannot be compared with %s" % (what, nm), "cmp:%s" % nm)
	def next(self, f, what, P, xs):
		seen = set()
		for p in P:
			l = leaves(p.v, set())
			if self.failed(p, f):
				if any(p.status(x) is False for x in xs): continue
				for x in xs:
					if p.zero(x) is not True: self.bad(f, "%s ends although %s may have more" % (what, x), "end")
				continue
			if len(l) != 1 or not l <= set(xs): self.bad(f, "%s hands out %s" % (what, p.one()), "value"); continue
			x = next(iter(l))
			if p.status(x) is False or p.zero(x): self.bad(f, "%s hands out %s when there is none" % (what, x), "absent")
			seen |= l
		for x in set(xs) - seen: self.bad(f, "%s never hands out %s" % (what, x), "never")
	def element(self, a, y):
		"""Which element of a list a term is made from."""
		m = re.findall(r"Get_?Item\w*\(%s, (\d+)\)" % a, y)
		if not m: m = [int(x) // 8 for x in re.findall(r"\b%s\.24\.(\d+)" % a, y)]
		return int(m[-1]) if m else -1
	def search(self, f, what, P, mode, params, names):
		mode = self.modes[mode]
		idx = {}
		for k in params:
			if isinstance(k, int): idx[k] = "a%d" % k
			elif names and k in names: idx[k] = "a%d" % names.index(k)
		good = set()
		for p in P:
			if self.failed(p, f): continue
			l = leaves(p.v, set())
			flags = "1" if params.get("flattened") else "0"
			if "flatten" in params:
				z = p.zero(idx["flatten"])
				if z is None: self.bad(f, "%s does not look at the argument flatten" % what, "flat"); continue
				flags = "0" if z else "1"
			x = E_NEW % (mode, flags)
			if l != {x + "->"}: self.bad(f, "%s returns %s instead of %s" % (what, ", ".join(sorted(l)) or p.one(), x), "value"); continue
			for k, s in params.items():
				if k in ("flatten", "flattened"): continue
				a = idx.get(k)
				if a is None: self.bad(f, "%s has no argument %s" % (what, k), "arg"); continue
				given = not p.zero(a) if p.zero(a) is not None else None
				if isinstance(k, int): given = True
				setter = "loc_database_enumerator_set_%s(%s->, " % (s, x)
				c = [y for y in p.calls if y.startswith("loc_database_enumerator_set_%s(" % s)]
				if given is None: self.bad(f, "%s does not look at the argument %s" % (what, k), "arg:%s" % k); continue
				if not given:
					if c and not (s == "family" and c == [setter + "0)"]): self.bad(f, "%s asks for %s although the argument %s was not given" % (what, c[0], k), "arg:%s" % k)
					continue
				if s in SETTERS:
					fn, lst, new = SETTERS[s]
					if len(c) != 1 or not c[0].startswith(setter + lst + "_new("): self.bad(f, "%s does not search for the argument %s" % (what, k), "arg:%s" % k); continue
					app = [y for y in p.calls if y.startswith(lst + "_append(")]
					got = [self.element(a, y) for y in app if new + "(" in y]
					if sorted(got) != list(range(len(app))): self.bad(f, "%s: searches for the elements %s of the argument %s" % (what, ", ".join(map(str, got)) or "(none)", k), "item:%s" % k)
					if not any(b == str(len(app)) and (re.fullmatch(r"\w+\(%s\)" % a, x) or x == a and q != "eq") for q, x, b in p.dec): self.bad(f, "%s: does not search for all elements of the argument %s" % (what, k), "all:%s" % k)
					if app: good.add(k)
				else:
					if c != [setter + a + ")"]: self.bad(f, "%s does %s with the argument %s" % (what, ", ".join(c) or "nothing", k), "arg:%s" % k); continue
					good.add(k)
			for y in p.calls:
				m = re.match(r"loc_database_enumerator_set_(\w+)\(", y)
				if m and m.group(1) not in params.values(): self.bad(f, "%s: calls %s" % (what, y), "other")
			good.add(None)
		for k in [None] + [k for k in params if k not in ("flatten", "flattened")]:
			if k not in good: self.bad(f, "%s never succeeds%s" % (what, " with the argument %s" % k if k is not None else ""), "never:%s" % k)

# Lua

def number(x): return x[1] if x[0] == "i" else None

def lua_object(M, fn, args):
	n = number(args[1])
	p = ("p", ("obj", n), 0)
	M.st.mem.setdefault((p[1], 0), ("arg", "o%d" % n))
	return p
def lua_arg(M, fn, args): return ("arg", "a%d" % number(args[1]))
def lua_new(M, fn, args):
	p = ("p", ("new", sum(c[1] == "new" for c in M.st.calls)), 0)
	M.st.calls.append(("call", "new", (p,)))
	return p
def stop(M, fn, args): raise Stop

LUA = {"luaL_error": stop, "lua_error": stop, "luaL_argerror": stop, "lua_newuserdatauv": lua_new, "lua_newuserdata": lua_new, "luaL_checkudata": lua_object, "luaL_testudata": lua_object, "lua_touserdata": lua_object}
for n in ("string", "lstring", "number", "integer", "boolean"):
	for pre in ("luaL_check", "luaL_opt", "lua_to"):
		for post in ("", "x"): LUA[pre + n + post] = lua_arg

EXPECT_LUA = {
	("as", "new"): ("value", "loc_as_new(ctx, &, a1)->"), ("as", "get_name"): ("value", "loc_as_get_name(o1)"), ("as", "get_number"): ("value", "loc_as_get_number(o1)"),
	("country", "new"): ("value", "loc_country_new(ctx, &, a1)->"), ("country", "get_code"): ("value", "loc_country_get_code(o1)"), ("country", "get_name"): ("value", "loc_country_get_name(o1)"),
	("country", "get_continent_code"): ("value", "loc_country_get_continent_code(o1)"), ("country", "__eq"): ("same", "loc_country_cmp(o1, o2)"),
	("database", "created_at"): ("value", "loc_database_created_at(o1)"), ("database", "get_description"): ("value", "loc_database_get_description(o1)"), ("database", "get_license"): ("value", "loc_database_get_license(o1)"),
	("database", "get_vendor"): ("value", "loc_database_get_vendor(o1)"), ("database", "get_as"): ("value", "loc_database_get_as(o1, &, a2)->"), ("database", "get_country"): ("value", "loc_database_get_country(o1, &, a2)->"),
	("database", "lookup"): ("value", "loc_database_lookup_from_string(o1, a2, &)->"), ("database", "open"): ("value", "loc_database_new(ctx, &, fopen(a1, 'r'))->"),
	("database", "verify"): ("same", "loc_database_verify(o1, fopen(a2, 'r'))"),
	("database", "list_networks"): ("iterator", "loc_database_enumerator_new(&, o1, NETWORKS, 0)->", "loc_database_enumerator_next_network(o-1001001, &)->"),
	("network", "new"): ("value", "loc_network_new_from_string(ctx, &, a1)->"), ("network", "get_asn"): ("value", "loc_network_get_asn(o1)"), ("network", "get_country_code"): ("value", "loc_network_get_country_code(o1)"),
	("network", "get_family"): ("value", "loc_network_address_family(o1)"), ("network", "has_flag"): ("bool", "loc_network_has_flag(o1, a2)"), ("network", "reverse_pointer"): ("value", "loc_network_reverse_pointer(o1, a2)"),
	("network", "__tostring"): ("value", "loc_network_str(o1)"), ("network", "subnets"): ("both", "loc_network_subnets(o1, &, &)->"),
}

class LuaMembers(Members):
	def __init__(self, r, prog):
		self.r, self.prog, self.n = r, prog, 0
		self.M = Machine(prog, "lua", LUA)
	def paths(self, f, args):
		out = []
		for dec, v, mem, calls in self.M.run(f, [("arg", "L")]):
			p = Path(dec, ("g", "None"), mem, calls)
			p.results = []
			for c in calls:
				if c[1] == "new": p.results.append(norm(mem.get((c[2][0][1], 0), ZERO)))
				elif c[1] == "lua_pushnil": p.results.append(("g", NONE))
				elif c[1] == "lua_pushboolean": x = norm(c[2][1]); p.results.append(("g", TRUE if x[1] else FALSE) if x[0] == "i" else ("call", "PyBool", (x,)))
				elif c[1].startswith("lua_push"): p.results.append(("call", "push", tuple(norm(x) for x in c[2][1:])))
			if v == ZERO or not p.results: p.results.append(("g", NONE))
			p.v = p.results[-1]
			out.append(p)
		self.n += len(out)
		if not out: raise AnalysisError("%s: no paths" % f.name)
		return out
	def failed(self, p, f): return False
	def same(self, f, what, P, x):
		"""True if and only if what the library returns is zero."""
		seen = set()
		for p in P:
			v, z = p.one(), p.zero(x)
			if v in (TRUE, FALSE) and z is not None and (v == TRUE) == z: seen.add(v); continue
			if p.v[0] == "call" and p.v[1] == "PyBool" and p.v[2][0][0] == "call" and p.v[2][0][1] in ("eq", "not"): seen |= {TRUE, FALSE}; continue
			if v == NONE and x not in p.calls: continue
			self.bad(f, "%s returns %s when %s is %s" % (what, v, x, {True: "0", False: "not 0", None: "not known"}[z]), "bool")
		if seen != {TRUE, FALSE}: self.bad(f, "%s does not tell what %s says" % (what, x), "never")
	def iterator(self, f, what, P, x, y):
		"""A function that is bound to an enumerator, and what it hands out."""
		good = 0
		for p in P:
			c = [c for c in p.rawcalls if c[1] == "lua_pushcclosure"]
			if not c: continue
			l = [show(q) for q in p.results if q[0] == "out"]
			if l != [x]: self.bad(f, "%s searches %s instead of %s" % (what, ", ".join(l) or "nothing", x), "value"); continue
			g = next((u.fns[c[-1][2][1][1]] for u in self.prog.units if u.group == "lua" and c[-1][2][1][1] in u.fns), None)
			if g is None: raise AnalysisError("%s: what is iterated with is not known" % f.name)
			Q = self.paths(g, [])
			self.value(g, what, Q, y)
			good += 1
		if not good: self.bad(f, "%s never returns an iterator" % what, "never")
	def both(self, f, what, P, x):
		good = 0
		for p in P:
			stack, table = [], {}
			for c in p.rawcalls:
				if c[1] == "new": stack.append(norm(p.mem.get((c[2][0][1], 0), ZERO)))
				elif c[1].startswith("lua_push") or c[1] == "lua_createtable": stack.append(norm(c))
				elif c[1] in ("lua_rawseti", "lua_seti") and stack: table[number(c[2][2])] = stack.pop()
			if not table: continue
			if {k: (show(v), v[3:]) for k, v in table.items()} != {1: (x, (1,)), 2: (x, (2,))}: self.bad(f, "%s is made from %s" % (what, "; ".join("%s: %s" % (k, show(v)) for k, v in table.items())), "value"); continue
			good += 1
		if not good: self.bad(f, "%s never returns both" % what, "never")

def lua(r, lib):
	import luabind
	prog = program("lib", "lua")
	m = LuaMembers(r, prog)
	regs = {}
	for u in prog.units:
		if u.group != "lua": continue
		for fn, name in luabind.tables(prog).items():
			if fn in u.fns: regs[(os.path.basename(u.rel)[:-2], name)] = u.fns[fn]
	for (unit, name), spec in EXPECT_LUA.items():
		f = regs.get((unit, name))
		if f is None: r.report("member", "src/lua/%s.c" % unit, 0, unit, "the Lua class has no %s" % name, key="missing:%s.%s" % (unit, name)); continue
		P = m.paths(f, [])
		spec = [x.replace("NETWORKS", str(lib["LOC_DB_ENUMERATE_NETWORKS"])) for x in spec]
		getattr(m, spec[0])(f, "%s.%s of the Lua module" % (unit, name), P, *spec[1:])
	return len(EXPECT_LUA), m.n

# Perl

def shape(v):
	"""The library's answers in a term, with everything that is not one of them left out."""
	if v[0] in ("call", "out") and v[1].startswith("loc_"):
		if v[0] == "call" and REF.match(v[1]): return shape(v[2][0])
		return "%s(%s)%s" % (v[1], ", ".join("&" if x[0] in ("at", "&") else shape(x) or ("%d" % x[1] if x[0] == "i" else "_") for x in v[2]), "->" if v[0] == "out" else "")
	if v[0] in ("call", "out"):
		return next((s for s in map(shape, v[2]) if s), None)
	if v[0] == "ld" or v[0] == "p" and v[1][0] not in ("al", "new"): return shape(v[1])
	return None

NET, CTRY = "loc_database_lookup_from_string(_, _, &)->", "loc_database_get_country(_, &, _)->"
EXPECT_PERL = {
	"get_vendor": "loc_database_get_vendor(_)", "get_description": "loc_database_get_description(_)", "get_license": "loc_database_get_license(_)",
	"lookup_country_code": "loc_network_get_country_code(%s)" % NET, "lookup_asn": "loc_network_get_asn(%s)" % NET, "get_country_name": "loc_country_get_name(%s)" % CTRY,
	"get_continent_code": "loc_country_get_continent_code(%s)" % CTRY, "get_as_name": "loc_as_get_name(loc_database_get_as(_, &, _)->)",
	"database_countries": "loc_country_get_code(loc_database_enumerator_next_country(loc_database_enumerator_new(&, _, COUNTRIES, 0)->, &)->)",
}
SV = re.compile(r"^Perl_(newSV|sv_set)(pv|iv|uv|nv)")

def perl(r, lib):
	import perlbind
	prog = program("lib", "perl")
	fns = {f.name.split("_", 2)[2]: f for f in perlbind.entries(prog) if f.name.startswith("XS_Location_")}
	n = 0
	def bad(f, what, key): r.report("member", f.rel, f.line, f.name, what, key="%s:%s" % (f.name, key))
	M = Machine(prog, "perl", {"Perl_croak": stop, "Perl_croak_nocontext": stop, "Perl_croak_xs_usage": stop}, limit=20000)
	for name, x in EXPECT_PERL.items():
		f = fns.get(name)
		if f is None: r.report("member", "src/perl/Location.xs", 0, name, "the Perl module has no %s" % name, key="missing:" + name); continue
		x, good = x.replace("COUNTRIES", str(lib["LOC_DB_ENUMERATE_COUNTRIES"])), 0
		for dec, v, mem, calls in M.run(f, [("arg", "perl"), ("arg", "cv")]):
			n += 1
			for c in calls:
				if not SV.match(c[1]): continue
				for s in {shape(y) for y in c[2][1:]} - {None}:
					if s == x: good += 1
					else: bad(f, "%s of the Perl module is made from %s instead of %s" % (name, s, x), "value")
		if not good: bad(f, "%s of the Perl module never is what %s says" % (name, x), "never")
	f = fns.get("lookup_network_has_flag")
	if f is None: r.report("member", "src/perl/Location.xs", 0, "lookup_network_has_flag", "the Perl module has no lookup_network_has_flag", key="missing:lookup_network_has_flag")
	else:
		seen = set()
		flags = {k: v for k, v in lib.items() if k.startswith("LOC_NETWORK_FLAG_")}
		for dec, v, mem, calls in M.run(f, [("arg", "perl"), ("arg", "cv")]):
			n += 1
			asked = {y[1] for (q, a, b), z in dec.items() if q == "eq" and z and b == ZERO and a[0] == "call" and a[1].startswith("str") for y in a[2] if y[0] == "s"}
			for c in calls:
				if c[1] != "loc_network_has_flag": continue
				if len(asked) != 1: continue
				want = {flags.get(a) for a in asked}
				if want == {number(c[2][1])} and shape(c[2][0]) == NET: seen |= asked
				else: bad(f, "lookup_network_has_flag of the Perl module asks for %s when %s is wanted" % (show(norm(c[2][1])), " and ".join(sorted(asked))), "flag:%s" % sorted(asked)[0])
		for k in sorted(set(flags) - seen): bad(f, "lookup_network_has_flag of the Perl module never asks for %s" % k, "never:" + k)
	for name, x, true in (("lookup_network_has_flag", "loc_network_has_flag", False), ("verify", "loc_database_verify", True)):
		f = fns.get(name)
		if f is None: continue
		got = set()
		for dec, v, mem, calls in M.run(f, [("arg", "perl"), ("arg", "cv")]):
			n += 1
			said = [r == true for (q, a, b), r in dec.items() if q == "eq" and b == ZERO and a[0] == "call" and a[1] == x]
			val = [y[2] for (b, o), y in mem.items() if b != ("arg", "perl") and b[0] != "al" and y[0] == "p" and y[1] == ("arg", "perl") and isinstance(y[2], int)]
			if len(val) == 1 and len(said) < 2: got.add((bool(said and said[0]), val[0]))
		if not got: continue
		# The interpreter's true value lies before its false one
		lo, hi = min(y for _, y in got), max(y for _, y in got)
		if {t for t, _ in got} == {True} and lo == hi: continue
		if lo == hi: bad(f, "%s of the Perl module does not tell what %s says" % (name, x), "never")
		elif got != {(True, lo), (False, hi)}: bad(f, "%s of the Perl module is true when %s says no, or false when it says yes" % (name, x), "bool")
	return len(EXPECT_PERL) + 2, n

def constants(r, I):
	"""The module's constants are those of the library."""
	import glob
	lib, n = {}, 0
	for h in sorted(glob.glob(os.path.join(REPO, "src/libloc/*.h"))):
		for m in re.finditer(r"\b(LOC_\w+)\s*=\s*\(?\s*(\d+)(?:\s*<<\s*(\d+))?", open(h).read()): lib[m.group(1)] = int(m.group(2)) << int(m.group(3) or 0)
		for m in re.finditer(r"#define\s+(LOC_\w+)\s+\(?\s*(\d+)(?:\s*<<\s*(\d+))?", open(h).read()): lib.setdefault(m.group(1), int(m.group(2)) << int(m.group(3) or 0))
	for k, v in I["consts"].items():
		w = lib.get("LOC_" + k)
		if w is None or not isinstance(v, int): continue
		n += 1
		if v != w: r.report("constant", "src/python/locationmodule.c", 0, "PyInit__location", "%s is %d, the library's is %d" % (k, v, w), key="const:" + k)
	return n, lib

def check(tier):
	r = Result()
	prog = program("lib", "python")
	I = pynames.interface(prog)
	ncon, lib = constants(r, I)
	m = Members(r, prog, I)
	enum = open(os.path.join(REPO, "src/libloc/database.h")).read()
	m.modes = {k: lib.get("LOC_DB_ENUMERATE_" + {"AS": "ASES"}.get(k, k), lib.get("LOC_DB_ENUMERATE_" + k)) for k in ("AS", "COUNTRIES", "NETWORKS", "BOGONS")}
	if None in m.modes.values(): raise AnalysisError("kinds of enumerations not found: %s" % m.modes)
	seen = 0
	pub = lambda t: I["types"].get(t, re.sub("Type$", "", t))
	types = {pub(t): c for t, c in I["classes"].items()}
	types.update({re.sub("Type$", "", t): c for t, c in I["classes"].items()})
	for (cls, name), spec in EXPECT.items():
		c = types.get(cls)
		if c is None: raise AnalysisError("there is no type %s" % cls)
		if name.startswith("tp_"): fn, sig = c["slots"].get(name), None
		elif name.endswith("="): fn, sig = (c["attrs"].get(name[:-1]) or (None, None))[1], None
		elif name in c["attrs"]: fn, sig = c["attrs"][name][0], None
		else: fn, sig = c["methods"].get(name) or (None, None)
		if fn is None:
			r.report("member", c["unit"], 0, cls, "%s has no %s" % (cls, name), key="missing:%s.%s" % (cls, name))
			continue
		seen += 1
		m.check(cls, name, fn, spec, sig[2] if sig else None)
	seen_lua, n_lua = lua(r, lib)
	seen_perl, n_perl = perl(r, lib)
	r.rules = ["member", "constant"]
	r.obligations = m.n + ncon + n_lua + n_perl
	r.coverage = dict(members=seen, paths=m.n, constants=ncon, lua_members=seen_lua, lua_paths=n_lua, perl_functions=seen_perl, perl_paths=n_perl)
	r.explanation = "every path through every getter, setter, method, constructor, comparison and iterator of the Python module's types, every function of the Lua module's classes and of the Perl module, with the results of the library, of Python and of allocations unknown: what is returned, where None and False are returned, and what is called with which arguments, against what each member stands for; loops over lists are followed for up to two elements"
	r.assumptions = ["what the library's functions return is decided by the properties of the library", "parsing arguments succeeds, or else an exception is raised (P15)"]
	return r
