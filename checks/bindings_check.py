"""The language bindings: P14, P15 (Python), P16 (Lua, Perl), P20 (32-bit AS numbers)."""
import own, pybind, luabind, perlbind
from common import *

EXC = {"exception", "swallowed"}
ASN = {"asn"}

_cache = {}
def base(group):
	p = program("lib", group)
	c = own.Contracts(p); c.find_optional()
	return p, c, own.field_names(p, own.owning_fields(p))

def python(tier):
	if "python" not in _cache:
		p, c, ow = base("python")
		o2 = pybind.owning_fields(p)
		ow.update(o2)
		roles = pybind.roles(p)
		fns = [f for f in p.repo_fns() if f.unit.group == "python" and f.rel.startswith("src/python/") and (f.name in roles or f.name.startswith("PyInit_"))]
		if len(fns) < 60: raise AnalysisError("only %d functions that Python calls were found" % len(fns))
		budget = 250000 if tier == "quick" else 1500000
		fns.sort(key=lambda f: -sum(len(b) for b in f.blocks))
		def one(f):
			ck, I = pybind.analyse(p, c, ow, f, roles.get(f.name, {}), budget=budget)
			return ck.reports, ck.stats, I.steps, sorted(I.havoced_calls)
		_cache["python"] = (fns, parallel(one, fns))
	return _cache["python"]

def lua(tier):
	if "lua" not in _cache:
		p, c, ow = base("lua")
		types, regs = luabind.classes(p), luabind.tables(p)
		ow.update(luabind.owning_fields(p, set(types.values())))
		taken = own.address_taken(p)
		fns = [f for f in p.repo_fns() if f.unit.group == "lua" and (f.name in regs or f.name in taken or f.name.startswith("luaopen_"))]
		if len(fns) < 30 or len(types) < 5: raise AnalysisError("only %d functions and %d classes of the Lua module were found" % (len(fns), len(types)))
		def one(f):
			ck, I = luabind.analyse(p, c, ow, f, regs.get(f.name, ""), types)
			return ck.reports, ck.stats, I.steps, sorted(I.havoced_calls)
		_cache["lua"] = (fns, parallel(one, fns))
	return _cache["lua"]

def perl(tier):
	if "perl" not in _cache:
		p, c, ow = base("perl")
		fns = perlbind.entries(p)
		if len(fns) < 10: raise AnalysisError("only %d Perl functions were found" % len(fns))
		def one(f):
			ck, I = perlbind.analyse(p, c, ow, f)
			return ck.reports, ck.stats, I.steps, sorted(I.havoced_calls)
		_cache["perl"] = (fns, parallel(one, fns))
	return _cache["perl"]

def collect(parts, keep, expl, tier):
	r = Result()
	undecided, counts, steps, unknown, n = [], {}, 0, set(), 0
	class K: pass
	for part in parts:
		fns, out = part(tier)
		for f, o in zip(fns, out):
			if o[0] == "ERR":
				undecided.append("%s: %s" % (f.name, o[1])); continue
			n += 1
			k = K(); k.reports = {a: dict(b, file=b["file"].replace("Location.c", "Location.xs")) for a, b in o[0].items()}
			r.take(k, keep)
			steps += o[2]; unknown |= set(o[3])
			for a, b in o[1].items(): counts[a] = counts.get(a, 0) + b
	if len(undecided) > max(2, n // 10): raise AnalysisError("undecided: " + "; ".join(undecided[:5]))
	for u in undecided: print("UNDECIDED %s" % u)
	r.obligations = n
	r.coverage = dict(entry_functions=n, undecided=undecided, abstract_steps=steps, functions_without_a_model=sorted(unknown), **{a.replace(" ", "_"): b for a, b in counts.items()})
	r.explanation = expl
	return r

def references(tier):
	r = collect([python], lambda x: x["rule"] not in EXC | ASN,
		"every function the Python interpreter can call (methods, slots, getters, setters, module functions) is interpreted abstractly over all paths, each fallible call of the C API and of the library both succeeding and failing", tier)
	r.rules = ["leak", "over-release", "use-after-release", "lost-field", "borrowed-*", "dangling-*", "destructor-misses-field", "null", "undef", "cast", "format", "foreign-close"]
	r.assumptions = ["objects are constructed once, through their type", "reference rules of CPython's C API as modelled in engine/pybind.py", "the interpreter lock is held"]
	return r

def exceptions(tier):
	r = collect([python], lambda x: x["rule"] in EXC,
		"every return of every function the Python interpreter can call, on every path: an error result comes with a pending exception, a success result without one, and no failure of a fallible library call ends in the result a success ends in", tier)
	r.rules = ["exception", "swallowed"]
	r.assumptions = ["questions about an object (is/has/cmp functions and getters) do not fail"]
	return r

def scripts(tier):
	r = collect([lua, perl], lambda x: x["rule"] not in ASN,
		"every function registered with Lua and every Perl XSUB (through xsubpp) is interpreted abstractly over all paths including raised errors and croaks", tier)
	r.rules = ["leak", "over-release", "use-after-release", "null", "undef", "type", "results", "swallowed"]
	r.assumptions = ["Lua and Perl do not run out of memory", "undef/nil stands for absence and for failure in the Perl getters and in Lua's get_as and get_country"]
	return r

def asn(tier):
	r = collect([python, lua, perl], lambda x: x["rule"] in ASN,
		"every place at which a binding takes an AS number from, or hands one to, the language: conversions may not truncate, sign-extend or reject part of the 32-bit range", tier)
	r.rules = ["asn"]
	r.assumptions = ["conversions of Perl's typemap and of Lua's numbers to C are the languages' own"]
	if r.coverage.get("AS_numbers_handed_out", 0) < 4: raise AnalysisError("only %s places hand out AS numbers" % r.coverage.get("AS_numbers_handed_out", 0))
	return r
