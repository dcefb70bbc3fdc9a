"""Ownership typestate over the whole C library (engine/own.py): P01, P02, P03."""
import time
import own
from common import *

BALANCE = {"leak", "use-after-release", "double-release", "over-release", "lost-field", "borrowed-store", "borrowed-return",
	"dangling-field", "destructor-misses-field", "refcount", "dangling-out"}

_cache = {}
def analyse(tier):
	if "r" in _cache:
		return _cache["r"]
	p = program("lib")
	ow = own.field_names(p, own.owning_fields(p))
	c = own.Contracts(p)
	opt = c.find_optional()
	if len(opt) < 4:
		raise AnalysisError("only %d optional fields were found" % len(opt))
	names = sorted(set(c.public) | own.address_taken(p))
	fns = [f for f in (c.public.get(n) or p.fn(n) for n in names) if f is not None]
	if len(fns) < 60:
		raise AnalysisError("only %d entry functions of the library were found" % len(fns))
	if len(ow) < 8:
		raise AnalysisError("only %d owning fields were found" % len(ow))
	# the costly ones first
	fns.sort(key=lambda f: -sum(len(b) for b in f.blocks))
	budget = 250000 if tier == "quick" else 1500000
	def one(f):
		ck, I = own.ownership(p, c, ow, f, budget=budget)
		return ck.reports, ck.stats, I.steps
	out = parallel(one, fns)
	_cache["r"] = (p, c, ow, fns, out)
	return _cache["r"]

def collect(tier, keep, rules, expl):
	p, c, ow, fns, out = analyse(tier)
	r = Result()
	r.rules = sorted(rules)
	undecided, steps, counts = [], 0, {}
	class K: pass
	for f, o in zip(fns, out):
		if o[0] == "ERR":
			undecided.append("%s: %s" % (f.name, o[1]))
			continue
		k = K(); k.reports = o[0]
		r.take(k, keep)
		steps += o[2]
		for n, v in o[1].items(): counts[n] = counts.get(n, 0) + v
	if len(undecided) > len(fns) // 10:
		raise AnalysisError("undecided: " + "; ".join(undecided[:5]))
	for u in undecided:
		print("UNDECIDED %s" % u)
	r.obligations = len(fns) - len(undecided)
	r.coverage = dict(entry_functions=len(fns), undecided=undecided, abstract_steps=steps, owning_fields=sorted("%s.%s" % k for k in ow), optional_fields=sorted("%s.%s" % k for k in c.optional), **{k.replace(" ", "_"): v for k, v in counts.items()})
	r.explanation = expl
	r.assumptions = ["malloc/realloc/strdup/asprintf/fopen/fdup/mmap may fail at every call; a failed call owns nothing",
		"lists hold fewer than 2^31 elements", "objects are used by one thread at a time",
		"contracts of the public functions (who owns what is handed out) are those in engine/own.py, and each body is checked against its own contract"]
	return r

def balance(tier):
	r = collect(tier, lambda r: r["rule"] in BALANCE, BALANCE,
		"every public function and callback of the C library is interpreted abstractly over all paths, with every fallible call both failing and succeeding; each path must release what it acquired exactly once and never use or hand out what it released; elements that leave a list are released or handed out, all of them when it is emptied")
	import elements
	p, c = _cache["r"][:2]
	fns = elements.functions(p)
	def one(x):
		ck = elements.analyse(p, c, *x)
		return ck.reports, ck.stats
	n = 0
	class K: pass
	for x, o in zip(fns, parallel(one, fns)):
		if o[0] == "ERR":
			r.coverage["undecided"].append("%s: %s" % (x[0].name, o[1]))
			continue
		n += 1
		k = K(); k.reports = o[0]
		r.take(k)
		for a, v in o[1].items(): r.coverage[a.replace(" ", "_")] = r.coverage.get(a.replace(" ", "_"), 0) + v
	r.obligations += n
	return r

def failing(tier):
	return collect(tier, lambda r: r["rule"] == "dangling-out" or r["rule"] == "leak" and r["key"].startswith("arg"), ["dangling-out", "leak-out"],
		"at every return of a public function with an out-parameter, on every path: a failing return leaves the caller's pointer either untouched or NULL")

def nullundef(tier):
	return collect(tier, lambda r: r["rule"] in ("null", "undef"), ["null", "undef"],
		"every pointer dereferenced or passed to a function that dereferences it is non-NULL and every value used is initialised, on all paths including failing allocations and lookups")
