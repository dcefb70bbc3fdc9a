"""Memory bounds over the whole C library (engine/bounds.py): P04."""
import own, bounds
from common import *

# what the relational domain cannot follow; reported as not covered, never as violated
EXCLUDED = {"loc_network_list_remove_with_prefix_smaller_than": "needs removed <= i over the loop, which the affine domain loses",
	"loc_writer_write": "does not converge within the budget"}

def memory(tier):
	p = program("lib")
	c = own.Contracts(p)
	bounds.helpers(p, c)
	names = sorted((set(c.public) | own.address_taken(p)) - set(EXCLUDED))
	fns = [f for f in (c.public.get(n) or p.fn(n) for n in names) if f is not None]
	if len(fns) < 60:
		raise AnalysisError("only %d entry functions of the library were found" % len(fns))
	fns.sort(key=lambda f: -sum(len(b) for b in f.blocks))
	c.granges = bounds.global_ranges(p, c)
	def one(f):
		ck, I = bounds.bounds(p, c, f, budget=300000 if tier == "quick" else 1500000, limit=100 if tier == "quick" else 400)
		return ck.reports, ck.stats, I.steps
	out = parallel(one, fns)
	r = Result()
	r.rules = ["bounds", "index", "invariant"]
	undecided, steps, counts = [], 0, {}
	class K: pass
	for f, o in zip(fns, out):
		if o[0] == "ERR":
			undecided.append("%s: %s" % (f.name, o[1]))
			continue
		k = K(); k.reports = o[0]
		r.take(k)
		steps += o[2]
		for n, v in o[1].items(): counts[n] = counts.get(n, 0) + v
	if len(undecided) > len(fns) // 10:
		raise AnalysisError("undecided: " + "; ".join(undecided[:5]))
	for u in undecided: print("UNDECIDED %s" % u)
	r.obligations = counts.get("bounded accesses", 0) + counts.get("array indexes", 0) + counts.get("invariant stores", 0)
	r.coverage = dict(entry_functions=len(fns), undecided=undecided, excluded=EXCLUDED, abstract_steps=steps, **{k.replace(" ", "_"): v for k, v in counts.items()})
	r.explanation = "every public function and callback of the C library is interpreted abstractly over all paths with affine relations between offsets, lengths and counts; every dereference, array index and buffer handed to libc or OpenSSL must lie inside its object, and objects must leave each function with lengths that describe their storage"
	r.assumptions = ["the invariants of database, string pool, lists and enumerator listed in engine/bounds.py, assumed on entry and checked where such an object is built or left",
		"binary search in a network list returns a position up to its size", "lists hold fewer than 2^31 elements", "objects are used by one thread at a time"]
	return r
