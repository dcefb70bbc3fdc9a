"""Failures are never reported as success (engine/errs.py): P05."""
import own, errs
from common import *

def swallowed(tier):
	p = program("lib")
	c = own.Contracts(p)
	names = sorted(set(c.public) | own.address_taken(p))
	fns = [f for f in (c.public.get(n) or p.fn(n) for n in names) if f is not None and f.ret != "void" and not errs.ASK.search(f.name)]
	if len(fns) < 60:
		raise AnalysisError("only %d functions that can fail were found" % len(fns))
	fns.sort(key=lambda f: -sum(len(b) for b in f.blocks) - (1000 if "enumerator_next_network" in f.name else 0))
	budget = 250000 if tier == "quick" else 1500000
	def one(f):
		ck, I = errs.errors(p, c, f, budget=budget)
		return ck.reports, ck.stats, I.steps
	r = Result()
	r.rules = ["swallowed"]
	undecided, steps, counts = [], 0, {}
	class K: pass
	for f, o in zip(fns, parallel(one, fns)):
		if o[0] == "ERR":
			undecided.append("%s: %s" % (f.name, o[1]))
			continue
		k = K(); k.reports = o[0]
		r.take(k, lambda x: True)
		steps += o[2]
		for n, v in o[1].items(): counts[n] = counts.get(n, 0) + v
	if len(undecided) > len(fns) // 10:
		raise AnalysisError("undecided: " + "; ".join(undecided[:5]))
	for u in undecided:
		print("UNDECIDED %s" % u)
	if counts.get("failing returns checked", 0) < 100:
		raise AnalysisError("only %d failing returns were reached" % counts.get("failing returns checked", 0))
	r.obligations = counts["failing returns checked"]
	r.coverage = dict(entry_functions=len(fns), undecided=undecided, abstract_steps=steps, **{k.replace(" ", "_"): v for k, v in counts.items()})
	r.explanation = "every function of the C library that reports a status is interpreted abstractly over all paths, with each allocation, I/O, OpenSSL and inner library call both failing and succeeding; a path on which one failed must return a failure"
	r.assumptions = ["functions that answer a question (comparisons, predicates, getters) are not status functions: " + errs.ASK.pattern,
		"a particular error code that the code compares for and handles is not a failure"]
	return r
