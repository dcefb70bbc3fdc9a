"""Cleaning up the tree before it is written: P31."""
import own, cleanup, bits
from lookup_check import primitives
from common import *

def tree(tier):
	p = program("lib")
	c = own.Contracts(p)
	b = 60000 if tier == "quick" else 400000
	r = Result()
	r.rules = ["subnet", "properties", "merge", "duplicate", "replaced", "node", "bits"]
	stats = {}
	if tier != "quick": bits.MARKS = range(8)
	undecided = primitives(p, r, stats, ("loc_address_bit_length", "loc_address_increment"))
	for name, f in (("whether a network lies in another one", cleanup.subnets), ("comparison of properties", cleanup.properties), ("joining", cleanup.merging), ("steps of the walks", cleanup.stepping), ("nodes", cleanup.nodes)):
		cks = f(p, c, b)
		if not cks: undecided.append(name)
		n = {}
		for ck in cks:
			r.take(ck)
			for k, v in ck.stats.items(): n[k] = n.get(k, 0) + v
		for k, v in n.items(): stats[k] = stats.get(k, 0) + v
	if not stats: raise AnalysisError("nothing to decide")
	r.obligations = sum(stats.values())
	r.coverage = {k.replace(" ", "_"): v for k, v in stats.items()}
	r.coverage["undecided"] = undecided
	r.explanation = "every combination of what two networks have in common against the table of what may be taken for the same or joined; every path of a step of the walks: what is known about a network when it is removed; every path on which a node is removed or marked"
	r.assumptions = ["lists are sorted (P10) and of networks that could be joined the first comes first", "networks are either nested or have no address in common"]
	return r
