"""Cutting networks out of a network: P30."""
import own, cut, cleanup, bits
from lookup_check import primitives
from common import *

def check(tier):
	p = program("lib")
	c = own.Contracts(p)
	b = 100000 if tier == "quick" else 400000
	r = Result()
	r.rules = ["overlaps", "subnet", "halves", "exclude", "list", "bits"]
	stats = {}
	if tier != "quick": bits.MARKS = range(8)
	undecided = primitives(p, r, stats, ("loc_address_increment",))
	for name, f in (("whether networks overlap", cut.overlaps), ("whether a network lies in another one", cleanup.subnets), ("halves of a network", cut.splitting), ("cutting one network out", cut.excluding), ("cutting out several networks", cut.several)):
		cks = f(p, c, b)
		if not cks: undecided.append(name)
		for ck in cks:
			r.take(ck)
			for k, v in ck.stats.items(): stats[k] = stats.get(k, 0) + v
	if not stats: raise AnalysisError("nothing to decide")
	r.obligations = sum(stats.values())
	r.coverage = {k.replace(" ", "_"): v for k, v in stats.items()}
	r.coverage["undecided"] = undecided
	r.explanation = "every way two networks can lie to each other against the table of what is left of one without the other, by induction over the levels; every path on which a part is dropped, broken down or kept"
	r.assumptions = ["networks are either nested or have no address in common", "lists are sorted"]
	return r
