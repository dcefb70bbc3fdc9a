"""Lookups of addresses: P11."""
import own, walk, bits
from common import *

def primitives(p, r, stats, names=None):
	"""Bit by bit provenance of the primitives on addresses."""
	undecided = []
	for n, (msg, f) in bits.PRIMITIVES.items():
		if names and n not in names: continue
		g = p.fn(n)
		if g is None: undecided.append(n); continue
		try: res = f(p, g)
		except bits.Undecided as e:
			undecided.append("%s (%s)" % (n, e)); continue
		stats["bits decided in " + n] = len(res)
		bad = [i for i, ok in res if not ok]
		if bad: r.report("bits", g.rel, g.line, n, (msg % bad[0] if "%d" in msg else msg) + (" (and %d more)" % (len(bad) - 1) if len(bad) > 1 else ""), key=n)
	return undecided

def lookups(tier):
	p = program("lib")
	c = own.Contracts(p)
	b = 60000 if tier == "quick" else 400000
	r = Result()
	r.rules = ["bits", "path", "leaf", "specific", "gives-up", "inside", "network"]
	stats = {}
	undecided = primitives(p, r, stats, [n for n in bits.PRIMITIVES if n not in ("loc_address_bit_length", "loc_address_increment")])
	cks, f = walk.lookup(p, c, budget=b)
	if f is None: undecided.append("loc_database_lookup (not recursive)")
	for ck in cks + walk.insertion(p, c, budget=b) + walk.networks(p, c, budget=b):
		r.take(ck)
		for k, v in ck.stats.items(): stats[k] = stats.get(k, 0) + v
	for k in ("networks made", "cases of containment", "children handed out"):
		if not stats.get(k): raise AnalysisError("%s: none" % k)
	r.obligations = sum(stats.values())
	r.coverage = {k.replace(" ", "_"): v for k, v in stats.items()}
	r.coverage["undecided"] = undecided
	r.explanation = "which node, level and bit of the address a lookup and an insertion are at on every abstract path, by induction over the levels; where every bit of the primitives on addresses comes from"
	r.assumptions = ["the database was written by the library", "of an address only whether it is IPv4-mapped decides about its prefix"]
	return r

def enumeration(tier):
	import enumer
	p = program("lib")
	c = own.Contracts(p)
	b = 60000 if tier == "quick" else 400000
	r = Result()
	r.rules = ["filter", "walk", "leaf", "dropped", "unfiltered", "sequence", "flatten", "mode", "start", "contains", "bits"]
	stats = {}
	undecided = primitives(p, r, stats, ("loc_address_set_bit",))
	for name, f in (("matching against the filters", enumer.matching), ("walk over the tree", enumer.walking), ("records in sequence", enumer.sequences), ("flattening", enumer.flattening), ("setting of filters", enumer.setters), ("start", enumer.starts), ("helpers", enumer.helpers)):
		cks = f(p, c, budget=b)
		if not cks: undecided.append(name)
		for ck in cks:
			r.take(ck)
			for k, v in ck.stats.items(): stats[k] = stats.get(k, 0) + v
	for k in ("returns checked",):
		if not stats.get(k): raise AnalysisError("%s: none" % k)
	r.obligations = sum(stats.values())
	r.coverage = {k.replace(" ", "_"): v for k, v in stats.items()}
	r.coverage["undecided"] = undecided
	r.explanation = "every combination of filters against the table of what matches; one step of the enumeration from every state: which nodes are visited next, with which bit and depth, what is returned, dropped or kept; every record in sequence"
	r.assumptions = ["the database was written by the library", "the arithmetic on sets of networks (cutting subnets out, merging sorted lists) is right"]
	return r
