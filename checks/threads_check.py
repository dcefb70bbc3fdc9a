"""State shared by threads: P32."""
import shared
from common import *

def check(tier):
	p = program("lib")
	r = Result()
	r.rules = ["state", "call"]
	s = shared.Shared(p)
	for rule, f, i, msg, key in s.run(): r.report(rule, f.rel, i.ln or f.line, f.name, msg, key=key)
	if not s.stats.get("stores"): raise AnalysisError("no stores")
	r.obligations = s.stats["stores"] + s.stats["calls"]
	r.coverage = {k.replace(" ", "_"): v for k, v in s.stats.items()}
	r.explanation = "every store, and every pointer passed to a function, in every function of the library against the variables that exist once per process; every call against the functions that are not thread-safe"
	r.assumptions = ["the C library, OpenSSL and the resolver are thread-safe where they are documented to be", "what is written with a lock held is only used with it"]
	return r
