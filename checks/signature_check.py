"""What signatures cover (engine/sig.py): P06 (verifying), P07 (signing)."""
import own, sig
from common import *

def run(tier, name, mode, need, expl):
	p = program("lib")
	ck, I = sig.analyse(p, own.Contracts(p), name, mode, budget=250000 if tier == "quick" else 1500000)
	r = Result()
	r.rules = need
	r.take(ck, lambda x: True)
	for k in ("reads checked", "digest updates checked", "successful returns checked", "signature checks" if mode == "verify" else "signatures made"):
		if not ck.stats.get(k): raise AnalysisError("%s: no %s" % (name, k))
	r.obligations = sum(ck.stats.values())
	r.coverage = dict(function=name, abstract_steps=I.steps, **{k.replace(" ", "_"): v for k, v in ck.stats.items()})
	r.explanation = expl
	r.assumptions = ["OpenSSL accepts a signature exactly when it returns 1", "only a read that ends early reaches the end of a file", "the file does not change meanwhile"]
	return r

def verifying(tier):
	return run(tier, "loc_database_verify", "verify", ["accepted", "coverage", "signature", "key"],
		"typestate of file position, of the bytes read and not yet fed, of the buffers' changes and of the digest, over all paths of the verifying function with every step failing or succeeding")

def signing(tier):
	return run(tier, "loc_writer_write", "sign", ["coverage", "signed-then-changed", "wrong-signature", "unsigned"],
		"the same typestate over all paths of the function that writes a database: every signature covers the whole file with blank signature fields, is made with each key given, and nothing that is signed changes afterwards")
