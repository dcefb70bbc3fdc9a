#!/usr/bin/env python3
"""Decides one property of /repo's current working tree by static analysis.

    python3 check.py <property id> [--tier quick|thorough]

Exit 0: the property holds on everything analysed (known findings are printed as such).
Exit 1: violations, one "VIOLATION property=<id> replay=<path>" line each.
Exit 2: the analysis could not be carried out (source does not compile, an anchor is gone, nothing to analyse)."""
import importlib, json, os, re, subprocess, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("PYTHONHASHSEED") != "0":
	os.environ["PYTHONHASHSEED"] = "0"
	os.execv(sys.executable, [sys.executable, *sys.argv])
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.path.insert(0, os.path.join(HERE, "checks"))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True

import warnings; warnings.simplefilter("ignore", SyntaxWarning)
import frontend

# property -> (module, function)
TABLE = json.load(open(os.path.join(HERE, "checks", "table.json")))

def known(pid):
	"""Open findings: property, rule, function, key.  "fixed:" lines are a record and suppress nothing."""
	out = []
	for l in open(os.path.join(HERE, "known-findings.txt")):
		m = re.match(r"finding: property=(\S+) rule=(\S+) function=(\S+) key=(.*?) :: (.*)$", l.strip())
		if m and m.group(1) == pid:
			out.append(m.groups())
	return out

def main():
	pid = sys.argv[1]
	tier = os.environ.get("VERIF_TIER", "quick")
	if "--tier" in sys.argv:
		tier = sys.argv[sys.argv.index("--tier") + 1]
	t = time.time()
	evf = os.path.join(HERE, "evidence", pid + ".json")
	os.makedirs(os.path.dirname(evf), exist_ok=True)
	mod, fn = TABLE[pid]
	try:
		res = getattr(importlib.import_module(mod), fn)(tier)
		if not res.obligations:
			raise frontend.AnalysisError("nothing to analyse: no obligations were found")
	except frontend.AnalysisError as e:
		print("ERROR property=%s %s" % (pid, e))
		return 2
	except Exception:
		traceback.print_exc()
		print("ERROR property=%s internal error" % pid)
		return 2
	kn = known(pid)
	bad, listed = [], []
	for r in res.reports:
		k = next((k for k in kn if (k[1], k[2], k[3]) == (r["rule"], r["function"], r["key"])), None)
		if k: listed.append((k, r))
		else: bad.append(r)
	rd = os.path.join(HERE, "evidence", "replay")
	viol = []
	for k, r in listed:
		print("KNOWN-FINDING: property=%s %s [%s:%s %s]" % (pid, k[4], r["file"], r["line"], r["function"]))
	for n, r in enumerate(bad):
		os.makedirs(rd, exist_ok=True)
		p = os.path.join(rd, "%s-%d.txt" % (pid, n + 1))
		with open(p, "w") as f:
			f.write("property %s\nrule %s\nat %s:%s in %s\nkey %s\n%s\n" % (pid, r["rule"], r["file"], r["line"], r["function"], r["key"], r["message"]))
			for s in r.get("path", ()): f.write("  path: %s\n" % (s,))
		print("%s:%s: %s: [%s] %s" % (r["file"], r["line"], r["function"], r["rule"], r["message"]))
		for s in list(r.get("path", ()))[-8:]: print("    via %s" % (s,))
		print("VIOLATION property=%s replay=%s" % (pid, p))
		viol.append(dict(rule=r["rule"], file=r["file"], line=r["line"], function=r["function"], message=r["message"], replay=p))
	cov = dict(res.coverage)
	cov.setdefault("explanation", res.explanation)
	cov["obligations"] = res.obligations
	cov["rules"] = res.rules
	cov["known_findings"] = len(listed)
	ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=res.level, coverage=cov,
		assumptions=res.assumptions, wall_s=round(time.time() - t, 2), violations=viol)
	json.dump(ev, open(evf, "w"), indent=1, sort_keys=True)
	print("%s: %d obligations, %d violations, %d known findings, %.1f s" % (pid, res.obligations, len(bad), len(listed), time.time() - t))
	return 1 if bad else 0

if __name__ == "__main__":
	sys.exit(main())
