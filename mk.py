#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py (run by hand after editing it)."""
import json, os
from props import PROPS, NA, NOTES
H = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(H, "properties.jsonl"), "w") as f:
	for p in PROPS:
		f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
table = {}
checks = []
na = []
for p in PROPS:
	if "check" in p:
		table[p["id"]] = p["check"]
		checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s --tier quick" % p["id"], thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
			evidence_file="evidence/%s.json" % p["id"], technique=p["technique"], level="other", level_note=p["level_note"]))
	else:
		na.append(dict(property=p["id"], reason=p["na"]))
json.dump(table, open(os.path.join(H, "checks", "table.json"), "w"), indent=1)
json.dump(dict(version=1, setup_cmd="python3 -c \"import sys; sys.path.insert(0,'engine'); import frontend; frontend.tool()\"", checks=checks, not_applicable=na, notes=NOTES), open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
