#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS, NA
root = os.path.dirname(HERE)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS + [n for n in NA]:
        assert len(p["title"]) <= 80, p["title"]
        rec = {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["forall"]}, "why_tests_cant": p["why"],
               "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
        f.write(json.dumps(rec) + "\n")
checks = []
for p in PROPS:
    checks.append({"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"], "thorough_cmd": "./check.sh %s thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": "symbolic execution of the real Python code, SMT-decided (z3, cvc5)", "level": "model_checking", "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [{"property": n["id"], "reason": n["reason"]} for n in NA],
     "notes": "No hooks in /repo. Every check imports /repo/src as it is at that moment, executes it on symbolic inputs and asks the solver for a violating input; see DESIGN.md."}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
