#!/usr/bin/env python3
"""Rewrites ../properties.jsonl and ../MANIFEST.json from props.py and ../checks.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.path.insert(0, HERE)
from checks import CHECKS
from props import P, NOT_APPLICABLE
top = os.path.dirname(HERE)
keys = ["id", "title", "statement", "quantifier", "why_tests_cant", "anchors"]
with open(os.path.join(top, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({k: p[k] for k in keys}) + "\n")
checks = []
na = list(NOT_APPLICABLE)
for p in P:
    if p["id"] in CHECKS:
        checks.append(dict(
            property=p["id"], quick_cmd=f"python3 vp.py check {p['id']}",
            thorough_cmd=f"python3 vp.py check {p['id']} --tier thorough",
            evidence_file=f"evidence/{p['id']}.json",
            technique=p["technique"], level="exploration",
            level_note=p["note"] or "Holds on every generated case; the oracle is written independently of the "
            "code under test and never compares it with itself. Trusted: g++, sanitizers, rapidcheck, the oracle."))
    elif p["id"] not in [n["property"] for n in na]:
        na.append(dict(property=p["id"], reason="check not built yet"))
m = dict(version=1, setup_cmd="python3 vp.py setup", checks=checks, not_applicable=na,
         notes="No hooks in /repo: every check compiles a harness in harness/ against /repo's headers and sources. "
               "See DESIGN.md; defects repaired in /repo are listed in KNOWN_FINDINGS.txt.")
with open(os.path.join(top, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
