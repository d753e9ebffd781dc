#!/usr/bin/env python3
"""Writes MANIFEST.json from plans.py and properties.jsonl"""
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plans

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in plans.PLANS:
        na.append({"property": i, "reason": plans.NOT_APPLICABLE.get(i, "its check is not written yet")})
        continue
    pl = plans.PLANS[i]
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py " + i,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
        "technique": pl.get("technique", plans.TECHNIQUE),
        "level": pl.get("level", "exploration"),
        "level_note": pl.get("note", plans.NOTE),
    })
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. known_findings.txt lists the defects found: repaired (fixed:) and not (finding:)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
