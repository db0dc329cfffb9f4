#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, snapver/props.py and the reasons below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from snapver import props
NA = {}
DEFAULT_NA = "no check for this property has been built yet"
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    p = props.PROPS.get(i)
    if not p:
        continue
    checks.append({
        "property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": p.get("technique", "deductive verification: Verus contracts on functions extracted from /repo/src on every run"),
        "level": p.get("level", "proof"),
        "level_note": p["note"],
    })
m = {"version": 1, "setup_cmd": "./setup.sh",
     "checks": checks,
     "not_applicable": [{"property": i, "reason": NA.get(i, DEFAULT_NA)} for i in ids if i not in props.PROPS],
     "notes": "No hooks: the contracts are kept in /verif/contracts and woven into text taken from /repo/src on every run. Commits in /repo starting 'fix:' repair genuine defects (known_findings.json)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
