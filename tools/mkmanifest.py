#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and lib/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in props.CHECKS:
        c = props.CHECKS[i]
        checks.append({
            "property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
            "technique": c.get("technique", "TLA+ specification checked with TLC; trace validation of the real solver against it"),
            "level": c.get("level", "model_checking"),
            "level_note": c.get("note", "TLC decides every recorded call of the real solver against spec/VarisatApi.tla; "
                 "histories are random (seeded) and generated from the specification's transitions. "
                 "Exhaustive only for the specification within its bounds; the code is bound by the observed histories.")})
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na,
     "notes": "TLA+ with TLC. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
