#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the tables below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
exec(open(os.path.join(root, "scripts", "manifest_tables.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NOTES:
        checks.append({
            "property": i,
            "quick_cmd": f"scripts/check.sh {i} quick",
            "thorough_cmd": f"scripts/check.sh {i} thorough",
            "technique": "contract-based deductive verification: contracts on the Go code, obligations generated from its SSA form, discharged by SMT",
            "level": "proof",
            "level_note": NOTES[i] + " " + COMMON,
        })
    else:
        na.append({"property": i, "reason": REASONS.get(i, "no contract states it yet")})
m = {"version": 1, "setup_cmd": "scripts/setup.sh",
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
