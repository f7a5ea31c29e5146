#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and harness/targets.json."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
t = json.load(open(os.path.join(V, "harness", "targets.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    m = t["properties"].get(i)
    if not m or "technique" not in m:
        na.append({"property": i, "reason": (m or {}).get("reason", "check under construction")})
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py " + i,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
        "technique": m["technique"],
        "level": "exploration",
        "level_note": m["note"],
    })
json.dump({"version": 1, "setup_cmd": "python3 check.py --build", "checks": checks,
           "not_applicable": na, "notes": "no hooks: the checks compile the sources of /repo as they are"}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
