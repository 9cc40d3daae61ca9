#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
T = json.load(open(os.path.join(V, "tools", "techniques.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T["checks"]:
        tech, note = T["checks"][i]
        checks.append({"property": i, "quick_cmd": "./check.py %s --tier quick" % i,
                       "thorough_cmd": "./check.py %s --tier thorough" % i,
                       "technique": tech, "level": "exploration", "level_note": note})
    else:
        na.append({"property": i, "reason": T["na"].get(i, "the check of this property is not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
