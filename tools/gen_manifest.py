#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of implemented checks."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
T = json.load(open(os.path.join(root, "tools", "checks.json")))
checks = []
for p in props:
    c = T["checks"].get(p["id"])
    if not c: continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "./check.sh %s quick" % p["id"],
        "thorough_cmd": "./check.sh %s thorough" % p["id"],
        "technique": c["technique"],
        "level": c.get("level", "exploration"),
        "level_note": c["note"],
    })
na = [{"property": p["id"], "reason": T["not_applicable"].get(p["id"], "check not built yet")} for p in props if p["id"] not in T["checks"]]
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed in /repo: everything is reached through the public API with a simulated serial port. See DESIGN.md."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
