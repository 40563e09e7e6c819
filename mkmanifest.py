#!/usr/bin/env python3
"""Writes MANIFEST.json from spec/props.json and properties.jsonl."""
import json
P = json.load(open("spec/props.json"))
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
NA = json.load(open("spec/na.json"))
checks = []
for i in ids:
    if i not in P:
        continue
    c = P[i]
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py {i}",
        "thorough_cmd": f"python3 check.py {i} --tier thorough",
        "technique": c.get("technique", "contracts on the functions of /repo, discharged by Verus"),
        "level": c.get("level", "proof"),
        "level_note": c["note"],
    })
json.dump({
    "version": 1,
    "setup_cmd": "python3 setup.py",
    "checks": checks,
    "not_applicable": [{"property": i, "reason": NA.get(i, "not built yet")} for i in ids if i not in P],
}, open("MANIFEST.json", "w"), indent=1)
