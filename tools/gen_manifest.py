#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(HERE, "tools", "notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    n = NOTES.get(i)
    if n is None:
        na.append({"property": i, "reason": "check not built yet"})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
        "technique": n["technique"],
        "level": "exploration",
        "level_note": n["note"],
    })
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "Property-based testing with proptest (Rust) driving the crates in-process, a Python worker for the Python module and a subprocess for the command line. No hooks in /repo.",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
