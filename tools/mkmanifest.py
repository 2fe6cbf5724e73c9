#!/usr/bin/env python3
"""MANIFEST.json from harness/targets.py (run: python3 tools/mkmanifest.py)."""
import json, os, sys
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(root, "harness"))
from targets import TARGETS
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in TARGETS:
        t = TARGETS[i]
        checks.append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
                       "technique": t["tech"], "level": "exploration", "level_note": t["note"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "No harness yet.")})
m = {"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": na,
     "notes": "./check <ID> [quick|thorough] builds the harness and the library sources from /repo's working tree (sanitizers on), generates cases from VERIF_SEED, shrinks failures and writes replays/; ./check <ID> --replay FILE replays one."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
