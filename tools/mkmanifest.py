#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from plan import PLAN                                             # noqa: E402

ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in PLAN:
        continue
    p = PLAN[i]
    mods = sorted({m["module"] for m in p.get("models", [])})
    fams = sorted({c["trace"] for c in p["conformance"]})
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s quick" % i,
        "thorough_cmd": "python3 check.py %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "TLA+ specification checked with TLC%s; executions of the real code validated against it by TLC (%s)"
                     % (" (" + ", ".join(mods) + ")" if mods else "", ", ".join(fams)),
        "level": p.get("level", "model_checking"),
        "level_note": p["note"],
    })
m = {"version": 1, "setup_cmd": "sh setup.sh", "checks": checks,
     "not_applicable": [{"property": i, "reason": "its check is not built yet"} for i in ids if i not in PLAN],
     "notes": "No hooks: every check drives the public interface of /repo and needs no change to it."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
