#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from plan import PLAN, NOT_APPLICABLE, LEVEL_NOTE
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "./setup.sh",
     "checks": [], "not_applicable": []}
for p in props:
    if p in PLAN:
        m["checks"].append({"property": p, "quick_cmd": "./check.py %s --tier quick" % p, "thorough_cmd": "./check.py %s --tier thorough" % p,
            "technique": PLAN[p].get("technique", "deterministic simulation: seeded search over schedules and faults"),
            "level": PLAN[p].get("level", "exploration"), "level_note": PLAN[p].get("note", LEVEL_NOTE)})
    else:
        m["not_applicable"].append({"property": p, "reason": NOT_APPLICABLE[p]})
m["notes"] = "No hooks in /repo: pre-emption, memory and file seams are inserted by compiler instrumentation (-fsanitize-coverage=trace-pc) and -include redirection when the checks compile /repo's sources."
open(os.path.join(V, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
