#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py, properties.jsonl and the reasons below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
    "C90": "Pure functions of their input: no schedule, clock, fault, I/O or shared state for a simulator to vary.",
    "C91": "Pure data generators used by tests and tools; deterministic functions of their input with nothing to simulate.",
    "C92": "A static mapping from configuration keys to constructors; no nondeterminism or fault is involved (reading the files is C18).",
    "C93": "The pose-graph and VinyX front ends do not build at this commit (missing headers, stale interfaces), so nothing can be simulated.",
}
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                            "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "Check not built yet.")})
m["notes"] = "Every check compiles its simulation from /repo's working tree; no hooks were needed in /repo (public interfaces, link-time interposition and stub ROS headers are the seams)."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
