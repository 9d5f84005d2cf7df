#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/prebuild.py", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 tools/run_check.py " + i, "thorough_cmd": "python3 tools/run_check.py %s thorough" % i,
                            "technique": c.get("technique", "runtime monitoring: reference-model oracle over generated workloads, ASan+UBSan"),
                            "level": c.get("level", "exploration"),
                            "level_note": c.get("note", "Holds on the executions explored (counts in the evidence file); trusts the harness's reference model and the sanitizers.")})
    else:
        m["not_applicable"].append({"property": i, "reason": "No check yet: the technique applies, the machinery has not been built."})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not")
