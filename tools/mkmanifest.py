#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from plans.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
import plans
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in plans.PLANS:
        m["checks"].append({
            "property": i,
            "quick_cmd": "python3 check.py " + i,
            "thorough_cmd": "python3 check.py " + i + " --thorough",
            "evidence_file": "evidence/%s.json" % i,
            "technique": plans.TECHNIQUE.get(i, "TLA+ specification checked with TLC; TLC validates traces recorded from the real code"),
            "level": "model_checking",
            "level_note": plans.NOTE.get(i, "Real-code executions sampled by seed are judged by TLC against the TLA+ specification.")})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
