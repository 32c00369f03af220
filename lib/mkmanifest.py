#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of implemented checks."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
LEVEL = "model_checking"
T = {}
exec(open(os.path.join(root, "lib", "techniques.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
checks = []
for i in ids:
    if i in T:
        tech, note = T[i]
        checks.append(dict(property=i, quick_cmd=f"./check {i} --tier quick", thorough_cmd=f"./check {i} --tier thorough",
            evidence_file=f"evidence/{i}.json", technique=tech, level=LEVEL, level_note=note))
na = [dict(property=i, reason=NA.get(i, "check not built yet")) for i in ids if i not in T]
m = dict(version=1, setup_cmd="./setup", checks=checks, not_applicable=na,
    notes="No hooks are committed in /repo: instrumented copies of its sources are generated at check time and compiled through a build overlay.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
