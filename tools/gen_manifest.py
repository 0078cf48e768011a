#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the properties listed in CLAIMED."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = json.load(open(os.path.join(root, "tools", "techniques.json")))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks = []
for p in props:
    if p["id"] not in T: continue
    checks.append(dict(property=p["id"], quick_cmd=f"./check.sh {p['id']} --tier quick",
        thorough_cmd=f"./check.sh {p['id']} --tier thorough",
        technique=T[p["id"]]["technique"], level="exploration", level_note=T[p["id"]]["note"]))
na = [dict(property=p["id"], reason="no check yet") for p in props if p["id"] not in T]
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na), open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
