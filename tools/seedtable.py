#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/seednotes.json."""
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(f"{root}/tools/seednotes.json"))
rows = ["| planted bug | needs | caught by |", "|---|---|---|"]
for m in sorted(glob.glob(f"{root}/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(m)); j = json.load(open(m))
    rows.append(f"| {i} | {j['needs']} | {notes.get(i, {}).get('by', j['property'])} |")
missed = [f"* {i}: {n['missed']}" for i, n in sorted(notes.items()) if n.get("missed")]
text = "\n".join(rows) + "\n\nFirst missed, and what was strengthened:\n\n" + "\n".join(missed) + "\n"
d = open(f"{root}/DESIGN.md").read()
a, b = "<!-- seeds -->\n", "<!-- /seeds -->\n"
h, t = d.index(a) + len(a), d.index(b)
open(f"{root}/DESIGN.md", "w").write(d[:h] + text + d[t:])
