#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["<!-- seeded -->", "| bug | caught by | what it breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(H, "seeded/*/meta.json"))):
    d = json.load(open(f))
    rows.append(f"| {f.split('/')[-2]} | {d.get('caught', d['property'])} | {d['what_it_breaks']} | {d['needs']} |".replace("\n", " "))
rows.append("<!-- /seeded -->")
p = os.path.join(H, "DESIGN.md")
t = open(p).read()
t = t.replace("SEEDTABLE", "<!-- seeded --><!-- /seeded -->")
t = re.sub(r"<!-- seeded -->.*?<!-- /seeded -->", lambda m: "\n".join(rows), t, flags=re.S)
open(p, "w").write(t)
