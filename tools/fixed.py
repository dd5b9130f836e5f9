#!/usr/bin/env python3
"""fixed.py PROP COMMIT...: records fix commits of /repo in known_findings.json"""
import json, subprocess, sys
F = "/verif/known_findings.json"
d = json.load(open(F))
for c in sys.argv[2:]:
    m = subprocess.run(["git", "-C", "/repo", "log", "-1", "--format=%h %s", c], capture_output=True, text=True).stdout.strip()
    h, s = m.split(" ", 1)
    d["fixed"].append(f"fixed: property={sys.argv[1]} {h} {s.removeprefix('fix: ')}")
d["fixed"] = sorted(set(d["fixed"]))
json.dump(d, open(F, "w"), indent=1)
