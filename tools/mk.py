#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the records in tools/props/*.py"""
import glob, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "driver"))
from plan import PLAN
P = {}
for f in sorted(glob.glob(os.path.join(H, "tools/props/*.py"))):
    ns = {}
    exec(open(f).read(), ns)
    for p in ns["PROPS"]:
        P[p["id"]] = p
NOTE = ("TLC checks the invariants of the specification in every state and the code is executed on every query/history the "
        "specification explores, compared with exact rational values. Trusted: TLC, the big-integer overrides (checked by "
        "RatCheck.tla), floating-point tolerance per row. Bounded to the catalogued and seed-drawn models and terms. ")
with open(os.path.join(H, "properties.jsonl"), "w") as o:
    for k in sorted(P):
        p = dict(P[k])
        p.pop("technique", None); p.pop("note", None)
        over = p.pop("over"); text = p.pop("quant")
        p["quantifier"] = dict(over=over, text=text)
        p["anchors"] = dict(files=p.pop("files"), mechanism=[dict(name=n, where=w) for n, w in p.pop("mech")],
                            observe_at=p.pop("observe"), hook_needed=None)
        o.write(json.dumps(p) + "\n")
M = dict(version=1, setup_cmd="bin/setup",
         checks=[dict(property=k, quick_cmd=f"bin/check {k} quick", thorough_cmd=f"bin/check {k} thorough",
                      technique=P[k]["technique"], level="model_checking", level_note=NOTE + P[k].get("note", ""))
                 for k in sorted(P) if k in PLAN],
         not_applicable=[dict(property=k, reason="check not built yet") for k in sorted(P) if k not in PLAN])
json.dump(M, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(M["checks"]), "checks")
