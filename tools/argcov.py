#!/usr/bin/env python3
"""argcov.py [PROP...]: pairs of classes of arguments no row of the checks calls a function of the library with

KEEP=1 reuses the last recording.  ONLY=substring limits the functions listed."""
import collections, itertools, json, os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = sys.argv[1:] or [c["property"] for c in json.load(open(f"{H}/MANIFEST.json"))["checks"]]
C = "/tmp/actm.args"
if os.environ.get("KEEP") != "1":
    if os.path.exists(C):
        os.unlink(C)
    for p in props:
        subprocess.run([f"{H}/bin/check", p, "quick"], cwd=H, env=dict(os.environ, ACTM_ARGS=C), capture_output=True)
calls = collections.defaultdict(set)
for l in set(open(C)):
    f, cls, *args = json.loads(l)
    calls[f, cls].add(tuple(args))
only = os.environ.get("ONLY", "")
for (f, cls), seen in sorted(calls.items()):
    if only not in f + " " + cls or f.split(".")[-1].startswith("_"):
        continue
    n = len(next(iter(seen)))
    vals = [sorted({s[i] for s in seen}) for i in range(n)]
    print(f"{f} [{cls}] {len(seen)} combinations")
    print("    " + "  ".join(f"{v[0].split('=')[0]}:{','.join(a.split('=')[1] for a in v)}" for v in vals))
    for i, j in itertools.combinations(range(n), 2):
        miss = [f"{a} {b}" for a in vals[i] for b in vals[j] if not any(s[i] == a and s[j] == b for s in seen)]
        if miss:
            print("      never: " + "; ".join(miss))
