#!/usr/bin/env python3
"""cov.py [PROP...]: lines of the library that no row of the checks executes"""
import ast, collections, glob, json, os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = sys.argv[1:] or [c["property"] for c in json.load(open(f"{H}/MANIFEST.json"))["checks"]]
C = "/tmp/actm.cov"
if os.environ.get("KEEP") != "1":
    if os.path.exists(C):
        os.unlink(C)
    for p in props:
        subprocess.run([f"{H}/bin/check", p, "quick"], cwd=H, env=dict(os.environ, ACTM_COV=C), capture_output=True)
seen = collections.defaultdict(set)
for l in open(C):
    f, n = l.strip().split(":")
    seen[f].add(int(n))
for path in sorted(glob.glob("/repo/src/actuarialmath/*.py")):
    f = os.path.basename(path)
    src = open(path).read()
    lines = src.splitlines()
    for fn in ast.walk(ast.parse(src)):
        if not isinstance(fn, ast.FunctionDef):
            continue
        body = fn.body[1:] if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else fn.body
        stm = {s.lineno for b in body for s in ast.walk(b) if isinstance(s, ast.stmt) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))}
        miss = sorted(stm - seen[f])
        if miss:
            print(f"{f}: {fn.name} ({len(miss)}/{len(stm)})")
            if len(miss) < len(stm):
                for n in miss:
                    print(f"      {n}: {lines[n - 1].strip()[:110]}")
