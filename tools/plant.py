#!/usr/bin/env python3
"""plant.py SPECFILE: build /verif/seeded/<id>/ from a python file defining BUGS =
[dict(id, property, edits=[(file, old, new)], needs, breaks, demo)] and confirm each:
it applies, the stable tests pass, the demo passes without it and fails with it;
then say whether the property's quick check catches it (run with ACTM_REPO)."""
import json, os, subprocess, sys, shutil
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
SEED = "/verif/seeded"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
W = "/tmp/plant_wt"
for b in ns["BUGS"]:
    if only and b["id"] not in only:
        continue
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", W], check=True)
    d = os.path.join(SEED, b["id"])
    ok = True
    for f, old, new in b["edits"]:
        p = os.path.join(W, "src/actuarialmath", f)
        s = open(p).read()
        if s.count(old) != 1:
            print(b["id"], "EDIT does not match once:", f, s.count(old), repr(old)[:80]); ok = False; break
        open(p, "w").write(s.replace(old, new))
    if not ok:
        continue
    diff = subprocess.run(["git", "-C", W, "diff"], capture_output=True, text=True).stdout
    os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.py", "w").write(b["demo"].lstrip("\n"))
    open(f"{d}/demo.sh", "w").write('#!/bin/bash\n# run with cwd = the repository\nexport PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexport MPLCONFIGDIR=$(mktemp -d)\n/opt/venv/bin/python "$(dirname "$0")/demo.py"; rc=$?\nrm -rf "$MPLCONFIGDIR"\nexit $rc\n')
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(f"{d}/meta.json", "w"), indent=1)
    r0 = subprocess.run(["bash", f"{d}/demo.sh"], cwd="/repo", capture_output=True, text=True)
    r1 = subprocess.run(["bash", f"{d}/demo.sh"], cwd=W, capture_output=True, text=True)
    r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-x", "--co", "-q"], cwd=W, capture_output=True, text=True) if 0 else None
    # the stable tests on the planted copy
    open("/tmp/plant_rs.py","w").write(open("/opt/vp/run_scripts.py").read().replace("/repo", W)); sh = open("/opt/vp/test.sh").read().replace("/opt/vp/run_scripts.py","/tmp/plant_rs.py").replace("/opt/vp/reports","/tmp/plant_reports").replace("/repo", W)
    open("/tmp/plant_test.sh", "w").write(sh)
    subprocess.run(["bash", "/tmp/plant_test.sh", "/tmp/plant_out.json"], capture_output=True, text=True)
    passed = set(json.load(open("/tmp/plant_out.json"))["passed"])
    miss = STABLE - passed
    verdict = []
    if r0.returncode: verdict.append("DEMO FAILS UNCHANGED: " + (r0.stdout + r0.stderr)[-300:])
    if not r1.returncode: verdict.append("DEMO PASSES PLANTED")
    if miss: verdict.append(f"TESTS FAIL {sorted(miss)[:3]}")
    caught = {}
    for p in [b["property"]] + b.get("also", []):
        c = subprocess.run(["/verif/bin/check", p, "quick"], cwd="/verif", env=dict(os.environ, ACTM_REPO=W), capture_output=True, text=True)
        caught[p] = c.returncode
        first = [l for l in c.stdout.splitlines() if "first:" in l or "ERROR" in l]
        print("   ", p, c.returncode, (first or [c.stdout[-200:]])[0][:260])
    print(b["id"], "OK" if not verdict else verdict, "CAUGHT" if caught[b["property"]] == 1 else f"MISSED {caught}", flush=True)
    if verdict:
        shutil.rmtree(d)
shutil.rmtree(W, ignore_errors=True)
