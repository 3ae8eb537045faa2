#!/usr/bin/env python3
"""Confirm a planted bug:  plant.py SPEC.py [--no-tests] [--keep]

SPEC.py defines id, property, needs, what, edits = [(file, old, new)], demo (Python source).
Makes a scratch copy of /repo, applies the edits, runs the demonstration with and without,
the tests, and the check(s); writes seeded/<id>/ when build, tests and demonstration are as required.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
spec = {}
exec(open(sys.argv[1]).read(), spec)
work = tempfile.mkdtemp(prefix="plant_")
copy = os.path.join(work, "repo")
env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
           PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
env.pop("VERIF_REPO_DEV", None)
DEMO = """#!/bin/bash
# Exits 0 if the property holds, 1 otherwise. Run with the repository as working directory.
HERE="$(cd "$(dirname "$0")" && pwd)"
REPO="$PWD"
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
cd "$W"
PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$REPO" timeout 280 /opt/venv/bin/python "$HERE/demo.py"
"""
try:
    shutil.copytree("/repo", copy)
    subprocess.run(["git", "-C", copy, "checkout", "-q", "--", "."], check=True)
    for fn, old, new in spec["edits"]:
        p = os.path.join(copy, fn)
        s = open(p).read()
        assert s.count(old) == 1, (fn, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", copy, "diff"], check=True, capture_output=True, text=True).stdout
    d = os.path.join(work, "seeded")
    os.makedirs(d)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.py"), "w").write(spec["demo"].lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write(DEMO)
    json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["what"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    # Original lines only
    base = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.strip()
    a = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd="/repo", env=env, capture_output=True, text=True)
    b = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=copy, env=env, capture_output=True, text=True)
    ok = a.returncode == 0 and b.returncode != 0
    print(f"{spec['id']}: demo unchanged {a.returncode}, changed {b.returncode}: {(b.stderr or b.stdout).strip()[-200:]}")
    if a.returncode:
        print(a.stderr[-600:])
    tests = None
    if ok and "--no-tests" not in sys.argv:
        long = "zoidberg/test_volume_dommaschk.py"
        procs = []
        for name, args in (("long", [os.path.join(copy, long)]),
                           ("rest", [f"--ignore={os.path.join(copy, long)}", "--timeout=120", copy])):
            w = os.path.join(work, name)
            os.makedirs(w)
            if name == "long" and "--no-long" in sys.argv:
                continue
            procs.append(subprocess.Popen(
                [PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-p", "pytest_timeout", f"--rootdir={copy}", *args],
                cwd=w, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
        outs = [p.communicate()[0] for p in procs]
        tests = all(p.returncode == 0 for p in procs)
        print("   tests", "pass" if tests else "FAIL", [o.strip().splitlines()[-1] for o in outs])
    for prop in [spec["property"], *spec.get("also", [])]:
        e = dict(env, VERIF_REPO_DEV=copy, VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
        r = subprocess.run(["python3", os.path.join(HERE, "run.py"), "--property", prop, "--tier", "quick"],
                           cwd=HERE, env=e, capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if "VIOLATION" in l or l.startswith("#") or "ERROR" in l]
        print(f"   check {prop}: exit {r.returncode} {'CAUGHT' if r.returncode == 1 else 'MISSED'} {v[:2]}")
    if ok and tests and "--no-long" not in sys.argv:
        dest = os.path.join(HERE, "seeded", spec["id"])
        shutil.rmtree(dest, ignore_errors=True)
        shutil.copytree(d, dest)
        print("   kept", dest)
    else:
        print("   NOT kept", "(quick mode)" if ok else "")
finally:
    shutil.rmtree(work, ignore_errors=True)
