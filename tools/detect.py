#!/usr/bin/env python3
"""Runs the check of its property against every planted bug in a scratch copy; writes tools/detected.json

tools/detect.py [ID ...]: for the detection table in DESIGN.md. Not part of any check.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

T = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(T)
OUT = os.path.join(T, "detected.json")


def main():
    found = json.load(open(OUT)) if os.path.exists(OUT) else {}
    have = sorted(os.listdir(os.path.join(V, "seeded")))
    found = {k: v for k, v in found.items() if k in have}
    for bug in sys.argv[1:] or have:
        d = os.path.join(V, "seeded", bug)
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        scratch = tempfile.mkdtemp()
        try:
            repo = os.path.join(scratch, "repo")
            shutil.copytree("/repo", repo, symlinks=True)
            subprocess.check_call(["git", "-C", repo, "apply", os.path.join(d, "patch.diff")])
            env = dict(os.environ, VERIF_REPO_DEV=repo, VERIF_SEED="1")
            r = subprocess.run(
                [sys.executable, os.path.join(V, "run.py"), "--property", prop, "--tier", "quick"],
                env=env,
                capture_output=True,
                text=True,
                cwd=V,
            )
        finally:
            shutil.rmtree(scratch)
        laws = re.findall(r"^# law ([^:]*):", r.stdout, re.M)
        caught = r.returncode == 1 and f"VIOLATION property={prop} " in r.stdout
        found[bug] = {"property": prop, "laws": laws if caught else []}
        print(bug, r.returncode, laws, flush=True)
        with open(OUT, "w") as f:
            json.dump(dict(sorted(found.items())), f, indent=1)
            f.write("\n")


main()
