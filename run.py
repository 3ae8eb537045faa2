#!/usr/bin/env python3
"""Run one check:  run.py --property C01 [--tier quick|thorough] [--replay FILE]

Re-executes itself with the interpreter which has the dependencies of zoidberg;
Hypothesis comes from the tooling environment (appended to the path, so that NumPy
etc. are those of zoidberg).  The code under test is imported from /repo.
"""

import os
import sys

PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))

if os.environ.get("ZVERIF_STAGE") != "1":
    env = dict(os.environ)
    env.update(
        ZVERIF_STAGE="1",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        MPLBACKEND="Agg",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
    )
    os.execve(PY, [PY, os.path.abspath(__file__), *sys.argv[1:]], env)

sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("VERIF_REPO_DEV", "/repo"))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")


def main():
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--law", action="append")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from vlib import harness

    try:
        # Never use bytecode lying about in /repo (but that of the libraries)
        import hypothesis  # noqa
        import netCDF4  # noqa
        import numpy  # noqa
        import scipy.interpolate  # noqa
        import scipy.spatial  # noqa
        import sympy  # noqa

        sys.pycache_prefix = "/nonexistent/zverif"
        import zoidberg

        assert os.path.abspath(zoidberg.__file__).startswith(harness.REPO + os.sep)
        if a.replay:
            return harness.replay(a.property, os.path.abspath(a.replay))
        return harness.run_property(a.property, a.tier, seed, only=a.law)
    except Exception:
        import traceback

        traceback.print_exc()
        return 2


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
