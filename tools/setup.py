#!/usr/bin/env python3
"""Nothing to build: the checks import the working tree of /repo. Verify that the tools are there."""
import subprocess
import sys

code = """
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import numpy, scipy, sympy, netCDF4, shapely, hypothesis
print("numpy", numpy.__version__, "scipy", scipy.__version__, "hypothesis", hypothesis.__version__)
"""
sys.exit(subprocess.run(["/opt/venv/bin/python", "-c", code]).returncode)
