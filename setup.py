#!/usr/bin/env python3
"""Builds every check's programs from /repo's working tree into /verif/.cache (checks rebuild what changed)."""
import glob, importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import vf
bad = 0
for f in sorted(glob.glob(os.path.join(vf.V, "checks", "*.py"))):
    n = os.path.basename(f)[:-3]
    if n == "__init__": continue
    try:
        importlib.import_module("checks." + n).build()
        print("built", n, flush=True)
    except vf.CheckError as e:
        print("build of %s failed: %s" % (n, e)); bad = 1
sys.exit(bad)
