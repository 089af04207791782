#!/usr/bin/env python3
"""run.py <PROPERTY-ID>: runs one check (tier and seed from VERIF_TIER, VERIF_SEED)."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__))))
from vlib import vf
def main():
    mod = importlib.import_module("checks." + sys.argv[1].lower())
    try:
        mod.main()
    except vf.CheckError as e:
        print("CHECK-ERROR property=%s: %s" % (sys.argv[1], e)); sys.exit(2)
    except Exception:
        traceback.print_exc(); sys.exit(2)
main()
