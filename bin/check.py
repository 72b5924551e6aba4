#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sxlib, specs
def main():
    a = sys.argv[1:]
    v = "-v" in a
    a = [x for x in a if x != "-v"]
    if a and a[0] == "setup":
        sxlib.build_engine()
        return 0
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return sxlib.check(a[0], specs.PROPS[a[0]], tier, v)
try:
    rc = main()
except sxlib.CheckError as e:
    print("ERROR: %s" % e)
    rc = 2
sys.exit(rc)
