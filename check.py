#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--job NAME] | check.py --replay FILE | check.py --setup"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, specs


def main(a):
    if "--setup" in a:
        vlib.build_engine()
        vlib.repo_bitcode()
        vlib.models_bitcode()
        vlib.native_objs(True)
        return 0
    if "--replay" in a:
        return vlib.replay_file(a[a.index("--replay") + 1], specs.SPECS)
    prop = a[0]
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    only = a[a.index("--job") + 1] if "--job" in a else None
    keep = a[a.index("--keep") + 1] if "--keep" in a else None
    try:
        return vlib.check(prop, specs.SPECS[prop], tier, int(os.environ.get("VERIF_SEED", "1")), only, keep)
    except vlib.BuildError as e:
        print("BUILD FAILED: %s" % e)
        return 3


sys.exit(main(sys.argv[1:]))
