#!/usr/bin/env python3
"""Entry point: check.py <property> [--tier quick|thorough].  Reads /repo's sources afresh, never imports them."""
import argparse
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(12000)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from sa.report import Check, AnalysisBroken
    from sa.registry import CHECKS
    if a.property not in CHECKS:
        print("no check for", a.property)
        return 2
    fn, level = CHECKS[a.property]
    c = Check(a.property, a.tier, seed, level)
    try:
        fn(c)
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (a.property, e))
        return 3
    return c.finish()


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 4
    sys.stdout.flush()
    os._exit(rc)
