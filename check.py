#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only CASE] [-v] [-j N]"""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int)
    a = ap.parse_args()
    from symx import runner
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    return runner.run_property(a.property, a.property.lower(), a.tier if a.tier in ("quick", "thorough") else "quick",
                               seed=seed, jobs=a.j, only=a.only, verbose=a.v)


if __name__ == "__main__":
    sys.exit(main())
