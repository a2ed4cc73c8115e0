"""python3 -m sa.run C01 [--tier quick|thorough] [--jobs N]"""
import argparse
import importlib
import os
import sys


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--jobs", type=int, default=None)
    a = ap.parse_args()
    from . import check
    rule = importlib.import_module("sa.rules." + a.property.lower())
    sys.exit(check.main(rule, a.property, a.tier, a.jobs))


if __name__ == "__main__":
    main()
