#!/usr/bin/env python3
"""python3 check.py <property id>: decide one property from the sources in /repo."""
import gc
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":      # the same order of everything in every run
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
gc.disable()
sys.dont_write_bytecode = True

from sa.loader import AnalysisBroken  # noqa: E402
from sa.report import Report  # noqa: E402
from sa.rules import find  # noqa: E402


def main():
    prop = sys.argv[1]
    if prop == "--self-test":
        # nothing to build: parse the sources once and load every rule
        from sa.loader import Program
        from sa.rules import TABLE
        pr = Program()
        find("C01")
        print(f"{len(TABLE)} rule sets, {pr.n_modules} modules, {pr.n_functions} functions")
        return 0
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    R = Report(prop, tier, int(os.environ.get("VERIF_SEED", "1") or 1))
    try:
        find(prop)(R)
    except AnalysisBroken as ex:
        print(f"ANALYSIS-BROKEN property={prop} {ex}", file=sys.stderr)
        return 3
    return R.finish()


if __name__ == "__main__":
    sys.exit(main())
