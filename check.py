"""Run one check: python3 check.py <property> [quick|thorough]"""

import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True

from sa.report import main  # noqa: E402


def run(pid):
    from checks.registry import CHECKS
    mod, fct, rule = CHECKS[pid]
    m = importlib.import_module("checks." + mod)
    return main(pid, rule, getattr(m, fct))


if __name__ == "__main__":
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    sys.exit(run(sys.argv[1]))
