#!/usr/bin/env python3
"""python3 check.py C01 [...]: run the static checks for the given properties."""
import importlib
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
os.environ.setdefault("PYTHONHASHSEED", "0")

from sa.project import Project  # noqa: E402
from sa.report import finish  # noqa: E402

MODULES = {}
for fn in sorted(os.listdir(os.path.join(HERE, "sa", "checks"))):
    if fn[0] == "c" and fn.endswith(".py"):
        MODULES[fn.split("_")[0].upper()] = "sa.checks." + fn[:-3]


def main(argv):
    rc = 0
    for pid in argv:
        t0 = time.time()
        mod = importlib.import_module(MODULES[pid])
        rep = mod.run(Project(), os.environ.get("VERIF_TIER", "quick"))
        rc |= finish(rep, t0, getattr(mod, "LEVEL", "other"))
    return rc


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:] or sorted(MODULES)))
