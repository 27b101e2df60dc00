#!/usr/bin/env python3
"""check.py ID [ID...]: decides the named properties on /repo's current tree."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
if os.environ.get("PYTHONHASHSEED") != "0":      # same run, same order, every time
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)


def main():
    rc = 0
    for pid in sys.argv[1:]:
        m = importlib.import_module("checks." + pid.lower())
        from sa import report
        rc = max(rc, report.run(pid, m.RULE, m.check))
    return rc


if __name__ == "__main__":
    sys.exit(main())
