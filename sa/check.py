#!/usr/bin/env python3
"""check.py <property id>: decide one property on the current /repo tree."""
import importlib
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":     # same order of sets on every run
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "props"))
import core  # noqa: E402


def main():
    pid = sys.argv[1]
    try:
        m = importlib.import_module(pid.lower())
    except ModuleNotFoundError:
        print("ERROR no rules for property", pid)
        return 2
    try:
        return core.run(pid, m.TITLE, m.check, m.EXPLANATION)
    except RecursionError as e:
        print("ERROR property=%s analysis could not be carried out: %s" % (pid, e))
        return 2


if __name__ == "__main__":
    sys.exit(main())
