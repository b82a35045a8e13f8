#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property on /repo's current tree."""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from engine import runner  # noqa: E402


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    v = "-v" in a
    mir = None
    if "--mir" in a:
        i = a.index("--mir")
        mir = a[i + 1]
        del a[i:i + 2]
    ids = [x for x in a if not x.startswith("-")]
    if ids == ["all"]:
        from engine.registry import PROPS
        ids = sorted(PROPS)
    rc = 0
    for pid in ids:
        rc |= runner.main(pid, tier if tier in ("quick", "thorough") else "quick", v, mir)
    sys.stdout.flush()
    return rc


if __name__ == "__main__":
    sys.exit(main())
