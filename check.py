#!/usr/bin/env python3
"""
usage: check.py PROPERTY [--tier quick|thorough]
"""
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from vp.domains import BY_PROPERTY  # noqa: E402
from vp.runner import run_check  # noqa: E402


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    try:
        return run_check(prop, tier, BY_PROPERTY[prop])
    except Exception:
        traceback.print_exc()
        print("ERROR: the machinery failed; nothing was decided")
        return 2


if __name__ == "__main__":
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    sys.exit(rc)
