#!/usr/bin/env python3
"""Usage: check.py PROPERTY [--replay FILE]     (VERIF_SEED, VERIF_TIER from the environment)"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import checks, build


def main():
    prop = sys.argv[1]
    if prop == "setup":
        # nothing needs to persist: every check rebuilds from /repo; warm the object cache
        return checks.setup()
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    try:
        return checks.run(prop, replay)
    except build.BuildError as e:
        print("BUILD FAILED: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
