#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "engine"))
from vp import check
if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(check.do_replay(sys.argv[2], sys.argv[3]))
    if sys.argv[1] == "--setup":
        sys.exit(check.setup())
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(check.main(sys.argv[1], tier))
