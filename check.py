#!/usr/bin/env python3
"""check.py ID [--thorough]: decides one property from the current source of /repo."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from sa.report import run  # noqa: E402

if __name__ == "__main__":
    tier = "thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    ids = [a for a in sys.argv[1:] if not a.startswith("-")]
    rcs = [run(i, tier if tier in ("quick", "thorough") else "quick") for i in ids]
    sys.exit(max(rcs) if 2 not in rcs else 2)
