#!/usr/bin/env python3
"""check.py ID quick|thorough -- decides one property (see DESIGN.md)."""
import sys, os, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import checks_core, checks_flow, checks_blocks
CHECKS = checks_core.CHECKS

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    c = Check(pid, tier)
    try:
        CHECKS[pid](c)
        rc = c.finish()
    except Broken as x:
        print("CHECK BROKEN (no verdict): %s" % x); rc = 2
    except Exception:
        traceback.print_exc(); rc = 3
    shutil.rmtree(c.work, ignore_errors=True)
    sys.exit(rc)
main()
