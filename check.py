#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property on /repo's working tree.
exit 0: held on everything explored; 1: violated; 2: could not decide."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    from vp import report, common
    from vp.registry import CHECKS
    try:
        r = report.Report(pid, tier)
        rc = CHECKS[pid](r, tier)
    except common.Broken as e:
        print("NO-ANSWER property=%s: %s" % (pid, e), flush=True)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)


main()
