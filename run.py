#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough]: decide one property of /repo."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import threading

sys.setrecursionlimit(60000)
threading.stack_size(512 * 1024 * 1024)


def main(out):
    from sa.check import run
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        out.append(run(sys.argv[1], tier, int(os.environ.get("VERIF_SEED", "1"))))
    except Exception as e:                      # analysis-broken is not a verdict
        import traceback
        traceback.print_exc()
        print("ERROR: %s: %s" % (type(e).__name__, e))
        out.append(2)


if __name__ == "__main__":
    res = []
    t = threading.Thread(target=main, args=(res,))
    t.start()
    t.join()
    sys.stdout.flush()
    sys.exit(res[0] if res else 2)
