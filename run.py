#!/usr/bin/env python3
"""run.py <property> [quick|thorough]: decide one property.
   run.py setup: build the harness.   run.py replay <file>: show a violation again.
Exit 0: held on everything explored.  1: VIOLATION.  2: the check itself failed."""
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine
import checks


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    what = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if what == "setup":
        r = engine.Run("setup", "quick", seed)
        try:
            r.bin("full")
            r.bin("noalloc")
            r.bin("alloc")
        finally:
            r.cleanup()
        return 0
    if what == "replay":
        return checks.show(sys.argv[2])
    if what not in checks.CHECKS:
        print("unknown property", what)
        return 2
    r = engine.Run(what, tier, seed)
    try:
        try:
            checks.CHECKS[what](r)
        except engine.Violation as v:
            p = r.replay_file(dict(v.payload, what=v.why))
            r.evidence("model_checking", 1, {"violation": v.why[:2000]})
            print("  " + v.why[:1500])
            print(f"VIOLATION property={what} replay={p}", flush=True)
            return 1
        except engine.ToolError as e:
            print("TOOL ERROR:", e)
            return 2
        except Exception:
            traceback.print_exc()
            return 2
        r.evidence("model_checking", 0)
        r.log(f"{what}: held on everything explored")
        return 0
    finally:
        if not os.environ.get("KEEP_WORK"):
            r.cleanup()


sys.exit(main())
