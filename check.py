#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--seed N]     decide a property
   check.py --replay FILE                             run one recorded case again

Exit 0: the property held on everything explored. Exit 1, with a VIOLATION line: it is
broken, and the case in the replay file shows it. Anything else is an error of the check."""
import argparse, os, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core, props

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true", help="check that the tools are there and warm the build cache")
    a = ap.parse_args()
    if a.replay:
        return core.replay(a.replay)
    if a.setup:
        return core.setup()
    run = core.Run(a.id, a.tier, a.seed)
    try:
        props.PROPS[a.id](run)
        return run.finish()
    finally:
        run.cleanup()

if __name__ == "__main__":
    try:
        rc = main()
    except core.Broken as e:
        print("ERROR: %s" % e, file=sys.stderr)
        rc = 3
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.exit(rc)
