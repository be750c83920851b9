#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough] [--replay FILE]

Decides one property of /repo's current working tree.  Exit 0: held on
everything explored.  Exit 1 and a line VIOLATION: it does not hold.  Any
other exit: the machinery failed."""
import argparse, os, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import checks, conform, build


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", choices=["quick", "thorough"], default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    ap.add_argument("--replay")
    ap.add_argument("--budget", type=float, help="seconds (thorough tier)")
    a = ap.parse_args()
    if a.replay:
        return checks.replay(a.replay)
    return checks.run(a.property, a.tier, a.seed, a.budget)


if __name__ == "__main__":
    try:
        rc = main()
    except (conform.Machinery, build.BuildError) as e:
        print("MACHINERY: %s" % e, file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
