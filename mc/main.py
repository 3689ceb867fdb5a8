import argparse
import os
import sys
import traceback


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--smoke", action="store_true", help="only see that the package can be imported")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int)
    a = ap.parse_args()
    if a.smoke:
        import popsynth

        from mc import rng, world

        print("popsynth of %s" % os.path.dirname(popsynth.__file__))
        return
    from mc import core

    try:
        rc = core.explore(a.property, a.tier, replay=a.replay, workers=a.workers)
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc) if rc == 2 else sys.exit(rc)


if __name__ == "__main__":
    main()
