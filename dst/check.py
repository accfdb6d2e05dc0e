"""python -m dst.check <property> [--replay FILE] [--runs N] [--workers N]"""
import argparse
import os
import sys

from . import bootstrap


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    bootstrap.boot()
    from . import core
    from .worlds import find
    make = find(a.prop)
    if a.replay:
        return core.replay(make, a.replay)
    return core.check(make, a.tier, a.seed, a.runs, a.workers)


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
