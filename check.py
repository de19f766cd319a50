#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]

Decides one property: builds the code under test from the current working tree, lets TLC work out
from the specification what has to be observed, and compares.
Exit 0: held on everything explored. Exit 1: VIOLATION line. Exit 2: no answer (does not build)."""
import argparse, json, os, sys, time, traceback
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import common


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    import checks
    t0 = time.time()
    ctx = checks.Ctx(a.property, a.tier, a.seed)
    try:
        if a.replay: sys.exit(checks.replay(ctx, a.replay))
        cov = checks.run(ctx)
    except checks.Violation as v:
        v.coverage.setdefault("samples", [])
        ctx.evidence(v.coverage, time.time() - t0, violations=1)
        print(v.text[:3000])
        print("VIOLATION property=%s replay=%s" % (a.property, v.replay))
        sys.exit(1)
    except common.Broken as b:
        print("NO ANSWER property=%s: %s" % (a.property, b))
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        print("NO ANSWER property=%s: the check itself failed" % a.property)
        sys.exit(2)
    finally:
        ctx.cleanup()
    ctx.evidence(cov, time.time() - t0)
    print("OK property=%s tier=%s seed=%d %.1fs" % (a.property, a.tier, a.seed, time.time() - t0))


if __name__ == "__main__": main()
