#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N]"""
import argparse, json, os, shutil, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import core, props


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    if a.prop not in props.CHECKS:
        print("unknown property", a.prop, file=sys.stderr)
        return 2
    ctx = core.Ctx(a.prop, a.tier, a.seed)
    p = props.CHECKS[a.prop]
    rc = 0
    try:
        p.run(ctx)
        ctx.evidence(p.level, 0, p.assumptions)
        print("OK property=%s tier=%s seed=%d traces=%d states=%d wall=%.1fs" % (
            a.prop, a.tier, a.seed, ctx.cov["traces_validated_against_impl"], ctx.cov["states"], time.time() - ctx.t0))
    except core.Violation as v:
        d = os.path.join(core.VERIF, "replays", a.prop)
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "seed%d-%s.json" % (a.seed, a.tier))
        with open(path, "w") as f:
            json.dump({"property": a.prop, "what": v.what, "record": v.record}, f, indent=1)
        ctx.evidence(p.level, 1, p.assumptions)
        print(v.what)
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
        rc = 1
    except core.ToolError as e:
        print("ERROR property=%s: %s" % (a.prop, e), file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    if not a.keep and rc != 2:
        shutil.rmtree(ctx.work, ignore_errors=True)
    return rc


if __name__ == "__main__":
    sys.exit(main())
