#!/usr/bin/env python3
"""check.py <property> [quick|thorough]"""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from driver import base
from driver.props import CHECKS


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    ctx = base.Ctx(prop, tier)
    level, fn, note = CHECKS[prop]
    try:
        fn(ctx)
    except base.ImplError as e:
        ctx.violation(str(e), {"see": ctx.work})
    except base.ToolError as e:
        print("ERROR %s: %s" % (prop, e))
        sys.exit(2)
    os.makedirs(os.path.join(base.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(base.VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(base.evidence(ctx, level, note), f, indent=1)
    for k in ctx.findings:
        n = ctx.known.get(k, 0)
        if n:
            print("KNOWN-FINDING: property=%s %s (%d cases)" % (prop, ctx.findings[k], n))
        else:
            print("note: known finding %s did not show" % k)
    print("%s %s: %s" % (prop, tier, json.dumps({k: v for k, v in ctx.cover.items() if k[0] != "_"})))
    if ctx.violations:
        for k, (w, d) in enumerate(ctx.violations[:5]):
            p = base.replay_file(ctx, str(k), {"what": w, "detail": d})
            print("VIOLATION property=%s replay=%s %s" % (prop, p, w[:600]))
        print("%d violations" % len(ctx.violations))
        sys.exit(1)
    base.cleanup(ctx)
    sys.exit(0)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
