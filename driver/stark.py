"""Families of protocol histories: generated by StarkEnv, replayed in the implementation,
validated by StarkTrace."""
import json, re
from concurrent.futures import ThreadPoolExecutor
from .base import *

SIZES = {
    # variations per member: quick, thorough
    "honest": (4, 40), "redraw": (8, 40), "false": (2, 20), "big": (1, 1), "forge": (1, 3), "spot": (1, 8), "edit": (1, 2), "crowd": (1, 6), "deep": (1, 6), "narrow": (1, 8), "claim": (1, 4), "debug": (2, 30)}


def scenarios(ctx, fam, n):
    env = {"FAM": fam, "SEED": "%x" % (ctx.seed & 0xffffffff), "VARS": "%x" % n}
    scs = tlc(ctx, "StarkEnv", env=env, tag="-" + fam)
    scs.sort(key=lambda s: json.dumps(s, sort_keys=True))
    for k, s in enumerate(scs):
        s["id"] = k
    if not scs:
        raise ToolError("no scenarios for " + fam)
    return scs


def family(ctx, fam, keep=None, n=None):
    """-> list of (scenario, record, outcomes)"""
    n = n or SIZES[fam][0 if ctx.quick else 1]
    scs = scenarios(ctx, fam, n)
    if keep:
        scs = [s for s in scs if keep(s)]
    _, recs = run_jobs(ctx, "stark", scs, "-" + fam)
    res = {}
    chunk = 1500
    live = [r for r in recs if r.get("applied", True)]
    for c in range(0, len(live), chunk):
        path = ctx.path("recs-%s-%d.jsonl" % (fam, c))
        write_jsonl(path, live[c:c + chunk])
        for o in tlc(ctx, "StarkTrace", env={"RECS": path}, tag="-%s-%d" % (fam, c)):
            res.setdefault(o["id"], []).append(o)
    by = {r["id"]: r for r in recs}
    out = []
    for s in scs:
        r = by[s["id"]]
        os_ = res.get(s["id"], [])
        if r.get("applied", True):
            want = 1 + (1 if r["check"] == "full" and "verify" in r else 0)
            if len(os_) != want:
                raise ToolError("%s/%d: %d outcomes instead of %d" % (fam, s["id"], len(os_), want))
        out.append((s, r, os_))
    ctx.count("scenarios." + fam, len(scs))
    return out


def variants(ctx):
    """Other builds of the crate, whose proofs are to be the same."""
    return ("parallel",) if ctx.quick else ("parallel", "parallel", "release", "instruments")


def rebuilt(ctx, fam, results):
    """The validated runs again, in other builds: nothing but trace and options (no schedule, no
    earlier proof) enters the proof."""
    live = [(s, r) for s, r, _ in results if "proof0" in r]
    for feat in variants(ctx):
        jobs = [s for s, _ in reversed(live)]
        _, recs = run_jobs(ctx, "stark", jobs, "-%s-%s" % (fam, feat), feature=feat)
        by = {q["id"]: q for q in recs}
        for s, r in live:
            ctx.count("rebuilt." + feat)
            q = by[s["id"]]
            diff = [k for k in ("prove", "proof0", "plog", "verify", "vlog") if q.get(k) != r.get(k)]
            if diff:
                ctx.violation("%s in the %s build differs: %s" % (json.dumps(brief(s)), feat, ",".join(diff)), {"scenario": s})


def brief(s):
    d = {k: s[k] for k in ("id", "field", "air", "opts", "act") if k in s}
    d["T"] = s["trace"]["T"]
    if s["act"] == "forge":
        d["dev"] = {k: v for k, v in s["dev"].items() if v not in ("honest", "none", "ok", -1, False)}
    if s.get("edits"):
        d["edits"] = s["edits"][:3]
    for k in ("vopts", "vpub", "vdesc"):
        if k in s:
            d[k] = s[k] if k != "vdesc" else "changed"
    return d


def rap_short_trace(s, r, o):
    """A listed finding: building FibonacciRAP for a trace shorter than steps - 2 underflows."""
    ts = [int(e["d"], 16) for e in s.get("edits", []) if e["e"] == "T"]
    return (s["air"] == "rap" and o["m"] == "v" and o["real"] == "panic" and "subtract with overflow" in str(r.get("panic"))
            and bool(ts) and ts[-1] + 2 < int(str(s["pub"]["steps"]) if "steps" in s["pub"] else 0))


def judge(ctx, results, kinds, rec_kinds=("v", "p", "x", "d")):
    """Reports every disagreement whose name matches one of `kinds`."""
    for s, r, outs in results:
        fam = s["meta"]["fam"]
        # the examples' own generators make the statement's trace
        if "shipped" in r and "expected" in kinds and fam in ("honest", "big", "redraw"):
            ctx.count("generated." + s["air"])
            if r["shipped"] != s["trace"]["cols"]:
                ctx.violation("the trace generator of %s: another trace" % json.dumps(brief(s)), {"scenario": s, "generated": r["shipped"]})
        for o in outs:
            if o["m"] not in rec_kinds:
                continue
            ctx.count("traces")
            ctx.count("trans", o["steps"])
            ctx.count("%s.%s" % (fam, o["ph"]))
            for w in o["why"]:
                ctx.count("check." + w.split(":")[0])
            if o.get("again"):
                ctx.count("%s.z_again" % fam, o["again"])
            if len(o["why"]) == 1:
                ctx.count("only." + re.sub(r":\d+$", "", o["why"][0]))
            bad = [b for b in o["bad"] if any(re.fullmatch(k, b) for k in kinds)]
            if bad and rap_short_trace(s, r, o):
                ctx.finding("rap-short-trace", "FibonacciRAP panics on a trace shorter than the steps", {"scenario": s, "outcome": o})
            elif bad:
                ctx.violation("%s in %s: implementation %s, specification %s %s" % (
                    ",".join(bad), json.dumps(brief(s)), o["real"], o["ph"], o["why"]),
                    {"scenario": s, "record": {k: v for k, v in r.items() if k in ("prove", "verify", "panic", "id")}, "outcome": o})
            elif o["why"] or o["ph"] == "accept":
                ctx.sample({"scenario": brief(s), "implementation": o["real"], "specification": o["ph"], "failing_checks": o["why"]})
