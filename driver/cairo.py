"""Cairo runs: generated by CairoGen, built by the implementation, judged by CairoTrace and
StarkTrace."""
import glob, hashlib, json, re
from .base import *

P = (1 << 251) + 17 * (1 << 192) + 1


def rnd(ctx, *a):
    """A field element determined by the seed."""
    return int.from_bytes(hashlib.sha256(repr((ctx.seed,) + a).encode()).digest(), "big") % P


def hx(n):
    return "%x" % n


_runs = {}


def runs(ctx, profile, n):
    key = (profile, n)
    if key not in _runs:
        rs = tlc(ctx, "CairoGen", env={"SEED": "%x" % (ctx.seed & 0xffffffff), "SIZE": "%x" % n, "MODE": "gen",
                                       "RECS": "/dev/null", "PROFILE": profile}, tag="-" + profile)
        if not rs:
            raise ToolError("no runs for " + profile)
        rs.sort(key=lambda r: (r["run"], json.dumps(r, sort_keys=True)))
        for k, r in enumerate(rs):
            r["id"], r["profile"] = k, profile
        for r in rs:
            for c in r["combos"]:
                ctx.cover.setdefault("_combos", set()).add(c)
        ctx.count("runs." + profile, len(rs))
        ctx.count("run.steps", sum(len(r["regs"]) for r in rs))
        ctx.count("run.jumps_taken", sum(r["taken"] for r in rs))
        ctx.count("run.revisits", sum(r["back"] for r in rs))
        ctx.count("run.rangecheck", sum(1 for r in rs if r["segs"]["rc"]))
        ctx.count("run.output", sum(1 for r in rs if r["segs"]["out"]))
        ctx.cover["run.flag_combinations"] = len(ctx.cover["_combos"])
        _runs[key] = rs
    return _runs[key]


def brief(r):
    return {k: r[k] for k in ("profile", "regs", "mem", "size", "segs") if k in r}


def judge(ctx, recs, kinds, tag, source):
    """CairoTrace on traces built elsewhere."""
    outs = []
    for c in range(0, len(recs), 400):
        p = ctx.path("trace-%s-%d.jsonl" % (tag, c))
        write_jsonl(p, recs[c:c + 400])
        outs += tlc(ctx, "CairoTrace", env={"SEED": "1", "SIZE": "1", "MODE": "chk", "RECS": p}, tag="-%s-%d" % (tag, c))
    if len(outs) != len(recs):
        raise ToolError("CairoTrace: %d outcomes for %d runs" % (len(outs), len(recs)))
    for o in outs:
        r = recs[o["id"]]
        ctx.count("traces")
        ctx.count("trans", o["steps"])
        bad = [b for b in o["bad"] if any(re.fullmatch(k, b) for k in kinds)]
        if bad:
            ctx.violation("%s: %s" % (tag, "; ".join(sorted(bad)[:6])), {"bad": o["bad"], "source": source[r["of"]]})


def traces(ctx, profile, n, aux=True, execonly=False, kinds=(), limit=None):
    """Builds traces and has CairoTrace judge them; reports what matches `kinds`."""
    rs = runs(ctx, profile, n)[:limit]
    jobs = []
    for r in rs:
        j = dict(r, k="trace")
        if aux and not execonly:
            j["ch"] = {c: hx(rnd(ctx, profile, r["id"], c)) for c in ("alpha", "zmem", "zrc")}
        if execonly:
            j["execonly"] = True
        jobs.append(j)
    tag = "-%s%s" % (profile, "-x" if execonly else "")
    _, recs = run_jobs(ctx, "cairo", jobs, tag)
    recs = [{**j, **r} for j, r in zip(jobs, recs)]
    by = {r["id"]: r for r in recs}
    outs = []
    for c in range(0, len(recs), 400):
        p = ctx.path("trace%s-%d.jsonl" % (tag, c))
        write_jsonl(p, recs[c:c + 400])
        outs += tlc(ctx, "CairoTrace", env={"SEED": "1", "SIZE": "1", "MODE": "chk", "RECS": p}, tag="%s-%d" % (tag, c))
    if len(outs) != len(recs):
        raise ToolError("CairoTrace: %d outcomes for %d runs" % (len(outs), len(recs)))
    for o in outs:
        r = by[o["id"]]
        ctx.count("traces")
        ctx.count("trans", o["steps"])
        if "main" in r:
            ctx.count("length.%d" % len(r["main"]))
        bad = [b for b in o["bad"] if any(re.fullmatch(k, b) for k in kinds)]
        if bad:
            ctx.violation("%s: %s" % (profile, "; ".join(sorted(bad)[:6])), {"run": brief(r), "bad": o["bad"], "panic": r.get("panic")})
        else:
            ctx.sample({"run": {k: r[k] for k in ("profile", "regs", "segs")}, "bad": []})


OPTS = [dict(blowup=2, nq=2, off="3", grind=1), dict(blowup=4, nq=3, off="3", grind=1), dict(blowup=8, nq=2, off="7", grind=0),
        dict(blowup=2, nq=9, off="3", grind=5), dict(blowup=16, nq=1, off="5", grind=3)]


def validate(ctx, tag, recs, kinds, m=("v", "p", "x")):
    """StarkTrace on recorded Cairo proofs."""
    path = ctx.path("stark-%s.jsonl" % tag)
    write_jsonl(path, recs)
    outs = tlc(ctx, "StarkTrace", env={"RECS": path}, tag="-cairo-" + tag)
    want = sum(1 + (r["check"] == "full" and "verify" in r) for r in recs)
    if len(outs) != want:
        raise ToolError("StarkTrace: %d outcomes instead of %d" % (len(outs), want))
    by = {r["id"]: r for r in recs}
    for o in outs:
        if o["m"] not in m:
            continue
        ctx.count("traces")
        ctx.count("trans", o["steps"])
        ctx.count("protocol.%s" % o["ph"])
        for w in o["why"]:
            ctx.count("check." + w.split(":")[0])
        bad = [b for b in o["bad"] if any(re.fullmatch(k, b) for k in kinds)]
        if bad:
            r = by[o["id"]]
            ctx.violation("%s: %s, implementation %s, specification %s %s" % (r.get("what", tag), ",".join(bad), o["real"], o["ph"], o["why"]),
                          {"statement": r["vdesc"], "opts": r["vopts"], "outcome": o})
    return outs


def srec(r, k, opts=None):
    """A StarkTrace record from a recorded prove job: full check."""
    d = {"kind": "cairo", "pub": r["pub"]}
    return dict(id=k, fld=r["fld"], opts=r["opts"], vopts=r["opts"], desc=d, vdesc=d, main=r["main"], proof=r["proof"],
                proof0=r["proof"], plog=r["plog"], vlog=r["vlog"], prove="ok", verify=r["vs"][0]["verify"], check="full",
                what="run", meta=dict(fam="cairo", expect="accept", samelog=True))


def proofs(ctx, profile, n, record=0, kinds=("verdict", "expected", "prove"), limit=None, feature=None):
    """Proves and verifies runs; the first `record` of them are also replayed in the prover and
    verifier machines."""
    rs = runs(ctx, profile, n)[:limit]
    jobs = [dict(r, k="prove", opts=OPTS[(0 if r["id"] < record else r["id"]) % len(OPTS)], rows=r["id"] < record,
                 record=r["id"] < record, claims=[{"tag": "wire", "wire": True}]) for r in rs]
    _, recs = run_jobs(ctx, "cairo", jobs, "-prove-" + profile, feature=feature)
    for j, r in zip(jobs, recs):
        ctx.count("proofs")
        what = r.get("panic") or (r.get("prove") if r.get("prove") != "ok" else None)
        if not what:
            for v in r["vs"]:
                if v["verify"] != "accept":
                    what = "the proof of a valid run is not accepted (%s%s)" % (v["verify"], ", after serialization" if v.get("tag") else "")
        if what:
            ctx.violation("%s run: %s" % (profile, what), {"run": brief(j), "opts": j["opts"]})
        else:
            ctx.count("proofs.T%d" % r["T"])
    live = [(j, r) for j, r in zip(jobs, recs) if j["record"] and r.get("prove") == "ok"]
    if live:
        validate(ctx, profile, [srec(r, j["id"]) for j, r in live], kinds)


def frames(ctx, profile, n, every=False, chunk=600):
    """Pairs of rows from CairoFrames: the implementation's constraints must reject exactly the
    ones the specification rejects."""
    rs = tlc(ctx, "CairoFrames", env={"SEED": "%x" % (ctx.seed & 0xffffffff), "SIZE": "%x" % n, "MODE": "gen", "RECS": "/dev/null",
                                      "PROFILE": profile, "ALL": "1" if every else "0"}, tag="-" + profile)
    rs.sort(key=lambda r: r["id"])
    if len(rs) != n:
        raise ToolError("CairoFrames: %d pairs instead of %d" % (len(rs), n))
    _, recs = run_jobs(ctx, "cairo", rs, "-frames-" + profile)
    only = set()
    for s, r in zip(rs, recs):
        res = r.get("res") or [{"panic": r.get("panic")}] * len(s["cases"])
        for case, why, got in zip(s["cases"], s["why"], res):
            ctx.count("traces")
            ctx.count("trans")
            ctx.count("frames.%s.%s" % (profile, "wrong" if why else "right"))
            if len(why) == 1:
                only.add(why[0])
            if (got["n"][0] if 0 in got.get("rows", []) else 0) != len(why) or "rows" not in got:
                ctx.violation("constraints on two rows: implementation %s, specification %s" % (
                    got.get("panic") or ("rejects by %d" % got["n"][0] if 0 in got["rows"] else "accepts"), "rejects by %s" % sorted(why) if why else "accepts"),
                    {"main": s["main"], "aux": s["aux"], "ch": s["ch"], "pub": s["pub"], "change": case, "broken": why})
        ctx.sample({"pair": {"flags": s["main"][0][:16], "change": s["cases"][-1]}, "broken": s["why"][-1]})
    ctx.cover["constraints_tested_alone." + profile] = sorted(only)


def built(ctx, profile, n, limit=None, keep=lambda r: True):
    """Traces built by the implementation, as records for CairoAttack; and the runs."""
    rs = [r for r in runs(ctx, profile, n) if keep(r)][:limit]
    jobs = [dict(r, k="trace", ch={c: hx(rnd(ctx, profile, r["id"], c)) for c in ("alpha", "zmem", "zrc")}) for r in rs]
    _, recs = run_jobs(ctx, "cairo", jobs, "-built-" + profile)
    out = []
    for j, r in zip(jobs, recs):
        if "aux" in r:
            out.append({**j, **r, "id": len(out)})
        else:
            ctx.violation("%s run: %s" % (profile, r.get("panic")), {"run": brief(j)})
    return out


def attack(ctx, profile, recs, n=1, tag=""):
    p = ctx.path("attack-%s%s.jsonl" % (profile, tag))
    write_jsonl(p, recs)
    o = tlc(ctx, "CairoAttack", env={"SEED": "%x" % (ctx.seed & 0xffffffff), "SIZE": "%x" % n, "MODE": "chk", "RECS": p, "PROFILE": profile},
            tag="-" + profile + tag)
    if not o:
        raise ToolError("CairoAttack %s did nothing" % profile)
    o.sort(key=lambda x: json.dumps(x, sort_keys=True))
    for k, x in enumerate(o):
        x["id"] = k
    return o


def cells(ctx, recs, col=lambda c, w: True, n=1, tag="", validate=False):
    """Every cell of full traces, changed one at a time."""
    o = attack(ctx, "cell", recs, n, tag)
    by = {}
    for x in o:
        if col(x["cell"]["col"], len(recs[x["rec"]]["main"][0])):
            by.setdefault(x["rec"], []).append(x)
    jobs = [dict(k="sat", id=i, pub=recs[i]["pub"], main=recs[i]["main"], aux=recs[i]["aux"], ch=recs[i]["ch"],
                 cases=[[x["cell"]] for x in xs], validate=validate) for i, xs in sorted(by.items())]
    _, res = run_jobs(ctx, "cairo", jobs, "-cells" + tag)
    for j, r in zip(jobs, res):
        for x, y in zip(by[j["id"]], r.get("res") or [{"panic": r.get("panic")}] * len(j["cases"])):
            ctx.count("traces")
            ctx.count("trans")
            ctx.count("cells.%s" % ("noticed" if x["rows"] or x["bnd"] else "free"))
            if (x["rows"], x["n"], x["bnd"]) != (y.get("rows"), y.get("n"), y.get("bnd")):
                ctx.violation("a changed cell %s: implementation %s, specification rejects rows %s%s" % (
                    x["cell"], y, list(zip(x["rows"], x["n"])), " and the boundary" if x["bnd"] else ""),
                    {"run": brief(recs[j["id"]]), "cell": x["cell"]})
            elif validate and y.get("valid") != (not x["rows"] and not x["bnd"]):
                ctx.violation("a changed cell %s: trace validation says %s, specification rejects rows %s%s" % (
                    x["cell"], y.get("valid"), list(zip(x["rows"], x["n"])), " and the boundary" if x["bnd"] else ""),
                    {"run": brief(recs[j["id"]]), "cell": x["cell"]})


UNTRUE = {"steps": "selector-unbound", "limbs": "rc-limbs-unbound", "value": "rc-value-unbound"}


def changes(ctx, profile, recs, n, prove=True):
    """Changed traces and statements: the constraints accept exactly those that say something
    true, and so does the verifier once they are proven."""
    o = attack(ctx, profile, recs, n)
    jobs = [dict(k="sat", id=x["id"], pub=x["pub"], main=x["main"], aux=x["aux"], ch=x["ch"], cases=[[]]) for x in o]
    _, res = run_jobs(ctx, "cairo", jobs, "-chg-" + profile)
    proofs_ = {}
    if prove:
        _, pr = run_jobs(ctx, "cairo", [dict(k="prove", id=x["id"], main=x["main"], pub=x["pub"], opts=OPTS[x["id"] % len(OPTS)]) for x in o],
                         "-chgp-" + profile)
        proofs_ = {r["id"]: r for r in pr}
    for x, r in zip(o, res):
        y = r["res"][0] if r.get("res") else {"panic": r.get("panic")}
        ctx.count("traces")
        ctx.count("trans", len(x["main"]))
        ctx.count("changed.%s" % ("rejected" if not x["ok"] else "true" if not x["untrue"] else "untrue"))
        det = {"run": brief(recs[x["rec"]]), "cells": x["cells"], "pub": x["pub"]}
        if (x["rows"], x["n"], x["bnd"]) != (y.get("rows"), y.get("n"), y.get("bnd")):
            ctx.violation("changed trace (%s): implementation %s, specification rejects rows %s%s" % (
                x["kind"], y, list(zip(x["rows"], x["n"])), " and the boundary" if x["bnd"] else ""), det)
        p = proofs_.get(x["id"])
        if p and p.get("prove") == "ok":
            v = p["vs"][0]["verify"]
            ctx.count("changed.proofs")
            if v != ("accept" if x["ok"] else "reject"):
                ctx.violation("proof of a changed trace (%s): verifier %s, specification %s" % (x["kind"], v, "accept" if x["ok"] else "reject"), det)
            elif v == "accept":
                for u in x["untrue"]:
                    ctx.finding(UNTRUE[u], "a proof of an untrue %s is accepted" % u, det)
        elif p:
            # the honest prover cannot even start on public memory that is not a program and an output
            ctx.count("changed.unprovable")


def scaled(ctx, recs):
    """A prover that scales the memory argument to fit a false claim."""
    jobs = [{"k": "scaled", "id": r["id"], **{k: r[k] for k in ("regs", "mem", "size", "segs")}, "opts": OPTS[1],
             "claim": {"f": "pmval", "a": hx(1 + r["id"] % r["size"]), "d": hx(1 + rnd(ctx, "scaled", r["id"]) % 9999)}} for r in recs]
    _, res = run_jobs(ctx, "cairo", jobs, "-scaled")
    for j, r in zip(jobs, res):
        ctx.count("traces")
        if r.get("verify") == "accept":
            ctx.finding("memory-start-unbound", "a proof of a changed program is accepted", {"run": brief(j), "claim": j["claim"]})
        elif r.get("verify") != "reject":
            ctx.violation("scaled memory argument: %s" % r, {"run": brief(j), "claim": j["claim"]})


def pubedits(r):
    """Claims that differ from the run's own, by name."""
    n, pm = len(r["regs"]), list(range(1, r["size"] + 1))
    out = [dict(f=f, d=d) for f in ("pc_init", "ap_init", "pc_final", "ap_final", "fp_init") for d in ("1", hx(P - 1), "10000", "100000000", "10000000000000000")]
    out += [dict(f=f, n=k) for f in ("rcmin", "rcmax") for k in (1, -1, 2) if not (f == "rcmin" and k < 0)]
    out += [dict(f="rcmin_none"), dict(f="rcmax_none")]
    out += [dict(f="steps", n=k) for k in (1, -1, 16, 64) if n + k > 0] + [dict(f="steps_set", n=0), dict(f="steps_set", n=1 << 40)]
    o = r["segs"]["out"]
    pub = pm + (list(range(int(o[0], 16), int(o[1], 16))) if o else [])
    pub = sorted(set(pub))
    mem = {int(a, 16): int(v, 16) for a, v in r["mem"]}
    for a in sorted({pub[0], pub[-1], pub[len(pub) // 2], pub[len(pub) // 3]}):
        out += [dict(f="pmval", a=hx(a), d="1"), dict(f="pmval", a=hx(a), d=hx(P - 1)), dict(f="pmdel", a=hx(a))]
    top = max(mem)
    out += [dict(f="pmaddr", a=hx(pub[-1]), d=hx(top + 7)), dict(f="pmadd", a=hx(top + 1), v="5"), dict(f="pmadd", a=hx(top + 1), v="0")]
    free = [a for a in mem if a not in pub]
    if free:
        out += [dict(f="pmadd", a=hx(free[0]), v=hx((mem[free[0]] + 1) % P)), dict(f="pmadd", a=hx(free[0]), v=hx(mem[free[0]]))]
    two = [(a, b) for a in pub for b in pub if a < b and mem.get(a) != mem.get(b)]
    if two:
        out.append(dict(f="pmswap", a=hx(two[0][0]), b=hx(two[0][1])))
    out.append(dict(f="segdel" if r["segs"]["rc"] else "segrc"))
    return out


def field_of(h):
    return int(h, 16) & ((1 << 251) - 1)


def bound(ctx, profile, n, limit, validated):
    """Proofs checked against claims other than their own."""
    rs = runs(ctx, profile, n)[:limit]
    jobs = [dict(r, k="prove", opts=OPTS[(0 if r["id"] < validated else r["id"]) % len(OPTS)], rows=True, record=True,
                 claims=[{"tag": json.dumps(e), "pubedit": e} for e in pubedits(r)]) for r in rs]
    _, recs = run_jobs(ctx, "cairo", jobs, "-bound-" + profile)
    again = []
    val = []
    for j, r in zip(jobs, recs):
        if r.get("prove") != "ok" or r["vs"][0]["verify"] != "accept":
            ctx.violation("%s run: no accepted proof: %s" % (profile, r.get("panic") or r.get("prove")), {"run": brief(j)})
            continue
        own = r["pub"]
        for v in r["vs"][1:]:
            same = v["pub"] == own
            ctx.count("claims.%s" % ("own" if same else json.loads(v["tag"])["f"]))
            ctx.count("traces")
            if same:
                if v["verify"] != "accept":
                    ctx.violation("own statement: %s" % v["verify"], {"run": brief(j), "claim": v["tag"]})
            elif v["verify"] != "reject":
                det = {"run": brief(j), "claim": v["tag"], "opts": j["opts"], "panic": v.get("panic")}
                if json.loads(v["tag"])["f"] == "fp_init" and v["verify"] == "accept":
                    ctx.finding("fp-init-unbound", "accepted with another initial fp", det)
                else:
                    ctx.violation("claim %s: verifier %s instead of reject" % (v["tag"], v["verify"]), det)
            else:
                ctx.sample({"run": {k: j[k] for k in ("regs", "segs")}, "claim": v["tag"], "verdict": "reject"})
        if j["id"] < validated:
            base = srec(r, 0)
            for k, v in enumerate(r["vs"]):
                if v["verify"] == "skip":
                    continue
                q = {x: base[x] for x in ("fld", "opts", "vopts", "desc", "proof", "proof0", "prove")}
                q.update(id=len(val), vdesc={"kind": "cairo", "pub": v["pub"]}, verify=v["verify"], check="verify",
                         what="claim %s" % v.get("tag"), meta=dict(fam="cairo", expect="any", samelog=False))
                val.append(q)
        # what a prover can do that chooses the claim after seeing the challenges
        ch = [field_of(x[1]) for x in r["plog"] if x[0] == "c"][:3]
        pmk = [(int(a, 16), int(v, 16)) for a, v in own["pm"]]
        if len(pmk) >= 2:
            again.append((j, r, ch, pmk))
    if val:
        validate(ctx, "claims", val, ("verdict",))
    posthoc(ctx, again)


def posthoc(ctx, again):
    jobs = []
    for j, r, (al, z, _), pm in again:
        (a1, v1), (a2, v2) = pm[0], pm[-1]
        key = lambda a, v: (z - a - al * v) % P
        w1 = (v1 + 1) % P
        k2 = key(a1, v1) * key(a2, v2) * pow(key(a1, w1), -1, P) % P
        w2 = (z - a2 - k2) * pow(al, -1, P) % P
        zero = (z - a1) * pow(al, -1, P) % P
        def with_(*new):
            d = dict(pm)
            d.update(new)
            return {**r["pub"], "pm": [[hx(a), hx(v)] for a, v in sorted(d.items())]}
        jobs.append({**{k: j[k] for k in ("regs", "mem", "size", "segs", "opts")}, "k": "prove", "id": len(jobs),
                     "claims": [{"tag": "two", "pub": with_((a1, w1), (a2, w2))}, {"tag": "zero", "pub": with_((a1, zero))}]})
    if not jobs:
        return
    _, recs = run_jobs(ctx, "cairo", jobs, "-posthoc")
    for j, r in zip(jobs, recs):
        for v in r["vs"][1:]:
            ctx.count("traces")
            ctx.count("posthoc." + v["tag"])
            det = {"run": brief(j), "claim": v["pub"]}
            if v["tag"] == "two" and v["verify"] == "accept":
                ctx.finding("claim-not-hashed", "two program cells changed after the fact", det)
            elif v["tag"] == "zero" and v["verify"] == "panic":
                ctx.finding("claim-not-hashed-panic", "a program cell chosen to make a denominator zero", det)
            elif v["verify"] != "reject":
                ctx.violation("claim chosen after the challenges (%s): verifier %s" % (v["tag"], v["verify"]), det)


GOLD = os.path.join(REPO, "benches", "proofs")


def edited(ctx, tag, job, logt, cols, opts, step, kinds, own="accept", keep=lambda x: True):
    """A Cairo proof (of a run, or stored) damaged in every way StarkEnv knows: the verdicts of the
    verifier against the expected ones and against the verifier machine's."""
    es = tlc(ctx, "StarkEnv", env=dict(FAM="cairo", SEED="%x" % (ctx.seed & 0xffffffff), VARS="1", CT="%x" % logt, CC="%x" % cols,
                                       CQ="%x" % opts["nq"], CB="%x" % opts["blowup"]), tag="-cairo-" + tag)
    es.sort(key=lambda x: json.dumps(x, sort_keys=True))
    es = [x for k, x in enumerate(filter(keep, es)) if (k + ctx.seed) % step == 0]
    job = dict(job, opts=opts, record=True, claims=[dict(tag=str(k), edits=x["edits"], record=True, **({"opts": x["opts"]} if x["opts"] else {}))
                                                    for k, x in enumerate(es)])
    _, (r,) = run_jobs(ctx, "cairo", [job], "-edited-" + tag)
    if "vs" not in r:
        ctx.violation("%s: no proof: %s" % (tag, r.get("panic") or r.get("prove")), {"job": tag})
        return
    recs = []
    for k, v in enumerate(r["vs"]):
        x = es[k - 1] if k else None
        if v["verify"] == "skip":
            continue
        expect = x["expect"] if x and own == "accept" else own
        d = {"kind": "cairo", "pub": v["pub"]}
        q = dict(id=len(recs), fld=r["fld"], opts=r["opts"], vopts=v.get("opts", r["opts"]), desc=d, vdesc=d, proof=v.get("proof", r["proof"]),
                 proof0=r["proof"], verify=v["verify"], vlog=v.get("vlog", r["vlog"]), plog=[], prove="ok", check="verify",
                 what="%s %s" % (tag, json.dumps(x and {k2: x[k2] for k2 in ("edits", "opts") if x[k2]})[:300]),
                 meta=dict(fam="cairo", expect=expect, samelog=False))
        recs.append(q)
    ctx.count("edited." + tag, len(recs))
    for c in range(0, len(recs), 400):
        validate(ctx, "%s-%d" % (tag, c), recs[c:c + 400], kinds)
    return recs


# proofs an earlier build made with the original libraries; the second one of a statement with
# another arithmetization, which no verifier of this revision accepts
STORED = [("fibonacci_70000", 19, "accept"), ("fibonacci_1000", 13, "reject")]


def stored(ctx, step, kinds, keep=lambda x: True):
    for name, logt, own in STORED:
        f = os.path.join(GOLD, name + ".proof")
        if os.path.exists(f):
            edited(ctx, name, dict(k="stored", file=f), logt, 52, dict(blowup=4, nq=3, off="3", grind=1),
                   step if own == "accept" else 10 * step, kinds, own, keep)


def damaged(ctx, n, step, kinds, keep=lambda x: True):
    """Proofs of n runs with and n without range checks."""
    rs = runs(ctx, "tight", 24 if ctx.quick else 200)
    for rc in (False, True):
        for j in [x for x in rs if bool(x["segs"]["rc"]) == rc and len(x["regs"]) > 2][:n]:
            o = OPTS[0]
            _, (r,) = run_jobs(ctx, "cairo", [dict(j, k="prove", opts=o)], "-damaged")
            edited(ctx, "run%d" % j["id"], dict(j, k="prove"), r["T"].bit_length() - 1, 61 if rc else 52, o, step, kinds, keep=keep)


def repeated(ctx, profile, n):
    """Proofs of runs made twice, and in other builds, are the same bytes."""
    from .stark import variants
    rs = runs(ctx, profile, n)[:n]
    jobs = [dict(r, k="prove", opts=OPTS[r["id"] % len(OPTS)], again=True) for r in rs]
    _, recs = run_jobs(ctx, "cairo", jobs, "-again-" + profile)
    for j, r in zip(jobs, recs):
        ctx.count("traces")
        if r.get("prove") != "ok" or not r["again"]:
            ctx.violation("%s run: proven twice: %s" % (profile, r.get("panic") or "two different proofs" if r.get("prove") == "ok" else r.get("prove")),
                          {"run": brief(j), "opts": j["opts"]})
    for feat in variants(ctx):
        _, qs = run_jobs(ctx, "cairo", list(reversed(jobs)), "-again-%s-%s" % (profile, feat), feature=feat)
        for j, r, q in zip(jobs, recs, reversed(qs)):
            ctx.count("rebuilt." + feat)
            if (r.get("prove"), r.get("digest"), r["vs"][0]) != (q.get("prove"), q.get("digest"), q["vs"][0]):
                ctx.violation("%s run: another proof in the %s build" % (profile, feat), {"run": brief(j), "opts": j["opts"]})


PROGS = os.path.join(REPO, "cairo_programs")


def fibonacci(n):
    """What the Cairo 0 compiler makes of cairo_programs/cairo0/fibonacci_*.cairo: a loop that
    carries two numbers and a counter."""
    return ["480680017fff8000", "1", "480680017fff8000", "1", "480680017fff8000", hx(n), "1104800180018000", "3", "208b7fff7fff7ffe",
            "20780017fff7ffd", "5", "480a7ffc7fff8000", "480a7ffc7fff8000", "208b7fff7fff7ffe", "482a7ffc7ffb8000", "480a7ffc7fff8000",
            "48127ffe7fff8000", "482680017ffd8000", hx(P - 1), "1104800180018000", hx(P - 10), "208b7fff7fff7ffe"]


def given(ctx):
    """Programs that are not generated, in the form of Runner.tla: the shipped Cairo 1 contracts
    and the Fibonacci loop."""
    h = lambda x: "%x" % int(x, 16)
    cell = lambda c: [c["register"], c["offset"]]
    opd = lambda x: {"im": h(x["Immediate"])} if "Immediate" in x else {"d": cell(x["Deref"])}
    out = []
    for f in sorted(glob.glob(os.path.join(PROGS, "cairo1", "*.casm"))):
        text = open(f).read()
        d = json.loads(text)
        hints = []
        for off, hs in d["hints"]:
            q = []
            for x in hs:
                (name, a), = x.items()
                if name not in ("AllocSegment", "TestLessThan", "TestLessThanOrEqual"):
                    raise ToolError("%s: hint %s" % (f, name))
                q.append(dict(h=name, dst=cell(a["dst"]), **({} if name == "AllocSegment" else dict(lhs=opd(a["lhs"]), rhs=opd(a["rhs"])))))
            hints.append([off, q])
        out.append(dict(v=1, builtins=[], data=[h(x) for x in d["bytecode"]], hints=hints, ids={"main": 0, "alt": 0}, text=text))
    for n in (0, 1, 10, 30) if ctx.quick else (0, 1, 10, 100, 500):
        out.append(dict(v=0, builtins=[], data=fibonacci(n), hints=[], ids={"main": 0, "alt": 9}))
    path = ctx.path("given.jsonl")
    write_jsonl(path, out)
    return path
