from .base import *
from . import stark, cairo, cli

VERDICT = ["verdict", "expected", "prove"]


def fams(*names, kinds=VERDICT, keep=None, m=("v", "p", "x")):
    def f(ctx):
        for n in names:
            stark.judge(ctx, stark.family(ctx, n, keep), kinds, m)
    return f


CHECKS = {
    "C01": ("model_checking", fams("honest", "redraw", "big"), ""),
    "C03": ("model_checking", fams("false", "forge", "claim"), ""),
    "C04": ("model_checking", fams("forge", "spot", "crowd", "deep"), ""),
}


def bound_edit(x):
    return bool(x["edits"]) and all(e["e"] in ("val", "root", "path", "nonce") or e.get("op") == "swap" for e in x["edits"])


def c05(ctx):
    fams("spot", "edit", "crowd", "deep", keep=lambda s: not any(e["e"] == "T" for e in s.get("edits", [])))(ctx)
    cairo.stored(ctx, 30 if ctx.quick else 4, VERDICT, bound_edit)


def c06(ctx):
    fams("edit", "narrow")(ctx)
    fams("forge", keep=lambda s: s["act"] == "forge" and (s["dev"]["pad"]["w"] or s["dev"]["layers"] >= 0 or s["dev"]["nq"] >= 0))(ctx)
    cairo.damaged(ctx, *((1, 4) if ctx.quick else (4, 1)), VERDICT)


def c07(ctx):
    fams("honest", "redraw", "forge", "spot", kinds=["vlog", "plog"])(ctx)
    cairo.stored(ctx, 100 if ctx.quick else 20, ["vlog"])


def c02(ctx):
    kinds = ["prove", r"proof\..*"]
    for n in ("honest", "redraw", "big"):
        rs = stark.family(ctx, n)
        stark.judge(ctx, rs, kinds)
        stark.rebuilt(ctx, n, rs)
    cairo.repeated(ctx, "tight", 8 if ctx.quick else 100)
    cairo.repeated(ctx, "combo", 4 if ctx.quick else 60)
    if not ctx.quick:
        cairo.repeated(ctx, "long", 10)
        cairo.proofs(ctx, "tight", 100, record=100, kinds=kinds)


CHECKS["C02"] = ("model_checking", c02, "")
CHECKS["C05"] = ("model_checking", c05, "")
CHECKS["C06"] = ("model_checking", c06, "")
CHECKS["C07"] = ("model_checking", c07, "")


def c08(ctx):
    simple(ctx, "Grinding", "small", 24 if ctx.quick else 400)
    fams("forge", "claim", keep=lambda s: s["act"] != "forge" or s["dev"]["nonce"] == "bad" or s["meta"]["expect"] == "accept")(ctx)


CHECKS["C08"] = ("model_checking", c08, "")
CHECKS["C09"] = ("model_checking", lambda ctx: simple(ctx, "Options", "small"), "")


def sizes(ctx, **kw):
    return [(p, q if ctx.quick else t) for p, (q, t) in kw.items()]


def c13(ctx):
    k = ("exec:.*", "width", "rows", "build:.*")
    for p, n in sizes(ctx, combo=(0x7c, 0x600), mix=(20, 0x200), long=(6, 60)):
        cairo.traces(ctx, p, n, aux=False, execonly=True, kinds=k)
    cairo.traces(ctx, "far", 12 if ctx.quick else 200, execonly=True, kinds=k)
    simple(ctx, "CairoLump", "cairo", 1 if ctx.quick else 4, describe=lambda s: s["c"]["n"], kinds=k)


def c14(ctx):
    k = ("main:.*", "pub0", "pub", "build:.*")
    for p, n in sizes(ctx, combo=(40, 0x200), mix=(20, 0x200), tight=(60, 0x400), full=(16, 0x100), long=(8, 60), wide=(12, 100)):
        cairo.traces(ctx, p, n, aux=False, kinds=k)
    cairo.traces(ctx, "far", 2 if ctx.quick else 16, aux=False, kinds=k)
    simple(ctx, "CairoLump", "cairo", 1 if ctx.quick else 4, describe=lambda s: s["c"]["n"], kinds=k)


def c15(ctx):
    k = ("air:.*", "viol", "build:.*")
    for p, n in sizes(ctx, combo=(40, 0x200), tight=(60, 0x400), full=(16, 0x100), long=(6, 40), wide=(3, 20)):
        cairo.traces(ctx, p, n, kinds=k)
        cairo.proofs(ctx, p, n, record=(12 if ctx.quick else 150) if p == "tight" else (0 if ctx.quick else 10) if p == "combo" else 0)
    for p, n in sizes(ctx, mix=(64, 0x400)):
        cairo.proofs(ctx, p, n)
    # offsets at both ends of their range: 65536 rows
    if ctx.quick:
        cairo.proofs(ctx, "far", 1)
    else:
        cairo.proofs(ctx, "far", 6, feature="release")


CHECKS["C13"] = ("model_checking", c13, "")
CHECKS["C14"] = ("model_checking", c14, "")
CHECKS["C15"] = ("model_checking", c15, "")


def c16(ctx):
    cairo.frames(ctx, "step", 400 if ctx.quick else 3000, every=not ctx.quick)
    recs = cairo.built(ctx, "tight", 24 if ctx.quick else 200)
    cairo.cells(ctx, recs[:6 if ctx.quick else 60], col=lambda c, w: c < w)
    cairo.changes(ctx, "steps", recs, 12 if ctx.quick else 60)


def c17(ctx):
    cairo.frames(ctx, "aux", 152 if ctx.quick else 4000)
    for p, n in sizes(ctx, combo=(12, 0x100), tight=(40, 0x200), wide=(2, 10)):
        cairo.traces(ctx, p, n, kinds=("aux:.*", "build:.*"))
    recs = cairo.built(ctx, "tight", 40 if ctx.quick else 200)
    cairo.cells(ctx, recs[:8 if ctx.quick else 60], col=lambda c, w: c >= w)
    cairo.changes(ctx, "memory", recs, 16 if ctx.quick else 80)
    cairo.scaled(ctx, recs[:10])


def c18(ctx):
    recs = cairo.built(ctx, "tight", 24 if ctx.quick else 200)
    cairo.changes(ctx, "claim", recs, 16 if ctx.quick else 60)
    cairo.bound(ctx, "tight", 24 if ctx.quick else 200, None, 5 if ctx.quick else 40)
    cairo.bound(ctx, "combo", 24 if ctx.quick else 0x200, None, 0)
    cairo.bound(ctx, "full", 16 if ctx.quick else 0x40, None, 0)
    cairo.scaled(ctx, recs[:10])


def c22(ctx):
    stark.judge(ctx, stark.family(ctx, "debug"), ["debug"])
    for p, n in sizes(ctx, combo=(24, 0x100), tight=(24, 0x200), long=(3, 20)):
        cairo.traces(ctx, p, n, kinds=("valid",))
    recs = cairo.built(ctx, "tight", 24 if ctx.quick else 100)
    cairo.cells(ctx, recs[:2 if ctx.quick else 20], validate=True)


def c24(ctx):
    scs, recs, _ = simple(ctx, "Session", "pieces", 0x300 if ctx.quick else 0x2000, feature="pieces", chunk=400,
                          describe=lambda s: {"field": s["field"], "ops": [o["op"] for o in s["ops"]]})
    for sc, r in zip(scs, recs):
        for o, x in zip(sc["ops"], r["res"]):
            ctx.count("op." + o["op"])
            if o["op"] == "commit":
                ctx.count("layers", o["layers"])
                if 2 ** o["layers"] < len(o["poly"]):
                    ctx.count("commit.not_low_degree")
            if o["op"] == "query":
                ctx.count("openings", len(x["iotas"]) if isinstance(x, dict) else 0)


CHECKS["C24"] = ("model_checking", c24, "")
CHECKS["C23"] = ("model_checking", lambda ctx: simple(ctx, "Blocks", "small", 0x200 if ctx.quick else 0x3000, describe=lambda s: {k: s[k] for k in s if k != "ops"}), "")
CHECKS["C22"] = ("model_checking", c22, "")
CHECKS["C16"] = ("model_checking", c16, "")
CHECKS["C17"] = ("model_checking", c17, "")
CHECKS["C18"] = ("model_checking", c18, "")
CHECKS["C12"] = ("model_checking", lambda ctx: simple(ctx, "Decode", "cairo", 2 if ctx.quick else 40, describe=lambda s: s["insts"][:3]), "")


def wire(ctx, profile, n, nmut, ncut):
    env = {"PROFILE": profile, "NMUT": "%x" % nmut, "NCUT": "%x" % ncut}
    simple(ctx, "WireRun", "cairo", n, describe=lambda s: s.get("val") or s["c"], tag="-" + profile, gen_env=env, chk_env=env)


def real(ctx, n, nmut, ncut):
    """Proofs of runs, damaged on the wire and verified."""
    rs = [r for r in cairo.runs(ctx, "tight", n) if r["segs"]["out"] or r["segs"]["rc"]][:n]
    _, recs = run_jobs(ctx, "cairo", [dict(r, k="prove", opts=cairo.OPTS[(0, 2, 4)[r["id"] % 3]], rawwire=True) for r in rs], "-raw")
    path = ctx.path("real.jsonl")
    write_jsonl(path, [dict(proof=r["rawproof"], pubin=r["rawpub"], opts=r["opts"]) for r in recs if r.get("prove") == "ok"])
    env = {"PROFILE": "real", "NMUT": "%x" % nmut, "NCUT": "%x" % ncut, "REAL": path}
    simple(ctx, "WireRun", "cairo", n, describe=lambda s: len(s["proof"]) // 2, tag="-real", gen_env=env, chk_env=env)


def c10(ctx):
    wire(ctx, "proof", 40 if ctx.quick else 600, 24 if ctx.quick else 60, 400 if ctx.quick else 3000)
    wire(ctx, "lumpproof", 3 if ctx.quick else 12, 0, 0)
    real(ctx, 3 if ctx.quick else 40, 24 if ctx.quick else 100, 100 if ctx.quick else 400)


def c11(ctx):
    wire(ctx, "pub", 60 if ctx.quick else 1000, 24 if ctx.quick else 60, 1000 if ctx.quick else 3000)
    wire(ctx, "lumppub", 1 if ctx.quick else 6, 0, 0)
    real(ctx, 2 if ctx.quick else 20, 24 if ctx.quick else 100, 60 if ctx.quick else 400)


CHECKS["C10"] = ("model_checking", c10, "")
CHECKS["C11"] = ("model_checking", c11, "")
CHECKS["C19"] = ("model_checking", lambda ctx: simple(ctx, "Import", "cairo", 80 if ctx.quick else 1500, describe=lambda s: {"k": s["k"], "cases": [json.dumps(c)[:60] for c in s.get("cases", [])[:3]], "ops": [json.dumps(c)[:60] for c in s.get("ops", [])]}), "")


def c20(ctx):
    scs, recs, _ = simple(ctx, "Runner", "cairo", 0x60 if ctx.quick else 0x1000, gen_env={"GIVEN": cairo.given(ctx)},
                          describe=lambda s: {"v": s["v"], "text": s["text"][:300], "calls": s["calls"], "want": [w["s"] for w in s["want"]]})
    for s in scs:
        for w in s["want"]:
            ctx.count("calls.v%d.%s" % (s["v"], w["s"]))
    # the arguments prepared for the prover are the trace of the run
    ts = []
    for s, r in zip(scs, recs):
        w = s["want"][0]
        for a, c in zip(r["args"], s["argcalls"]):
            if a["s"] == "ok" and w["s"] == "ok":
                n = len(w["regs"])
                ts.append(dict(id=len(ts), of=s["id"], regs=w["regs"], mem=w["cells"], size=w["size"], segs=dict(rc=w["rc"], out=c["out"]),
                               exec=a["main"][:n], main=a["main"], pub=a["pub"], pub0=dict(a["pub"], rcmin=[], rcmax=[])))
                if a["asked"] != ("plain" if s["v"] else "small"):
                    ctx.violation("the arguments are prepared on layout %s" % a["asked"], {"scenario": s})
    cairo.judge(ctx, ts, ("exec:.*", "width", "rows", "main:.*", "pub0", "pub"), "args", {s["id"]: s for s in scs})


CHECKS["C20"] = ("model_checking", c20, "")
CHECKS["C21"] = ("model_checking", lambda ctx: cli.check(ctx, 0x60 if ctx.quick else 0x400, 120 if ctx.quick else 1500), "")
PENDING = {}
