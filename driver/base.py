"""Plumbing shared by the checks: building the harness, running TLC, running the
implementation, keeping evidence, and reporting."""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TARGET = os.path.join(VERIF, "target")


class ToolError(Exception):
    pass


class ImplError(Exception):
    """The implementation died or did not come back (panics are caught and judged; this is an
    abort, a stack overflow, exhausted memory or an endless loop)."""


class Ctx:
    """One run of one check."""

    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.quick = tier == "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.work = os.path.join(VERIF, "work", "%s-%s" % (prop, tier))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.t0 = time.time()
        self.deadline = self.t0 + (780 if self.quick else 6 * 3600)
        self.violations = []   # (what, detail)
        self.known = {}        # finding key -> count
        self.cover = {}        # evidence
        self.notes = []
        self.samples = []
        self.states = 0
        self.findings = load_findings(prop)

    def path(self, *a):
        return os.path.join(self.work, *a)

    # -- reporting ---------------------------------------------------------
    def count(self, key, n=1):
        self.cover[key] = self.cover.get(key, 0) + n

    def sample(self, x):
        if len(self.samples) < 5:
            self.samples.append(x)

    def violation(self, what, detail):
        self.violations.append((what, detail))

    def finding(self, key, what, detail):
        """A disagreement that matches a listed finding, or a violation."""
        if key in self.findings:
            self.known[key] = self.known.get(key, 0) + 1
        else:
            self.violation(what, detail)


def load_findings(prop):
    out = {}
    f = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def sh(cmd, timeout, cwd=None, env=None, out=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, stdout=out or subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=out is None)
    except subprocess.TimeoutExpired:
        raise ToolError("timed out: %s" % " ".join(cmd)[:200])
    return r


_built = {}


def cargo_env():
    return {"CARGO_NET_OFFLINE": "true", "RUSTFLAGS": os.environ.get("RUSTFLAGS", "") or "-Awarnings",
            "CARGO_TERM_COLOR": "never"}


def build(feature=None):
    """Compiles the harness (and with it /repo's current tree); returns the binary."""
    key = feature or ""
    if key in _built:
        return _built[key]
    tgt = TARGET if not feature else TARGET + "-" + feature
    cmd = ["cargo", "build", "--offline", "--target-dir", tgt]
    if feature == "release":
        cmd += ["--release"]
    elif feature:
        cmd += ["--features", feature]
    r = sh(cmd, 800, cwd=os.path.join(VERIF, "harness", "runner"), env=cargo_env())
    if r.returncode != 0:
        raise ToolError("harness does not build:\n" + r.stdout[-4000:])
    _built[key] = os.path.join(tgt, "release" if feature == "release" else "debug", "runner")
    return _built[key]


_classes = None


def classes():
    """Compiles TLC's overrides."""
    global _classes
    if _classes is None:
        d = os.path.join(VERIF, "work", "classes-%d" % os.getpid())
        os.makedirs(d, exist_ok=True)
        src = [os.path.join(SPEC, "java", f) for f in sorted(os.listdir(os.path.join(SPEC, "java"))) if f.endswith(".java")]
        r = sh(["javac", "-cp", TLA, "-d", d] + src, 300)
        if r.returncode != 0:
            raise ToolError("javac failed:\n" + r.stdout)
        _classes = d
    return _classes


def tlc(ctx, module, cfg=None, env=None, timeout=None, workers=8, extra=(), overrides=True, tag=""):
    """Runs TLC; returns the records the specification printed. An invariant violation or any
    other TLC error is a ToolError: the specifications hold on their own."""
    name = "%s%s" % (module, tag)
    out = ctx.path(name + ".out")
    meta = ctx.path(name + ".md")
    cp = TLA + (":" + classes() if overrides else "")
    os.makedirs(meta + ".tmp", exist_ok=True)
    cmd = ["java", "-Djava.io.tmpdir=" + meta + ".tmp", "-Xss512m", "-Xmx12g", "-XX:+UseParallelGC", "-cp", cp, "tlc2.TLC", "-workers", str(workers),
           "-deadlock", "-metadir", meta, "-noGenerateSpecTE", "-config", (cfg or module + ".cfg"), *extra, module + ".tla"]
    left = ctx.deadline - time.time()
    with open(out, "w") as f:
        sh(cmd, min(timeout or left, left), cwd=SPEC, env=env, out=f)
    for d in (meta, meta + ".tmp"):
        shutil.rmtree(d, ignore_errors=True)
    recs, errs, ok = [], [], False
    with open(out) as f:
        for l in f:
            if l.startswith('"@@'):
                try:
                    recs.append(json.loads(json.loads(l)[2:]))
                except ValueError:
                    raise ToolError("unreadable record from TLC: " + l[:300])
            elif "No error has been found" in l:
                ok = True
            else:
                m = re.match(r"(\d+) states generated, (\d+) distinct", l)
                if m:
                    ctx.states += int(m.group(2))
                if not l.startswith("Loading "):
                    errs.append(l)
    if not ok:
        raise ToolError("TLC on %s: %s" % (module, "".join(errs)[-3000:]))
    return recs


def write_jsonl(path, recs):
    with open(path, "w") as f:
        for r in recs:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")


def run_jobs(ctx, kind, jobs, tag="", feature=None, timeout=None, env=None):
    """Replays jobs in the implementation; returns the path of the records and the records."""
    b = build(feature)
    i, o = ctx.path("%s%s.in.jsonl" % (kind, tag)), ctx.path("%s%s.out.jsonl" % (kind, tag))
    write_jsonl(i, jobs)
    left = ctx.deadline - time.time()
    lim = min(timeout or left, left)
    try:
        os.makedirs(ctx.path("files"), exist_ok=True)
        r = sh([b, kind, i, o], lim, env={"VERIF_SCRATCH": ctx.path("files"), **(env or {})})
    except ToolError:
        raise ImplError("no answer to %d %s jobs within %d s" % (len(jobs), kind, lim))
    if r.returncode != 0:
        raise ImplError("runner %s died (%d): %s" % (kind, r.returncode, r.stdout[-2000:]))
    return o, [json.loads(l) for l in open(o)]


def replay_file(ctx, name, obj):
    d = os.path.join(VERIF, "work", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.json" % (ctx.prop, name))
    with open(p, "w") as f:
        json.dump(obj, f, indent=1)
    return p


def evidence(ctx, level, note):
    c = {k: v for k, v in ctx.cover.items() if not k.startswith("_")}
    cov = {
        "states": ctx.states,
        "transitions": c.pop("trans", 0),
        "traces_validated_against_impl": c.pop("traces", 0),
        "samples": ctx.samples,
        "counts": c,
        "known_findings_seen": ctx.known,
    }
    if level == "exploration":
        cov["evaluations"] = cov["traces_validated_against_impl"]
        cov["distinct_nontrivial"] = cov["traces_validated_against_impl"]
        cov["rule"] = note
    return {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level, "coverage": cov,
            "assumptions": ctx.notes, "wall_s": round(time.time() - ctx.t0, 1), "violations": len(ctx.violations)}


def cleanup(ctx):
    shutil.rmtree(ctx.work, ignore_errors=True)
    if _classes:
        shutil.rmtree(_classes, ignore_errors=True)


def pair(ctx, module, kind, size=1, tag="", gen_env=None, chk_env=None, chunk=4000, jobs_filter=None, feature=None):
    """A generator/checker module: TLC generates scenarios, the implementation runs them, TLC
    judges the records. Returns (scenarios, records, outcomes by id)."""
    base = {"SEED": "%x" % (ctx.seed & 0xffffffff), "SIZE": "%x" % size, "RECS": "/dev/null"}
    scs = tlc(ctx, module, env={**base, "MODE": "gen", **(gen_env or {})}, tag="-gen" + tag)
    scs.sort(key=lambda s: json.dumps(s, sort_keys=True))
    for k, s in enumerate(scs):
        s["id"] = k
    if jobs_filter:
        scs = jobs_filter(scs)
    if not scs:
        raise ToolError("%s generated nothing" % module)
    _, recs = run_jobs(ctx, kind, scs, "-" + module + tag, feature=feature)
    outs = {}
    for c in range(0, len(recs), chunk):
        p = ctx.path("recs-%s%s-%d.jsonl" % (module, tag, c))
        write_jsonl(p, recs[c:c + chunk])
        for o in tlc(ctx, module, env={**base, "MODE": "chk", "RECS": p, **(chk_env or {})}, tag="-chk%s-%d" % (tag, c)):
            outs[o["id"]] = o
    if len(outs) != len(recs):
        raise ToolError("%s: %d outcomes for %d records" % (module, len(outs), len(recs)))
    ctx.count("scenarios." + module + tag, len(scs))
    ctx.count("traces", len(recs))
    return scs, recs, outs


def simple(ctx, module, kind, size=1, describe=lambda s: s, kinds=None, **kw):
    """pair(), and a violation per scenario with something bad (of the kinds asked for)."""
    scs, recs, outs = pair(ctx, module, kind, size, **kw)
    if kinds:
        for o in outs.values():
            o["bad"] = [b for b in o["bad"] if any(re.fullmatch(k, b) for k in kinds)]
    for s in scs:
        o = outs[s["id"]]
        ctx.count("trans", o.get("steps", 1))
        for k, v in o.items():
            if k in ("n", "oks"):
                ctx.count(k, v)
        if o["bad"]:
            ctx.violation("%s%s: %s" % (module, kw.get("tag", ""), "; ".join(str(b) for b in o["bad"][:4])), {"scenario": s, "outcome": o})
        else:
            ctx.sample({"scenario": json.dumps(describe(s))[:600], "outcome": o})
    return scs, recs, outs
