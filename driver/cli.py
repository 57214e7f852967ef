"""Sessions with the command-line tool: Cli.tla makes them, real processes carry them out in
scratch directories, and Cli.tla judges what was seen."""
import hashlib, re, threading
from concurrent.futures import ThreadPoolExecutor
from .base import *

SAYS = {"success": r"verification succe", "failed": r"verification fail", "usage": r"\busage\b",
        "unknown": r"unknown command", "error": r"^\s*error", "written": r"proof written"}
GOLD = os.path.join(REPO, "benches", "proofs", "fibonacci_70000.proof")


def build_cli():
    r = sh(["cargo", "build", "--offline", "--target-dir", TARGET], 800, cwd=os.path.join(VERIF, "harness", "cli"), env=cargo_env())
    if r.returncode != 0:
        raise ToolError("the command-line tool does not build:\n" + r.stdout[-4000:])
    return os.path.join(TARGET, "debug", "cli")


class Data:
    """All contents seen, numbered."""

    def __init__(self, texts):
        self.lock, self.no, self.all = threading.Lock(), {}, []
        self.prog = {}
        for k, t in enumerate(texts):
            self.prog.setdefault(t, k + 1)

    def add(self, b):
        d = hashlib.sha256(b).digest()
        with self.lock:
            if d not in self.no:
                self.all.append({"b": b.hex(), "prog": self.prog.get(b, 0)})
                self.no[d] = len(self.all)
            return self.no[d]


def parts(b):
    n = int.from_bytes(b[:8], "big")
    return b[:8], b[8:8 + n], b[8 + n:]


def damage(b, e):
    h, p, c = parts(b)
    seam = 8 + len(p)
    lo, hi = {"any": (0, len(b)), "head": (0, 8), "seam": (seam - 9, seam + 9), "end": (len(b) - 9, len(b)),
              "proof": (8, seam), "claim": (seam, len(b))}[e["at"]]
    lo, hi = max(0, min(lo, len(b))), max(0, min(hi, len(b)))
    at = lo + e["f"] * (hi - lo) // 65536
    op, n = e["op"], e["n"]
    if op == "flip" and at < len(b):
        return b[:at] + bytes([b[at] ^ (1 << n % 8)]) + b[at + 1:]
    if op == "cut":
        return b[:at]
    if op == "append":
        return b + bytes(range(n))
    if op == "insert":
        return b[:at] + bytes(range(n)) + b[at:]
    if op == "delete":
        return b[:at] + b[at + n:]
    if op == "zero":
        return b[:at] + bytes(min(n, len(b) - at)) + b[at + n:]
    if op == "word":
        return (b[:at] + int(e["w"], 16).to_bytes(8, "big") + b[at + 8:])[:max(len(b), 8)]
    return b


def real_name(s):
    return s.replace("\\xff", "\udcff")


def name_of(s):
    return s.replace("\udcff", "\\xff")


def snapshot(d, data):
    fs = {}
    for r, _, files in os.walk(d):
        for f in files:
            p = os.path.join(r, f)
            with open(p, "rb") as h:
                fs[name_of(os.path.relpath(p, d))] = data.add(h.read())
    return fs


def session(s, d, exe, progs, data, left):
    """Carries out one session in the empty directory d."""
    for x in ("dir", "sub dir", "casm.d", "dir.casm"):
        os.makedirs(os.path.join(d, x))
    at = lambda p: os.path.join(d, real_name(p))
    def read(p):
        try:
            with open(at(p), "rb") as f:
                return f.read()
        except OSError:
            return None
    out = []
    for e in s["events"]:
        r = {"a": "env", "args": []}
        new = None
        if e["a"] == "put":
            new = progs[e["prog"] - 1]["text"].encode()
        elif e["a"] == "gold":
            with open(GOLD, "rb") as f:
                new = f.read()
        elif e["a"] == "remove":
            if read(e["path"]) is not None:
                os.remove(at(e["path"]))
        elif e["a"] == "damage":
            b = read(e["path"])
            new = damage(b, e) if b is not None else None
        elif e["a"] == "copy":
            new = read(e["from"])
        elif e["a"] == "splice":
            x, y = read(e["from"]), read(e["claim"])
            if x is not None and y is not None:
                new = b"".join(parts(x)[:2]) + parts(y)[2]
        else:
            # the answer of a process of its own; an endless one is a crash
            try:
                p = subprocess.run([exe] + [real_name(a) for a in e["args"]], cwd=d, stdin=subprocess.DEVNULL,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=max(1, min(120, left())))
                code, text = p.returncode, p.stdout.decode("utf8", "replace")
            except subprocess.TimeoutExpired:
                code, text = -999, "no answer"
            r = {"a": "run", "args": e["args"], "code": code, "text": text[-300:],
                 "says": [k for k, x in SAYS.items() if re.search(x, text, re.I | re.M)]}
        if new is not None:
            with open(at(e["path"]), "wb") as f:
                f.write(new)
        r["fs"] = snapshot(d, data)
        out.append(r)
    shutil.rmtree(d)
    return {"id": s["id"], "events": out}


def check(ctx, nprog, n):
    exe = build_cli()
    base = {"SEED": "%x" % (ctx.seed & 0xffffffff), "RECS": "/dev/null", "DATA": "/dev/null"}
    made = tlc(ctx, "Runner", env={**base, "SIZE": "%x" % nprog, "MODE": "gen"}, tag="-progs")
    progs = sorted(({"v": s["v"], "text": s["text"], "want": s["want"][0]} for s in made), key=lambda p: json.dumps(p, sort_keys=True))
    pfile = ctx.path("progs.jsonl")
    write_jsonl(pfile, progs)
    base["PROGS"] = pfile
    scs = tlc(ctx, "Cli", env={**base, "SIZE": "%x" % n, "MODE": "gen"}, tag="-gen")
    scs.sort(key=lambda s: json.dumps(s, sort_keys=True))
    data = Data([p["text"].encode() for p in progs])
    with open(GOLD, "rb") as f:
        gold = data.add(f.read())
    left = lambda: ctx.deadline - time.time()
    jobs = []
    for k, s in enumerate(scs):
        s["id"] = k
        d = ctx.path("s%d" % k)
        os.makedirs(d)
        jobs.append((s, d))
    with ThreadPoolExecutor(8) as ex:
        recs = list(ex.map(lambda j: session(j[0], j[1], exe, progs, data, left), jobs))
    for r in recs:
        r["gold"] = gold
    rfile, dfile = ctx.path("sessions.jsonl"), ctx.path("data.jsonl")
    write_jsonl(rfile, recs)
    write_jsonl(dfile, data.all)
    outs = {o["id"]: o for o in tlc(ctx, "Cli", env={**base, "SIZE": "0", "MODE": "chk", "RECS": rfile, "DATA": dfile}, tag="-chk")}
    if len(outs) != len(recs):
        raise ToolError("Cli: %d outcomes for %d sessions" % (len(outs), len(recs)))
    ctx.count("sessions", len(recs))
    ctx.count("files", len(data.all))
    for s, r in zip(scs, recs):
        o = outs[s["id"]]
        ctx.count("traces")
        ctx.count("trans", o["steps"])
        for k, v in (o["cover"] or {}).items():
            ctx.count(k, v)
        if o["bad"]:
            b = o["bad"][0]
            e = r["events"][b["n"] - 1]
            ctx.violation("after %d events, %s: %s (code %s, %s)" % (b["n"] - 1, b["args"], b["what"], e.get("code"), e.get("text", "")[-160:]),
                          {"session": s, "outcome": o, "seen": [{k: v for k, v in e.items()} for e in r["events"][:b["n"]]]})
        else:
            ctx.sample({"session": [e["args"] if e["a"] == "run" else "%s %s" % (e["a"], e["path"]) for e in s["events"]][:14], "answers": [e.get("says") for e in r["events"]][:14]})
