#!/usr/bin/env python3
"""Mutation survey: small random changes of /repo's sources, made in copies of /repo and /verif,
each run against the checks of the properties its file serves.  Prints what survives.
usage: [FIRST=k] mutate.py N SEED WORKERS [path-prefix...]   (workers use /tmp/m/w<k>...; results are appended to /tmp/m/results.jsonl)"""
import json, os, random, re, shutil, subprocess, sys, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = "/tmp/m"
GROUPS = [
    ("src/starks/verifier.rs", "C01 C03 C04 C05 C06 C07 C08"),
    ("src/starks/proof/options.rs", "C09"), ("src/starks/proof/stark.rs", "C10 C06 C21"), ("src/starks/grinding.rs", "C08 C01"),
    ("src/starks/example", "C01 C03 C06"), ("src/starks/debug.rs", "C22 C01 C15"),
    ("src/starks/frame.rs", "C23 C10 C01 C02 C06"), ("src/starks/trace.rs", "C23 C02"), ("src/starks/constraints/boundary.rs", "C23 C02"), ("src/starks/traits.rs", "C23 C01 C02 C06"), ("src/starks/utils.rs", "C10"), ("src/starks/fri", "C10 C01 C02 C04 C05 C06"), ("src/starks", "C01 C02 C07 C03 C06 C15"),
    ("src/cairo/air.rs", "C11 C16 C17 C15 C18 C14 C06"), ("src/cairo/execution_trace.rs", "C13 C14 C15 C20"),
    ("src/cairo/decode", "C12 C13 C16"), ("src/cairo/cairo_mem.rs", "C19 C13"), ("src/cairo/register_states.rs", "C19 C13"),
    ("src/cairo/runner", "C20 C19 C21"), ("src/cairo", "C20 C19 C12"), ("src/main.rs", "C21")]
RULES = [(r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "), (r" \+ ", " - "),
         (r" - ", " + "), (r" \* ", " + "), (r" && ", " || "), (r" \|\| ", " && "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
         (r"\.\.=", ".."), (r"(?<=[^.])\.\.(?=[^.=])", "..="), (r"\.max\(", ".min("), (r"\.min\(", ".max("), (r"\.all\(", ".any("), (r"\.any\(", ".all("),
         (r"\.rev\(\)", ""), (r"\bto_be_bytes", "to_le_bytes"), (r"\bfrom_be_bytes", "from_le_bytes"), (r"\bto_le_bytes", "to_be_bytes"), (r" % ", " / "), (r" / ", " * "),
         (r" << ", " >> "), (r" >> ", " << "), (r"\+= ", "-= "), (r"if !", "if "), (r"\beven\b", "odd"), (r"_sym\b", ""), (r"\.zip\(", ".zip(")]


def points():
    out = []
    for f in subprocess.check_output(["git", "-C", "/repo", "ls-files", "src/*.rs"], text=True).split():
        lines = open("/repo/" + f).read().split("\n")
        for n, l in enumerate(lines):
            if re.match(r"\s*#\[cfg\((all\()?test", l):
                break
            if re.match(r"\s*(//|use |#\[|pub const [A-Z]+: usize)", l) or "println!" in l or "instruments" in l or "info!" in l or "error!" in l or "timer" in l.lower() or "duration" in l:
                continue
            code = l.split("//")[0]
            for a, b in RULES:
                for m in re.finditer(a, code):
                    new = code[:m.start()] + b + code[m.end():]
                    if new != code:
                        out.append((f, n, new))
            for m in re.finditer(r"(?<![\w.\"])(\d+)(?![\w.\"])", code):
                k = int(m.group(1))
                for v in {k + 1, max(k - 1, 0)} - {k}:
                    out.append((f, n, code[:m.start()] + str(v) + code[m.end():]))
            if re.match(r"\s+[a-z_.]+(\.|::)?[a-z_]*\(.*\)\??;$", code) and not code.strip().startswith("return"):
                out.append((f, n, ""))
            if re.match(r"\s+return .*;$", code):
                out.append((f, n, ""))
    return out


def run(cmd, cwd, env=None, limit=900):
    try:
        p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=limit, env={**os.environ, **(env or {})})
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def worker(w, todo, lock):
    d = "%s/w%d" % (ROOT, w)
    if not os.path.isdir(d + "/repo"):
        os.makedirs(d, exist_ok=True)
        run("cp -a /repo %s/repo && mkdir %s/verif && cd /verif && git archive HEAD | tar x -C %s/verif && mkdir -p %s/verif/evidence" % (d, d, d, d), "/")
    else:
        run("cd /verif && git archive HEAD | tar x -C %s/verif" % d, "/")
    run("git checkout -q -- . && git clean -fdq src; git fetch -q /repo HEAD && git checkout -q FETCH_HEAD", d + "/repo")
    env = {"VERIF_REPO": d + "/repo", "VERIF_SEED": "1", "VERIF_TIER": "quick"}
    while True:
        with lock:
            if not todo:
                return
            f, n, new = todo.pop()
        p = "%s/repo/%s" % (d, f)
        orig = open(p).read()
        lines = orig.split("\n")
        old = lines[n]
        lines[n] = new
        open(p, "w").write("\n".join(lines))
        res = dict(file=f, line=n + 1, old=old.strip(), new=new.strip())
        try:
            rc, o = run("cargo build --offline --target-dir %s/verif/target" % d, d + "/verif/harness/runner", {"RUSTFLAGS": "-Awarnings"})
            if rc:
                res["res"] = "nocompile"
            else:
                res["res"] = "survived"
                for c in next(g for pre, g in GROUPS if f.startswith(pre)).split():
                    rc, o = run("python3 check.py %s quick" % c, d + "/verif", env)
                    if rc:
                        res["res"] = "%s:%d" % (c, rc)
                        if rc != 1:
                            res["out"] = o[-300:]
                        break
        finally:
            open(p, "w").write(orig)
        with lock:
            open(ROOT + "/results.jsonl", "a").write(json.dumps(res) + "\n")


def main():
    n, seed, nw = map(int, sys.argv[1:4])
    ps = [p for p in points() if not sys.argv[4:] or any(p[0].startswith(x) for x in sys.argv[4:])]
    rnd = random.Random(seed)
    rnd.shuffle(ps)
    seen, todo = set(), []
    for p in ps:                      # one change per line
        if (p[0], p[1]) not in seen:
            seen.add((p[0], p[1]))
            todo.append(p)
    todo = todo[:n]
    print(len(ps), "points,", len(todo), "chosen")
    lock = threading.Lock()
    ts = [threading.Thread(target=worker, args=(w + int(os.environ.get('FIRST', '0')), todo, lock)) for w in range(nw)]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
