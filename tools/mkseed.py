#!/usr/bin/env python3
"""Writes seeded/<id>/ from tools/seeds.py and confirms each: it builds, passes the stable
tests, and its demonstration passes without and fails with the change.
usage: mkseed.py [ID...]"""
import io, json, os, shutil, subprocess, sys, tarfile, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from seeds import SEEDS, PRELUDE

DEMO = """#!/bin/bash
# Builds the crate of the current directory against the stand-ins beside this file and runs demo.rs.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
tar xzf "$here/kit.tgz" -C "$tmp" || exit 2
mkdir -p "$tmp/runner/src"
cp "$here/demo.rs" "$tmp/runner/src/main.rs"
sed -i "s|@REPO@|$repo|" "$tmp/stark/Cargo.toml" "$tmp/runner/Cargo.toml" "$tmp/runner/src/main.rs"
cd "$tmp/runner" || exit 2
export CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings CARGO_TARGET_DIR="$tmp/target" DEMO_TMP="$tmp"
cargo build --offline --quiet @FEATURES@ || exit 2
timeout 120 "$tmp/target/debug/runner"
rc=$?
[ $rc -eq 0 ] && echo "demo: holds" || echo "demo: broken ($rc)"
[ $rc -eq 0 ]
"""


def kit(path):
    with tarfile.open(path, "w:gz") as t:
        def add(name, data):
            ti = tarfile.TarInfo(name)
            ti.size = len(data)
            t.addfile(ti, io.BytesIO(data))
        for root, _, fs in os.walk(os.path.join(V, "shims")):
            for f in sorted(fs):
                p = os.path.join(root, f)
                add(os.path.relpath(p, V), open(p, "rb").read())
        stark = open(os.path.join(V, "harness/stark/Cargo.toml")).read()
        stark = stark.replace("../../../repo/src/lib.rs", "@REPO@/src/lib.rs").replace("../../shims", "../shims")
        stark = "\n".join(l for l in stark.split("\n") if not l.startswith("# The crate"))
        add("stark/Cargo.toml", stark.encode())
        run = open(os.path.join(V, "harness/runner/Cargo.toml")).read()
        run = run.replace("../../shims", "../shims")
        add("runner/Cargo.toml", run.encode())
        add("runner/Cargo.lock", open(os.path.join(V, "harness/runner/Cargo.lock"), "rb").read())


def sh(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def main():
    ids = sys.argv[1:] or list(SEEDS)
    R = os.environ.get("VERIF_REPO", "/repo")      # a copy: the build and the tests are not tried there
    assert sh("git status --short", R).stdout.strip() == "", "repo is not clean"
    for i in ids:
        s = SEEDS[i]
        d = os.path.join(V, "seeded", i)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        kit(os.path.join(d, "kit.tgz"))
        open(os.path.join(d, "demo.rs"), "w").write(PRELUDE + s["demo"])
        open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace(" @FEATURES@", " --features " + s["features"] if "features" in s else ""))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        try:
            r0 = sh("bash %s/demo.sh" % d, R)
            for f, old, new in s["edits"]:
                p = os.path.join(R, f)
                t = open(p).read()
                assert t.count(old) == 1, (i, f, t.count(old), old)
                open(p, "w").write(t.replace(old, new))
            open(os.path.join(d, "patch.diff"), "w").write(sh("git diff", R).stdout)
            b = sh("bash /opt/vp/build.sh" if R == "/repo" else "true", R)
            t = sh("bash /opt/vp/test.sh /tmp/seed-test.json" if R == "/repo" else "true", R)
            r1 = sh("bash %s/demo.sh" % d, R)
        finally:
            sh("git checkout -- .", R)
        good = r0.returncode == 0 and b.returncode == 0 and t.returncode == 0 and r1.returncode != 0 and "demo: broken" in r1.stdout
        print(i, "ok" if good else "BAD: unchanged %d build %d test %d patched %d" % (r0.returncode, b.returncode, t.returncode, r1.returncode))
        if not good:
            print(r0.stdout[-1500:], "----", b.stdout[-300:], "----", r1.stdout[-1500:])


main()
