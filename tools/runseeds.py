"""Apply each seeded change to /repo, run the check of its property, undo it.

    python3 tools/runseeds.py [ID…]        (property from meta.json; ALL=1 runs every check)
"""
import json, os, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(f"{V}/seeded"))


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


for i in ids:
    d = f"{V}/seeded/{i}"
    meta = json.load(open(f"{d}/meta.json"))
    assert sh("git", "-C", "/repo", "status", "--porcelain").stdout == "", "/repo is not clean"
    try:
        r = sh("git", "-C", "/repo", "apply", f"{d}/patch.diff")
        assert r.returncode == 0, r.stderr
        props = [meta["property"]]
        if os.environ.get("ALL"):
            props = [f"C{n:02d}" for n in range(1, 22)]
        for p in props:
            t = time.time()
            r = sh("python3", "check.py", p, os.environ.get("TIER", "quick"), cwd=V)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print(i, p, r.returncode, f"{time.time()-t:.0f}s", (v or [(r.stdout + r.stderr)[-300:]])[0][:200], flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."])
