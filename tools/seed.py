#!/usr/bin/env python3
"""seed.py verify <id>...   planted bug: applies, builds, stable tests pass, demo 0 on clean / nonzero with patch
   seed.py check <id>...    run the property's quick check (or: seed.py check <id> P1 P2) against the planted bug
   seed.py new <id> <property> : reads a working-tree diff of /tmp/seedwork and stores it"""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwork-%d" % os.getpid()
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])

def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def fresh(dst=W):
    shutil.rmtree(dst, ignore_errors=True)
    sh("cp -a /repo %s && git -C %s checkout -q -- ." % (dst, dst))
def run_demo(seed, repo):
    d = "/tmp/seeddemo-%d" % os.getpid()
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.path.join(ROOT, "seeded", seed), d, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    r = sh("bash %s/demo.sh" % d, cwd=repo, timeout=300)
    shutil.rmtree(d, ignore_errors=True)
    return r
def tests_inplace(diff):
    """build.sh/test.sh work on /repo only: apply there, run, undo"""
    assert sh("git -C /repo status --porcelain").stdout.strip() == "", "dirty /repo"
    try:
        r = sh("git -C /repo apply " + diff)
        if r.returncode: return "does not apply: " + r.stderr
        r = sh("bash /opt/vp/test.sh /tmp/seed-out-%d.json" % os.getpid())
        o = json.load(open("/tmp/seed-out-%d.json" % os.getpid()))
        miss = BASE - set(o["passed"])
        if miss: return "tests fail: %s" % sorted(miss)[:5]
        return ""
    finally:
        sh("git -C /repo checkout -q -- .")
def verify(seed):
    diff = os.path.join(ROOT, "seeded", seed, "patch.diff")
    a = run_demo(seed, "/repo")
    if a.returncode: return "demo fails on clean tree: " + a.stdout + a.stderr[-800:]
    fresh()
    r = sh("git -C %s apply %s" % (W, diff))
    if r.returncode: return "does not apply: " + r.stderr
    b = run_demo(seed, W)
    if b.returncode == 0: return "demo passes with the patch"
    t = tests_inplace(diff)
    return t or "OK (demo with patch: rc %d %s)" % (b.returncode, (b.stdout + b.stderr).strip()[-120:].replace("\n", " | "))
def check(seed, props):
    fresh()
    r = sh("git -C %s apply %s" % (W, os.path.join(ROOT, "seeded", seed, "patch.diff")))
    assert r.returncode == 0, r.stderr
    meta = json.load(open(os.path.join(ROOT, "seeded", seed, "meta.json")))
    for p in props or [meta["property"]]:
        r = sh("python3 tools/check.py %s quick" % p, cwd=ROOT, env=dict(os.environ, VERIF_REPO=W, VERIF_SEED="1"), timeout=900)
        v = [l for l in r.stdout.splitlines() if l.startswith(("observed", "expected", "history"))][:3]
        print(seed, p, "rc", r.returncode, "CAUGHT" if r.returncode == 1 and "VIOLATION property=" + p in r.stdout else "MISSED", flush=True)
        for l in v: print("     ", l[:220])
        if r.returncode not in (0, 1): print(r.stdout[-1500:], r.stderr[-800:])
if sys.argv[1] == "verify":
    for s in sys.argv[2:]: print(s, verify(s), flush=True)
elif sys.argv[1] == "check":
    ids = [x for x in sys.argv[2:] if os.path.isdir(os.path.join(ROOT, "seeded", x))]
    ps = [x for x in sys.argv[2:] if x not in ids]
    for s in ids: check(s, ps)
shutil.rmtree(W, ignore_errors=True)
