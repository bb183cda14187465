#!/usr/bin/env python3
"""Development aid: verify planted changes in /verif/seeded.
   seed.py new ID   - take the current diff of /repo as seeded/ID/patch.diff and revert it
   seed.py test ID... - build/test/demo/check with and without the change, then revert
"""
import json, os, subprocess, sys, time
S = "/verif/seeded"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def build(): return sh("bash /opt/vp/build.sh").returncode
def tests():
    sh("bash /opt/vp/test.sh /tmp/seed-out.json")
    o = json.load(open("/tmp/seed-out.json")); b = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    p = set(map(str, o["passed"])); return [t for t in b if t not in p]
def demo(i):
    return sh("bash %s/%s/demo.sh" % (S, i), cwd="/repo").returncode
def test(i):
    d = os.path.join(S, i); m = json.load(open(d + "/meta.json"))
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
    build(); clean = demo(i)
    r = sh("git -C /repo apply %s/patch.diff" % d)
    if r.returncode: print(i, "DOES NOT APPLY", r.stderr); return
    try:
        if build(): print(i, "BUILD FAILS"); return
        f = tests(); pat = demo(i); t = time.time()
        c = sh("python3 /verif/bin/check.py %s quick" % m["property"])
        v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION") or l.startswith("failed obl")]
        print(i, m["property"], "demo clean=%d patched=%d" % (clean, pat), "tests-broken=%s" % f, "check exit", c.returncode, "%.0fs" % (time.time() - t), v[:3] if v else c.stdout[-300:])
    finally:
        sh("git -C /repo checkout -- ."); build()
    sys.stdout.flush()
if sys.argv[1] == "new":
    d = os.path.join(S, sys.argv[2]); os.makedirs(d, exist_ok=True)
    x = sh("git -C /repo diff").stdout; assert x
    open(d + "/patch.diff", "w").write(x); sh("git -C /repo checkout -- .")
else:
    for i in sys.argv[2:] or sorted(os.listdir(S)): test(i)
