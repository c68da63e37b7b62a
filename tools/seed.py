#!/usr/bin/env python3
"""seed.py NAME: validate /verif/seeded/NAME (patch applies, builds, stable tests pass, demo 0 clean / !=0 patched)
and run the check of its property against it.  --no-tests skips the test-suite."""
import sys, subprocess, json, os, shutil, tempfile
ROOT = os.environ.get("SEED_ROOT", "")  # scratch root holding repo/ and a relocated vp/ (see mutate.py); default: /repo and /opt/vp
REPO, VP = (ROOT + "/repo", ROOT + "/vp") if ROOT else ("/repo", "/opt/vp")
name = sys.argv[1]; D = "/verif/seeded/" + name
meta = json.load(open(D + "/meta.json"))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
assert not sh("git -C %s status --porcelain -uno" % REPO).stdout, "dirty repo"
def demo():
    t = tempfile.mkdtemp(prefix="demo-")
    for f in os.listdir(D):
        if not f.endswith((".diff", ".patch")) and f != "meta.json": shutil.copy(D + "/" + f, t)
    r = sh("bash %s/demo.sh" % t, cwd=REPO); shutil.rmtree(t); return r
sh("bash %s/build.sh" % VP)
r0 = demo()
try:
    r = sh("git -C %s apply %s/patch.diff" % (REPO, D))
    if r.returncode: print(r.stdout.decode()); sys.exit("patch does not apply")
    b = sh("bash %s/build.sh" % VP); print("build", b.returncode)
    r1 = demo()
    print("demo clean", r0.returncode, "patched", r1.returncode, r0.stdout.decode()[-300:] if r0.returncode else "", "|", r1.stdout.decode()[-300:])
    if "--no-tests" not in sys.argv:
        sh("bash %s/test.sh /tmp/seed.json" % VP); 
        base = json.load(open("/opt/vp/BASELINE.json")); st = base.get("stable", base)
        st = set(st if isinstance(st, list) else st.keys())
        p = set(json.load(open("/tmp/seed.json"))["passed"])
        print("stable tests failing:", sorted(st - p)[:5], len(st - p))
    for pid in ([meta["property"]] + [a for a in sys.argv[2:] if not a.startswith("--")]):
        c = sh("VERIF_REPO=%s VERIF_TIER=quick python3 check.py %s" % (REPO, pid), cwd="/verif"); o = c.stdout.decode()
        print("check", pid, "exit", c.returncode, [l for l in o.splitlines() if l.startswith("VIOLATION")][:1], [l for l in o.splitlines() if l.startswith("  [")][:2])
finally:
    sh("git -C %s checkout -- ." % REPO); sh("bash %s/build.sh" % VP)
