#!/usr/bin/env python3
"""check.py ID [--thorough] [extra args]: build what the check of property ID needs from /repo's
working tree (keyed by content, in /verif/build, which git ignores) and run it."""
import sys, os, subprocess, hashlib, glob, json, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(V, "build")
BASE = ["-w", "-DLINUX", "-D__USE_LONG_INTEGERS__", "-D__USE_LONG_FINTS__", "-D__NO_COPYRIGHT__", "-I" + REPO + "/include", "-std=c++14"]
FLAV = {
    "fast": ["-O2", "-g0"],
    "pat":  ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern"],
    "san":  ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
}
SOLV = {"none": ["-DSOLVER_NONE"], "ma57": ["-DSOLVER_MA57"]}

# property: (harness sources, flavour, solver, extra compile flags)
CHECKS = json.load(open(os.path.join(V, "checks.json")))

def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return r.returncode, r.stdout.decode(errors="replace")

def digest(paths, extra):
    h = hashlib.sha256(repr(extra).encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f: h.update(f.read())
    return h.hexdigest()[:20]

def repo_files():
    r = []
    for d in ("src", "include"):
        for root, _, fs in os.walk(os.path.join(REPO, d)):
            r += [os.path.join(root, f) for f in fs if f.endswith((".cpp", ".hpp", ".h", ".c", ".ipp"))]
    return r

def die(msg):
    sys.stderr.write(msg + "\n"); print("ERROR: " + msg[:2000]); sys.exit(2)

def build_lib(flav, solver, extra=()):
    flags = BASE + FLAV[flav] + SOLV[solver] + list(extra)
    key = digest(repo_files(), flags)
    out = os.path.join(BUILD, "lib-%s-%s-%s" % (flav, solver, key))
    if os.path.exists(out + "/libqp.a"): return out
    for old in glob.glob(os.path.join(BUILD, "lib-%s-%s-*" % (flav, solver))):
        shutil.rmtree(old, ignore_errors=True)
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=BUILD)
    srcs = sorted(glob.glob(REPO + "/src/*.cpp"))
    def one(s):
        o = os.path.join(tmp, os.path.basename(s)[:-4] + ".o")
        return sh(["g++"] + flags + ["-c", s, "-o", o]) + (s, o)
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(one, srcs))
    for rc, log, s, o in res:
        if rc: shutil.rmtree(tmp, ignore_errors=True); die("compiling %s failed:\n%s" % (s, log))
    rc, log = sh(["ar", "rcs", tmp + "/libqp.a"] + [r[3] for r in res])
    if rc: die("ar failed: " + log)
    for r in res: os.unlink(r[3])
    try: os.rename(tmp, out)
    except OSError: shutil.rmtree(tmp, ignore_errors=True)
    return out

def build_harness(name, c):
    flav, solver = c.get("flavour", "fast"), c.get("solver", "none")
    extra = [x.replace("@REPO", REPO).replace("@V", V) for x in c.get("flags", [])]
    libs = c.get("libs", [])
    lib = build_lib(flav, solver) if c.get("lib", True) else None
    srcs = [x.replace("@REPO", REPO) if x.startswith("@") else os.path.join(V, "harness", x) for x in c["src"]] + [os.path.join(V, "harness", "mc.cpp")]
    flags = BASE + FLAV[flav] + SOLV[solver] + extra
    key = digest(repo_files() + glob.glob(REPO + "/interfaces/**/*.*pp", recursive=True) + glob.glob(REPO + "/interfaces/**/*.h", recursive=True) + [x for x in glob.glob(V + "/harness/*") if os.path.isfile(x)], (flags, srcs, libs))
    out = os.path.join(BUILD, "bin-%s-%s" % (name, key))
    if os.path.exists(out): return out
    for old in glob.glob(os.path.join(BUILD, "bin-%s-*" % name)):
        try: os.unlink(old)
        except OSError: pass
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=BUILD)
    def one(ix):
        o = os.path.join(tmp, "%d.o" % ix)
        return sh(["g++"] + flags + ["-I" + os.path.join(V, "harness"), "-c", srcs[ix], "-o", o]) + (srcs[ix], o)
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(one, range(len(srcs))))
    for rc, log, s, o in res:
        if rc: shutil.rmtree(tmp, ignore_errors=True); die("compiling %s failed:\n%s" % (s, log))
    rc, log = sh(["g++"] + flags + [r[3] for r in res] + ([lib + "/libqp.a"] if lib else []) + libs + ["-lm", "-lpthread", "-o", tmp + "/bin"])
    if rc: shutil.rmtree(tmp, ignore_errors=True); die("linking failed:\n" + log)
    os.rename(tmp + "/bin", out); shutil.rmtree(tmp, ignore_errors=True)
    return out

def octave(var):
    r = subprocess.run(["mkoctfile", "-p", var], stdout=subprocess.PIPE)
    if r.returncode: die("mkoctfile is missing")
    return r.stdout.decode().strip()

def build_mex():
    """the mex files of both interface variants (C26), with the sanitizers"""
    flags = ["-w", "-DLINUX", "-D__NO_COPYRIGHT__", "-D__cpluplus", "-fPIC", "-ftrivial-auto-var-init=pattern", "-I" + V + "/harness/matlab"] + FLAV["san"] + octave("INCFLAGS").split() + ["-I" + REPO + "/include", "-I" + REPO + "/src"]
    files = [f for v in ("octave", "matlab") for f in glob.glob(REPO + "/interfaces/" + v + "/*.*") if os.path.isfile(f)]
    out = os.path.join(BUILD, "mex-" + digest(repo_files() + files, flags))
    if os.path.exists(out): return out
    for old in glob.glob(os.path.join(BUILD, "mex-*")): shutil.rmtree(old, ignore_errors=True)
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=BUILD)
    jobs = []
    for v in ("octave", "matlab"):
        d = REPO + "/interfaces/" + v
        for f, n in (("qpOASES", "qp"), ("qpOASES_sequence", "seq")):
            jobs.append(["-D__SINGLE_OBJECT__", "-I" + d, "-c", d + "/" + f + ".cpp", "-o", tmp + "/" + v[0] + n + ".o"])
        for f in ("options", "auxInput"):
            with open(d + "/qpOASES_" + f + ".m", encoding="latin-1") as h: t = h.read()
            with open(tmp + "/" + v[0] + f + ".m", "w", encoding="latin-1") as h: h.write(t.replace("qpOASES_" + f, v[0] + f))
    for f in ("SQProblemSchur", "SparseSolver"): jobs.append(["-c", REPO + "/src/" + f + ".cpp", "-o", tmp + "/" + f + ".o"])
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(lambda j: sh(["g++"] + flags + j), jobs))
    for (rc, log), j in zip(res, jobs):
        if rc: shutil.rmtree(tmp, ignore_errors=True); die("compiling %s failed:\n%s" % (j[-3], log))
    def link(n): return sh(["g++"] + FLAV["san"] + ["-shared", "-Wl,-Bsymbolic", tmp + "/" + n + ".o", tmp + "/SQProblemSchur.o", tmp + "/SparseSolver.o", "-o", tmp + "/" + n + ".mex"])
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(link, [v + n for v in "om" for n in ("qp", "seq")]))
    for rc, log in res:
        if rc: shutil.rmtree(tmp, ignore_errors=True); die("linking a mex file failed:\n" + log)
    for o in glob.glob(tmp + "/*.o"): os.unlink(o)
    try: os.rename(tmp, out)
    except OSError: shutil.rmtree(tmp, ignore_errors=True)
    return out

def main():
    if sys.argv[1] == "--setup":
        for f, s in sorted({(c.get("flavour", "fast"), c.get("solver", "none")) for c in CHECKS.values() if c.get("lib", True)}): build_lib(f, s)
        print("setup done"); return 0
    pid = sys.argv[1]; rest = sys.argv[2:]
    c = CHECKS[pid]
    if "--thorough" in rest: os.environ["VERIF_TIER"] = "thorough"
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:handle_abort=0"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1"
    env["VERIF_REPO"] = REPO
    env["MC_LEVEL"] = c.get("level", "model_checking")
    env["MC_BUILD"] = BUILD
    os.chdir(V)
    if c.get("mex"):
        env["MC_MEX"] = build_mex()
        d = octave("OCTLIBDIR"); c = dict(c, flags=c.get("flags", []) + octave("INCFLAGS").split(), libs=["-L" + d, "-Wl,-rpath," + d, "-loctinterp", "-loctave"])
    b = build_harness(pid, c)
    args = [b] + rest
    if not any(a in ("--replay", "--index") for a in rest):
        os.makedirs(V + "/evidence", exist_ok=True)
        args += ["--evidence", "evidence/%s.json" % pid, "--known", "known_findings.txt", "--replays", "replays"]
    sys.stdout.flush()
    return subprocess.run(args, env=env).returncode

sys.exit(main())
