#!/usr/bin/env python3
"""mutate.py ROOT SEED COUNT [file-regex]: random small changes of the sources in ROOT/repo; each one that builds and passes the
stable tests (ROOT/vp, a relocated copy of /opt/vp) is run against the checks in ROOT/verif until one of them raises an alarm.
Result lines go to ROOT/results.jsonl.  Never touches /repo."""
import sys, os, re, json, random, subprocess, time
ROOT, SEED, COUNT = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]); FRE = re.compile(sys.argv[4] if len(sys.argv) > 4 else ".")
R = ROOT + "/repo"; rnd = random.Random(SEED)
FILES = {"src/QProblem.cpp": 30, "src/QProblemB.cpp": 14, "src/SQProblem.cpp": 6, "src/Matrices.cpp": 14, "src/Options.cpp": 3, "src/Bounds.cpp": 4, "src/Constraints.cpp": 4, "src/SubjectTo.cpp": 3,
         "src/Indexlist.cpp": 3, "src/Flipper.cpp": 2, "src/SolutionAnalysis.cpp": 4, "src/Utils.cpp": 5, "src/MessageHandling.cpp": 3, "src/OQPinterface.cpp": 4, "src/BLASReplacement.cpp": 2, "src/LAPACKReplacement.cpp": 2,
         "interfaces/c/qpOASES_wrapper.cpp": 4, "include/qpOASES/QProblem.ipp": 1, "include/qpOASES/QProblemB.ipp": 2, "include/qpOASES/Utils.ipp": 1, "include/qpOASES/SubjectTo.ipp": 1, "include/qpOASES/Bounds.ipp": 1, "include/qpOASES/Constraints.ipp": 1}
SPEC = [("Matrices", "C20 C08"), ("Options", "C23"), ("SubjectTo|Bounds|Constraints|Indexlist", "C18"), ("Flipper", "C11 C12"), ("SolutionAnalysis", "C24"), ("Utils", "C22 C32 C24"), ("MessageHandling", "C32"), ("OQP", "C27"), ("BLAS|LAPACK", "C21"), ("wrapper", "C25")]
ALL = "C14 C12 C29 C13 C09 C05 C06 C11 C15 C16 C30 C28 C07 C08 C23 C24 C22 C17 C31 C01 C02 C03 C04 C10 C26".split()
HAVE = json.load(open(ROOT + "/verif/checks.json"))
OPS = [(r"<=", "<"), (r">=", ">"), (r"(?<![<\-=])<(?![<=])", "<="), (r"(?<![>\-=])>(?![>=])", ">="), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"), (r"\bBT_TRUE\b", "BT_FALSE"), (r"\bBT_FALSE\b", "BT_TRUE"),
       (r"\bST_LOWER\b", "ST_UPPER"), (r"\bST_UPPER\b", "ST_LOWER"), (r"\+=", "-="), (r"-=", "+="), (r"(?<![+\w(,=])\s\+\s", " - "), (r" - ", " + "), (r"\bnV\b", "nC"), (r"\bnC\b", "nV"), (r"\bnFR\b", "nZ"), (r"\bii\b", "i"), (r"\blb\b", "ub"), (r"\bub\b", "lb"),
       (r"\b0\.0\b", "1.0"), (r"\b1\.0\b", "-1.0"), (r"\b1\b", "0"), (r"\b0\b", "1"), (r"\+1\b", ""), (r"-1\b", ""), (r"getMax", "getMin"), (r"getMin", "getMax"), (r"getAbs\(", "("), (r"^(\s*)(\S.*;)\s*$", r"\1;"), (r"if \( (.*) \)\s*$", r"if ( 1 )"), (r"if \( (.*) \)\s*$", r"if ( 0 )"), (r"break;", ";"), (r"SUCCESSFUL_RETURN", "RET_INVALID_ARGUMENTS")]
def sh(c, t=900):
    try: r = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t); return r.returncode, r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired: return -1, ""
base = json.load(open(ROOT + "/vp/BASELINE.json")); stable = set(base["stable"])
def mutant():
    while True:
        f = rnd.choices(list(FILES), list(FILES.values()))[0]
        if not FRE.search(f): continue
        L = open(R + "/" + f, errors="replace").read().split("\n"); k = rnd.randrange(60, len(L)); s = L[k]
        if re.match(r"\s*(#|/\*|\*|//)", s) or not s.strip() or re.search(r"Printf|snprintf|THROW|Handler|__FUNC__|delete|printLevel|return SUCC", s): continue
        # skip pure debug blocks roughly
        o = rnd.choice(OPS); m = list(re.finditer(o[0], s))
        if not m: continue
        x = rnd.choice(m); n = s[:x.start()] + x.expand(o[1]) + s[x.end():]
        if n == s: continue
        return f, k, s, n, L
out = open(ROOT + "/results.jsonl", "a")
for c in range(COUNT):
    f, k, s, n, L = mutant(); L2 = list(L); L2[k] = n
    open(R + "/" + f, "w").write("\n".join(L2)); rec = dict(seed=SEED, i=c, file=f, line=k + 1, old=s.strip(), new=n.strip()); t0 = time.time()
    try:
        rc, o = sh("bash %s/vp/build.sh" % ROOT)
        if rc: rec["r"] = "nobuild"
        else:
            rc, o = sh("bash %s/vp/test.sh %s/m.json" % (ROOT, ROOT)); p = set(json.load(open(ROOT + "/m.json"))["passed"])
            if stable - p: rec["r"] = "tests"
            else:
                order = [x for r, l in SPEC if re.search(r, f) for x in l.split()]; order += [x for x in ALL if x not in order]; rec["r"] = "SURVIVED"
                if f.startswith("interfaces"): order = ["C25"]
                for p in order:
                    if p not in HAVE: continue
                    rc, o = sh("cd %s/verif && VERIF_REPO=%s VERIF_TIER=quick python3 check.py %s" % (ROOT, R, p))
                    if rc == 1 and "VIOLATION" in o: rec["r"] = "caught " + p; break
                    if rc not in (0, 1): rec.setdefault("odd", []).append([p, rc])
    finally:
        open(R + "/" + f, "w").write("\n".join(L))
    rec["t"] = round(time.time() - t0); out.write(json.dumps(rec) + "\n"); out.flush()
