#!/usr/bin/env python3
"""mutate.py [-n N] [-s SEED] [-f FILE:LO-HI]... PROP: dev tool. Small random edits of the code behind PROP (in a scratch copy), each run against PROP's quick check; survivors are printed for review."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]; N = 12; seed = 1; ranges = []; prop = None; extra = []
while a:
    x = a.pop(0)
    if x == "-n": N = int(a.pop(0))
    elif x == "-s": seed = int(a.pop(0))
    elif x == "-f": ranges.append(a.pop(0))
    elif x == "-c": extra += [a.pop(0)]
    else: prop = x
rnd = random.Random("%s/%d" % (prop, seed))
OPS = [(r"(?<![<>=!\-])<(?![<=a-zA-Z])(?= )", "<="), (r"<=", "<"), (r"(?<![->])> (?!=)", ">= "), (r">=", ">"), (r"==", "!="), (r"!=", "=="), (r" \+ 1\b", ""), (r" - 1\b", ""), (r"\+ ", "- "), (r" - BASE\b", ""), (r" - base\b", ""), (r" \+ BASE\b", ""), (r" \+ base\b", ""), (r"&&", "||"), (r"\|\|", "&&"),
       (r"\bmin\(", "max("), (r"\bmax\(", "min("), (r"= 0\b", "= 1"), (r"= 1\b", "= 0"), (r"\bbreak;", ";"), (r"\bcontinue;", ";"), (r"\+\+(\w+)", r"\1"), (r"\btid\b", "0"), (r"\bnthreads\b", "1"), (r"\bi\b", "j"), (r"\bj\b", "i"), (r"\bm\b", "n"), (r"\bn\b", "m"), (r"\+=", "="), (r"-=", "+="), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"__sync_fetch_and_add\(&?([^,]+), ([^)]+)\)", r"((\1) += \2)"), (r"\bif \(([^(){}]+)\)", r"if (true)"), (r"\bif \(([^(){}]+)\)", r"if (false)"), (r"#pragma omp barrier", ""), (r"#pragma omp master", "")]
DEL = re.compile(r"^\s*[\w\[\]\->.*()+ ]+\s*(=|\+=|-=)[^=].*;\s*$|^\s*(\+\+|--)[\w\[\]\->.()*]+;\s*$|^\s*(swap|memcpy|sort|delete|FREE|std::sort)\b.*;\s*$")
W = tempfile.mkdtemp(prefix="mut."); R = W + "/repo"
subprocess.check_call("mkdir %s && git -C /repo archive HEAD | tar x -C %s" % (R, R), shell=True)
cand = []
for r in ranges:
    f, _, lh = r.partition(":"); L = open(R + "/" + f).read().split("\n"); lo, hi = (map(int, lh.split("-")) if lh else (1, len(L)))
    incom = False
    for k in range(lo - 1, min(hi, len(L))):
        s = L[k]
        if "/*" in s: incom = True
        if incom:
            if "*/" in s: incom = False
            continue
        c = s.split("//")[0]
        if not c.strip() or re.search(r"assert|printf|fprintf|rdtsc|omp_get_wtime|#if|#include|template", c): continue
        for p, q in OPS:
            for m in re.finditer(p, c):
                if p.startswith("#") : t = re.sub(p, q, s)
                else: t = s[:m.start()] + m.expand(q) + s[m.end():]
                if t != s: cand.append((f, k, t))
        if DEL.match(c) and not re.match(r"^\s*(const |int |double |unsigned |bool |volatile |float |size_t |long |char |auto |vector|CSR |FILE )", c): cand.append((f, k, re.match(r"^\s*", s).group() + ";"))
rnd.shuffle(cand); done = 0; surv = 0; seen = set()
print(prop, len(cand), "candidates", flush=True)
try:
    for f, k, t in cand:
        if done >= N: break
        if (f, k, t) in seen: continue
        seen.add((f, k, t))
        p = R + "/" + f; s = open(p).read(); L = s.split("\n"); old = L[k]; L[k] = t; open(p, "w").write("\n".join(L))
        r = subprocess.run(["g++", "-std=c++11", "-O1", "-fopenmp", "-DNDEBUG", "-w", "-c", p, "-o", W + "/x.o", "-I" + R], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode == 0:
            done += 1; t0 = time.time()
            try: r = subprocess.run(["timeout", "400", sys.executable, V + "/bin/check.py", prop, "--tier", "quick"] + extra, env=dict(os.environ, SPMP_REPO=R), stdout=subprocess.PIPE, stderr=subprocess.STDOUT); rc = r.returncode; out = r.stdout.decode()
            except Exception as e: rc = -1; out = str(e)
            st = "caught" if rc == 1 else "SURVIVED rc=%d" % rc
            if rc != 1: surv += 1
            print("%-16s %5.0f s %s:%d  %s  ->  %s" % (st, time.time() - t0, f, k + 1, old.strip(), t.strip()), flush=True)
            if rc != 1: print("      " + "\n      ".join(l[:220] for l in out.strip().split("\n")[-4:]), flush=True)
        open(p, "w").write(s)
finally: shutil.rmtree(W)
print(prop, "done", done, "survived", surv)
