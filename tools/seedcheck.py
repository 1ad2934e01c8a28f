#!/usr/bin/env python3
"""seedcheck.py [--notests] [--nocheck] ID...: confirms planted bugs in a scratch copy of /repo: builds, stable tests pass, demo 0 without / nonzero with; then runs the property's quick check on the copy."""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("--")]; fl = [a for a in sys.argv[1:] if a.startswith("--")]
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
W = tempfile.mkdtemp(prefix="seedchk.")
try:
    subprocess.check_call(["cp", "-a", "/repo", W + "/repo"]); R = W + "/repo"
    os.makedirs(W + "/vp"); 
    b = open("/opt/vp/build.sh").read().replace("/repo", R); open(W + "/vp/build.sh", "w").write(b)
    def build(): return subprocess.run(["bash", W + "/vp/build.sh"], stdout=open(W + "/build.log", "w"), stderr=subprocess.STDOUT).returncode
    def demo(i): 
        D = W + "/demo"; shutil.rmtree(D, ignore_errors=True); os.makedirs(D)
        for f in os.listdir(V + "/seeded/" + i):
            if f.startswith("demo"): shutil.copy(V + "/seeded/" + i + "/" + f, D)
        try: r = subprocess.run(["bash", D + "/demo.sh"], cwd=R, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300); return r.returncode, r.stdout.decode("utf-8", "replace").strip().split("\n")[-1][:150]
        except subprocess.TimeoutExpired: return 124, "timeout"
    assert build() == 0
    base = {i: demo(i) for i in args}
    for i in args:
        subprocess.check_call(["git", "-C", R, "checkout", "-q", "--", "."])
        if subprocess.run(["git", "-C", R, "apply", V + "/seeded/" + i + "/patch.diff"]).returncode: print(i, "PATCH DOES NOT APPLY"); continue
        if build(): print(i, "DOES NOT BUILD"); continue
        d = demo(i); t = "not run"
        if "--notests" not in fl:
            subprocess.run([sys.executable, "/opt/vp/support/run_tests.py", R + "/_build", R + "/_build/results.txt"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            ok = set(l.split(" ", 1)[1].strip() for l in open(R + "/_build/results.txt") if l.startswith("PASS")); miss = sorted(stable - ok); t = "pass" if not miss else "FAIL %d %s" % (len(miss), miss[:2])
        p = json.load(open(V + "/seeded/" + i + "/meta.json"))["property"]; c = ""
        if "--nocheck" not in fl:
            r = subprocess.run([sys.executable, V + "/bin/check.py", p, "--tier", "quick"], env=dict(os.environ, SPMP_REPO=R), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            c = "check exit %d%s" % (r.returncode, " CAUGHT" if r.returncode == 1 and ("VIOLATION property=" + p) in r.stdout.decode() else " MISSED")
        print(i, p, "| demo", base[i][0], "->", d, "| tests", t, "|", c, flush=True)
finally:
    shutil.rmtree(W)
