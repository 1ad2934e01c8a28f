#!/usr/bin/env python3
"""mkseed.py SPEC.py...: writes seeded/<id>/ from specs (dev tool; needs a clean /repo to make the patches from)."""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Run with cwd = the SpMP tree, after it was built.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$T"' EXIT
g++ -std=c++11 -O1 -fopenmp -I"$PWD" "$D/demo.cpp" _build/release/libspmp.a -o "$T/demo" || exit 3
cd "$T" || exit 3
OMP_DYNAMIC=false timeout %d ./demo
'''
def seed(id, prop, edits, needs, breaks, demo, timeout=120):
    d = V + "/seeded/" + id; os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mkseed.")
    subprocess.check_call("git -C /repo archive HEAD | tar x -C " + w, shell=True)
    subprocess.check_call(["git", "init", "-q"], cwd=w); subprocess.check_call(["git", "add", "-A"], cwd=w); subprocess.check_call(["git", "-c", "user.name=a", "-c", "user.email=a@b", "commit", "-qm", "x"], cwd=w)
    for f, a, b in edits:
        s = open(w + "/" + f).read()
        n = 1
        if isinstance(a, tuple): a, n = a
        assert s.count(a) >= n and (n > 1 or s.count(a) == 1), (id, f, a, s.count(a))
        if n == 1: s = s.replace(a, b)
        else:
            p = -1
            for _ in range(n): p = s.index(a, p + 1)
            s = s[:p] + b + s[p + len(a):]
        open(w + "/" + f, "w").write(s)
    diff = subprocess.check_output(["git", "diff", "--no-color"], cwd=w); assert diff
    open(d + "/patch.diff", "wb").write(diff); shutil.rmtree(w)
    open(d + "/demo.cpp", "w").write(demo.lstrip()); open(d + "/demo.sh", "w").write(DEMO % timeout); os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
for f in sys.argv[1:]: exec(open(f).read())
