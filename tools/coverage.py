#!/usr/bin/env python3
"""Source lines that no check's last run executed (from evidence/*.json)."""
import glob, json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); repo = os.environ.get("SPMP_REPO", "/repo")
hit, miss = {}, {}
def rng(t):
    r = set()
    for x in str(t).replace(" ", "").split(","):
        if x: a, _, b = x.partition("-"); r |= set(range(int(a), int(b or a) + 1))
    return r
for f in glob.glob(root + "/evidence/*.json"):
    c = json.load(open(f)); 
    def find(o):
        if isinstance(o, dict):
            for k, v in o.items():
                if k in ("lines_executed", "lines_not_executed") and isinstance(v, dict):
                    for p, t in v.items(): (hit if k == "lines_executed" else miss).setdefault(p, set()).update(rng(t) if not isinstance(t, list) else set(t))
                else: find(v)
        elif isinstance(o, list):
            for v in o: find(v)
    find(c)
for p in sorted(set(hit) | set(miss)):
    m = sorted(miss.get(p, set()) - hit.get(p, set())); print("== %s: %d executed, %d never" % (p, len(hit.get(p, ())), len(m)))
    q = os.path.join(repo, p)
    src = open(q).read().split("\n") if os.path.exists(q) else []
    for l in m: print("%6d %s" % (l, src[l - 1].rstrip() if l <= len(src) else ""))
