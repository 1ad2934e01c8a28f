#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/props.py and properties.jsonl."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
import props
NA = getattr(props, "NOT_APPLICABLE", {})
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    p = props.PROPS.get(i)
    if not p or i in NA:
        na.append(dict(property=i, reason=NA.get(i, "no solver-based check has been built for it yet")))
        continue
    checks.append(dict(property=i, quick_cmd="python3 bin/check.py %s --tier quick" % i, thorough_cmd="python3 bin/check.py %s --tier thorough" % i,
        technique=p.get("technique", "symbolic execution of the LLVM IR of the real code; SAT-based bit-vector solving of every branch, memory access, race pair and assertion; counterexamples replayed natively"),
        level="model_checking", level_note=("Bounds: " + p["bounds"] + (". Outside: " + p["outside"] if p.get("outside") else ". Outside: anything larger than these bounds") + ". Within them every value is covered unless the evidence lists the run as incomplete; trusted: clang's lowering to IR, the executor's model of memory, OpenMP and libc calls (cross-checked by native replay of sampled paths).")))
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], stdout=subprocess.PIPE).stdout.decode().split("\n")
hooks = [l.split()[0] for l in log if l.split(" ", 1)[-1].startswith("hook:")]
m = dict(version=1, setup_cmd="python3 bin/check.py --setup", hooks=dict(guard="SPMP_VERIF", enable="the checks compile /repo's sources with -DSPMP_VERIF (bin/check.py)", source_commits=hooks), checks=checks, not_applicable=na, notes="See DESIGN.md.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
