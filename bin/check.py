#!/usr/bin/env python3
"""Solver-based check of one property of /repo (see DESIGN.md).

check.py <property> [--tier quick|thorough] [--keep] [--config N]
Exit 0: the property held on everything explored; exit 1 and a VIOLATION line: it is broken.
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SPMP_REPO", "/repo")
sys.path.insert(0, os.path.join(V, "bin"))
import props

LLVM = "/usr/lib/llvm-18/bin/"
BUILD = os.path.join(V, "build")
NCPU = len(os.sched_getaffinity(0)) or 4
GUARD = ["-DSPMP_VERIF"]
BC_FLAGS = ["-DSX_BC", "-isystem", V + "/engine/include", "-I" + REPO, "-I" + V + "/harness", "-std=c++11", "-fopenmp", "-O1", "-gline-tables-only", "-DNDEBUG", "-fno-exceptions",
            "-ffp-contract=off", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-fno-pic", "-Wno-everything", "-c", "-emit-llvm"] + GUARD
NAT = {
    "release": ["g++", "-O2", "-DNDEBUG", "-fopenmp", "-std=c++11", "-w", "-ffp-contract=off", "-g1"] + GUARD,
    "asan": ["g++", "-O1", "-DNDEBUG", "-fopenmp", "-std=c++11", "-w", "-ffp-contract=off", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"] + GUARD,
}
RT = V + "/engine/rt"
CLANG_NAT = ["-isystem", V + "/engine/include", "-fopenmp", "-std=c++11", "-O1", "-g1", "-DNDEBUG", "-w", "-ffp-contract=off", "-fno-vectorize", "-fno-slp-vectorize"] + GUARD
NAT["tsan"] = [LLVM + "clang++"] + CLANG_NAT + ["-fsanitize=thread"]
NAT["sched"] = [LLVM + "clang++"] + CLANG_NAT + ["-fsanitize=thread", "-mllvm", "-tsan-distinguish-volatile"]


WRAP = ["-Wl,--wrap=" + f for f in "malloc calloc realloc free posix_memalign aligned_alloc _Znwm _Znam _ZdlPv _ZdaPv _ZdlPvm _ZdaPvm _ZnwmSt11align_val_t _ZnamSt11align_val_t _ZdlPvSt11align_val_t _ZdaPvSt11align_val_t _ZdlPvmSt11align_val_t _ZdaPvmSt11align_val_t _ZnwmRKSt9nothrow_t _ZnamRKSt9nothrow_t _ZdlPvRKSt9nothrow_t _ZdaPvRKSt9nothrow_t memalign strdup strndup getline getdelim".split()]


def log(*a):
    print(*a, flush=True)


def run(cmd, timeout=None, env=None, cwd=None):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=cwd)


def lib_sources():
    r = []
    for d in ("", "reordering/", "synk/"):
        p = os.path.join(REPO, d)
        for f in sorted(os.listdir(p)):
            if f.endswith(".cpp") and not (d == "" and f in props.EXCLUDE):
                r.append(d + f)
    return r


def tree_hash():
    h = hashlib.sha256()
    for d, ds, fs in os.walk(REPO):
        ds[:] = sorted(x for x in ds if x not in (".git", "_build", "test"))
        for f in sorted(fs):
            if f.endswith((".cpp", ".hpp", ".h", ".c")):
                p = os.path.join(d, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    return h.hexdigest()


def ensure_engine():
    sx = BUILD + "/sx"
    h = hashlib.sha256()
    for f in sorted(os.listdir(V + "/engine")):
        p = V + "/engine/" + f
        if os.path.isfile(p):
            h.update(open(p, "rb").read())
    stamp = BUILD + "/sx.stamp"
    if os.path.exists(sx) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return
    os.makedirs(BUILD, exist_ok=True)
    r = run(["make", "-j%d" % NCPU, "-C", V + "/engine", "B=" + BUILD])
    if r.returncode:
        sys.stderr.write(r.stdout.decode() + r.stderr.decode())
        sys.exit(2)
    open(stamp, "w").write(h.hexdigest())


class Build:
    """bitcode and native builds of the current tree, in a scratch directory"""

    def __init__(self, prop, work):
        self.p, self.w = prop, work
        self.srcs = [s for s in lib_sources() if not prop.get("tus") or s in prop["tus"]]
        self.nat = {}
        self.lock = threading.Lock()

    def harnesses(self):
        return sorted({c.get("h", self.p["h"]) for c in self.p["_cfgs"]})

    def _par(self, jobs):
        with ThreadPoolExecutor(NCPU) as ex:
            rs = list(ex.map(lambda c: (c, run(c)), jobs))
        for c, r in rs:
            if r.returncode:
                sys.stderr.write(" ".join(c) + "\n" + r.stderr.decode())
                return False
        return True

    def file_flags(self, s):
        return ["-include", V + "/harness/sx_clock.h"] if s == "synk/loadimba.cpp" else []

    def bitcode(self):
        jobs, libs = [], []
        for s in self.srcs:
            o = self.w + "/" + s.replace("/", "_") + ".bc"
            libs.append(o)
            jobs.append([LLVM + "clang++"] + BC_FLAGS + self.file_flags(s) + [REPO + "/" + s, "-o", o])
        o = self.w + "/lib.bc"
        libs.append(o)
        jobs.append([LLVM + "clang", "-O1", "-fno-builtin", "-c", "-emit-llvm", V + "/engine/lib.c", "-o", o])
        for h in self.harnesses():
            jobs.append([LLVM + "clang++"] + BC_FLAGS + self.p.get("cflags", []) + [V + "/harness/" + h + ".cpp", "-o", self.w + "/h_" + h + ".bc"])
        if not self._par(jobs):
            return False
        return self._par([[LLVM + "llvm-link"] + libs + [self.w + "/h_" + h + ".bc", "-o", self.w + "/" + h + ".bc"] for h in self.harnesses()])

    def native(self, kind, h):
        with self.lock:
            if (kind, h) in self.nat:
                return self.nat[(kind, h)]
            d = self.w + "/nat_" + kind
            os.makedirs(d, exist_ok=True)
            fl = NAT[kind]
            jobs, objs = [], []
            for s in self.srcs:
                o = d + "/" + s.replace("/", "_") + ".o"
                objs.append(o)
                if not os.path.exists(o):
                    jobs.append(fl + self.file_flags(s) + ["-I" + REPO, "-c", REPO + "/" + s, "-o", o])
            for s in [V + "/harness/" + h + ".cpp"] + ([V + "/harness/sx_native.cpp"] if kind in ("release", "asan") else [V + "/harness/sx_native.cpp"]):
                o = d + "/" + os.path.basename(s) + ".o"
                objs.append(o)
                if not os.path.exists(o):
                    # for the controlled builds the harness support file is not instrumented
                    f2 = [x for x in fl if not (kind in ("tsan", "sched") and s.endswith("sx_native.cpp") and (x.startswith("-fsanitize") or "tsan" in x or x == "-mllvm"))]
                    jobs.append(f2 + self.p.get("cflags", []) + ["-I" + REPO, "-I" + V + "/harness", "-c", s, "-o", o])
            if kind in ("tsan", "sched"):
                o = d + "/kmp_rt.o"
                objs.append(o)
                if not os.path.exists(o):
                    jobs.append([LLVM + "clang++", "-std=c++11", "-O1", "-g1", "-w", "-c", RT + "/kmp_rt.cpp", "-o", o] + (["-fsanitize=thread"] if kind == "tsan" else ["-DSCHED"]))
            ok = self._par(jobs)
            exe = None
            if ok:
                exe = d + "/" + h
                if kind == "sched":
                    link = [LLVM + "clang++", "-no-pie"] + (["-Wl,--wrap=_ZN4synk7Barrier4waitEi"] if any("--barrier-contract" in c.get("opts", []) for c in self.p["_cfgs"]) else [])
                elif kind == "tsan":
                    link = [LLVM + "clang++", "-fsanitize=thread", "-lpthread"]
                else:
                    link = fl
                r = run(link + WRAP + objs + ["-o", exe, "-lpthread", "-ldl"])
                if r.returncode:
                    sys.stderr.write(r.stderr.decode()[:4000])
                    exe = None
            self.nat[(kind, h)] = exe
            return exe


def write_inputs(path, inputs):
    with open(path, "w") as f:
        for i in inputs:
            f.write("%s %s %s\n" % (i["n"], i["k"], i["v"]))


def nat_run(exe, inp, params, work, extra_env=None, timeout=20):
    d = tempfile.mkdtemp(dir=work)
    env = dict(os.environ)
    env.update({"SX_IN": inp, "SX_DIR": d, "OMP_DYNAMIC": "false", "OMP_WAIT_POLICY": "passive",
                "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:max_malloc_fill_size=1000000:allocator_may_return_null=0:detect_stack_use_after_return=0",
                "TSAN_OPTIONS": "exitcode=66:halt_on_error=0:history_size=7"})
    for k, v in params.items():
        env["SX_PARAM_" + k] = str(v)
    if extra_env:
        env.update(extra_env)
    try:
        r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=d)
        rc, out, err = r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        rc, out, err = "timeout", (e.stdout or b"").decode(errors="replace"), (e.stderr or b"").decode(errors="replace")
    shutil.rmtree(d, ignore_errors=True)
    return rc, out, err


def confirm(b, h, cfg, v, inp, work, deadline):
    """Replays a counterexample on the real build; returns a description when it reproduces."""
    params = cfg.get("p", {})
    kind = v["kind"]
    if kind == "race":
        return confirm_race(b, h, params, v, inp, work)
    envs = [{}, {"MALLOC_PERTURB_": "85"}, {"MALLOC_PERTURB_": "254"}]
    exe = b.native("release", h)
    tmo = 8 if kind in ("limit", "deadlock") else 20
    if exe:
        for rep, e in enumerate(envs):
            rc, out, err = nat_run(exe, inp, params, work, e, timeout=tmo)
            if rc == 77:
                break
            if rc == "timeout":
                return "release build does not terminate (%s)" % e
            if "SX-ASSERT-FAIL" in out:
                return "release build: " + "; ".join(sorted(set(re.findall(r"SX-ASSERT-FAIL (.*)", out)))[:4])
            if rc != 0 and "SX-DONE" not in out:
                return "release build ends with status %s %s" % (rc, (err.strip().splitlines() or [""])[-1][:160])
            if v.get("sched"):
                break
    if v.get("sched"):
        r = confirm_sched(b, h, params, v, inp, work)
        if r:
            return r
    if kind in ("memory", "assert", "abort", "exit", "arith", "harness"):
        exe = b.native("asan", h)
        if exe:
            for fill in ("190", "0", "255"):
                rc, out, err = nat_run(exe, inp, params, work, {"ASAN_OPTIONS": "detect_leaks=0:exitcode=99:max_malloc_fill_size=1000000:malloc_fill_byte=" + fill}, timeout=30)
                if rc == 77:
                    break
                m = re.search(r"ERROR: AddressSanitizer:? (.*)", err)
                if m:
                    st = re.findall(r"#\d+ \S+ in (\S+).*?/([\w.]+:\d+)", err)
                    return "AddressSanitizer: " + m.group(1)[:120] + (" in " + "; ".join("%s (%s)" % x for x in st[:2]) if st else "")
                if "SX-ASSERT-FAIL" in out:
                    return "asan build: " + "; ".join(sorted(set(re.findall(r"SX-ASSERT-FAIL (.*)", out)))[:4])
                if rc == "timeout" or (rc != 0 and "SX-DONE" not in out):
                    return "asan build ends with status %s" % rc
    return None


def site_line(s):
    m = re.match(r"([\w.]+):(\d+) in ", s or "")
    return (m.group(1), int(m.group(2))) if m else None


def confirm_race(b, h, params, v, inp, work):
    exe = b.native("tsan", h)
    if not exe:
        return None
    want = {x for x in (site_line(v["site"]), site_line(v["site2"])) if x}
    for rep in range(6):
        rc, out, err = nat_run(exe, inp, params, work, timeout=30)
        for blk in err.split("=================="):
            if "WARNING: ThreadSanitizer: data race" not in blk:
                continue
            # top frames of the two accesses
            tops = []
            for part in re.split(r"\n\s*\n", blk):
                if re.search(r"(Read|Write|read|write) of size", part):
                    fr = re.findall(r"#\d+ .*?([\w.]+):(\d+)", part)
                    tops.append([(f, int(l)) for f, l in fr[:4]])
            flat = [x for t in tops for x in t]
            if any(x in flat for x in want):
                return "ThreadSanitizer: data race between " + " and ".join("%s:%d" % t[0] for t in tops if t)
    return None


def call_lines(exe, path):
    """return addresses of the instrumentation calls with their source lines"""
    cache = exe + ".lines"
    if not os.path.exists(cache):
        dis = run(["objdump", "-d", "--no-show-raw-insn", exe]).stdout.decode()
        addrs, prev = [], False
        for l in dis.split("\n"):
            m = re.match(r"\s*([0-9a-f]+):\s+(.*)", l)
            if not m:
                prev = False
                continue
            if prev:
                addrs.append(int(m.group(1), 16))
            prev = "call" in m.group(2) and "<__tsan_" in m.group(2)
        r = subprocess.run(["addr2line", "-e", exe], input="\n".join("%x" % (a - 1) for a in addrs).encode(), stdout=subprocess.PIPE).stdout.decode().split("\n")
        with open(cache, "w") as f:
            for a, l in zip(addrs, r):
                m = re.match(r"(?:.*/)?([\w.]+):(\d+)", l)
                if m:
                    f.write("%x %s %s\n" % (a, m.group(1), m.group(2)))
    shutil.copy(cache, path)


def confirm_sched(b, h, params, v, inp, work):
    exe = b.native("sched", h)
    if not exe:
        return None
    sf = work + "/sched_%d.txt" % abs(hash(json.dumps(v["sched"]))) 
    with open(sf, "w") as f:
        for t, s in v["sched"]:
            sl = site_line(s)
            kind = s.split(" in ")[-1] if " in " in (s or "") else "p0"
            f.write("%d %s %d %d\n" % (t, sl[0] if sl else "?", sl[1] if sl else 0, int(kind[1:] or 0) * 2 + (kind[0] == "v")))
    call_lines(exe, sf + ".lines")
    for mode in ("0", "1"):
        rc, out, err = nat_run(exe, inp, params, work, {"SX_SCHED": sf, "SX_SCHED_MODE": mode}, timeout=20)
        if "SX-ASSERT-FAIL" in out:
            return "controlled schedule: " + "; ".join(sorted(set(re.findall(r"SX-ASSERT-FAIL (.*)", out)))[:4])
        if "SX-DEADLOCK" in out or "SX-DEADLOCK" in err:
            return "controlled schedule: deadlock"
        if rc == "timeout":
            return "controlled schedule: does not terminate"
        if rc not in (0, 77) and "SX-DONE" not in out:
            return "controlled schedule: ends with status %s" % rc
    return None


def known_findings(pid):
    p = V + "/known_findings.json"
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)).get("findings", []) if f["property"] == pid and f.get("status") == "open"]


def matches(f, v, cfg):
    m = f["match"]
    if "kind" in m and m["kind"] != v["kind"]:
        return False
    if "msg" in m and not re.search(m["msg"], v["msg"]):
        return False
    if "site" in m and not (re.search(m["site"], v["site"]) or re.search(m["site"], v["trace"])):
        return False
    for k, x in m.get("params", {}).items():
        if cfg.get("p", {}).get(k) != x:
            return False
    for name, x in m.get("inputs", {}).items():
        if not any(i["n"] == name and i["v"] == x for i in v["inputs"]):
            return False
    return True


def main():
    pid = sys.argv[1]
    if pid == "--setup":
        ensure_engine()
        return
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    only = int(sys.argv[sys.argv.index("--config") + 1]) if "--config" in sys.argv else None
    keep = "--keep" in sys.argv
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = props.PROPS[pid]
    cfgs = prop["quick"] if tier == "quick" else prop.get("thorough") or prop["quick"]
    prop["_cfgs"] = cfgs
    t0 = time.time()
    cap = prop.get("cap_" + tier, 300 if tier == "quick" else 3000)
    work = tempfile.mkdtemp(prefix="spmp-verif-%s-" % pid)
    rc = 2
    try:
        rc = check(pid, prop, cfgs, tier, seed, work, t0, cap, only)
    finally:
        if keep:
            log("work directory", work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def check(pid, prop, cfgs, tier, seed, work, t0, cap, only):
    ensure_engine()
    b = Build(prop, work)
    if not b.bitcode():
        log("cannot build /repo for checking")
        return 2
    tb = time.time() - t0
    # native build for validation runs beside the exploration
    natT = [threading.Thread(target=lambda h=h: b.native("release", h)) for h in b.harnesses()]
    results = [None] * len(cfgs)
    sem_lock = threading.Condition()
    free = [NCPU]
    sx_procs = []

    def run_cfg(k):
        c = cfgs[k]
        j = min(c.get("j", 1), NCPU)
        with sem_lock:
            while free[0] < j:
                sem_lock.wait()
            free[0] -= j
        try:
            out = work + "/out%d" % k
            left = cap - (time.time() - t0)
            tl = min(c.get("t", 60), left)
            if tl < 1:
                results[k] = dict(parts=[], dead=0, skipped=True, unrefined=False)
                return
            cmd = [BUILD + "/sx", "--out", out, "--time", "%.1f" % tl, "--jobs", str(j), "--samples", str(c.get("samples", 8))] + c.get("opts", [])
            for n, v in c.get("p", {}).items():
                cmd += ["-p", "%s=%d" % (n, v)]
            cmd.append(work + "/" + c.get("h", prop["h"]) + ".bc")
            ts = time.time()
            try:
                r = run(cmd, timeout=tl * 1.5 + 60)
                dead = r.returncode
                err = r.stderr.decode(errors="replace")
            except subprocess.TimeoutExpired:
                dead, err = -1, "timeout"
            parts = []
            for q in range(0, j + 1):
                f = out + ".%d" % q
                if os.path.exists(f):
                    try:
                        parts.append(json.load(open(f)))
                    except Exception as e:
                        dead = -2
                        err += "bad part %s" % e
            if os.path.exists(out + ".dead"):
                dead = -3
            results[k] = dict(parts=parts, dead=dead, err=err, wall=time.time() - ts, unrefined=os.path.exists(out + ".unrefined"))
        finally:
            with sem_lock:
                free[0] += j
                sem_lock.notify_all()

    order = [k for k in range(len(cfgs)) if only is None or k == only]
    ths = [threading.Thread(target=run_cfg, args=(k,)) for k in order]
    for t in natT:
        t.start()
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    for t in natT:
        t.join()

    counters, incomplete, reached, funcs, exts, lhit, lmiss = {}, {}, {}, set(), {}, {}, {}
    solver = dict(queries=0, cache_hits=0, sat=0, unsat=0, unknown=0, z3=0, time=0.0)
    viols, samples, exhausted = [], [], True
    cfg_report = []
    for k in order:
        r, c = results[k], cfgs[k]
        ci, cc = {}, {}
        if r is None or r.get("skipped"):
            exhausted = False
            incomplete["config-skipped"] = incomplete.get("config-skipped", 0) + 1
            cfg_report.append(dict(params=c.get("p", {}), skipped=True))
            continue
        if r["dead"]:
            ci["engine-failed(%s)" % r["dead"]] = 1
            if r.get("err"):
                sys.stderr.write(r["err"][-500:] + "\n")
        if r["unrefined"]:
            ci["visibility-refinement-stopped"] = 1
        rs = {}
        for p in r["parts"]:
            for n, x in p["counters"].items():
                cc[n] = cc.get(n, 0) + x
            for n, x in p["incomplete"].items():
                ci[n] = ci.get(n, 0) + x
            for n, x in p["reached"].items():
                rs[n] = rs.get(n, 0) + x
            for n, x in p["externals"].items():
                exts[n] = exts.get(n, 0) + x
            for n in solver:
                solver[n] += p["solver"].get(n, 0)
            funcs.update(p["functions"])
            for fn, (hit, miss) in p.get("lines", {}).items():
                lhit.setdefault(fn, set()).update(hit)
                lmiss.setdefault(fn, set()).update(miss)
            for v in p["violations"]:
                viols.append((k, v))
            for s in p["samples"]:
                samples.append((k, s))
        if ci:
            exhausted = False
        for n, x in cc.items():
            counters[n] = counters.get(n, 0) + x
        for n, x in ci.items():
            incomplete[n] = incomplete.get(n, 0) + x
        for n, x in rs.items():
            reached[n] = reached.get(n, 0) + x
        missing = [l for l in c.get("reach", prop.get("reach", [])) if not rs.get(l)]
        cfg_report.append(dict(params=c.get("p", {}), harness=c.get("h", prop["h"]), paths=cc.get("paths", 0), completed=cc.get("completed", 0), seconds=round(r["wall"], 2), incomplete=ci, reached=rs, not_reached=missing))
    # validation: solver-chosen representatives of explored paths run on the real build; observations must agree
    validated, mismatch = 0, []
    vdone = []
    for hh in sorted({cfgs[k].get("h", prop["h"]) for k, s in samples if not cfgs[k].get("novalidate")}):
        b.native("release", hh)  # not on the clock of the validation
    vdl = time.time() + (12 if tier == "quick" else 120)
    todo = []
    percfg = {}
    for k, s in samples:
        percfg.setdefault(k, []).append(s)
    for k in percfg:
        if cfgs[k].get("novalidate"):
            continue
        for s in percfg[k][: (6 if tier == "quick" else 24)]:
            todo.append((k, s))

    def val(ks):
        k, s = ks
        if time.time() > vdl:
            return None
        exe = b.native("release", cfgs[k].get("h", prop["h"]))
        if not exe:
            return None
        fd, inp = tempfile.mkstemp(dir=work)
        os.close(fd)
        write_inputs(inp, s["inputs"])
        rc, out, err = nat_run(exe, inp, cfgs[k].get("p", {}), work)
        obs = re.findall(r"SX-OBS (\S+) (\w) (\w+)", out)
        exp = [tuple(o) for o in s["obs"]]
        return (k, s, rc, obs == exp, out, err)

    with ThreadPoolExecutor(NCPU) as ex:
        for r in ex.map(val, todo):
            if r is None:
                continue
            k, s, rc, same, out, err = r
            if rc == 0 and same:
                validated += 1
                if len(vdone) < 4:
                    vdone.append(dict(params=cfgs[k].get("p", {}), inputs={i["n"]: i.get("s", i["v"]) for i in s["inputs"]}, observations=len(s["obs"])))
            else:
                mismatch.append(dict(params=cfgs[k].get("p", {}), inputs=s["inputs"], status=str(rc), out=out[-400:], err=err[-200:]))
    # violations: replay, classify
    confirmed, known, inconclusive = [], {}, []
    kf = known_findings(pid)
    seen = {}
    os.makedirs(BUILD + "/replay", exist_ok=True)
    for n, (k, v) in enumerate(viols):
        if prop.get("kinds") and v["kind"] not in prop["kinds"] and v["msg"] not in prop["kinds"]:
            continue  # another property's business
        key = (v["kind"], v["msg"], v["site"], v["site2"])
        if seen.get(key, 0) >= 2 or (confirmed and len(confirmed) >= 3) or len(seen) > 25:
            continue
        seen[key] = seen.get(key, 0) + 1
        c = cfgs[k]
        h = c.get("h", prop["h"])
        inp = work + "/viol%d.in" % n
        write_inputs(inp, v["inputs"])
        how = confirm(b, h, c, v, inp, work, t0 + cap)
        rec = dict(property=pid, harness=h, params=c.get("p", {}), kind=v["kind"], msg=v["msg"], site=v["site"], site2=v["site2"], trace=v["trace"], inputs=v["inputs"], sched=v.get("sched"), confirmed=how)
        if not how:
            inconclusive.append(rec)
            continue
        f = next((f for f in kf if matches(f, v, c)), None)
        if f:
            known[f["id"]] = (f, rec)
            continue
        path = BUILD + "/replay/%s-%d.json" % (pid, len(confirmed))
        json.dump(rec, open(path, "w"), indent=1)
        rec["path"] = path
        confirmed.append(rec)
    # a real build that disagrees with the encoding on a path the solver found safe is either an engine bug or undefined behaviour
    mm_conf = []
    for m in mismatch:
        if "SX-ASSERT-FAIL" in m["out"] or (m["status"] not in ("0", "77", "timeout") and "SX-DONE" not in m["out"]):
            mm_conf.append(m)
    wall = time.time() - t0
    notreached = sorted({l for c in cfg_report for l in c.get("not_reached", [])})
    ev = dict(
        property=pid, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            method="symbolic execution of the LLVM IR of the real sources; every branch, address, assertion, bounds and race condition decided by a solver over all values within the bounds",
            bounds=prop.get("bounds", ""), outside=prop.get("outside", ""),
            configurations=cfg_report, exhaustive=bool(exhausted and not notreached),
            states=counters.get("paths", 0), transitions=counters.get("steps", 0),
            traces_validated_against_impl=validated, validation_mismatches=len(mismatch),
            samples=vdone or [dict(note="no path of this run had observations")],
            assertions_checked=counters.get("asserts", 0), solver_checked_conditions=counters.get("checks", 0), race_queries=counters.get("race-queries", 0),
            parallel_regions=counters.get("parallel-regions", 0), barriers=counters.get("barriers", 0), schedule_forks=counters.get("schedule-forks", 0), sleep_set_pruned=counters.get("sleep-pruned", 0),
            solver=dict(queries=solver["queries"], cache_hits=solver["cache_hits"], sat=solver["sat"], unsat=solver["unsat"], unknown=solver["unknown"], z3_queries=solver["z3"], seconds=round(solver["time"], 2)),
            functions_encoded=sorted(demangle(funcs)), lines_executed=lines_of(lhit), lines_not_executed=lines_of({f: x - lhit.get(f, set()) for f, x in lmiss.items()}), externals_modelled=exts, reached=reached, not_reached=notreached,
            incomplete=incomplete, counterexamples_not_reproduced=[dict(kind=r["kind"], msg=r["msg"], site=r["site"], site2=r["site2"], params=r["params"]) for r in inconclusive][:20],
            known_findings=[f["id"] for f, _ in known.values()], source_sha256=tree_hash(), build_s=round(tb, 2)),
        assumptions=prop.get("assumptions", []) + props.COMMON_ASSUMPTIONS,
        wall_s=round(wall, 2), violations=len(confirmed) + len(mm_conf))
    os.makedirs(V + "/evidence", exist_ok=True)
    json.dump(ev, open(V + "/evidence/%s.json" % pid, "w"), indent=1)
    for f, rec in known.values():
        log("KNOWN-FINDING: property=%s %s" % (pid, f["text"]))
    log("%s %s: %d paths, %d solver queries (%.1f s), %d assertions, %d race queries, %d validated, %s, %.1f s" % (pid, tier, counters.get("paths", 0), solver["queries"], solver["time"], counters.get("asserts", 0), counters.get("race-queries", 0), validated, "exhausted" if exhausted else "not exhausted " + json.dumps(incomplete), wall))
    for r in inconclusive[:8]:
        log("  not reproduced natively: %s %s at %s %s %s" % (r["kind"], r["msg"], r["site"], r["site2"], r["params"]))
    if notreached:
        log("  not reached:", notreached)
    for m in mismatch[:4]:
        log("  validation mismatch:", json.dumps(m)[:700])
    for r in confirmed:
        log("  %s: %s at %s %s (%s) params %s inputs %s" % (r["kind"], r["msg"], r["site"], r["site2"], r["confirmed"], r["params"], {i["n"]: i.get("s", i["v"]) for i in r["inputs"]}))
        log("VIOLATION property=%s replay=%s" % (pid, r["path"]))
    if mm_conf and not confirmed:
        path = BUILD + "/replay/%s-m.json" % pid
        json.dump(mm_conf[0], open(path, "w"), indent=1)
        log("VIOLATION property=%s replay=%s" % (pid, path))
    return 1 if confirmed or mm_conf else 0


def lines_of(d):
    """Lines of the repository's sources, as ranges."""
    r = {}
    for f, x in d.items():
        q = os.path.realpath(f) if os.path.isabs(f) else os.path.realpath(os.path.join(REPO, f))
        if q.startswith(REPO + "/") and x and os.path.exists(q):
            r.setdefault(q[len(REPO) + 1:], set()).update(x)
    for f in r:
        out, l = [], sorted(r[f])
        for v in l:
            if out and out[-1][1] == v - 1:
                out[-1][1] = v
            else:
                out.append([v, v])
        r[f] = ",".join(str(a) if a == b else "%d-%d" % (a, b) for a, b in out)
    return r


def demangle(funcs):
    r = run(["c++filt"] + sorted(f for f in funcs)) if funcs else None
    out = r.stdout.decode().split("\n") if r else []
    return [f for f in out if f and not f.startswith(("sx_", "std::", "void std::"))][:400]


if __name__ == "__main__":
    main()
