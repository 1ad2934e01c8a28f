// Symbolic executor for the LLVM IR of the code under test.
#include "exec.hpp"
#include <algorithm>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstring>
#include <functional>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <pthread.h>

static Module M;
static std::vector<State *> work;
static State *s;                       // current state
static std::map<std::string, long> params;
static double tBudget = 1e9; static u64 stepLimit = 20000000; static int maxViol = 4; static int jobs = 1; static int sampleMax = 12;
static bool limitIsViolation = false; static int preemptBound = 1000; static int delayBound = -1; static int symWindow = 96; static bool concAddr = false; static bool exitOk = false; static bool thrRev = false;
static std::chrono::steady_clock::time_point T0;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }

static int hardViols = 0;
struct Viol { std::string kind, msg, site, site2; std::string inputs; std::string sched; std::string trace; };
static std::vector<Viol> viols; static std::map<std::string, int> violKeys;
static std::map<std::string, long> counters; // paths, forks, ...
static std::map<std::string, long> incomplete;
static std::map<std::string, long> reachedCnt;
static std::vector<std::string> samples; static std::map<std::string, long> extUsed;
static std::set<std::pair<u32, u32>> racePairs; static bool stopAll = false; static std::map<u32, Inst *> instByUid;
static std::set<u32> newVisible;
static std::vector<std::string> opt_out;

struct PathEnd { };
struct TryAbort { }; static bool tryMode = false; // a trial of one iteration of a waiting loop must not fork or report
#define NOTRY if (tryMode) throw TryAbort()
                     // thrown to end the current path

static std::string jesc(const std::string &x) { std::string r; char b[8]; for (unsigned char c : x) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static std::string site(const Inst *I) { char b[64]; if (!I) return "?"; std::string f = I->file ? I->file : "?"; size_t p = f.rfind('/'); if (p != std::string::npos) f = f.substr(p + 1); snprintf(b, 64, ":%u", I->line); return f + b + " in " + (I->fn ? I->fn->name : "?"); }
static Thread &TH() { return s->th[s->cur]; }
static Frame &FR() { return s->th[s->cur].stack.back(); }
static const Inst *curInst() { if (s->th[s->cur].stack.empty()) return nullptr; Frame &f = FR(); auto &v = f.f->blocks[f.bb].insts; return f.ip < (int)v.size() ? &v[f.ip] : nullptr; }
static std::string backtrace() { std::string r; auto &st = TH().stack; for (int i = (int)st.size() - 1; i >= 0 && i > (int)st.size() - 7; i--) { Frame &f = st[i]; auto &v = f.f->blocks[f.bb].insts; int ip = std::min(f.ip, (int)v.size() - 1); r += (r.empty() ? "" : " <- ") + site(&v[ip]); } return r; }

static std::string inputsJson(const Model &m) {
  std::string r = "["; char b[96];
  for (auto &i : s->inputs) {
    if (r.size() > 1) r += ",";
    u64 v = i.v.e ? evalExpr(i.v.e, m) : i.v.c;
    if (i.kind == 'd') { double d; memcpy(&d, &v, 8); snprintf(b, 96, "{\"n\":\"%s\",\"k\":\"d\",\"v\":\"%016llx\",\"s\":\"%g\"}", i.name.c_str(), (unsigned long long)v, d); }
    else snprintf(b, 96, "{\"n\":\"%s\",\"k\":\"i\",\"v\":%lld}", i.name.c_str(), (long long)sextw(v, i.w));
    r += b;
  }
  return r + "]";
}
static std::string schedJson() { std::string r = "["; for (auto &x : s->sched) { std::string t = instByUid.count(x.uid) ? site(instByUid[x.uid]) : "?"; size_t q = t.find(" in "); if (q != std::string::npos) { const Inst *I = instByUid[x.uid]; t = t.substr(0, q) + " in " + (I->lock ? "p" : I->vol || I->atomic ? "v" : "p") + std::to_string(I->lock ? 1000 : I->size); } r += (r.size() > 1 ? ",[" : "[") + std::to_string(x.tid) + ",\"" + jesc(t) + "\"]"; } return r + "]"; }

static void report(const char *kind, const std::string &msg, const Model &m, const Inst *I, const Inst *I2 = nullptr) {
  NOTRY;
  std::string key = std::string(kind) + "|" + msg + "|" + site(I) + "|" + site(I2);
  counters["violations"]++;
  if (violKeys[key]++ >= 1) return;
  Viol v; v.kind = kind; v.msg = msg; v.site = site(I); v.site2 = I2 ? site(I2) : ""; v.inputs = inputsJson(m); v.sched = schedJson(); v.trace = backtrace();
  viols.push_back(v);
  if (!(s->interleave && v.kind == "deadlock")) hardViols++;
  if (hardViols >= maxViol || (hardViols == 0 && counters["violations"] >= 4000)) stopAll = true;
}

// ------------------------------------------------------------------ constraints
static void learn(Expr *c, u64 v) { s->known[c] = v; }
static void addPC(Expr *c) {
  if (c->op == O_CONST) return;
  if (c->op == O_AND && c->w == 1) { addPC(c->a[0]); addPC(c->a[1]); return; }
  s->pc.push_back(c); learn(c, 1);
  Expr *n = mkNot(c); if (n->op != O_CONST) learn(n, 0);
  if (c->op == O_EQ && c->a[1]->op == O_CONST) learn(c->a[0], c->a[1]->k);
}
static u64 ev(Expr *e) { return evalExpr(e, s->model); }
static Val simp(const Val &v) { if (!v.e) return v; auto it = s->known.find(v.e); if (it != s->known.end()) return Val(it->second); return v; }

// truth of c on the current path; when both are possible the other side is queued (it re-executes the current instruction)
static bool decide(Expr *c) {
  if (c->op == O_CONST) return c->k;
  auto it = s->known.find(c); if (it != s->known.end()) return it->second;
  NOTRY; bool v = ev(c); Expr *other = v ? mkNot(c) : c; Model m2;
  SatResult r = solve(s->pc, other, s->model, &m2);
  if (r == R_UNKNOWN) { incomplete["solver-unknown"]++; }
  if (r == R_SAT) {
    State *s2 = new State(*s); State *sv = s; s = s2; addPC(other); s2->model = m2; s = sv; work.push_back(s2); counters["forks"]++;
    addPC(v ? c : mkNot(c));
  } else { learn(c, v); }
  return v;
}
static bool decideV(const Val &v, int w) { if (v.isC()) return v.c != 0; return decide(w == 1 ? v.e : mkNot(mkCmp(O_EQ, v.e, mkConst(0, w)))); }
static u64 concretize(const Val &v0, int w) {
  Val v = simp(v0); if (v.isC()) return v.c;
  u64 x = ev(v.e); Expr *c = mkCmp(O_EQ, v.e, mkConst(x, w));
  bool r = decide(c); (void)r; learn(v.e, x);
  return x;
}
static void assume(Expr *c) {
  if (c->op == O_CONST) { if (!c->k) throw PathEnd(); return; }
  auto it = s->known.find(c); if (it != s->known.end()) { if (!it->second) throw PathEnd(); return; }
  if (!ev(c)) { Model m2; SatResult r = solve(s->pc, c, s->model, &m2); if (r == R_UNKNOWN) incomplete["solver-unknown"]++; if (r != R_SAT) { counters["assume-cut"]++; throw PathEnd(); } s->model = m2; }
  addPC(c);
}
static bool may(Expr *c) { if (c->op == O_CONST) return c->k; if (ev(c)) return true; Model m2; return solve(s->pc, c, s->model, &m2) == R_SAT; }
// report if 'bad' is possible; afterwards continue with !bad
static void mustNot(Expr *bad, const char *kind, const std::string &msg) {
  if (bad->op == O_CONST) { if (bad->k) { report(kind, msg, s->model, curInst()); throw PathEnd(); } return; }
  auto it = s->known.find(bad); if (it != s->known.end() && !it->second) return;
  counters["checks"]++;
  if (ev(bad)) { report(kind, msg, s->model, curInst()); assume(mkNot(bad)); return; }
  Model m2; SatResult r = solve(s->pc, bad, s->model, &m2);
  if (r == R_SAT) { report(kind, msg, m2, curInst()); addPC(mkNot(bad)); }
  else { if (r == R_UNKNOWN) incomplete["solver-unknown"]++; learn(bad, 0); learn(mkNot(bad), 1); }
}

// ------------------------------------------------------------------ memory
static u32 newObj(u64 size, ObjKind k) {
  Obj *o = new Obj; o->size = size; o->kind = k; o->owner = s->team ? s->cur : 255; s->mem.push_back(ObjRef(o)); return s->mem.size() - 1;
}
static inline u32 objOf(u64 a) { return (u32)(a >> 32); }
static Val fresh(int w) { return mkVal(mkSym(s->nsyms++, w)); }

static bool gQuietUndef = false;
static Val readAt(Obj *o, u64 off, u32 n, u32 id) {
  if (o->data.empty() && o->size) {
    if (o->defTag == 0) return Val(0);
  } else {
    const u8 *t = &o->tag[off]; bool all0 = true; for (u32 i = 0; i < n; i++) if (t[i]) { all0 = false; break; }
    if (all0) { u64 v = 0; memcpy(&v, &o->data[off], n); return Val(v); }
    if (t[0] == 1 && o->sym[off].idx == 0 && o->sym[off].e->w == n * 8) {
      bool ok = true; Expr *e = o->sym[off].e; for (u32 i = 1; i < n; i++) if (t[i] != 1 || o->sym[off + i].e != e || o->sym[off + i].idx != i) { ok = false; break; }
      if (ok) return simp(mkVal(e));
    }
  }
  // slow path; uninitialised bytes become unconstrained symbols (kept, so that re-reading gives the same value)
  Obj *ow = nullptr; Expr *r = nullptr;
  for (u32 i = 0; i < n; i++) {
    u8 tg = o->data.empty() ? o->defTag : o->tag[off + i]; Expr *b;
    if (tg == 0) b = mkConst(o->data[off + i], 8);
    else if (tg == 1) b = mkExtract(o->sym[off + i].e, o->sym[off + i].idx * 8, 8);
    else {
      if (!ow) { ow = s->mem[id].w(); ow->need(); if (ow->sym.empty()) ow->sym.resize(ow->size); ow->sig = 0; o = ow; if (!gQuietUndef) { s->undefs++; counters["undef-reads"]++; } }
      // whole uninitialised value: one symbol
      u32 j = i; while (j < n && (o->tag[off + j] == 2)) j++;
      Expr *f = mkSym(s->nsyms++, (j - i) * 8);
      for (u32 q = i; q < j; q++) { o->tag[off + q] = 1; o->sym[off + q] = SymByte{f, (u8)(q - i)}; }
      b = mkExtract(f, 0, 8);
    }
    r = r ? mkConcat(b, r) : b;
  }
  return simp(mkVal(r));
}
static void writeAt(Obj *o, u64 off, u32 n, const Val &v) { // o writable
  o->need(); o->version++;
  if (v.isC()) { memcpy(&o->data[off], &v.c, n); memset(&o->tag[off], 0, n); return; }
  if (o->sym.empty()) o->sym.resize(o->size);
  for (u32 i = 0; i < n; i++) { o->tag[off + i] = 1; o->sym[off + i] = SymByte{v.e, (u8)i}; }
}

struct Loc { u32 obj; bool isC; u64 off; Expr *offE; };  // offset in the object
static Loc resolve(const Val &addr0, u64 n, bool wr, const char *what) {
  Val addr = simp(addr0); Loc L; 
  if (addr.isC()) {
    u64 a = addr.c; L.obj = objOf(a); L.isC = true; L.offE = nullptr;
    if (L.obj == 0 || L.obj >= s->mem.size()) { report("memory", std::string(a < 4096 ? "null pointer " : "wild pointer ") + what, s->model, curInst()); throw PathEnd(); }
    Obj *o = s->mem[L.obj].p; L.off = a - objAddr(L.obj);
    if (!o->alive) { report("memory", std::string(what) + " of freed or dead memory", s->model, curInst()); throw PathEnd(); }
    if (L.off > o->size || o->size - L.off < n) { report("memory", std::string("out-of-bounds ") + what, s->model, curInst()); throw PathEnd(); }
    if (wr && o->ro) { report("memory", "write to constant", s->model, curInst()); throw PathEnd(); }
    return L;
  }
  Expr *e = addr.e; u32 id = objOf(e->ulo);
  if (id == 0 || id != objOf(e->uhi) || id >= s->mem.size()) {
    // several objects possible: pick the one of the current model, queue the others
    u64 a = ev(e); id = objOf(a);
    // offsets may stray out of the object: everything in the 4 GB window of the object counts as this object
    Expr *in = mkCmp(O_EQ, mkExtract(e, 32, 32), mkConst(id, 32));
    if (!decide(in)) abort();
    if (id == 0 || id >= s->mem.size()) { report("memory", std::string("null or wild pointer ") + what, s->model, curInst()); throw PathEnd(); }
  }
  Obj *o = s->mem[id].p; u64 base = objAddr(id);
  if (!o->alive) { report("memory", std::string(what) + " of freed or dead memory", s->model, curInst()); throw PathEnd(); }
  if (!(e->ulo >= base && e->uhi - base <= o->size && o->size - (e->uhi - base) >= n)) {
    if (o->size < n) { report("memory", std::string("out-of-bounds ") + what, s->model, curInst()); throw PathEnd(); }
    Expr *bad = mkCmp(O_ULT, mkConst(o->size - n, 64), mkSub(e, mkConst(base, 64)));
    mustNot(bad, "memory", std::string("out-of-bounds ") + what);
  }
  Val a2 = simp(addr); L.obj = id;
  if (a2.isC()) { L.isC = true; L.off = a2.c - base; L.offE = nullptr; }
  else { L.isC = false; L.offE = mkSub(e, mkConst(base, 64)); L.off = 0; if (L.offE->op == O_CONST) { L.isC = true; L.off = L.offE->k; } }
  return L;
}
static void candidates(const Loc &L, u32 n, std::vector<u64> &c) {
  Obj *o = s->mem[L.obj].p; u64 lo = std::min(L.offE->ulo, o->size), hi = std::min(L.offE->uhi, o->size - n);
  if (L.offE->ulo > L.offE->uhi || L.offE->uhi > (1ULL << 62)) { lo = 0; }
  u64 st = 1ULL << std::min<int>(L.offE->tz, 3);
  for (u64 x = (lo + st - 1) / st * st; x <= hi; x += st) { c.push_back(x); if (c.size() > 4096) break; }
}
static Loc narrow(Loc L, u32 n, std::vector<u64> &cand) {
  if (L.isC) return L;
  if (!concAddr) {
    candidates(L, n, cand);
    if ((int)cand.size() <= symWindow) return L;
    // ask the solver which offsets are possible, up to the window
    std::vector<u64> vals; std::vector<Expr *> pc = s->pc; Expr *q = mkConst(1, 1); Model cur = s->model; vals.push_back(ev(L.offE)); bool done = false;
    while ((int)vals.size() <= 24) {
      q = mkBin(O_AND, q, mkNot(mkCmp(O_EQ, L.offE, mkConst(vals.back(), 64)))); Model m2; SatResult r = solve(pc, q, cur, &m2);
      if (r != R_SAT) { done = r == R_UNSAT; break; } vals.push_back(evalExpr(L.offE, m2));
    }
    if (done) { std::sort(vals.begin(), vals.end()); cand = vals; return L; }
  }
  cand.clear(); L.off = concretize(mkVal(L.offE), 64); L.isC = true; L.offE = nullptr; return L;
}

static void logAccess(const Loc &L, u32 n, const Inst *I, bool wr, bool sync, const Val *oldv, const Val *newv);
static Val load(const Val &addr, u32 n, const Inst *I, bool sync) {
  Loc L = resolve(addr, n, false, "read"); std::vector<u64> cand; L = narrow(L, n, cand); Val r;
  if (L.isC) r = readAt(s->mem[L.obj].p, L.off, n, L.obj);
  else {
    Expr *e = nullptr;
    for (size_t i = cand.size(); i-- > 0;) { gQuietUndef = true; Val v = readAt(s->mem[L.obj].p, cand[i], n, L.obj); gQuietUndef = false; Expr *x = toE(v, n * 8); e = e ? mkIte(mkCmp(O_EQ, L.offE, mkConst(cand[i], 64)), x, e) : x; }
    r = simp(mkVal(e));
  }
  if (s->team > 1) logAccess(L, n, I, false, sync, nullptr, &r);
  return r;
}
static void store(const Val &addr, u32 n, const Val &v, const Inst *I, bool sync) {
  Loc L = resolve(addr, n, true, "write"); std::vector<u64> cand; L = narrow(L, n, cand);
  Val old; bool lg = s->team > 1 && !(s->mem[L.obj].p->kind == K_STACK && s->mem[L.obj].p->owner == s->cur);
  if (L.isC) {
    if (lg) { Obj *o = s->mem[L.obj].p; bool un = false; for (u32 i = 0; i < n; i++) if ((o->data.empty() ? o->defTag : o->tag[L.off + i]) == 2) un = true; if (!un) { old = readAt(o, L.off, n, L.obj); logAccess(L, n, I, true, sync, &old, &v); } else logAccess(L, n, I, true, sync, nullptr, &v); }
    writeAt(s->mem[L.obj].w(), L.off, n, v);
  } else {
    if (lg) logAccess(L, n, I, true, sync, nullptr, &v);
    Obj *o = s->mem[L.obj].w(); Expr *x = toE(v, n * 8);
    for (u64 c : cand) { bool un = true; for (u32 i = 0; i < n; i++) if ((o->data.empty() ? o->defTag : o->tag[c + i]) != 2) un = false; (void)un; gQuietUndef = true; Val old = readAt(o, c, n, L.obj); gQuietUndef = false; o = s->mem[L.obj].w(); writeAt(o, c, n, mkVal(mkIte(mkCmp(O_EQ, L.offE, mkConst(c, 64)), x, toE(old, n * 8)))); }
  }
}
static std::string cstr(const Val &p) {
  std::string r; u64 a = concretize(p, 64);
  for (int i = 0; i < 4096; i++) { Loc L = resolve(Val(a + i), 1, false, "read of string"); Val v = readAt(s->mem[L.obj].p, L.off, 1, L.obj); u64 c = concretize(v, 8); if (!c) break; r += (char)c; }
  return r;
}
static void putStr(u64 a, const std::string &x) { Loc L = resolve(Val(a), x.size() + 1, true, "write of string"); Obj *o = s->mem[L.obj].w(); for (size_t i = 0; i <= x.size(); i++) writeAt(o, L.off + i, 1, Val((u8)(i < x.size() ? x[i] : 0))); }

static u64 heapAlloc(u64 size, const Inst *I) { u32 id = newObj(size, K_HEAP); s->mem[id].p->allocUid = I ? I->uid : 0; s->heapLive++; return objAddr(id); }
static void heapFree(const Val &p, const char *fn) {
  u64 a = concretize(p, 64); if (!a) return; u32 id = objOf(a);
  if (id >= s->mem.size() || id == 0 || a != objAddr(id) || s->mem[id].p->kind != K_HEAP) { report("memory", std::string("invalid ") + fn, s->model, curInst()); throw PathEnd(); }
  if (!s->mem[id].p->alive) { report("memory", "double free", s->model, curInst()); throw PathEnd(); }
  if (s->team > 1) { Loc L; L.obj = id; L.isC = true; L.off = 0; L.offE = nullptr; u64 sz = s->mem[id].p->size; if (sz) logAccess(L, sz > 0xffffffff ? 0xffffffff : sz, curInst(), true, false, nullptr, nullptr); }
  Obj *o = s->mem[id].w(); o->alive = false; o->data.clear(); o->tag.clear(); o->sym.clear(); o->version++; s->heapLive--;
}

// ------------------------------------------------------------------ races
static void vcJoin(VC &a, const VC &b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]); }
static void vcTick(Thread &t, int k) { if ((int)t.vc.size() <= k) t.vc.resize(k + 1, 0); t.vc[k]++; t.vcSnap.reset(); }
// With merging at every scheduling point the accesses of a dropped schedule must still meet those that follow in the kept one. They are
// therefore collected per barrier interval over all schedules, and any conflict (whatever orders it) makes both instructions visible.
static bool cacheOn = false; struct AccEnt { u64 key; u32 uid; u32 crit; u8 tid, wr, vis; bool operator==(const AccEnt &o) const { return key == o.key && uid == o.uid && tid == o.tid && wr == o.wr && crit == o.crit; } };
struct AccHash { size_t operator()(const AccEnt &a) const { return a.key ^ (a.uid * 0x9E3779B97F4A7C15ULL) ^ (a.tid << 3) ^ a.wr; } };
static std::unordered_set<AccEnt, AccHash> accTab;
static void accConflicts() {
  std::unordered_map<u64, std::vector<const AccEnt *>> by; for (auto &a : accTab) by[a.key].push_back(&a);
  for (auto &p : by) { bool w = false, m = false; for (auto *a : p.second) { w |= a->wr; m |= a->tid != p.second[0]->tid; } if (!w || !m) continue;
    for (auto *a : p.second) if (!a->vis) for (auto *b : p.second) if (a->tid != b->tid && !(a->crit & b->crit) && (a->wr || b->wr)) { newVisible.insert(a->uid); break; } }
}
static void logAccess(const Loc &L, u32 n, const Inst *I, bool wr, bool sync, const Val *oldv, const Val *newv) {
  Thread &t = TH(); Obj *o = s->mem[L.obj].p;
  if (o->kind == K_STACK && o->owner == s->cur) return;
  if (o->ro) return;
  if (cacheOn && s->interleave) {
    bool w = wr && !(oldv && newv && oldv->isC() && newv->isC() && oldv->c == newv->c); u64 lo = L.isC ? L.off : 0, hi = L.isC ? L.off + n : o->size;
    for (u64 g = lo; g < hi; g++) { AccEnt e; memset(&e, 0, sizeof e); e.crit = t.crit; e.key = (s->regionKey ^ ((u64)L.obj << 20) ^ g) * 0xff51afd7ed558ccdULL; e.uid = I->uid; e.tid = t.tid; e.wr = w; e.vis = sync || I->visible; accTab.insert(e); }
    return;
  }
  if (!t.vcSnap) t.vcSnap = std::make_shared<VC>(t.vc);
  if (L.isC && !wr) { u64 key = ((u64)L.obj << 40) ^ (L.off << 8) ^ ((u64)I->uid << 1) ^ (u64)(t.vc.size() > (size_t)t.tid ? t.vc[t.tid] : 0) * 0x9E3779B97F4A7C15ULL; if (!t.logSeen.insert(key).second) return; }
  Access a; a.obj = L.obj; a.off = L.isC ? L.off : 0; a.offE = L.offE; a.size = n; a.I = I; a.wr = wr; a.sync = sync; a.crit = t.crit; a.vc = t.vcSnap; a.clk = t.vc.size() > (size_t)t.tid ? t.vc[t.tid] : 0;
  a.haveVals = newv != nullptr; if (oldv) a.oldv = *oldv; else a.oldv.c = 0xDEADBEEFDEADULL; a.haveVals = oldv != nullptr || (newv && !wr); if (newv) a.newv = *newv;
  if (wr && oldv && oldv->isC() && newv->isC() && oldv->c == newv->c && !sync) { /* silent store: matters only against a store of another value */ }
  t.log.push_back(a);
}
static void syncOp(const Loc &L, bool rd, bool wr) { // acquire/release edges of volatile and atomic accesses
  if (s->team <= 1) return; Thread &t = TH(); int k = t.tid; u64 off = L.isC ? L.off : ~0ULL; auto key = std::make_pair(L.obj, off);
  if (rd) { auto it = s->syncVC.find(key); if (it != s->syncVC.end()) { vcJoin(t.vc, it->second); t.vcSnap.reset(); } }
  if (wr) { VC &v = s->syncVC[key]; vcJoin(v, t.vc); vcTick(t, k); }
}
static bool valsMayDiffer(const Val &a, const Val &b, int w) {
  if (a.isC() && b.isC()) return a.c != b.c; if (w > 64) return true; Expr *d = mkNot(mkCmp(O_EQ, toE(a, w), toE(b, w))); if (d->op == O_CONST) return d->k; return true;
}
static void checkPair(const Access &a, int ta, const Access &b, int tb) {
  if (a.sync && b.sync) return; if (a.crit & b.crit) return;
  if (!a.wr && !b.wr) return;
  // a shared local one-byte flag: differing writes are still races, a read beside a write is the author's monotone flag (clang drops the
  // volatile of captured variables); the configurations that use one also run the threads in reverse order
  if (a.wr != b.wr && a.size == 1 && s->mem[a.obj].p->kind == K_STACK && s->mem[a.obj].p->size == 1 && !s->interleave) { counters["flag-reads"]++; return; }
  const VC &va = *a.vc, &vb = *b.vc; 
  auto get = [](const VC &v, int i) { return i < (int)v.size() ? v[i] : 0u; };
  if (get(vb, ta) >= a.clk || get(va, tb) >= b.clk) return;   // ordered by synchronisation
  // overlap condition
  Expr *cond = mkConst(1, 1);
  if (!a.offE && !b.offE) { if (a.off + a.size <= b.off || b.off + b.size <= a.off) return; }
  else {
    Expr *x = a.offE ? a.offE : mkConst(a.off, 64), *y = b.offE ? b.offE : mkConst(b.off, 64);
    if (a.size == b.size && x->tz >= 2 && y->tz >= 2 && a.size <= 8 && (1u << std::min<int>(3, std::min(x->tz, y->tz))) >= a.size) cond = mkCmp(O_EQ, x, y);
    else cond = mkBin(O_AND, mkCmp(O_ULT, x, mkBin(O_ADD, y, mkConst(b.size, 64))), mkCmp(O_ULT, y, mkBin(O_ADD, x, mkConst(a.size, 64))));
    if (cond->op == O_CONST && !cond->k) return;
  }
  // benign cases: both write the same value; a silent store against a read
  int w = a.size * 8; Expr *diff = mkConst(1, 1);
  if (a.size == b.size && a.size <= 8 && !a.sync && !b.sync) {
    if (a.wr && b.wr) diff = mkNot(mkCmp(O_EQ, toE(a.newv, w), toE(b.newv, w)));
    else { const Access &W = a.wr ? a : b; if (W.haveVals) diff = mkNot(mkCmp(O_EQ, toE(W.oldv, w), toE(W.newv, w))); }
  }
  cond = mkBin(O_AND, cond, diff); if (cond->op == O_CONST && !cond->k) return;
  if (s->ilvSaved && !s->interleave) return;
  counters["race-queries"]++;
  Model m2 = s->model; 
  if (!(cond->op == O_CONST ? cond->k : ev(cond))) { SatResult r = solve(s->pc, cond, s->model, &m2); if (r != R_SAT) { if (r == R_UNKNOWN) incomplete["solver-unknown"]++; return; } }
  if (s->interleave) { for (const Access *q : {&a, &b}) if (!q->sync && !q->I->visible) newVisible.insert(q->I->uid); counters["racy-pairs-made-visible"]++; return; }
  // a thread that itself stored the same value before reading it back is not affected by the other identical store
  report("race", "unsynchronised conflicting accesses by two threads", m2, a.I, b.I);
}
static void checkRaces() {
  int n = s->team; if (n <= 1) return;
  std::unordered_map<u32, std::vector<std::pair<int, const Access *>>> by;
  for (int k = 0; k < n; k++) for (auto &a : s->th[s->teamBase + k].log) by[a.obj].push_back({k, &a});
  for (auto &p : by) {
    bool anyW = false; int t0 = p.second[0].first; bool multi = false; bool anySym = false;
    for (auto &q : p.second) { anyW |= q.second->wr; multi |= q.first != t0; anySym |= q.second->offE != nullptr; }
    if (!anyW || !multi) continue;
    auto &v = p.second;
    // reads that follow an own store of the same location and value are dropped (see report rule)
    std::set<std::pair<int, u64>> own; std::map<std::pair<int, u64>, Val> ownv;
    std::vector<std::pair<int, const Access *>> keep;
    for (auto &q : v) { const Access *a = q.second; if (!a->offE) { auto k = std::make_pair(q.first, a->off * 64 + a->size); if (a->wr && !a->sync) { ownv[k] = a->newv; } else if (!a->wr) { auto it = ownv.find(k); if (it != ownv.end() && a->size <= 8 && !valsMayDiffer(it->second, a->newv, a->size * 8)) continue; } } keep.push_back(q); }
    if (!anySym) { // bucket by offset
      std::sort(keep.begin(), keep.end(), [](auto &x, auto &y) { return x.second->off < y.second->off; });
      for (size_t i = 0; i < keep.size(); i++) { u64 end = keep[i].second->off + keep[i].second->size; for (size_t j = i + 1; j < keep.size() && keep[j].second->off < end; j++) if (keep[i].first != keep[j].first) checkPair(*keep[i].second, keep[i].first, *keep[j].second, keep[j].first); }
    } else for (size_t i = 0; i < keep.size(); i++) for (size_t j = i + 1; j < keep.size(); j++) if (keep[i].first != keep[j].first) checkPair(*keep[i].second, keep[i].first, *keep[j].second, keep[j].first);
  }
}
static void endInterval() { // barrier or join: every thread synchronises with every other
  checkRaces(); int n = s->team; VC all; for (int k = 0; k < n; k++) vcJoin(all, s->th[s->teamBase + k].vc);
  for (int k = 0; k < n; k++) { Thread &t = s->th[s->teamBase + k]; t.log.clear(); t.logSeen.clear(); t.vc = all; vcTick(t, k); t.spin.clear(); }
  for (int k = 0; k < n; k++) for (int j = 0; j < n; j++) {}
  s->syncVC.clear();
  counters["barriers"]++;
}

// ------------------------------------------------------------------ calls
static Func *contractFn = nullptr; // synk::Barrier::wait taken by its contract (property P26) instead of executed
static bool barContract = false; static bool atBarrier(const Inst &I, int kind);
static void pushFrame(Func *f, const std::vector<Val> &args, const Inst *call, u8 onRet = 0) {
  Frame fr; fr.f = f; fr.regs.resize(f->nregs); for (size_t i = 0; i < args.size() && (int)i < f->nargs; i++) fr.regs[i] = args[i]; fr.call = call; fr.onRet = onRet; f->executed = true;
  TH().stack.push_back(std::move(fr));
  if (TH().stack.size() > 400) { report("limit", "call depth", s->model, call); throw PathEnd(); }
}
static inline Val opv(const Opnd &o) { if (o.reg < 0) return Val(o.c); return FR().regs[o.reg]; }
static inline void setR(int dst, const Val &v) { FR().regs[dst] = v; }
static void jump(int bb) {
  Frame &f = FR(); int from = f.bb; Block &B = f.f->blocks[bb]; B.hit = true;
  if (!B.phis.empty()) {
    Val tmp[64]; std::vector<Val> big; Val *t = tmp; size_t tot = B.phis.size(); if (tot > 64) { big.resize(tot); t = big.data(); }
    for (size_t i = 0; i < tot; i++) for (auto &p : B.phis[i].in) if (p.first == from) { t[i] = p.second.reg < 0 ? Val(p.second.c) : f.regs[p.second.reg]; break; }
    if (s->team && !TH().spin.empty()) for (size_t i = 0; i < tot; i++) { const Val &o = f.regs[B.phis[i].dst]; if (o.e != t[i].e || (!o.e && o.c != t[i].c)) { TH().spin.clear(); break; } } // the loop makes progress
    for (size_t i = 0; i < tot; i++) f.regs[B.phis[i].dst] = t[i];
  }
  f.bb = bb; f.ip = 0;
}
static void popFrame(const Val *ret, int nret) {
  Frame &f = FR();
  for (u32 id : f.allocas) { Obj *o = s->mem[id].w(); o->alive = false; o->data.clear(); o->tag.clear(); o->sym.clear(); }
  const Inst *call = f.call; u8 onRet = f.onRet; Thread &t = TH(); t.stack.pop_back();
  if (onRet == 1) { t.st = Thread::DONE; return; }
  if (onRet == 2) { t.serial--; }
  if (t.stack.empty()) { t.st = Thread::DONE; return; }
  if (call) { Frame &g = FR(); if (call->dst >= 0) for (int i = 0; i < nret; i++) g.regs[call->dst + i] = ret[i]; if (call->t0 >= 0 && (call->k == I_CALL || call->k == I_CALLIND)) jump(call->t0); else g.ip++; }
}
static void advance() { Frame &f = FR(); const Inst &I = f.f->blocks[f.bb].insts[f.ip]; if ((I.k == I_CALL || I.k == I_CALLIND) && I.t0 >= 0) jump(I.t0); else f.ip++; }

static bool activeTeam() { return s->team > 0; }
static int numThreads() { return TH().serial > 0 || !activeTeam() ? 1 : s->team; }
static int threadNum() { return TH().serial > 0 || !activeTeam() ? 0 : TH().tid; }

static std::vector<std::string> canonFns; static void newInterval(); // regions whose outcome another property shows to be independent of the schedule
static void startTeam(Func *fn, const std::vector<Val> &extra, const Inst *call) {
  int T = s->nextNum ? s->nextNum : s->T; s->nextNum = 0; advance();
  if (activeTeam() || T < 1) { // nested: serialised
    u32 g = newObj(8, K_HEAP); Obj *o = s->mem[g].w(); writeAt(o, 0, 8, Val(0)); TH().serial++;
    std::vector<Val> a{Val(objAddr(g)), Val(objAddr(g) + 4)}; a.insert(a.end(), extra.begin(), extra.end());
    // return must not advance the caller again: use a null call
    pushFrame(fn, a, nullptr, 2); return;
  }
  s->ilvSaved = s->interleave; for (auto &c : canonFns) if (s->interleave && fn->name.find(c) != std::string::npos) { s->interleave = false; counters["canonical-regions"]++; }
  TH().st = Thread::JOIN; s->team = T; s->teamBase = s->th.size(); s->singleTaken = 0; int master = s->cur; (void)master;
  counters["parallel-regions"]++; 
  for (int k = 0; k < T; k++) {
    Thread t; t.tid = k; t.vc.assign(T, 0); t.vc[k] = 1; s->th.push_back(std::move(t)); s->cur = s->teamBase + k;
    u32 g = newObj(8, K_STACK); s->mem[g].p->owner = s->cur; Obj *o = s->mem[g].w(); writeAt(o, 0, 4, Val(k)); writeAt(o, 4, 4, Val(k)); TH().gtidObj = g;
    std::vector<Val> a{Val(objAddr(g)), Val(objAddr(g) + 4)}; a.insert(a.end(), extra.begin(), extra.end());
    pushFrame(fn, a, nullptr, 1);
  }
  s->cur = thrRev ? s->teamBase + T - 1 : s->teamBase; s->syncVC.clear(); s->sleep.clear(); newInterval();
}
static void joinTeam() {
  endInterval();
  s->th.resize(s->teamBase); s->cur = s->teamBase - 1; s->team = 0; TH().st = Thread::RUN; s->sleep.clear(); s->interleave = s->ilvSaved;
}

// --- virtual files
static VFile *fileByName(const std::string &n, bool create) { auto it = s->fname.find(n); if (it != s->fname.end()) return &s->files[it->second]; if (!create) return nullptr; s->fname[n] = s->files.size(); s->files.push_back(VFile()); return &s->files.back(); }
static VFd *fdOf(const Val &p) { u64 a = concretize(p, 64); for (auto &f : s->fds) if (f.addr == a) return &f; return nullptr; }
static void addWords(VFile &f, const std::string &t) { // split text into words, honouring newlines; a word may continue a previous one only in the writer buffer
  std::string w; for (char c : t) { if (c == ' ' || c == '\t' || c == '\n' || c == '\r') { if (!w.empty()) { Tok k; k.kind = 0; k.s = w; f.toks.push_back(k); w.clear(); } if (c == '\n') { if (f.toks.empty()) { Tok k; k.kind = 0; f.toks.push_back(k); } if (f.toks.back().nl) { Tok k; k.kind = 0; f.toks.push_back(k); } f.toks.back().nl = true; } } else w += c; }
  if (!w.empty()) { Tok k; k.kind = 0; k.s = w; f.toks.push_back(k); }
}
static std::string fmtNum(double d, int prec) { char b[64]; snprintf(b, 64, "%.*g", prec, d); return b; }
static std::string tokText(const Tok &t) {
  if (t.kind == 0) return t.s; char b[40];
  Val v = simp(t.v);
  if (v.isC()) { if (t.kind == 1) { snprintf(b, 40, "%lld", (long long)sextw(v.c, t.w)); return b; } double d; memcpy(&d, &v.c, 8); return fmtNum(d, t.prec); }
  u32 id = s->lineToks.size(); s->lineToks.push_back(t); snprintf(b, 40, "\x01%04x", id); return b;
}
// scan one conversion from word source; returns: 1 stored, 0 mismatch
static bool parseWord(const std::string &w, char conv, bool lng, Val &out, int &bytes, size_t &used) {
  bytes = conv == 'd' ? (lng ? 8 : 4) : 8;
  if (!w.empty() && w[0] == 1) {
    u32 id = strtoul(w.substr(1, 4).c_str(), nullptr, 16); Tok &t = s->lineToks[id]; used = 5;
    if (conv == 'd' && t.kind == 2 && t.v.e && t.v.e->op == O_FPI && t.v.e->k == 0) { out = mkVal(t.v.e->a[0]); if (lng) out = mkVal(mkSext(out.e, 64)); return true; } // an integer-valued double prints as that integer
    if (conv == 'd') { if (t.kind != 1) { incomplete["scan-double-as-int"]++; throw PathEnd(); } out = t.v; int bw = bytes * 8; if (t.w != bw && out.e) out = mkVal(bw > t.w ? mkSext(out.e, bw) : mkExtract(out.e, 0, bw)); return true; }
    if (t.kind == 1) { out = t.v.e ? mkVal(mkSiToF(t.v.e, true)) : mkVal(mkSiToF(mkConst(t.v.c, t.w), true)); return true; }
    if (t.prec < 17 && t.v.e && t.v.e->op != O_FPI) { out = fresh(64); return true; } // printed with too few digits: any nearby value
    out = t.v; return true;
  }
  const char *c = w.c_str(); char *e;
  if (conv == 'd') { long v = strtol(c, &e, 10); if (e == c) return false; used = e - c; out = Val((u64)v & maskw(bytes * 8)); return true; }
  double d = strtod(c, &e); if (e == c) return false; used = e - c; u64 b; memcpy(&b, &d, 8); out = Val(b); return true;
}
static int scanString(const std::string &txt, const std::string &fmt, const std::vector<Val> &args, const Inst *I) {
  size_t p = 0; int cnt = 0; size_t ai = 0; std::vector<std::pair<std::pair<u64, int>, Val>> wr; std::vector<std::pair<u64, std::string>> ws;
  bool eofFirst = false;
  for (size_t i = 0; i < fmt.size(); i++) {
    if (isspace(fmt[i])) { while (p < txt.size() && isspace(txt[p])) p++; continue; }
    if (fmt[i] != '%') { if (p < txt.size() && txt[p] == fmt[i]) { p++; continue; } break; }
    i++; bool lng = false; int width = 0; while (isdigit(fmt[i])) width = width * 10 + (fmt[i++] - '0'); while (fmt[i] == 'l') { lng = true; i++; }
    char cv = fmt[i];
    while (p < txt.size() && isspace(txt[p])) p++;
    if (p >= txt.size()) { if (cnt == 0) eofFirst = true; break; }
    size_t q = p; while (q < txt.size() && !isspace(txt[q])) q++; std::string w = txt.substr(p, q - p);
    if (width && (int)w.size() > width) w = w.substr(0, width);
    if (cv == 's') { ws.push_back({concretize(args[ai++], 64), w}); p += w.size(); cnt++; continue; }
    Val v; int by; size_t used = 0; char k = cv == 'd' || cv == 'i' || cv == 'u' ? 'd' : 'f';
    if (!parseWord(w, k, lng, v, by, used)) break; if (k == 'f' && !lng) { incomplete["scan-float"]++; throw PathEnd(); }
    wr.push_back({{concretize(args[ai++], 64), by}, v}); p += used; cnt++;
  }
  for (auto &x : ws) putStr(x.first, x.second);
  for (auto &x : wr) store(Val(x.first.first), x.first.second, x.second, I, false);
  return cnt == 0 && eofFirst ? -1 : cnt;
}
static void fprintfTo(VFile &f, const std::string &fmt, const std::vector<Val> &args) {
  std::string lit; size_t ai = 0;
  for (size_t i = 0; i < fmt.size(); i++) {
    if (fmt[i] != '%') { lit += fmt[i]; continue; }
    i++; if (fmt[i] == '%') { lit += '%'; continue; }
    std::string spec = "%"; int prec = 6; bool lng = false; while (i < fmt.size() && !isalpha(fmt[i])) { if (fmt[i] == '.') { prec = atoi(&fmt[i + 1]); } spec += fmt[i++]; }
    while (fmt[i] == 'l') { lng = true; i++; } char cv = fmt[i]; Val v = simp(args[ai++]);
    if (cv == 's') { lit += cstr(v); continue; }
    bool isD = cv == 'd' || cv == 'i' || cv == 'u';
    if (v.isC()) { char b[64]; if (isD) { snprintf(b, 64, "%lld", (long long)sextw(v.c, lng ? 64 : 32)); } else { double d; memcpy(&d, &v.c, 8); snprintf(b, 64, (spec + cv).c_str(), d); } lit += b; continue; }
    if (!isD && prec < 17 && v.e->op != O_FPI) { // too few digits: look at values that need 17
      static const double cand[] = {0.30000000000000004, 0.1 + 0.7, 1.0000000000000002, 5e-324, -2.2250738585072014e-308, 1.7976931348623157e308, 0.1}; bool done = false;
      for (double d : cand) { u64 bits; memcpy(&bits, &d, 8); Expr *c = mkCmp(O_EQ, v.e, mkConst(bits, 64)); if (!may(c)) continue; assume(c); incomplete["low-precision-print"]++; char b[400]; snprintf(b, 400, (spec + cv).c_str(), d); lit += b; done = true; break; }
      if (done) continue;
    }
    addWords(f, lit); lit.clear(); Tok t; t.kind = isD ? 1 : 2; t.v = v; t.w = isD ? (lng ? 64 : 32) : 64; t.prec = cv == 'g' || cv == 'e' ? (cv == 'e' ? prec + 1 : prec) : 6; f.toks.push_back(t);
  }
  addWords(f, lit);
}

static void schedule();
static void needBinary(VFile &f) { f.binary = true; }

static std::vector<Val> argv_(const Inst &I, size_t from) { std::vector<Val> r; for (size_t i = from; i < I.ops.size(); i++) r.push_back(opv(I.ops[i])); return r; }

static const HugeObj *hugeOf(const Val &a) { if (s->huge.empty()) return nullptr; u64 x = a.isC() ? a.c : ev(a.e); for (auto &h : s->huge) if (objOf(x) + 40 >= h.id && objOf(x) <= h.id + 40) return &h; return nullptr; }
static Expr *hugeOff(const Val &a, const Val &n, const HugeObj *h, const char *what) {
  Expr *off = mkSub(toE(a, 64), mkConst(objAddr(h->id), 64)), *nn = toE(n, 64), *sz = mkConst(h->size, 64);
  mustNot(mkBin(O_AND, mkNot(mkCmp(O_EQ, nn, mkConst(0, 64))), mkBin(O_OR, mkCmp(O_ULT, sz, off), mkCmp(O_ULT, mkSub(sz, off), nn))), "memory", what); return off;
}
static bool hugeOp(const Val &d, const Val *sv, const Val &c, const Val &nv) {
  const HugeObj *h = hugeOf(d); if (!h) return false; 
  MemRec m; m.obj = h->id; m.n = toE(nv, 64); m.off = hugeOff(d, nv, h, "out-of-bounds fill or copy"); m.sobj = 0; m.soff = nullptr; m.c = nullptr;
  if (sv) { const HugeObj *g = hugeOf(*sv); if (!g) { incomplete["huge-copy"]++; throw PathEnd(); } m.sobj = g->id; m.soff = hugeOff(*sv, nv, g, "out-of-bounds copy source"); } else m.c = mkExtract(toE(c, 32), 0, 8);
  s->memrec.push_back(m); return true;
}
static void memCopy(const Val &d, const Val &sv, const Val &nv, const Inst &I) {
  if (hugeOp(d, &sv, Val(0), nv)) return;
  u64 n = concretize(nv, 64); if (!n) return; if (n > (1u << 26)) { report("memory", "copy of huge or negative size", s->model, &I); throw PathEnd(); }
  Loc A = resolve(sv, n, false, "read"), B = resolve(d, n, true, "write");
  if (!A.isC) { A.off = concretize(mkVal(A.offE), 64); A.isC = true; A.offE = nullptr; }
  if (!B.isC) { B.off = concretize(mkVal(B.offE), 64); B.isC = true; B.offE = nullptr; }
  if (s->team > 1) {
    logAccess(A, n, &I, false, false, nullptr, nullptr);
    Obj *a = s->mem[A.obj].p; bool lg = !(s->mem[B.obj].p->kind == K_STACK && s->mem[B.obj].p->owner == s->cur);
    if (lg && n % 4 == 0 && B.off % 4 == 0) for (u64 i = 0; i < n; i += 4) { Loc W = B; W.off = B.off + i; bool un = false; for (int q = 0; q < 4; q++) if ((a->data.empty() ? a->defTag : a->tag[A.off + i + q]) == 2) un = true; if (un) { logAccess(W, 4, &I, true, false, nullptr, nullptr); continue; } Val nv2 = readAt(s->mem[A.obj].p, A.off + i, 4, A.obj); Obj *b = s->mem[B.obj].p; bool unb = false; for (int q = 0; q < 4; q++) if ((b->data.empty() ? b->defTag : b->tag[W.off + q]) == 2) unb = true; if (unb) logAccess(W, 4, &I, true, false, nullptr, &nv2); else { Val ov = readAt(b, W.off, 4, B.obj); logAccess(W, 4, &I, true, false, &ov, &nv2); } }
    else if (lg) logAccess(B, n, &I, true, false, nullptr, nullptr);
  }
  Obj *b = s->mem[B.obj].w(); b->need(); b->version++;
  Obj *a = s->mem[A.obj].p; 
  if (a->data.empty()) { if (a->defTag == 0) { memset(&b->data[B.off], 0, n); } memset(&b->tag[B.off], a->defTag, n); return; }
  std::vector<u8> td(a->data.begin() + A.off, a->data.begin() + A.off + n), tt(a->tag.begin() + A.off, a->tag.begin() + A.off + n);
  bool anyS = false; for (u8 x : tt) if (x == 1) anyS = true;
  if (anyS) { std::vector<SymByte> ts(a->sym.begin() + A.off, a->sym.begin() + A.off + n); if (b->sym.empty()) b->sym.resize(b->size); std::copy(ts.begin(), ts.end(), b->sym.begin() + B.off); }
  memcpy(&b->data[B.off], td.data(), n); memcpy(&b->tag[B.off], tt.data(), n);
}
static void memSet(const Val &d, const Val &c, const Val &nv, const Inst &I) {
  if (hugeOp(d, nullptr, !c.isC() && c.e->w < 32 ? mkVal(mkZext(c.e, 32)) : c, nv)) return;
  u64 n = concretize(nv, 64); if (!n) return; if (n > (1u << 28)) { report("memory", "fill of huge or negative size", s->model, &I); throw PathEnd(); }
  Loc B = resolve(d, n, true, "write"); if (!B.isC) { B.off = concretize(mkVal(B.offE), 64); B.isC = true; B.offE = nullptr; }
  Val cv = simp(c); if (!cv.isC() && cv.e->w > 8) cv = simp(mkVal(mkExtract(cv.e, 0, 8)));
  if (!cv.isC()) { if (s->team > 1) logAccess(B, n, &I, true, false, nullptr, nullptr); Obj *b = s->mem[B.obj].w(); for (u64 i = 0; i < n; i++) writeAt(b, B.off + i, 1, cv); return; }
  u64 cc = cv.c;
  if (s->team > 1 && !(s->mem[B.obj].p->kind == K_STACK && s->mem[B.obj].p->owner == s->cur)) {
    u64 pat = (cc & 255) * 0x01010101u; Obj *b = s->mem[B.obj].p;
    if (n % 4 == 0 && B.off % 4 == 0 && n <= (1 << 16)) for (u64 i = 0; i < n; i += 4) { Loc W = B; W.off = B.off + i; bool un = false; for (int q = 0; q < 4; q++) if ((b->data.empty() ? b->defTag : b->tag[W.off + q]) == 2) un = true; Val nv2(pat); if (un) logAccess(W, 4, &I, true, false, nullptr, &nv2); else { Val ov = readAt(b, W.off, 4, B.obj); b = s->mem[B.obj].p; logAccess(W, 4, &I, true, false, &ov, &nv2); } }
    else logAccess(B, n, &I, true, false, nullptr, nullptr);
  }
  Obj *b = s->mem[B.obj].w();
  b->version++; if (b->data.empty() && B.off == 0 && n == b->size && (cc & 255) == 0) { b->defTag = 0; b->need(); return; }
  b->need(); memset(&b->data[B.off], (int)cc, n); memset(&b->tag[B.off], 0, n);
}

static bool extCall(const Inst &I, const std::string &nm);   // returns true when the call was completed (ip not yet advanced)

// ------------------------------------------------------------------ instruction execution
static int pm(u8 p) { return p; }
static float fl(const Val &v) { u32 b = (u32)concretize(v, 32); float f; memcpy(&f, &b, 4); return f; }
static Val flv(float f) { u32 b; memcpy(&b, &f, 4); return Val(b); }
static void execInst() {
  Frame &f = FR(); const Inst &I = f.f->blocks[f.bb].insts[f.ip];
  switch (I.k) {
  case I_BIN: {
    Val a = opv(I.ops[0]), b = opv(I.ops[1]); int w = I.w; Val r;
    if ((I.sub == O_UDIV || I.sub == O_SDIV || I.sub == O_UREM || I.sub == O_SREM)) { if (b.isC() ? b.c == 0 : true) { Expr *z = b.isC() ? mkConst(1, 1) : mkCmp(O_EQ, b.e, mkConst(0, w)); mustNot(z, "arith", "division by zero"); } }
    if (a.isC() && b.isC()) {
      u64 m = maskw(w);
      switch (I.sub) { case O_ADD: r.c = (a.c + b.c) & m; break; case 255: r.c = (a.c - b.c) & m; break; case O_MUL: r.c = (a.c * b.c) & m; break; case O_AND: r.c = a.c & b.c; break; case O_OR: r.c = a.c | b.c; break; case O_XOR: r.c = a.c ^ b.c; break;
      default: r.c = mkBin((Op)I.sub, mkConst(a.c, w), mkConst(b.c, w))->k; }
    } else { Expr *x = toE(a, w), *y = toE(b, w); r = simp(mkVal(I.sub == 255 ? mkSub(x, y) : mkBin((Op)I.sub, x, y))); }
    setR(I.dst, r); f.ip++; return; }
  case I_FBIN: if (I.w == 32) { float x = fl(opv(I.ops[0])), y = fl(opv(I.ops[1])); setR(I.dst, flv(I.sub == O_FADD ? x + y : I.sub == O_FSUB ? x - y : I.sub == O_FMUL ? x * y : x / y)); FR().ip++; return; } else { Val a = opv(I.ops[0]), b = opv(I.ops[1]); setR(I.dst, mkVal(mkFp2((Op)I.sub, toE(a, 64), toE(b, 64)))); f.ip++; return; }
  case I_FNEG: if (I.w == 32) { float x = fl(opv(I.ops[0])); setR(I.dst, flv(-x)); FR().ip++; return; } setR(I.dst, mkVal(mkFp1(O_FNEG, toE(opv(I.ops[0]), 64)))); f.ip++; return;
  case I_ICMP: {
    Val a = opv(I.ops[0]), b = opv(I.ops[1]); int w = I.ops[0].w; 
    if (a.isC() && b.isC()) {
      u64 x = a.c, y = b.c; i64 p = sextw(x, w), q = sextw(y, w); bool r = false;
      switch (pm(I.sub)) { case 32: r = x == y; break; case 33: r = x != y; break; case 34: r = x > y; break; case 35: r = x >= y; break; case 36: r = x < y; break; case 37: r = x <= y; break; case 38: r = p > q; break; case 39: r = p >= q; break; case 40: r = p < q; break; case 41: r = p <= q; break; }
      setR(I.dst, Val(r));
    } else {
      Expr *x = toE(a, w), *y = toE(b, w), *r = nullptr;
      switch (I.sub) { case 32: r = mkCmp(O_EQ, x, y); break; case 33: r = mkNot(mkCmp(O_EQ, x, y)); break; case 34: r = mkCmp(O_ULT, y, x); break; case 35: r = mkCmp(O_ULE, y, x); break; case 36: r = mkCmp(O_ULT, x, y); break; case 37: r = mkCmp(O_ULE, x, y); break; case 38: r = mkCmp(O_SLT, y, x); break; case 39: r = mkCmp(O_SLE, y, x); break; case 40: r = mkCmp(O_SLT, x, y); break; case 41: r = mkCmp(O_SLE, x, y); break; }
      setR(I.dst, simp(mkVal(r)));
    }
    f.ip++; return; }
  case I_FCMP: {
    bool f32 = I.ops[0].w == 32; Expr *x, *y, *r; if (f32) { x = mkFp1(O_FDOUBLE_OF_FLOAT, toE(opv(I.ops[0]), 32)); y = mkFp1(O_FDOUBLE_OF_FLOAT, toE(opv(I.ops[1]), 32)); } else { x = toE(opv(I.ops[0]), 64); y = toE(opv(I.ops[1]), 64); }
    Expr *uno = mkFcmp(O_FUNO, x, y);
    switch (I.sub) {
    case 0: r = mkConst(0, 1); break; case 1: r = mkFcmp(O_FEQ, x, y); break; case 2: r = mkFcmp(O_FLT, y, x); break; case 3: r = mkFcmp(O_FLE, y, x); break; case 4: r = mkFcmp(O_FLT, x, y); break; case 5: r = mkFcmp(O_FLE, x, y); break;
    case 6: r = mkBin(O_OR, mkFcmp(O_FLT, x, y), mkFcmp(O_FLT, y, x)); break; case 7: r = mkNot(uno); break; case 8: r = uno; break;
    case 9: r = mkBin(O_OR, uno, mkFcmp(O_FEQ, x, y)); break; case 10: r = mkNot(mkFcmp(O_FLE, x, y)); break; case 11: r = mkNot(mkFcmp(O_FLT, x, y)); break; case 12: r = mkNot(mkFcmp(O_FLE, y, x)); break; case 13: r = mkNot(mkFcmp(O_FLT, y, x)); break; case 14: r = mkNot(mkFcmp(O_FEQ, x, y)); break; default: r = mkConst(1, 1); }
    setR(I.dst, simp(mkVal(r))); f.ip++; return; }
  case I_SELECT: {
    Val c = simp(opv(I.ops[0])), a = opv(I.ops[1]), b = opv(I.ops[2]);
    if (c.isC()) setR(I.dst, c.c ? a : b);
    else { Expr *x = toE(a, I.w), *y = toE(b, I.w); if (I.w == 64 && a.isC() && b.isC() && a.c != b.c && (objOf(a.c) != objOf(b.c)) && (a.c >> 32) && (b.c >> 32) && objOf(a.c) < s->mem.size() && objOf(b.c) < s->mem.size()) { setR(I.dst, decide(c.e) ? a : b); } else setR(I.dst, simp(mkVal(mkIte(c.e, x, y)))); }
    f.ip++; return; }
  case I_ZEXT: { Val a = opv(I.ops[0]); setR(I.dst, a.isC() ? a : mkVal(mkZext(a.e, I.w))); f.ip++; return; }
  case I_SEXT: { Val a = opv(I.ops[0]); setR(I.dst, a.isC() ? Val((u64)sextw(a.c, I.ops[0].w) & maskw(I.w)) : mkVal(mkSext(a.e, I.w))); f.ip++; return; }
  case I_TRUNC: { Val a = opv(I.ops[0]); setR(I.dst, a.isC() ? Val(a.c & maskw(I.w)) : mkVal(mkExtract(a.e, 0, I.w))); f.ip++; return; }
  case I_MOV: setR(I.dst, opv(I.ops[0])); f.ip++; return;
  case I_SITOFP: if (I.w == 32) { i64 x = sextw(concretize(opv(I.ops[0]), I.ops[0].w), I.ops[0].w); setR(I.dst, flv((float)x)); FR().ip++; return; } setR(I.dst, mkVal(mkSiToF(toE(opv(I.ops[0]), I.ops[0].w), true))); f.ip++; return;
  case I_UITOFP: if (I.w == 32) { u64 x = concretize(opv(I.ops[0]), I.ops[0].w); setR(I.dst, flv((float)x)); FR().ip++; return; } setR(I.dst, mkVal(mkSiToF(toE(opv(I.ops[0]), I.ops[0].w), false))); f.ip++; return;
  case I_FPTOSI: setR(I.dst, mkVal(mkFToSi(I.ops[0].w == 32 ? mkFp1(O_FDOUBLE_OF_FLOAT, toE(opv(I.ops[0]), 32)) : toE(opv(I.ops[0]), 64), I.w))); f.ip++; return;
  case I_FPEXT: setR(I.dst, mkVal(mkFp1(O_FDOUBLE_OF_FLOAT, toE(opv(I.ops[0]), 32)))); f.ip++; return;
  case I_FPTRUNC: setR(I.dst, mkVal(mkFp1(O_FLOAT_OF_DOUBLE, toE(opv(I.ops[0]), 64)))); f.ip++; return;
  case I_LOAD: {
    bool sy = I.vol || I.atomic; Val v = load(opv(I.ops[0]), I.size, &I, sy);
    if (sy && s->team > 1) { Loc L = resolve(opv(I.ops[0]), I.size, false, "read"); syncOp(L, true, false); }
    if (I.w < I.size * 8) v = v.isC() ? Val(v.c & maskw(I.w)) : mkVal(mkExtract(v.e, 0, I.w));
    setR(I.dst, v); FR().ip++; return; }
  case I_STORE: {
    bool sy = I.vol || I.atomic; Val v = opv(I.ops[0]); int w = I.ops[0].w; if (w < (int)I.size * 8 && v.e) v = mkVal(mkZext(v.e, I.size * 8));
    if (s->team) TH().spin.clear();
    store(opv(I.ops[1]), I.size, v, &I, sy);
    if (sy && s->team > 1) { Loc L = resolve(opv(I.ops[1]), I.size, true, "write"); syncOp(L, false, true); }
    FR().ip++; return; }
  case I_GEP: {
    Val b = opv(I.ops[0]); u64 c = I.off; Expr *e = nullptr; if (b.isC()) c += b.c; else e = b.e;
    for (size_t i = 0; i < I.scale.size(); i++) { Val x = opv(I.ops[i + 1]); int w = I.ops[i + 1].w; if (x.isC()) c += (u64)sextw(x.c, w) * I.scale[i]; else { Expr *t = mkBin(O_MUL, mkSext(x.e, 64), mkConst((u64)I.scale[i], 64)); e = e ? mkBin(O_ADD, e, t) : t; } }
    if (!e) setR(I.dst, Val(c)); else setR(I.dst, simp(mkVal(mkBin(O_ADD, e, mkConst(c, 64))))); f.ip++; return; }
  case I_ALLOCA: { u64 n = concretize(opv(I.ops[0]), I.ops[0].w); u32 id = newObj(I.size * n, K_STACK); s->mem[id].p->owner = s->cur; FR().allocas.push_back(id); setR(I.dst, Val(objAddr(id))); FR().ip++; return; }
  case I_BR: jump(I.t0); return;
  case I_CBR: { Val c = simp(opv(I.ops[0])); bool t = c.isC() ? c.c : decide(c.e); jump(t ? I.t0 : I.t1); return; }
  case I_SWITCH: {
    Val v = simp(opv(I.ops[0])); int w = I.ops[0].w; 
    if (!v.isC()) { u64 x = ev(v.e); bool hit = false; for (auto &p : I.cases) if (p.first == x) hit = true; if (hit) { decide(mkCmp(O_EQ, v.e, mkConst(x, w))); v = Val(x); }
      else { Expr *any = mkConst(0, 1); for (auto &p : I.cases) any = mkBin(O_OR, any, mkCmp(O_EQ, v.e, mkConst(p.first, w))); decide(any); jump(I.t0); return; } }
    for (auto &p : I.cases) if (p.first == v.c) { jump(p.second); return; } jump(I.t0); return; }
  case I_RET: { Val r[8]; int n = std::min<int>(8, I.ops.size()); for (int i = 0; i < n; i++) r[i] = opv(I.ops[i]); popFrame(r, n); return; }
  case I_CALL:
    if (I.callee) { if (I.callee == contractFn) { I.callee->executed = true; counters["barrier-contract"]++; if (atBarrier(I, 0)) advance(); return; }
      std::vector<Val> a = argv_(I, 0); pushFrame(I.callee, a, &I); return; }
    if (I.ext == -2) { f.ip++; return; }
    { const std::string &nm = M.exts[I.ext]; int cur = s->cur; size_t depth = TH().stack.size(); if (extCall(I, nm)) { if (s->cur == cur && TH().stack.size() == depth) advance(); } return; }
  case I_CALLIND: {
    u64 a = concretize(opv(I.ops[0]), 64); auto it = M.byAddr.find(a); if (it == M.byAddr.end()) { report("memory", "call through invalid function pointer", s->model, &I); throw PathEnd(); }
    std::vector<Val> args = argv_(I, 1);
    if (it->second->decl) { incomplete["indirect-ext:" + it->second->name]++; throw PathEnd(); }
    pushFrame(it->second, args, &I); return; }
  case I_UNREACHABLE: report("memory", "unreachable code reached", s->model, &I); throw PathEnd();
  case I_ATOMICRMW: {
    Val old = load(opv(I.ops[0]), I.size, &I, true), x = opv(I.ops[1]), n; int w = I.w; Expr *a = toE(old, w), *b = toE(x, w);
    switch (I.sub) { case 0: n = x; break; case 1: n = mkVal(mkBin(O_ADD, a, b)); break; case 2: n = mkVal(mkSub(a, b)); break; case 3: n = mkVal(mkBin(O_AND, a, b)); break; case 5: n = mkVal(mkBin(O_OR, a, b)); break; case 6: n = mkVal(mkBin(O_XOR, a, b)); break;
    case 7: n = mkVal(mkIte(mkCmp(O_SLT, a, b), b, a)); break; case 8: n = mkVal(mkIte(mkCmp(O_SLT, a, b), a, b)); break; case 9: n = mkVal(mkIte(mkCmp(O_ULT, a, b), b, a)); break; case 10: n = mkVal(mkIte(mkCmp(O_ULT, a, b), a, b)); break; default: incomplete["rmw"]++; throw PathEnd(); }
    store(opv(I.ops[0]), I.size, n, &I, true);
    if (s->team > 1) { Loc L = resolve(opv(I.ops[0]), I.size, true, "write"); syncOp(L, true, true); }
    setR(I.dst, old); FR().ip++; return; }
  case I_CMPXCHG: {
    Val old = load(opv(I.ops[0]), I.size, &I, true), e = opv(I.ops[1]), n = opv(I.ops[2]); Expr *eq = mkCmp(O_EQ, toE(old, I.w), toE(e, I.w)); bool ok = decide(eq);
    if (ok) { if (s->team) TH().spin.clear(); store(opv(I.ops[0]), I.size, n, &I, true); }
    if (s->team > 1) { Loc L = resolve(opv(I.ops[0]), I.size, true, "write"); syncOp(L, true, ok); }
    setR(I.dst, old); setR(I.dst + 1, Val(ok)); FR().ip++; return; }
  case I_FENCE: f.ip++; return;
  case I_EXTRACTVALUE: for (int i = 0; i < std::max(1, I.nslots); i++) setR(I.dst + i, FR().regs[I.ops[0].reg + I.slot + i]); f.ip++; return;
  case I_INSERTVALUE: for (int i = 0; i < I.nslots; i++) setR(I.dst + i, I.ops[0].reg >= 0 ? FR().regs[I.ops[0].reg + i] : Val(0)); setR(I.dst + I.slot, opv(I.ops[1])); f.ip++; return;
  default: { incomplete["unsupported@" + site(&I) + " op " + std::to_string(I.sub)]++; throw PathEnd(); }
  }
}

// ------------------------------------------------------------------ external functions
typedef void (*Handler)(const Inst &I);
static std::unordered_map<std::string, std::function<bool(const Inst &)>> H;
static Val A(const Inst &I, int i) { return opv(I.ops[i]); }
static void ret(const Inst &I, const Val &v) { if (I.dst >= 0) setR(I.dst, v); }

static bool atBarrier(const Inst &I, int kind) {
  if (numThreads() <= 1) return true;
  Thread &t = TH(); advance(); t.st = Thread::BARRIER; t.barrierKind = kind; return false;
}
static Val symInt(const std::string &name, i64 lo, i64 hi, int w, bool rec = true) {
  Val v;
  if (lo == hi) v = Val((u64)lo & maskw(w));
  else { u64 range = (u64)hi - (u64)lo; int b = 1; while (b < 64 && maskw(b) < range) b++; if (b > w) b = w; Expr *sy = mkSymB(s->nsyms++, b, range); v = mkVal(mkBin(O_ADD, mkZext(sy, w), mkConst((u64)lo, w))); }
  if (rec) s->inputs.push_back({name, 'i', v, (u8)w});
  return v;
}
static std::string nameArg(const Inst &I, int i) { return cstr(A(I, i)); }

static u32 lockBit(u64 a) { return 2u << ((a * 0x9E3779B97F4A7C15ULL >> 32) % 31); }
static std::string fmtStr(const std::string &fm, const std::vector<Val> &a) {
  std::string out; size_t ai = 0;
  for (size_t i = 0; i < fm.size(); i++) {
    if (fm[i] != '%') { out += fm[i]; continue; } if (fm[i + 1] == '%') { out += '%'; i++; continue; }
    std::string sp = "%"; int lng = 0; for (i++; i < fm.size() && !isalpha(fm[i]); i++) { if (fm[i] == '*') { incomplete["sprintf"]++; throw PathEnd(); } sp += fm[i]; } while (i < fm.size() && (fm[i] == 'l' || fm[i] == 'z' || fm[i] == 'j' || fm[i] == 't')) { lng++; i++; } while (i < fm.size() && fm[i] == 'h') i++;
    char b[128]; char cv = i < fm.size() ? fm[i] : 0; if (!cv || ai >= a.size()) { incomplete["sprintf"]++; throw PathEnd(); }
    if (cv == 's') { std::string t = cstr(a[ai++]); if (sp.size() > 1) { std::vector<char> q(t.size() + 256); snprintf(q.data(), q.size(), (sp + "s").c_str(), t.c_str()); t = q.data(); } out += t; }
    else if (strchr("dioxXuc", cv)) { u64 v = concretize(a[ai++], lng ? 64 : 32); i64 sv = lng ? (i64)v : sextw(v, 32); snprintf(b, 128, (sp + (cv == 'c' ? "" : "ll") + cv).c_str(), strchr("di", cv) ? sv : cv == 'c' ? (i64)(int)v : (i64)v); out += b; }
    else if (strchr("eEfFgG", cv)) { u64 v = concretize(a[ai++], 64); double d; memcpy(&d, &v, 8); snprintf(b, 128, (sp + cv).c_str(), d); out += b; }
    else { incomplete["sprintf"]++; throw PathEnd(); }
  }
  return out;
}
static void initHandlers() {
  auto nop = [](const Inst &I) { if (I.dst >= 0 && I.nslots == 1) ret(I, Val(0)); return true; };
  for (const char *n : {"printf", "puts", "putchar", "__cxa_atexit", "fflush", "llvm.x86.sse.sfence", "llvm.x86.sse2.mfence", "llvm.x86.sse2.lfence", "llvm.prefetch.p0", "__kmpc_for_static_fini", "__kmpc_end_master", "__kmpc_end_masked", "__kmpc_end_single", "__kmpc_flush", "__kmpc_dispatch_fini_4", "__kmpc_dispatch_fini_8", "time", "llvm.stackrestore.p0", "llvm.donothing", "vprintf", "perror", "__kmpc_dispatch_deinit", "srand", "gettimeofday", "localtime", "strftime", "llvm.va_start", "llvm.va_end", "omp_set_dynamic", "omp_set_nested", "fputs"}) H[n] = nop;
  H["omp_get_wtime"] = [](const Inst &I) { s->clock++; double d = 1e-3 * s->clock; u64 b; memcpy(&b, &d, 8); ret(I, Val(b)); return true; };
  H["llvm.x86.rdtsc"] = [](const Inst &I) { s->clock += 1000; ret(I, Val(s->clock)); return true; };
  H["llvm.stacksave.p0"] = nop;
  H["rand"] = [](const Inst &I) { ret(I, symInt("rand", 0, 0x7fffffff, 32, false)); return true; };
  // --- harness interface
  H["sx_int"] = [](const Inst &I) { std::string n = nameArg(I, 0); i64 lo = sextw(concretize(A(I, 1), 32), 32), hi = sextw(concretize(A(I, 2), 32), 32); if (lo > hi) throw PathEnd(); ret(I, symInt(n, lo, hi, 32)); return true; };
  H["sx_long"] = [](const Inst &I) { std::string n = nameArg(I, 0); i64 lo = (i64)concretize(A(I, 1), 64), hi = (i64)concretize(A(I, 2), 64); ret(I, symInt(n, lo, hi, 64)); return true; };
  H["sx_bits"] = [](const Inst &I) { std::string n = nameArg(I, 0); Val v = fresh(64); s->inputs.push_back({n, 'd', v, 64}); ret(I, v); return true; };
  H["sx_val"] = [](const Inst &I) { std::string n = nameArg(I, 0); i64 lo = sextw(concretize(A(I, 1), 32), 32), hi = sextw(concretize(A(I, 2), 32), 32); Val x = symInt(n, lo, hi, 32, false); Val v = mkVal(mkFpi(toE(x, 32), 0)); s->inputs.push_back({n, 'd', v, 64}); ret(I, v); return true; };
  H["sx_pow2"] = [](const Inst &I) { std::string n = nameArg(I, 0); Val x = symInt(n, 0, 3, 32, false); static const int t[4] = {1, 2, -1, 4}; Expr *e = mkConst((u64)(i64)t[3], 32); if (x.e) for (int i = 2; i >= 0; i--) e = mkIte(mkCmp(O_EQ, x.e, mkConst(i, 32)), mkConst((u64)(i64)t[i], 32), e); Val v = mkVal(mkFpi(e, 0)); s->inputs.push_back({n, 'd', v, 64}); ret(I, v); return true; };
  H["sx_concretize"] = [](const Inst &I) { ret(I, Val(concretize(A(I, 0), 32))); return true; };
  H["sx_concretize_long"] = [](const Inst &I) { ret(I, Val(concretize(A(I, 0), 64))); return true; };
  H["sx_assume"] = [](const Inst &I) { Val c = simp(A(I, 0)); assume(c.isC() ? mkConst(c.c != 0, 1) : mkNot(mkCmp(O_EQ, c.e, mkConst(0, 32)))); return true; };
  H["sx_assert"] = [](const Inst &I) { Val c = simp(A(I, 0)); std::string m = cstr(A(I, 1)); counters["asserts"]++; mustNot(c.isC() ? mkConst(c.c == 0, 1) : mkCmp(O_EQ, c.e, mkConst(0, 32)), "assert", m); return true; };
  H["sx_reach"] = [](const Inst &I) { s->reached.insert(cstr(A(I, 0))); return true; };
  H["sx_threads"] = [](const Inst &I) { s->T = (int)concretize(A(I, 0), 32); return true; };
  H["sx_param"] = [](const Inst &I) { std::string n = nameArg(I, 0); auto it = params.find(n); ret(I, Val((u64)(it != params.end() ? it->second : (long)sextw(concretize(A(I, 1), 32), 32)) & 0xffffffff)); return true; };
  H["sx_observe_i"] = [](const Inst &I) { s->obs.push_back({nameArg(I, 0), 'i', A(I, 1)}); return true; };
  H["sx_observe_d"] = [](const Inst &I) { s->obs.push_back({nameArg(I, 0), 'd', A(I, 1)}); return true; };
  H["sx_is_native"] = [](const Inst &I) { ret(I, Val(0)); return true; };
  H["sx_interleave"] = [](const Inst &I) { s->interleave = concretize(A(I, 0), 32); return true; };
  H["sx_open_files"] = [](const Inst &I) { int n = 0; for (auto &d : s->fds) n += d.open; ret(I, Val(n)); return true; };
  H["sx_heap_live"] = [](const Inst &I) { ret(I, Val(s->heapLive)); return true; };
  H["sx_opt"] = [](const Inst &I) { std::string n = nameArg(I, 0); long v = sextw(concretize(A(I, 1), 32), 32); if (n == "concaddr") concAddr = v; else if (n == "window") symWindow = v; else if (n == "limitviol") limitIsViolation = v; else if (n == "steps") stepLimit = v; else if (n == "exit_ok") exitOk = v; return true; };
  H["sx_path"] = [](const Inst &I) { ret(I, A(I, 0)); return true; };
  H["sx_file_begin"] = [](const Inst &I) { std::string n = nameArg(I, 0); VFile *f = fileByName(n, true); *f = VFile(); f->exists = true; s->curFile = s->fname[n]; return true; };
  H["sx_tok_str"] = [](const Inst &I) { addWords(s->files[s->curFile], cstr(A(I, 0))); return true; };
  H["sx_tok_int"] = [](const Inst &I) { Tok t; t.kind = 1; t.v = A(I, 0); t.w = 32; s->files[s->curFile].toks.push_back(t); return true; };
  H["sx_tok_dbl"] = [](const Inst &I) { Tok t; t.kind = 2; t.v = A(I, 0); t.w = 64; s->files[s->curFile].toks.push_back(t); return true; };
  H["sx_file_nl"] = [](const Inst &I) { addWords(s->files[s->curFile], "\n"); return true; };
  H["sx_file_end"] = [](const Inst &I) { s->curFile = -1; return true; };
  H["sx_file_size"] = [](const Inst &I) { VFile *f = fileByName(nameArg(I, 0), false); ret(I, Val(f && f->exists ? f->bytes.size() : (u64)-1)); return true; };
  H["sx_file_byte"] = [](const Inst &I) { VFile *f = fileByName(nameArg(I, 0), false); u64 i = concretize(A(I, 1), 32); if (!f || i >= f->bytes.size()) { report("harness", "file byte out of range", s->model, &I); throw PathEnd(); } Val v = f->bytes[i]; ret(I, v.isC() ? v : mkVal(mkZext(v.e, 32))); return true; };
  H["sx_file_putbyte"] = [](const Inst &I) { VFile *f = fileByName(nameArg(I, 0), true); f->exists = true; f->binary = true; Val v = A(I, 1); f->bytes.push_back(v.isC() ? Val(v.c & 255) : mkVal(mkExtract(v.e, 0, 8))); return true; };
  H["sx_file_truncate"] = [](const Inst &I) { VFile *f = fileByName(nameArg(I, 0), true); u64 n = concretize(A(I, 1), 32); if (f->bytes.size() > n) f->bytes.resize(n); return true; };
  // regions too large to model byte by byte: only whole-range fills and copies are allowed on them, and are recorded
  H["sx_huge"] = [](const Inst &I) { u64 sz = concretize(A(I, 0), 64); for (int i = 0; i < 64; i++) { u32 f = newObj(0, K_HEAP); s->mem[f].p->alive = false; } u32 id = newObj(0, K_HEAP); s->huge.push_back({id, sz}); for (int i = 0; i < 64; i++) { u32 f = newObj(0, K_HEAP); s->mem[f].p->alive = false; } ret(I, Val(objAddr(id))); return true; };
  H["sx_huge_hits"] = [](const Inst &I) { u32 id = objOf(concretize(A(I, 0), 64)); Expr *k = toE(A(I, 1), 64), *r = mkConst(0, 32); for (auto &m : s->memrec) if (m.obj == id) r = mkBin(O_ADD, r, mkZext(mkCmp(O_ULT, mkSub(k, m.off), m.n), 32)); ret(I, mkVal(r)); return true; };
  // every recorded write covering byte k stores what it should (the byte c, or byte k of the region src)
  H["sx_huge_right"] = [](const Inst &I) { u32 id = objOf(concretize(A(I, 0), 64)); Expr *k = toE(A(I, 1), 64), *r = mkConst(1, 1); u32 sid = objOf(concretize(A(I, 2), 64)); Expr *c = mkExtract(toE(A(I, 3), 32), 0, 8); for (auto &m : s->memrec) if (m.obj == id) { Expr *ok = m.sobj ? mkBin(O_AND, mkConst(m.sobj == sid, 1), mkCmp(O_EQ, m.soff, m.off)) : sid ? mkConst(0, 1) : mkCmp(O_EQ, m.c, c); r = mkBin(O_AND, r, mkBin(O_OR, mkNot(mkCmp(O_ULT, mkSub(k, m.off), m.n)), ok)); } ret(I, mkVal(mkZext(r, 32))); return true; };
  // --- memory
  auto mal = [](const Inst &I) { u64 n = concretize(A(I, 0), 64); if (n > (1ULL << 31)) { report("memory", "allocation of huge or negative size", s->model, &I); throw PathEnd(); } ret(I, Val(heapAlloc(n, &I))); return true; };
  for (const char *n : {"malloc", "_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"}) H[n] = mal;
  H["calloc"] = [](const Inst &I) { u64 n = concretize(A(I, 0), 64) * concretize(A(I, 1), 64); if (n > (1ULL << 31)) { report("memory", "allocation of huge or negative size", s->model, &I); throw PathEnd(); } u64 a = heapAlloc(n, &I); s->mem[objOf(a)].p->defTag = 0; ret(I, Val(a)); return true; };
  H["posix_memalign"] = [](const Inst &I) { u64 n = concretize(A(I, 2), 64); u64 p = concretize(A(I, 0), 64); if (n > (1ULL << 31)) { report("memory", "allocation of huge or negative size", s->model, &I); throw PathEnd(); } u64 a = heapAlloc(n, &I); store(Val(p), 8, Val(a), &I, false); ret(I, Val(0)); return true; };
  H["aligned_alloc"] = [](const Inst &I) { u64 n = concretize(A(I, 1), 64); ret(I, Val(heapAlloc(n, &I))); return true; };
  H["mmap"] = [](const Inst &I) { ret(I, Val(~0ULL)); return true; };  // MAP_FAILED: the fallback allocation is used
  H["munmap"] = nop;
  H["free"] = [](const Inst &I) { heapFree(A(I, 0), "free"); return true; };
  for (const char *n : {"_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm"}) H[n] = [](const Inst &I) { heapFree(A(I, 0), "delete"); return true; };
  H["realloc"] = [](const Inst &I) { u64 n = concretize(A(I, 1), 64), p = concretize(A(I, 0), 64); u64 a = heapAlloc(n, &I); if (p) { u64 os = s->mem[objOf(p)].p->size; memCopy(Val(a), Val(p), Val(std::min(os, n)), I); heapFree(Val(p), "realloc"); } ret(I, Val(a)); return true; };
  auto cpy = [](const Inst &I) { memCopy(A(I, 0), A(I, 1), A(I, 2), I); ret(I, A(I, 0)); return true; };
  for (const char *n : {"memcpy", "memmove", "llvm.memcpy.p0.p0.i64", "llvm.memmove.p0.p0.i64", "llvm.memcpy.p0.p0.i32"}) H[n] = cpy;
  auto set = [](const Inst &I) { memSet(A(I, 0), A(I, 1), A(I, 2), I); ret(I, A(I, 0)); return true; };
  for (const char *n : {"memset", "llvm.memset.p0.i64", "llvm.memset.p0.i32"}) H[n] = set;
  // --- arithmetic intrinsics
  for (int w : {1, 8, 16, 32, 64}) {
    std::string S = ".i" + std::to_string(w);
    auto mm = [w](Op op, bool mx) { return [w, op, mx](const Inst &I) { Expr *a = toE(A(I, 0), w), *b = toE(A(I, 1), w); Expr *c = mkCmp(op, a, b); ret(I, simp(mkVal(mx ? mkIte(c, b, a) : mkIte(c, a, b)))); return true; }; };
    H["llvm.smin" + S] = mm(O_SLT, false); H["llvm.smax" + S] = mm(O_SLT, true); H["llvm.umin" + S] = mm(O_ULT, false); H["llvm.umax" + S] = mm(O_ULT, true);
    H["llvm.abs" + S] = [w](const Inst &I) { Expr *a = toE(A(I, 0), w); ret(I, mkVal(mkIte(mkCmp(O_SLT, a, mkConst(0, w)), mkNeg(a), a))); return true; };
    H["llvm.ctlz" + S] = [w](const Inst &I) { ret(I, mkVal(mkCt(O_CTLZ, toE(A(I, 0), w)))); return true; };
    H["llvm.cttz" + S] = [w](const Inst &I) { ret(I, mkVal(mkCt(O_CTTZ, toE(A(I, 0), w)))); return true; };
    H["llvm.ctpop" + S] = [w](const Inst &I) { ret(I, mkVal(mkCt(O_CTPOP, toE(A(I, 0), w)))); return true; };
    H["llvm.bswap" + S] = [w](const Inst &I) { Expr *a = toE(A(I, 0), w), *r = nullptr; for (int i = 0; i < w / 8; i++) { Expr *b = mkExtract(a, i * 8, 8); r = r ? mkConcat(r, b) : b; } ret(I, mkVal(r)); return true; };
    H["llvm.usub.sat" + S] = [w](const Inst &I) { Expr *a = toE(A(I, 0), w), *b = toE(A(I, 1), w); ret(I, mkVal(mkIte(mkCmp(O_ULT, a, b), mkConst(0, w), mkSub(a, b)))); return true; };
    H["llvm.fshl" + S] = [w](const Inst &I) { u64 c = concretize(A(I, 2), w) % w; Expr *a = toE(A(I, 0), w), *b = toE(A(I, 1), w); ret(I, c == 0 ? mkVal(a) : mkVal(mkBin(O_OR, mkBin(O_SHL, a, mkConst(c, w)), mkBin(O_LSHR, b, mkConst(w - c, w))))); return true; };
    H["llvm.expect" + S] = [](const Inst &I) { ret(I, A(I, 0)); return true; };
    auto ovf = [w](Op op, bool sg) { return [w, op, sg](const Inst &I) { Expr *a = toE(A(I, 0), w), *b = toE(A(I, 1), w); Expr *r = op == O_ADD ? mkBin(O_ADD, a, b) : op == O_MUL ? mkBin(O_MUL, a, b) : mkSub(a, b); Expr *o;
        if (op == O_MUL && w > 32) { if (A(I, 0).isC() && A(I, 1).isC()) { unsigned __int128 p = (unsigned __int128)a->k * b->k; o = mkConst(p > maskw(w), 1); } else { Expr *c = b->op == O_CONST ? b : a, *x = b->op == O_CONST ? a : b; if (c->op == O_CONST && c->k) o = mkCmp(O_ULT, mkConst(maskw(w) / c->k, w), x); else if (c->op == O_CONST) o = mkConst(0, 1); else { incomplete["mul.with.overflow"]++; throw PathEnd(); } } }
        else { int W = op == O_MUL ? 2 * w : w + 1; if (W > 64) { if (op == O_ADD && !sg) o = mkCmp(O_ULT, r, a); else if (!sg) o = mkCmp(O_ULT, a, b); else { incomplete["ovf64"]++; throw PathEnd(); } } else { Expr *x = sg ? mkSext(a, W) : mkZext(a, W), *y = sg ? mkSext(b, W) : mkZext(b, W); Expr *R = op == O_ADD ? mkBin(O_ADD, x, y) : op == O_MUL ? mkBin(O_MUL, x, y) : mkSub(x, y); o = mkNot(mkCmp(O_EQ, R, sg ? mkSext(r, W) : mkZext(r, W))); } }
        setR(I.dst, mkVal(r)); setR(I.dst + 1, mkVal(o)); return true; }; };
    H["llvm.uadd.with.overflow" + S] = ovf(O_ADD, false); H["llvm.sadd.with.overflow" + S] = ovf(O_ADD, true); H["llvm.umul.with.overflow" + S] = ovf(O_MUL, false); H["llvm.smul.with.overflow" + S] = ovf(O_MUL, true); H["llvm.usub.with.overflow" + S] = ovf(O_AND, false); H["llvm.ssub.with.overflow" + S] = ovf(O_AND, true);
  }
  H["llvm.fmuladd.f64"] = H["llvm.fma.f64"] = [](const Inst &I) { ret(I, mkVal(mkFp2(O_FADD, mkFp2(O_FMUL, toE(A(I, 0), 64), toE(A(I, 1), 64)), toE(A(I, 2), 64)))); return true; };
  H["llvm.fabs.f64"] = H["fabs"] = [](const Inst &I) { ret(I, mkVal(mkFp1(O_FABS, toE(A(I, 0), 64)))); return true; };
  auto fmx = [](bool mx) { return [mx](const Inst &I) { Expr *a = toE(A(I, 0), 64), *b = toE(A(I, 1), 64); Expr *c = mkFcmp(O_FLT, a, b); ret(I, mkVal(mx ? mkIte(c, b, a) : mkIte(c, a, b))); return true; }; };
  H["llvm.maxnum.f64"] = H["fmax"] = fmx(true); H["llvm.minnum.f64"] = H["fmin"] = fmx(false);
  auto f1 = [](double (*fn)(double)) { return [fn](const Inst &I) { u64 b = concretize(A(I, 0), 64); double d; memcpy(&d, &b, 8); d = fn(d); memcpy(&b, &d, 8); ret(I, Val(b)); return true; }; };
  H["log2"] = f1(log2); H["llvm.ceil.f64"] = H["ceil"] = f1(ceil); H["sqrt"] = H["llvm.sqrt.f64"] = f1(sqrt); H["llvm.floor.f64"] = H["floor"] = f1(floor); H["log"] = f1(log); H["exp"] = f1(exp); H["sin"] = f1(sin); H["cos"] = f1(cos); H["cbrt"] = f1(cbrt); H["log10"] = f1(log10); H["round"] = H["llvm.round.f64"] = f1(round); H["trunc"] = H["llvm.trunc.f64"] = f1(trunc); H["rint"] = H["llvm.rint.f64"] = H["llvm.nearbyint.f64"] = H["nearbyint"] = f1(rint);
  auto f2 = [](double (*fn)(double, double)) { return [fn](const Inst &I) { u64 a = concretize(A(I, 0), 64), b = concretize(A(I, 1), 64); double x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); x = fn(x, y); memcpy(&a, &x, 8); ret(I, Val(a)); return true; }; };
  H["pow"] = H["llvm.pow.f64"] = f2(pow); H["hypot"] = f2(hypot); H["fmod"] = f2(fmod); H["llvm.copysign.f64"] = H["copysign"] = f2(copysign); H["ldexp"] = [](const Inst &I) { u64 a = concretize(A(I, 0), 64), b = concretize(A(I, 1), 32); double x; memcpy(&x, &a, 8); x = ldexp(x, (int)b); memcpy(&a, &x, 8); ret(I, Val(a)); return true; };
  auto f1l = [](long (*fn)(double)) { return [fn](const Inst &I) { u64 b = concretize(A(I, 0), 64); double d; memcpy(&d, &b, 8); ret(I, Val((u64)fn(d))); return true; }; };
  H["lround"] = H["llround"] = H["llvm.lround.i64.f64"] = f1l(lround); H["lrint"] = H["llvm.lrint.i64.f64"] = f1l(lrint);
  auto f1f = [](float (*fn)(float)) { return [fn](const Inst &I) { u32 b = (u32)concretize(A(I, 0), 32); float d; memcpy(&d, &b, 4); d = fn(d); memcpy(&b, &d, 4); ret(I, Val(b)); return true; }; };
  H["sqrtf"] = H["llvm.sqrt.f32"] = f1f(sqrtf); H["llvm.fabs.f32"] = H["fabsf"] = f1f(fabsf); H["ceilf"] = H["llvm.ceil.f32"] = f1f(ceilf); H["floorf"] = H["llvm.floor.f32"] = f1f(floorf); H["log2f"] = f1f(log2f);
  H["llvm.fmuladd.f32"] = [](const Inst &I) { float x[3]; for (int i = 0; i < 3; i++) { u32 b = (u32)concretize(A(I, i), 32); memcpy(&x[i], &b, 4); } float r = x[0] * x[1] + x[2]; u32 b; memcpy(&b, &r, 4); ret(I, Val(b)); return true; }; H["llvm.log2.f64"] = f1(log2);
  H["llvm.trap"] = H["abort"] = H["__assert_fail"] = H["_ZSt9terminatev"] = [](const Inst &I) { std::string m = "abort"; if (I.ops.size() >= 4) m = "assertion failed: " + cstr(A(I, 0)); report("abort", m, s->model, &I); throw PathEnd(); return true; };
  H["_ZSt20__throw_length_errorPKc"] = H["_ZSt17__throw_bad_allocv"] = H["__cxa_throw"] = H["_ZSt24__throw_out_of_range_fmtPKcz"] = H["_ZSt28__throw_bad_array_new_lengthv"] = [](const Inst &I) { report("abort", "C++ exception thrown", s->model, &I); throw PathEnd(); return true; };
  H["__cxa_allocate_exception"] = mal;
  H["exit"] = [](const Inst &I) { s->exited = true; s->reached.insert("exit"); if (!exitOk) report("exit", "library called exit()", s->model, &I); throw PathEnd(); return true; };
  // --- OpenMP
  H["omp_get_max_threads"] = [](const Inst &I) { ret(I, Val(s->T)); return true; };
  H["omp_get_num_procs"] = [](const Inst &I) { ret(I, Val(8)); return true; };
  H["omp_set_num_threads"] = [](const Inst &I) { s->T = concretize(A(I, 0), 32); return true; };
  H["omp_get_num_threads"] = [](const Inst &I) { ret(I, Val(numThreads())); return true; };
  H["omp_get_thread_num"] = [](const Inst &I) { ret(I, Val(threadNum())); return true; };
  H["omp_in_parallel"] = [](const Inst &I) { ret(I, Val(s->team > 1)); return true; };
  H["__kmpc_global_thread_num"] = [](const Inst &I) { ret(I, Val(threadNum())); return true; };
  H["__kmpc_push_num_threads"] = [](const Inst &I) { s->nextNum = concretize(A(I, 2), 32); return true; };
  H["__kmpc_fork_call"] = [](const Inst &I) { u64 fa = concretize(A(I, 2), 64); Func *fn = M.byAddr[fa]; std::vector<Val> ex = argv_(I, 3); startTeam(fn, ex, &I); return false; };
  H["__kmpc_fork_call_if"] = [](const Inst &I) { u64 fa = concretize(A(I, 2), 64); u64 c = concretize(A(I, 3), 32); Func *fn = M.byAddr[fa]; std::vector<Val> ex = argv_(I, 4); if (!c) s->nextNum = 1; startTeam(fn, ex, &I); return false; };
  H["__kmpc_serialized_parallel"] = [](const Inst &I) { TH().serial++; return true; };
  H["__kmpc_end_serialized_parallel"] = [](const Inst &I) { TH().serial--; return true; };
  H["__kmpc_barrier"] = [](const Inst &I) { return atBarrier(I, 1); };
  H["__kmpc_master"] = H["__kmpc_masked"] = [](const Inst &I) { ret(I, Val(threadNum() == 0)); return true; };
  H["__kmpc_single"] = [](const Inst &I) { if (numThreads() <= 1) { ret(I, Val(1)); return true; } Thread &t = TH(); t.singles++; if (t.singles > s->singleTaken) { s->singleTaken++; ret(I, Val(1)); } else ret(I, Val(0)); return true; };
  // a lock guards what its holder accesses; the order in which a team takes it is explored (in interleave mode taking it is a scheduling point)
  auto take = [](const Inst &I, int n) { u64 a = concretize(A(I, n), 64); auto it = s->locks.find(a); if (it != s->locks.end() && it->second == s->cur) { report("deadlock", "a thread waits for a lock it holds", s->model, &I); throw PathEnd(); } s->locks[a] = s->cur; TH().crit |= lockBit(a); };
  auto give = [](const Inst &I, int n) { u64 a = concretize(A(I, n), 64); s->locks.erase(a); TH().crit &= ~lockBit(a); for (auto &l : s->locks) if (l.second == s->cur) TH().crit |= lockBit(l.first); };
  H["__kmpc_critical"] = H["__kmpc_critical_with_hint"] = [take](const Inst &I) { take(I, 2); return true; };
  H["__kmpc_end_critical"] = [give](const Inst &I) { give(I, 2); return true; };
  H["omp_set_lock"] = H["pthread_mutex_lock"] = [take](const Inst &I) { take(I, 0); ret(I, Val(0)); return true; };
  H["omp_unset_lock"] = H["pthread_mutex_unlock"] = [give](const Inst &I) { give(I, 0); ret(I, Val(0)); return true; };
  for (const char *n : {"omp_init_lock", "omp_destroy_lock", "pthread_mutex_init", "pthread_mutex_destroy", "__kmpc_push_proc_bind"}) H[n] = nop;
  H["__kmpc_reduce_nowait"] = H["__kmpc_reduce"] = [](const Inst &I) { TH().crit |= lockBit(concretize(A(I, 6), 64)); ret(I, Val(1)); return true; };
  H["__kmpc_end_reduce_nowait"] = [](const Inst &I) { TH().crit &= ~lockBit(concretize(A(I, 2), 64)); return true; };
  H["__kmpc_end_reduce"] = [](const Inst &I) { TH().crit &= ~lockBit(concretize(A(I, 2), 64)); return atBarrier(I, 2); };
  H["__kmpc_ordered"] = [](const Inst &I) { TH().crit |= 1; return true; };
  H["__kmpc_end_ordered"] = [](const Inst &I) { TH().crit &= ~1u; return true; };
  // function-local statics
  H["__cxa_guard_acquire"] = [](const Inst &I) { u64 a = concretize(A(I, 0), 64); Loc L = resolve(Val(a), 1, false, "read"); if (concretize(readAt(s->mem[L.obj].p, L.off, 1, L.obj), 8)) { if (s->team > 1) syncOp(L, true, false); ret(I, Val(0)); return true; } s->locks[a] = s->cur; ret(I, Val(1)); return true; };
  H["__cxa_guard_release"] = [](const Inst &I) { u64 a = concretize(A(I, 0), 64); Loc L = resolve(Val(a), 1, true, "write"); Obj *o = s->mem[L.obj].w(); writeAt(o, L.off, 1, Val(1)); o->version++; s->locks.erase(a); if (s->team > 1) syncOp(L, false, true); return true; };
  // thread-local variables: thread 0 keeps the global's own copy
  H["llvm.threadlocal.address.p0"] = [](const Inst &I) { u64 a = concretize(A(I, 0), 64); int t = s->team > 1 ? TH().tid : 0; if (!t) { ret(I, Val(a)); return true; } u32 id = objOf(a); auto key = std::make_pair(objAddr(id), t); auto it = s->tls.find(key); if (it == s->tls.end()) { Global &g = M.globals[id - 1]; u32 c = newObj(g.size, K_GLOBAL); Obj *o = s->mem[c].p; o->data = g.init; o->tag.assign(g.size, 0); o->defTag = 0; it = s->tls.insert({key, objAddr(c)}).first; } ret(I, Val(it->second + (a - objAddr(id)))); return true; };
  // explicit tasks run at once, where they are created
  H["__kmpc_omp_task_alloc"] = [](const Inst &I) { u64 tsz = concretize(A(I, 3), 64), ssz = concretize(A(I, 4), 64), fn = concretize(A(I, 5), 64); u64 off = (tsz + 15) & ~15ULL; u64 t = heapAlloc(off + ssz + 16, &I); s->heapLive--; store(Val(t), 8, Val(t + off), &I, true); store(Val(t + 8), 8, Val(fn), &I, true); ret(I, Val(t)); return true; };
  H["__kmpc_omp_task"] = [](const Inst &I) { u64 t = concretize(A(I, 2), 64); Val fv = load(Val(t + 8), 8, &I, true); Func *fn = M.byAddr[concretize(fv, 64)]; ret(I, Val(0)); advance(); pushFrame(fn, {Val(threadNum()), Val(t)}, nullptr, 0); return false; };
  H["__kmpc_omp_taskwait"] = H["__kmpc_omp_taskyield"] = nop; H["__kmpc_taskgroup"] = H["__kmpc_end_taskgroup"] = nop;
  auto stinit = [](int w, bool sg) { return [w, sg](const Inst &I) {
      // loc, gtid, sched, *last, *lower, *upper, *stride, incr, chunk
      u64 sch = concretize(A(I, 2), 32); u32 n = w / 8; u64 pl = concretize(A(I, 3), 64), plo = concretize(A(I, 4), 64), pup = concretize(A(I, 5), 64), pst = concretize(A(I, 6), 64);
      i64 incr = sextw(concretize(A(I, 7), w), w), chunk = sextw(concretize(A(I, 8), w), w);
      Loc L1 = resolve(Val(plo), n, false, "read"), L2 = resolve(Val(pup), n, false, "read");
      Val vlo = readAt(s->mem[L1.obj].p, L1.off, n, L1.obj), vup = readAt(s->mem[L2.obj].p, L2.off, n, L2.obj);
      u64 ulo = concretize(vlo, w), uup = concretize(vup, w); 
      i64 lo = sg ? sextw(ulo, w) : (i64)ulo, up = sg ? sextw(uup, w) : (i64)uup; i64 T = numThreads(), t = threadNum();
      i64 trip = incr > 0 ? (up < lo ? 0 : (up - lo) / incr + 1) : (up > lo ? 0 : (lo - up) / (-incr) + 1); i64 nlo, nup, st = incr * trip; bool last = false;
      if (sch == 33 || sch == 45 || sch == 41) { if (chunk < 1) chunk = 1; nlo = lo + t * chunk * incr; nup = nlo + (chunk - 1) * incr; st = T * chunk * incr; last = trip > 0 && ((trip - 1) / chunk) % T == t; }
      else { i64 q = trip / T, r = trip % T, mine = q + (t < r ? 1 : 0), off = t * q + std::min(t, r); nlo = lo + off * incr; nup = nlo + (mine - 1) * incr; last = mine > 0 && off + mine == trip; if (trip == 0) { nlo = lo; nup = lo - incr; } }
      auto put = [&](u64 p, u32 k, u64 v) { Loc L = resolve(Val(p), k, true, "write"); writeAt(s->mem[L.obj].w(), L.off, k, Val(v & maskw(k * 8))); };
      put(pl, 4, last); put(plo, n, (u64)nlo); put(pup, n, (u64)nup); put(pst, n, (u64)st); return true; }; };
  H["__kmpc_for_static_init_4"] = stinit(32, true); H["__kmpc_for_static_init_4u"] = stinit(32, false); H["__kmpc_for_static_init_8"] = stinit(64, true); H["__kmpc_for_static_init_8u"] = stinit(64, false);
  // dynamic/guided loops: modelled as cyclic distribution (one legal assignment)
  auto dinit = [](int w) { return [w](const Inst &I) { Thread &t = TH(); t.dispIdx.clear(); i64 lo = sextw(concretize(A(I, 3), w), w), up = sextw(concretize(A(I, 4), w), w), st = sextw(concretize(A(I, 5), w), w), ch = sextw(concretize(A(I, 6), w), w); if (ch < 1) ch = 1; u64 sch = concretize(A(I, 2), 32) & 0xffff; if (sch >= 64 && sch < 128) { i64 trip = st > 0 ? (up < lo ? 0 : (up - lo) / st + 1) : (up > lo ? 0 : (lo - up) / (-st) + 1); ch = std::max<i64>(1, (trip + numThreads() - 1) / numThreads()); } t.dispIdx[0] = lo; t.dispIdx[1] = up; t.dispIdx[2] = st; t.dispIdx[3] = ch; t.dispIdx[4] = threadNum(); return true; }; };
  auto dnext = [](int w) { return [w](const Inst &I) { Thread &t = TH(); i64 lo = t.dispIdx[0], up = t.dispIdx[1], st = t.dispIdx[2], ch = t.dispIdx[3], k = t.dispIdx[4]; i64 b = lo + k * ch * st; u32 n = w / 8; bool ok = st > 0 ? b <= up : b >= up; if (ok) { i64 e = b + (ch - 1) * st; if (st > 0 ? e > up : e < up) e = up; t.dispIdx[4] = k + numThreads(); auto put = [&](u64 p, u32 kk, u64 v) { Loc L = resolve(Val(p), kk, true, "write"); writeAt(s->mem[L.obj].w(), L.off, kk, Val(v & maskw(kk * 8))); }; put(concretize(A(I, 2), 64), 4, e == up || (st > 0 ? e + st > up : e + st < up)); put(concretize(A(I, 3), 64), n, b); put(concretize(A(I, 4), 64), n, e); put(concretize(A(I, 5), 64), n, st); } ret(I, Val(ok)); return true; }; };
  H["__kmpc_dispatch_init_4"] = H["__kmpc_dispatch_init_4u"] = dinit(32); H["__kmpc_dispatch_init_8"] = H["__kmpc_dispatch_init_8u"] = dinit(64);
  H["__kmpc_dispatch_next_4"] = H["__kmpc_dispatch_next_4u"] = dnext(32); H["__kmpc_dispatch_next_8"] = H["__kmpc_dispatch_next_8u"] = dnext(64);
  H["llvm.x86.sse2.pause"] = nop;
  // --- files
  H["fopen"] = H["fopen64"] = [](const Inst &I) {
    std::string n = cstr(A(I, 0)), m = cstr(A(I, 1)); if (n.compare(0, 6, "nodir/") == 0) { ret(I, Val(0)); return true; } VFile *f = fileByName(n, m[0] == 'w');
    if (m[0] == 'r' && (!f || !f->exists)) { ret(I, Val(0)); return true; }
    if (m[0] == 'w') { *f = VFile(); f->exists = true; }
    VFd d; d.file = s->fname[n]; d.open = true; d.wr = m[0] == 'w'; d.addr = heapAlloc(16, &I); s->heapLive--; s->fds.push_back(d); ret(I, Val(d.addr)); return true; };
  H["fclose"] = [](const Inst &I) { u64 a0 = concretize(A(I, 0), 64); if (!a0) { report("memory", "fclose(NULL)", s->model, &I); throw PathEnd(); } VFd *d = fdOf(Val(a0)); if (!d) return true; if (!d->open) { report("memory", "double fclose", s->model, &I); throw PathEnd(); } d->open = false; ret(I, Val(0)); return true; };
  H["fgets"] = [](const Inst &I) {
    VFd *d = fdOf(A(I, 2)); u64 n = concretize(A(I, 1), 32); if (!d || !d->open) { report("memory", "fgets on a closed or null file", s->model, &I); throw PathEnd(); }
    VFile &f = s->files[d->file]; if (d->pos >= f.toks.size()) { ret(I, Val(0)); return true; }
    std::string line; size_t p = d->pos; bool nl = false; for (; p < f.toks.size();) { if (!line.empty()) line += ' '; line += tokText(f.toks[p]); nl = f.toks[p].nl; p++; if (nl) break; } if (nl) line += "\n";
    if (line.size() + 1 > n) { // only the first n-1 characters: what is left of a line of text stays to be read
      for (size_t i = d->pos; i < p; i++) if (f.toks[i].kind != 0) { incomplete["fgets-long-line"]++; throw PathEnd(); }
      if (n < 2) { incomplete["fgets-long-line"]++; throw PathEnd(); }
      std::string head = line.substr(0, n - 1); VFile rest; addWords(rest, line.substr(n - 1)); Tok t; t.kind = 0; t.s = head; std::vector<Tok> nt(f.toks.begin(), f.toks.begin() + d->pos); nt.push_back(t); nt.insert(nt.end(), rest.toks.begin(), rest.toks.end()); nt.insert(nt.end(), f.toks.begin() + p, f.toks.end());
      size_t np = d->pos + 1; f.toks = nt; putStr(concretize(A(I, 0), 64), head); for (auto &x : s->fds) if (x.addr == d->addr) x.pos = np; ret(I, A(I, 0)); return true; }
    putStr(concretize(A(I, 0), 64), line); for (auto &x : s->fds) if (x.addr == d->addr) x.pos = p; ret(I, A(I, 0)); return true; };
  auto ffscanf = [](const Inst &I) {
    VFd *d = fdOf(A(I, 0)); if (!d || !d->open) { report("memory", "fscanf on a closed or null file", s->model, &I); throw PathEnd(); }
    std::string fmt = cstr(A(I, 1)); VFile &f = s->files[d->file]; size_t p = d->pos; int cnt = 0; size_t ai = 2; bool eof = false; std::vector<std::pair<std::pair<u64, int>, Val>> wr; std::vector<std::pair<u64, std::string>> ws;
    for (size_t i = 0; i < fmt.size(); i++) {
      if (isspace(fmt[i])) { while (p < f.toks.size() && f.toks[p].kind == 0 && f.toks[p].s.empty()) p++; continue; } if (fmt[i] != '%') { incomplete["fscanf-literal"]++; throw PathEnd(); }
      i++; bool lng = false; while (fmt[i] == 'l') { lng = true; i++; } char cv = fmt[i];
      while (p < f.toks.size() && f.toks[p].kind == 0 && f.toks[p].s.empty()) p++;
      if (p >= f.toks.size()) { if (!cnt) eof = true; break; }
      Tok t = f.toks[p]; 
      if (cv == 's') { ws.push_back({concretize(A(I, ai++), 64), tokText(t)}); p++; cnt++; continue; }
      Val v; int by; size_t used = 0; char k = cv == 'd' || cv == 'i' ? 'd' : 'f'; if (k == 'f' && !lng) { incomplete["scan-float"]++; throw PathEnd(); }
      std::string w = tokText(t); if (!parseWord(w, k, lng, v, by, used)) break;
      if (used < w.size()) { incomplete["partial-word"]++; throw PathEnd(); }
      wr.push_back({{concretize(A(I, ai++), 64), by}, v}); p++; cnt++;
    }
    u64 fa = d->addr; for (auto &x : ws) putStr(x.first, x.second); for (auto &x : wr) store(Val(x.first.first), x.first.second, x.second, &I, false);
    for (auto &x : s->fds) if (x.addr == fa) x.pos = p;
    ret(I, Val((u64)(u32)(cnt == 0 && eof ? -1 : cnt))); return true; };
  H["fscanf"] = H["__isoc23_fscanf"] = H["__isoc99_fscanf"] = ffscanf;
  H["sscanf"] = H["__isoc23_sscanf"] = H["__isoc99_sscanf"] = [](const Inst &I) { std::string t = cstr(A(I, 0)), fm = cstr(A(I, 1)); ret(I, Val((u64)(u32)scanString(t, fm, argv_(I, 2), &I))); return true; };
  H["fprintf"] = [](const Inst &I) { VFd *d = fdOf(A(I, 0)); std::string fm = cstr(A(I, 1)); if (d) { if (!d->open) { report("memory", "fprintf to a closed file", s->model, &I); throw PathEnd(); } fprintfTo(s->files[d->file], fm, argv_(I, 2)); }
    u64 len = 0; std::vector<Val> av = argv_(I, 2); size_t ai = 0; for (size_t i = 0; i < fm.size(); i++) { len++; if (fm[i] != '%') continue; i++; if (i < fm.size() && fm[i] == '%') continue; u64 w = 0; while (i < fm.size() && !isalpha(fm[i])) { if (isdigit(fm[i]) && !(i && fm[i - 1] == '.')) w = w * 10 + fm[i] - '0'; else if (fm[i] == '.') { i++; while (i < fm.size() && isdigit(fm[i])) i++; continue; } i++; } while (i < fm.size() && (fm[i] == 'l' || fm[i] == 'z')) i++;
      if (i < fm.size() && fm[i] == 's' && ai < av.size()) len += cstr(av[ai]).size() - 1; else if (w > 1) len += w - 1; ai++; } // a lower bound: numbers may be longer
    ret(I, Val(len)); return true; };
  H["fputc"] = H["putc"] = [](const Inst &I) { VFd *d = fdOf(A(I, 1)); if (d) { char c = (char)concretize(A(I, 0), 32); addWords(s->files[d->file], std::string(1, c)); } ret(I, A(I, 0)); return true; };
  H["snprintf"] = [](const Inst &I) { std::string out = fmtStr(cstr(A(I, 2)), argv_(I, 3)); u64 n = concretize(A(I, 1), 64); if (n) putStr(concretize(A(I, 0), 64), out.substr(0, n - 1)); ret(I, Val(out.size())); return true; };
  H["sprintf"] = [](const Inst &I) { std::string out = fmtStr(cstr(A(I, 1)), argv_(I, 2)); putStr(concretize(A(I, 0), 64), out); ret(I, Val(out.size())); return true; };
  H["sprintf-old"] = [](const Inst &I) { std::string fm = cstr(A(I, 1)), out; std::vector<Val> a = argv_(I, 2); size_t ai = 0; for (size_t i = 0; i < fm.size(); i++) { if (fm[i] != '%') { out += fm[i]; continue; } i++; char b[64]; if (fm[i] == 's') out += cstr(a[ai++]); else if (fm[i] == 'd') { snprintf(b, 64, "%d", (int)concretize(a[ai++], 32)); out += b; } else { incomplete["sprintf"]++; throw PathEnd(); } } putStr(concretize(A(I, 0), 64), out); ret(I, Val(out.size())); return true; };
  H["fwrite"] = [](const Inst &I) {
    VFd *d = fdOf(A(I, 3)); u64 sz = concretize(A(I, 1), 64), n = concretize(A(I, 2), 64); if (!d) { ret(I, Val(n)); return true; }
    u64 p = concretize(A(I, 0), 64); u64 tot = sz * n; std::vector<Val> bytes; if (tot) { Loc L = resolve(Val(p), tot, false, "read"); for (u64 i = 0; i < tot; i++) bytes.push_back(readAt(s->mem[L.obj].p, L.off + i, 1, L.obj)); }
    VFile &f = s->files[d->file]; bool text = sz == 1 && !f.binary && !f.toks.empty();
    if (text) { std::string t; for (auto &b : bytes) t += (char)concretize(b, 8); addWords(f, t); } else { f.binary = true; f.bytes.insert(f.bytes.end(), bytes.begin(), bytes.end()); }
    ret(I, Val(n)); return true; };
  H["fread"] = [](const Inst &I) {
    VFd *d = fdOf(A(I, 3)); if (!d || !d->open) { report("memory", "fread on a closed or null file", s->model, &I); throw PathEnd(); }
    u64 sz = concretize(A(I, 1), 64), n = concretize(A(I, 2), 64), p = concretize(A(I, 0), 64); VFile &f = s->files[d->file]; u64 av = d->pos < f.bytes.size() ? f.bytes.size() - d->pos : 0; u64 k = sz ? std::min(n, av / sz) : 0; u64 tot = k * sz;
    if (tot) { Loc L = resolve(Val(p), tot, true, "write"); Obj *o = s->mem[L.obj].w(); u64 i = 0;
      while (i < tot) { // re-assemble whole words when the bytes form one
        Val b0 = f.bytes[d->pos + i]; if (sz == 4 || sz == 8) { Expr *e = nullptr; for (u64 j = 0; j < sz; j++) { Expr *b = toE(f.bytes[d->pos + i + j], 8); e = e ? mkConcat(b, e) : b; } writeAt(o, L.off + i, sz, mkVal(e)); i += sz; } else { writeAt(o, L.off + i, 1, b0); i++; } } }
    d->pos += tot; ret(I, Val(k)); return true; };
  H["feof"] = [](const Inst &I) { VFd *d = fdOf(A(I, 0)); ret(I, Val(d && d->pos >= s->files[d->file].toks.size() && d->pos >= s->files[d->file].bytes.size())); return true; };
  H["fseek"] = H["rewind"] = [](const Inst &I) { VFd *d = fdOf(A(I, 0)); if (d) d->pos = I.ops.size() > 1 ? concretize(A(I, 1), 64) : 0; ret(I, Val(0)); return true; };
}
static bool extCall(const Inst &I, const std::string &nm) {
  if (nm.find("pause") == std::string::npos && nm.find("rdtsc") == std::string::npos) NOTRY;
  if (s->team && nm.find("pause") == std::string::npos && nm != "llvm.x86.rdtsc" && nm != "omp_get_thread_num") TH().spin.clear();
  auto it = H.find(nm);
  if (it == H.end() && (nm.compare(0, 6, "_ZStls") == 0 || nm.compare(0, 5, "_ZNSo") == 0 || nm.compare(0, 8, "_ZNSt8io") == 0 || nm.find("ostream") != std::string::npos || nm.find("4endl") != std::string::npos || nm.find("5flush") != std::string::npos)) { if (I.dst >= 0) ret(I, A(I, 0)); return true; }
  if (it == H.end()) { incomplete["unknown external " + nm]++; throw PathEnd(); }
  extUsed[nm]++;
  return it->second(I);
}

// ------------------------------------------------------------------ scheduling
static bool isVisible(const Inst &I) { return I.vol || I.atomic || I.visible || (I.lock && s->interleave && s->team > 1); }
static Val lockArg(int ti, const Inst *I) { const Opnd &o = I->ops[I->lock == 1 && I->ops.size() >= 3 ? 2 : 0]; return o.reg < 0 ? Val(o.c) : s->th[ti].stack.back().regs[o.reg]; }
static bool lockHeld(int ti, const Inst *I) { if (!I->lock || s->locks.empty()) return false; Val a = lockArg(ti, I); if (!a.isC()) return false; auto it = s->locks.find(a.c); return it != s->locks.end() && it->second != ti; }
static bool pendingVisible(int ti, const Inst *&I) { Thread &t = s->th[ti]; if (t.st != Thread::RUN || t.stack.empty()) return false; Frame &f = t.stack.back(); I = &f.f->blocks[f.bb].insts[f.ip]; return isVisible(*I); }
struct Pend { u32 obj; u64 off; bool sym; bool wr; u32 size; bool ok; };
static Pend pendOf(int ti, const Inst *I) {
  Pend p; p.ok = false; Thread &t = s->th[ti]; Frame &f = t.stack.back(); if (I->ops.empty()) { p.wr = p.sym = true; p.obj = 0; p.off = 0; p.size = 8; return p; } const Opnd &o = I->k == I_STORE ? I->ops[1] : I->ops[0]; Val a = I->lock ? lockArg(ti, I) : o.reg < 0 ? Val(o.c) : f.regs[o.reg]; a = simp(a); p.wr = I->k != I_LOAD; p.size = I->size; p.sym = !a.isC() || (!I->lock && I->k != I_LOAD && I->k != I_STORE && I->k != I_ATOMICRMW && I->k != I_CMPXCHG);
  u64 x = a.isC() ? a.c : ev(a.e); p.obj = objOf(x); p.off = x - objAddr(p.obj); p.ok = p.obj > 0 && p.obj < s->mem.size(); return p;
}
static bool dep(u32 o1, u64 f1, bool s1, bool w1, u32 z1, u32 o2, u64 f2, bool s2, bool w2, u32 z2) { if (!w1 && !w2) return false; if (s1 || s2) return true; if (o1 != o2) return false; return !(f1 + z1 <= f2 || f2 + z2 <= f1); }
// a visible load that was already executed in the same local state (live registers of the top frame) since the last change of anything the
// thread has read: the thread spins
static u64 localSig(int ti);
static bool spinning(int ti, const Inst *I) {
  Thread &t = s->th[ti]; if (I->k != I_LOAD && I->k != I_CMPXCHG) return false;
  bool seen = false; for (auto &r : t.spin) if (r.uid == I->uid) seen = true; if (!seen) return false;
  for (auto &r : t.spin) if (s->mem[r.obj].p->version != r.version) return false;
  u64 l = localSig(ti); for (auto &r : t.spin) if (r.uid == I->uid && r.local == l) return true;
  return false;
}
static void noteSpin(int ti, const Inst *I, const Pend &p) {
  Thread &t = s->th[ti];
  if (I->k == I_STORE || I->k == I_ATOMICRMW) { t.spin.clear(); return; }
  bool changed = false; for (auto &r : t.spin) if (s->mem[r.obj].p->version != r.version) changed = true; if (changed) t.spin.clear();
  if (p.ok) t.spin.push_back({I->uid, p.obj, s->mem[p.obj].p->version, localSig(ti)});
}

// Would thread ti, at a single-load waiting loop, only find that it has to go on waiting? Then it stays at the end of that iteration, which
// changed nothing, and is not scheduled until the object it reads changes. Writes, forks and reports end the trial undecided.
static std::set<u32> waitLoads;
static bool waits(int ti, const Inst *I) {
  Thread &t = s->th[ti]; if (I->k != I_LOAD || !t.stack.size() || !waitLoads.count(I->uid)) return false; Pend p = pendOf(ti, I); if (!p.ok || p.sym) return false;
  u32 ver = s->mem[p.obj].p->version; if (t.tried.uid == I->uid && t.tried.obj == p.obj && t.tried.version == ver && t.triedOff == p.off) return false;
  State *o = s, *c = new State(*s); bool failed = false; s = c; s->cur = ti; tryMode = true; u64 nv = newVisible.size();
  try {
    TH().spin.clear(); noteSpin(ti, I, p); execInst(); const Inst *J;
    for (int n = 0; n < 64; n++) { if (TH().st != Thread::RUN || TH().stack.empty()) break; if (pendingVisible(ti, J)) { failed = J->uid == I->uid && TH().spin.size() == 1 && spinning(ti, J); break; }
      if (J->k == I_STORE || J->k == I_RET) break; execInst(); }
  } catch (TryAbort &) { failed = false; } catch (PathEnd &) { failed = false; }
  tryMode = false; (void)nv;
  if (failed) { c->cur = o->cur; s = o; std::swap(*s, *c); delete c; counters["waits"]++; return true; }
  s = o; delete c; s->th[ti].tried = {I->uid, p.obj, ver}; s->th[ti].triedOff = p.off; return false;
}
// ------------------------------------------------------------------ merging
static void newInterval();
// Two schedules that arrive at a barrier in the same state (memory, live registers, path condition) have the same futures: the second is
// dropped. The table of states seen is shared by the workers.
struct Sig { u64 a = 0x243F6A8885A308D3ULL, b = 0x13198A2E03707344ULL; void add(u64 x) { a ^= x; a *= 0x9E3779B97F4A7C15ULL; a ^= a >> 32; b += x * 0xC2B2AE3D27D4EB4FULL; b = (b << 31 | b >> 33) * 0x165667B19E3779F9ULL; } };
static u64 *sigTab = nullptr; static const u64 SIGN = 1ULL << 24; static bool mergeOn = true;
static bool sigSeen(const Sig &g) {
  u64 a = g.a ? g.a : 1, b = g.b ? g.b : 1; u64 i = (a ^ (b >> 20)) & (SIGN - 1);
  for (int n = 0; n < 64; n++, i = (i + 1) & (SIGN - 1)) {
    u64 o = __atomic_load_n(&sigTab[2 * i], __ATOMIC_ACQUIRE);
    if (!o) { u64 z = 0; if (__atomic_compare_exchange_n(&sigTab[2 * i], &z, a, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) { __atomic_store_n(&sigTab[2 * i + 1], b, __ATOMIC_RELEASE); return false; } o = z; }
    if (o == a && __atomic_load_n(&sigTab[2 * i + 1], __ATOMIC_ACQUIRE) == b) return true;
  }
  return false;
}
typedef std::vector<bool> Bits;
static void useOf(const Inst &I, Bits &l) {
  for (auto &o : I.ops) if (o.reg >= 0) { l[o.reg] = true; if (I.k == I_EXTRACTVALUE || I.k == I_INSERTVALUE) for (int i = 0; i < I.nslots + I.slot + 8; i++) if (o.reg + i < (int)l.size()) l[o.reg + i] = true; }
}
static void back(const Inst &I, Bits &l) { if (I.dst >= 0 && I.nslots <= 1 && I.k != I_CMPXCHG && I.k != I_CALL && I.k != I_CALLIND && I.k != I_INSERTVALUE && I.k != I_EXTRACTVALUE) l[I.dst] = false; else if (I.dst >= 0 && (I.k == I_CALL || I.k == I_CALLIND) && I.nslots <= 1) l[I.dst] = false; useOf(I, l); }
struct Live { std::vector<Bits> out; std::map<std::pair<int, int>, Bits> at; };
static const Bits &liveAt(Func *f, int bb, int ip) {
  static std::map<Func *, Live> cache; Live &L = cache[f];
  if (L.out.empty()) {
    int n = f->blocks.size(); L.out.assign(n, Bits(f->nregs)); std::vector<Bits> in(n, Bits(f->nregs)); bool ch = true;
    auto succs = [&](int b, std::vector<int> &r) { for (auto &I : f->blocks[b].insts) { if (I.t0 >= 0) r.push_back(I.t0); if (I.t1 >= 0) r.push_back(I.t1); for (auto &c : I.cases) r.push_back(c.second); } };
    while (ch) { ch = false;
      for (int b = n - 1; b >= 0; b--) {
        Bits o(f->nregs); std::vector<int> sc; succs(b, sc);
        for (int t : sc) { Bits x = in[t]; for (auto &p : f->blocks[t].phis) for (int i = 0; i < std::max(1, p.nslots); i++) if (p.dst + i < f->nregs) x[p.dst + i] = false; for (auto &p : f->blocks[t].phis) for (auto &q : p.in) if (q.first == b && q.second.reg >= 0) for (int i = 0; i < std::max(1, p.nslots); i++) if (q.second.reg + i < f->nregs) x[q.second.reg + i] = true; for (int i = 0; i < f->nregs; i++) if (x[i]) o[i] = true; }
        L.out[b] = o; for (int i = (int)f->blocks[b].insts.size() - 1; i >= 0; i--) back(f->blocks[b].insts[i], o);
        if (o != in[b]) { in[b] = o; ch = true; } } }
  }
  auto k = std::make_pair(bb, ip); auto it = L.at.find(k); if (it != L.at.end()) return it->second;
  Bits o = L.out[bb]; for (int i = (int)f->blocks[bb].insts.size() - 1; i >= ip; i--) back(f->blocks[bb].insts[i], o);
  return L.at[k] = o;
}
static u64 localSig(int ti) {
  Thread &t = s->th[ti]; Frame &f = t.stack.back(); Sig g; g.add(t.stack.size()); g.add((u64)(uintptr_t)f.f); g.add((u64)f.bb << 32 | f.ip); const Bits &l = liveAt(f.f, f.bb, f.ip);
  for (size_t r = 0; r < f.regs.size(); r++) if (l[r]) { g.add(f.regs[r].e ? f.regs[r].e->sh + 1 : f.regs[r].c); g.add(f.regs[r].e != nullptr); }
  return g.a ^ g.b;
}
static u64 objSig(Obj *o) {
  if (o->sigVer == o->version && o->sig) return o->sig;
  Sig g; g.add(o->size); g.add(o->kind | o->ro << 8 | o->defTag << 16);
  if (o->data.empty()) g.add(7); else { u64 w = 0, t = 0; int n = 0; for (u64 i = 0; i < o->size; i++) { u8 tg = o->tag[i]; w = w << 8 | (tg == 0 ? o->data[i] : 0); t = t << 8 | tg; if (tg == 1) { g.add(o->sym[i].e->sh); g.add(o->sym[i].idx); } if (++n == 8) { g.add(w); g.add(t); w = t = 0; n = 0; } } g.add(w); g.add(t); }
  o->sig = g.a ^ g.b; o->sigVer = o->version; return o->sig;
}
static bool merged(bool mid = false) {
  if (!mid) newInterval();
  if (!mergeOn || !s->files.empty() || !s->memrec.empty() || !s->obs.empty() || !s->huge.empty()) return false;
  Sig g; g.add(s->mem.size()); g.add(s->pc.size()); for (Expr *e : s->pc) g.add(e->sh); g.add(s->inputs.size()); g.add(s->nsyms); g.add(s->T); g.add(s->team); g.add(s->teamBase); g.add(s->singleTaken); g.add(s->nextNum); g.add(s->undefs); g.add(s->clock); g.add(s->interleave); g.add(preemptBound < 1000 ? s->preempt : 0); if (delayBound >= 0) { g.add(s->delays); for (u8 q : s->prio) g.add(q); }
  for (auto &l : s->locks) { g.add(l.first); g.add(l.second); }
  auto addObj = [&](u32 i) { Obj *o = s->mem[i].p; if (o->alive && !o->ro) { g.add(i); g.add(objSig(o)); } };
  if (mid && s->liveObjs) { for (u32 i : *s->liveObjs) addObj(i); for (u32 i = s->liveEnd; i < s->mem.size(); i++) addObj(i); } else for (u32 i = 0; i < s->mem.size(); i++) addObj(i);
  for (auto &t : s->th) { g.add((u64)t.st | (u64)t.tid << 8 | (u64)t.serial << 16 | (u64)t.singles << 24); g.add(t.crit); g.add(t.gtidObj); g.add(t.barrierKind); g.add(t.stack.size()); for (auto &d : t.dispIdx) g.add(d.first * 1000003ULL + d.second);
    for (auto &f : t.stack) { g.add((u64)(uintptr_t)f.f); g.add((u64)f.bb << 32 | f.ip); g.add((u64)(uintptr_t)f.call); g.add(f.onRet); for (u32 a : f.allocas) g.add(a); const Bits &l = liveAt(f.f, f.bb, f.ip); for (size_t r = 0; r < f.regs.size(); r++) if (l[r]) { g.add(f.regs[r].e ? f.regs[r].e->sh + 1 : f.regs[r].c); g.add(f.regs[r].e != nullptr); } } }
  if (mid) {
    g.add(s->regionKey); g.add(s->barNo);
    for (int k = 0; k < s->team; k++) { Thread &t = s->th[s->teamBase + k]; g.add(t.spin.size()); for (auto &r : t.spin) { g.add(r.uid); g.add(r.obj); g.add(r.local); g.add(s->mem[r.obj].p->version == r.version); } }
    u64 h = g.a ^ g.b; 
    for (size_t i = 0; i < s->trail.size(); i++) if (s->trail[i].first == h) { // a cycle: does everyone who could run take part?
      std::set<int> who; for (size_t j = i; j < s->trail.size(); j++) who.insert(s->trail[j].second); bool fair = true; for (int k = 0; k < s->team; k++) { const Inst *J; int c = s->teamBase + k; if (s->th[c].st == Thread::RUN && !who.count(c) && !(pendingVisible(c, J) && (spinning(c, J) || lockHeld(c, J)))) fair = false; }
      if (fair) report("limit", "the threads return to the same state for ever", s->model, curInst()); counters["cycles"]++; return true; }
    s->trail.push_back({h, -1});
  }
  if (sigSeen(g)) { counters["merged"]++; return true; } return false;
}
static void newInterval() { s->trail.clear(); s->barNo++; Sig g; g.add(s->barNo); for (Expr *e : s->pc) g.add(e->sh); s->regionKey = g.a ^ g.b; auto l = std::make_shared<std::vector<u32>>(); for (u32 i = 0; i < s->mem.size(); i++) if (s->mem[i].p->alive && !s->mem[i].p->ro) l->push_back(i); s->liveObjs = l; s->liveEnd = s->mem.size(); }
static void runInvisible(); 
static void deadlock() { report("deadlock", "every remaining thread waits forever", s->model, curInst()); throw PathEnd(); }

// one scheduling decision / run of the current state until it ends
static void runState() {
  for (;;) {
    if (stopAll) return;
    if (!s->team) {
      // sequential part
      Thread &t = s->th[0]; s->cur = 0; if (t.stack.empty() || t.st == Thread::DONE) { return; }
      execInst(); s->steps++;
    } else {
      int base = s->teamBase, T = s->team;
      bool allDone = true, allBar = true; int nb = 0;
      for (int k = 0; k < T; k++) { auto st = s->th[base + k].st; if (st != Thread::DONE) allDone = false; if (st == Thread::BARRIER) nb++; else allBar = false; }
      if (allDone) { joinTeam(); if (s->interleave && merged()) throw PathEnd(); continue; }
      if (allBar) { endInterval(); for (int k = 0; k < T; k++) s->th[base + k].st = Thread::RUN; s->cur = thrRev ? base + T - 1 : base; s->sleep.clear(); if (s->interleave && merged()) throw PathEnd(); continue; }
      if (!s->interleave) {
        // canonical order: run the current thread until it blocks
        Thread &t = s->th[s->cur];
        if (t.st != Thread::RUN) { int nx = -1; for (int k = 0; k < T; k++) { int c = base + (thrRev ? T - 1 - k : k); if (s->th[c].st == Thread::RUN && !s->th[c].blocked) { nx = c; break; } } if (nx < 0) { // blocked spinners: retry those whose locations changed
            bool any = false; for (int k = 0; k < T && !any; k++) { int c = base + k; const Inst *I; if (s->th[c].st == Thread::RUN && pendingVisible(c, I) && !spinning(c, I)) { s->th[c].blocked = false; nx = c; any = true; } } if (!any) { if (nb > 0 && nb < T) { bool run = false; for (int k = 0; k < T; k++) if (s->th[base + k].st == Thread::RUN) run = true; if (!run) { report("deadlock", "a thread left the region while others wait at a barrier", s->model, nullptr); throw PathEnd(); } } deadlock(); } } s->cur = nx; continue; }
        const Inst *I = nullptr; Pend p; bool vis = pendingVisible(s->cur, I);
        if (vis && I->k == I_LOAD && T > 1) {
          if (spinning(s->cur, I)) { t.blocked = true; int nx = -1; for (int q = 1; q <= T; q++) { int c = base + (s->cur - base + q) % T; if (s->th[c].st != Thread::RUN) continue; const Inst *J; if (pendingVisible(c, J) && spinning(c, J)) continue; s->th[c].blocked = false; nx = c; break; } if (nx < 0) deadlock(); s->cur = nx; continue; }
          p = pendOf(s->cur, I); noteSpin(s->cur, I, p);
        } else if (vis && I->k == I_STORE) t.spin.clear();
        execInst(); s->steps++;
      } else {
        // bring every thread to its next visible operation
        int inv = -1; const Inst *I;
        for (int k = 0; k < T; k++) if (s->th[base + k].st == Thread::RUN && !pendingVisible(base + k, I)) { inv = base + k; break; }
        if (inv >= 0) { s->cur = inv; execInst(); s->steps++; }
        else {
          std::vector<int> en; std::vector<Pend> pe; 
          for (int k = 0; k < T; k++) { int c = base + k; if (s->th[c].st != Thread::RUN) continue; pendingVisible(c, I); if (lockHeld(c, I)) continue; if (spinning(c, I)) { if (I->k == I_LOAD && s->th[c].spin.size() == 1) waitLoads.insert(I->uid); continue; } if (!s->stepping && waits(c, I)) continue; en.push_back(c); pe.push_back(pendOf(c, I)); }
          if (en.empty()) { bool anyRun = false; for (int k = 0; k < T; k++) if (s->th[base + k].st == Thread::RUN) anyRun = true; if (!anyRun) { report("deadlock", "a thread left the region while others wait at a barrier", s->model, nullptr); throw PathEnd(); } deadlock(); }
          // private operations (objects nobody else touches) cannot be distinguished here; sleep sets prune the commuting ones
          int pick = -1; if (cacheOn && !s->stepping && merged(true)) throw PathEnd();
          if (delayBound >= 0 && !s->stepping) { // the first thread in the order of priority that can run; each delay moves one to the end of the order
            if ((int)s->prio.size() != T) { s->prio.clear(); for (int k = 0; k < T; k++) s->prio.push_back(thrRev ? T - 1 - k : k); }
            for (u8 q : s->prio) { for (int c : en) if (c == base + q) pick = c; if (pick >= 0) break; }
            if (en.size() > 1 && s->delays < delayBound) { State *s2 = new State(*s); auto &o = s2->prio; o.erase(std::find(o.begin(), o.end(), (u8)(pick - base))); o.push_back((u8)(pick - base)); s2->delays++; if (cacheOn && !s2->trail.empty()) s2->trail.pop_back(); work.push_back(s2); counters["schedule-forks"]++; }
            goto chosen;
          }
          if (s->stepping) { pick = s->cur; s->stepping = false; for (size_t i = 0; i < en.size(); i++) if (en[i] == pick) goto chosen; pick = -1; }
          {
            std::vector<size_t> cand; for (size_t i = 0; i < en.size(); i++) { bool sl = false; for (auto &z : s->sleep) if (z.t == en[i]) sl = true; if (!sl) cand.push_back(i); }
            if (cand.empty()) { counters["sleep-pruned"]++; throw PathEnd(); }
            // preemption bound: switching away from an enabled current thread costs one
            int curIdx = -1; for (size_t q = 0; q < cand.size(); q++) if (en[cand[q]] == s->cur) curIdx = q;
            if (curIdx > 0) std::swap(cand[0], cand[curIdx]);
            bool curEn = false; for (int c : en) if (c == s->cur) curEn = true;
            auto sleep0 = s->sleep; 
            for (size_t q = 1; q < cand.size(); q++) {
              if (curEn && en[cand[q]] != s->cur && s->preempt >= preemptBound) { counters["preemption-bounded"]++; continue; }
              State *s2 = new State(*s); s2->cur = en[cand[q]]; s2->stepping = true; if (curEn) s2->preempt++;
              if (cacheOn && !s2->trail.empty()) s2->trail.back().second = en[cand[q]]; if (!cacheOn) for (size_t r = 0; r < q; r++) { Pend &z = pe[cand[r]]; s2->sleep.push_back({en[cand[r]], z.obj, z.off, z.sym, z.wr, z.size}); }
              work.push_back(s2); counters["schedule-forks"]++;
            }
            pick = en[cand[0]]; if (curEn && pick != s->cur) { s->preempt++; }
          }
        chosen:
          s->cur = pick; if (cacheOn && !s->trail.empty()) s->trail.back().second = pick; pendingVisible(pick, I); Pend p = pendOf(pick, I);
          // wake sleepers that depend on this operation
          std::vector<State::SleepEnt> ns; for (auto &z : s->sleep) if (z.t != pick && !dep(z.obj, z.off, z.symoff, z.wr, z.size, p.obj, p.off, p.sym, p.wr, p.size)) ns.push_back(z); 
          u32 uid = I->uid; noteSpin(pick, I, p); s->stepping = true; // a fork inside re-executes this very operation
          // a completed iteration of a pure waiting loop before a write adds nothing: the schedule without it is explored as well
          bool waited = false; if (delayBound < 0) if (I->k == I_STORE || I->k == I_ATOMICRMW) for (int k = 0; k < T && !waited; k++) { const Inst *J; if (base + k != pick && s->th[base + k].st == Thread::RUN && pendingVisible(base + k, J) && !waitLoads.count(J->uid) && spinning(base + k, J)) waited = true; }
          if (waited) { counters["waiting-pruned"]++; throw PathEnd(); }
          auto oldSleep = s->sleep; s->sleep = ns;
          execInst(); s->steps++; s->stepping = false; s->sched.push_back({(u16)(pick - base), uid}); counters["visible-ops"]++;
        }
      }
    }
    if (s->steps > stepLimit) { if (limitIsViolation) report("limit", "no termination within the step bound", s->model, curInst()); else incomplete["step-limit"]++; throw PathEnd(); }
    if ((s->steps & 4095) == 0 && now() > tBudget) { incomplete["time"]++; stopAll = true; return; }
  }
}

static void finishPath(bool normal) {
  counters["paths"]++; counters["steps"] += s->steps;
  if (normal) {
    counters["completed"]++; for (auto &r : s->reached) reachedCnt[r]++;
    if (!s->undefs && !s->obs.empty()) {
      // reservoir-like sampling of test vectors for validation against the native build
      static u64 seen = 0; seen++; bool take = (int)samples.size() < sampleMax || (seen * 2654435761u >> 7) % seen < (u64)sampleMax / 2;
      if (take) { std::string r = "{\"inputs\":" + inputsJson(s->model) + ",\"obs\":["; bool first = true; char b[96];
        for (auto &o : s->obs) { u64 v = o.v.e ? ev(o.v.e) : o.v.c; snprintf(b, 96, "%s[\"%s\",\"%c\",\"%016llx\"]", first ? "" : ",", o.name.c_str(), o.kind, (unsigned long long)(o.kind == 'i' ? (u64)sextw(v, 64) : v)); first = false; r += b; }
        r += "]}"; if ((int)samples.size() < sampleMax) samples.push_back(r); else samples[(seen * 40503u >> 3) % samples.size()] = r; }
    }
  }
}
static void explore(std::function<bool()> stop) {
  while (!work.empty() && !stopAll) {
    if (stop && stop()) return;
    s = work.back(); work.pop_back(); size_t nv = viols.size(); bool normal = false;
    try { runState(); normal = !stopAll; } catch (PathEnd &) {}
    if (stopAll && !normal && viols.size() == nv) counters["aborted"]++;
    finishPath(normal && !s->exited);
    delete s; s = nullptr;
    if (now() > tBudget) { if (!work.empty()) { incomplete["time"]++; counters["unexplored-states"] += work.size(); } stopAll = true; }
    struct rusage ru; static int rc = 0; if ((++rc & 63) == 0) { getrusage(RUSAGE_SELF, &ru); if (ru.ru_maxrss > 6L * 1024 * 1024) { if (!work.empty()) { incomplete["memory"]++; counters["unexplored-states"] += work.size(); stopAll = true; } } }
  }
}
static std::string mapJson(const std::map<std::string, long> &m) { std::string r = "{"; for (auto &p : m) r += (r.size() > 1 ? ",\"" : "\"") + jesc(p.first) + "\":" + std::to_string(p.second); return r + "}"; }
static void writeOut(const std::string &path) {
  FILE *o = fopen(path.c_str(), "w"); if (!o) { perror(path.c_str()); _exit(3); }
  fprintf(o, "{\"counters\":%s,\"incomplete\":%s,\"reached\":%s,\"externals\":%s,", mapJson(counters).c_str(), mapJson(incomplete).c_str(), mapJson(reachedCnt).c_str(), mapJson(extUsed).c_str());
  fprintf(o, "\"solver\":{\"queries\":%llu,\"cache_hits\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"time\":%.3f},\"time\":%.3f,\"exprs\":%zu,", (unsigned long long)gStats.queries, (unsigned long long)gStats.cacheHits, (unsigned long long)gStats.sat, (unsigned long long)gStats.unsat, (unsigned long long)gStats.unknown, gStats.time, now(), exprCount());
  fprintf(o, "\"functions\":["); bool f1 = true; for (Func *f : M.funcs) if (f->executed) { fprintf(o, "%s\"%s\"", f1 ? "" : ",", jesc(f->name).c_str()); f1 = false; } fprintf(o, "],");
  { std::map<std::string, std::map<u32, bool>> L; // source lines of the executed functions, and whether a path ran them
    for (Func *f : M.funcs) if (f->executed) for (size_t b = 0; b < f->blocks.size(); b++) for (auto &I : f->blocks[b].insts) if (I.file && I.line) { bool &h = L[I.file][I.line]; h = h || b == 0 || f->blocks[b].hit; }
    fprintf(o, "\"lines\":{"); f1 = true; for (auto &p : L) { fprintf(o, "%s\"%s\":[", f1 ? "" : ",", jesc(p.first).c_str()); f1 = false; for (int h = 1; h >= 0; h--) { bool g = true; fprintf(o, h ? "[" : ",["); for (auto &q : p.second) if (q.second == (h == 1)) { fprintf(o, "%s%u", g ? "" : ",", q.first); g = false; } fprintf(o, "]"); } fprintf(o, "]"); } fprintf(o, "},"); }
  fprintf(o, "\"newvisible\":["); f1 = true; for (u32 u : newVisible) { fprintf(o, "%s%u", f1 ? "" : ",", u); f1 = false; } fprintf(o, "],");
  fprintf(o, "\"violations\":["); f1 = true;
  for (auto &v : viols) { fprintf(o, "%s{\"kind\":\"%s\",\"msg\":\"%s\",\"site\":\"%s\",\"site2\":\"%s\",\"trace\":\"%s\",\"inputs\":%s,\"sched\":%s}", f1 ? "" : ",", v.kind.c_str(), jesc(v.msg).c_str(), jesc(v.site).c_str(), jesc(v.site2).c_str(), jesc(v.trace).c_str(), v.inputs.c_str(), v.sched.c_str()); f1 = false; }
  fprintf(o, "],\"samples\":["); f1 = true; for (auto &x : samples) { fprintf(o, "%s%s", f1 ? "" : ",", x.c_str()); f1 = false; }
  fprintf(o, "]}\n"); fclose(o);
}
static State *initState(const char *entry) {
  State *st = new State; s = st; st->model.epoch = newEpoch(); st->mem.push_back(ObjRef(new Obj)); st->mem[0].p->alive = false;
  for (auto &g : M.globals) { u32 id = newObj(g.size, K_GLOBAL); Obj *o = s->mem[id].p; o->data = g.init; o->tag.assign(g.size, 0); o->defTag = 0; o->ro = g.isConst; }
  st->th.push_back(Thread()); st->cur = 0;
  Func *e = M.byName[entry]; if (!e || e->decl) { fprintf(stderr, "no entry %s\n", entry); exit(3); }
  pushFrame(e, {}, nullptr, 0);
  for (int i = (int)M.ctors.size() - 1; i >= 0; i--) pushFrame(M.ctors[i], {}, nullptr, 0);
  return st;
}

static int realMain(int argc, char **argv) {
  const char *bc = nullptr; std::string out = "out.json", entry = "sx_main"; int qto = 20000; std::vector<std::string> vis;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--out") out = argv[++i]; else if (a == "--entry") entry = argv[++i]; else if (a == "--time") tBudget = atof(argv[++i]); else if (a == "--jobs") jobs = atoi(argv[++i]); else if (a == "--steps") stepLimit = atoll(argv[++i]); else if (a == "--maxviol") maxViol = atoi(argv[++i]); else if (a == "--qto") qto = atoi(argv[++i]); else if (a == "--samples") sampleMax = atoi(argv[++i]); else if (a == "--delays") delayBound = atoi(argv[++i]); else if (a == "--preempt") preemptBound = atoi(argv[++i]); else if (a == "--limit-is-violation") limitIsViolation = true; else if (a == "--window") symWindow = atoi(argv[++i]); else if (a == "--concaddr") concAddr = true; else if (a == "--rev") thrRev = true; else if (a == "--no-merge") mergeOn = false; else if (a == "--canon") canonFns.push_back(argv[++i]); else if (a == "--cache") cacheOn = true; else if (a == "--barrier-contract") barContract = true;
    else if (a == "-p") { std::string kv = argv[++i]; size_t e = kv.find('='); params[kv.substr(0, e)] = atol(kv.substr(e + 1).c_str()); }
    else bc = argv[i];
  }
  T0 = std::chrono::steady_clock::now();
  std::string err; if (!loadModule(bc, M, err)) { fprintf(stderr, "cannot load %s: %s\n", bc, err.c_str()); return 3; }
  for (Func *f : M.funcs) for (auto &b : f->blocks) for (auto &I : b.insts) instByUid[I.uid] = &I;
  initHandlers(); solverInit(qto);
  if (barContract) { auto it = M.byName.find("_ZN4synk7Barrier4waitEi"); if (it != M.byName.end()) contractFn = it->second; }
  for (int round = 0;; round++) {
    accTab.clear(); if (sigTab) munmap(sigTab, SIGN * 16); sigTab = (u64 *)mmap(nullptr, SIGN * 16, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    counters["rounds"]++; work.clear(); stopAll = false; newVisible.clear();
    work.push_back(initState(entry.c_str()));
    if (jobs <= 1) { explore(nullptr); for (State *x : work) delete x; work.clear(); writeOut(out + ".0"); }
    else {
      // breadth: grow a frontier, then hand its states to forked workers through a shared counter
      u64 target = jobs * 24; double tg = std::min(tBudget * 0.1, 4.0); 
      // rotate so that the frontier grows in breadth
      while (!work.empty() && !stopAll && work.size() < target && now() < tg) { std::rotate(work.begin(), work.begin() + 1, work.end()); size_t before = work.size(); (void)before;
        s = work.back(); work.pop_back(); size_t w0 = work.size(); bool normal = false; (void)w0;
        try { runState(); normal = !stopAll; } catch (PathEnd &) {} finishPath(normal && !s->exited); delete s; s = nullptr; }
      if (work.empty() || stopAll) { writeOut(out + ".0"); }
      else {
        volatile u32 *next = (volatile u32 *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        writeOut(out + ".0"); std::vector<State *> fr = work; work.clear(); std::vector<pid_t> pids;
        for (int j = 0; j < jobs; j++) { fflush(nullptr); pid_t p = fork(); if (p == 0) {
            counters.clear(); incomplete.clear(); reachedCnt.clear(); samples.clear(); viols.clear(); extUsed.clear(); newVisible.clear(); accTab.clear(); gStats = SolverStats();
            for (;;) { u32 k = __sync_fetch_and_add((u32 *)next, 1); if (k >= fr.size()) break; if (next[1]) stopAll = true; if (stopAll) { counters["unexplored-states"]++; if (!incomplete.count("stopped")) incomplete[now() > tBudget ? "time" : "stopped"]++; continue; } work.push_back(fr[k]); explore([&] { if (next[1]) stopAll = true; return false; }); if (hardViols >= maxViol) next[1] = 1; }
            writeOut(out + "." + std::to_string(j + 1)); if (cacheOn) { FILE *f = fopen((out + ".acc" + std::to_string(j + 1)).c_str(), "wb"); for (auto &a : accTab) fwrite(&a, sizeof a, 1, f); fclose(f); } fflush(nullptr); _exit(0); }
          pids.push_back(p); }
        int bad = 0; for (pid_t p : pids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { bad++; fprintf(stderr, "worker died (%d)\n", st); } }
        if (bad) { FILE *o = fopen((out + ".dead").c_str(), "w"); fprintf(o, "%d\n", bad); fclose(o); }
        for (State *x : fr) delete x;
        // collect newly racy instructions from the workers
        for (int j = 1; j <= jobs; j++) { FILE *f = fopen((out + "." + std::to_string(j)).c_str(), "r"); if (!f) continue; std::string t; char b[4096]; size_t n; while ((n = fread(b, 1, 4096, f)) > 0) t.append(b, n); fclose(f); size_t p = t.find("\"newvisible\":["); if (p != std::string::npos) { const char *c = t.c_str() + p + 14; while (*c && *c != ']') { newVisible.insert(strtoul(c, (char **)&c, 10)); if (*c == ',') c++; } } }
      }
    }
    if (cacheOn) { for (int j = 1; j <= jobs; j++) { std::string fn = out + ".acc" + std::to_string(j); FILE *f = fopen(fn.c_str(), "rb"); if (!f) continue; AccEnt a; while (fread(&a, sizeof a, 1, f) == 1) accTab.insert(a); fclose(f); unlink(fn.c_str()); } accConflicts(); }
    bool grew = false; for (u32 u : newVisible) if (!instByUid[u]->visible) { instByUid[u]->visible = true; grew = true; }
    if (getenv("SX_SHOWVIS")) { std::set<std::string> z; for (u32 u : newVisible) z.insert(site(instByUid[u]).substr(0, 60)); for (auto &x : z) fprintf(stderr, "visible %s\n", x.c_str()); fprintf(stderr, "round done %.1f s, paths %ld merged %ld\n", now(), counters["paths"], counters["merged"]); }
    // a deadlock or livelock seen before every conflicting access was a scheduling point may be an artefact: it has to show again in the next round
    if (grew && now() <= tBudget) { std::vector<Viol> v; for (auto &x : viols) if (x.kind != "deadlock" && x.kind != "limit") v.push_back(x); if (v.size() != viols.size()) { viols = v; violKeys.clear(); hardViols = v.size(); } }
    if (!grew || !viols.empty() || now() > tBudget) { if (grew && viols.empty()) { FILE *o = fopen((out + ".unrefined").c_str(), "w"); fprintf(o, "1\n"); fclose(o); } break; }
    long r = counters["rounds"]; counters.clear(); counters["rounds"] = r; incomplete.clear(); reachedCnt.clear(); samples.clear();
  }
  return 0;
}
struct Args { int c; char **v; int r; };
int main(int argc, char **argv) {
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1ULL << 30); Args a{argc, argv, 0}; pthread_t t;
  pthread_create(&t, &at, [](void *p) -> void * { Args *x = (Args *)p; x->r = realMain(x->c, x->v); return nullptr; }, &a); pthread_join(t, nullptr);
  return a.r;
}
