#include "expr.hpp"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <unordered_set>
#include <map>
#include <chrono>
#include <z3.h>

static const u8 F_HASFP = 1, F_NLMUL = 2;

// ---------------------------------------------------------------- arena / hash consing
static std::vector<Expr *> gTable;   // open addressing
static size_t gCount = 0;
static Expr *gChunk = nullptr; static size_t gChunkUsed = 0, gChunkCap = 0;
size_t exprCount() { return gCount; }

static u64 hashNode(Op op, int w, u64 k, Expr *a, Expr *b, Expr *c) {
  u64 h = (u64)op * 0x9E3779B97F4A7C15ULL ^ ((u64)w << 32) ^ k * 0xC2B2AE3D27D4EB4FULL;
  auto mix = [&](u64 x) { h ^= x + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 29; };
  mix(a ? a->id + 1 : 0); mix(b ? b->id + 1 : 0); mix(c ? c->id + 1 : 0);
  return h;
}
static void setRange(Expr *e);

static Expr *intern(Op op, int w, u64 k, Expr *a = nullptr, Expr *b = nullptr, Expr *c = nullptr, u64 symmax = 0) {
  if (gTable.empty()) gTable.assign(1 << 16, nullptr);
  u64 h = hashNode(op, w, k, a, b, c);
  size_t m = gTable.size() - 1, i = h & m;
  while (Expr *e = gTable[i]) {
    if (e->op == op && e->w == w && e->k == k && e->a[0] == a && e->a[1] == b && e->a[2] == c) return e;
    i = (i + 1) & m;
  }
  if (gChunkUsed == gChunkCap) { gChunkCap = 4096; gChunk = (Expr *)malloc(sizeof(Expr) * gChunkCap); gChunkUsed = 0; }
  Expr *e = &gChunk[gChunkUsed++];
  e->op = op; e->w = w; e->k = k; e->a[0] = a; e->a[1] = b; e->a[2] = c; e->id = gCount++;
  e->evalEpoch = 0; e->z3 = nullptr; e->flag = 0; e->tz = 0; e->symmask = 0;
  for (int j = 0; j < 3; j++) if (e->a[j]) { e->symmask |= e->a[j]->symmask; e->flag |= e->a[j]->flag & (F_HASFP | F_NLMUL); }
  if (op == O_MUL && a->op != O_CONST && b->op != O_CONST) e->flag |= F_NLMUL;
  if (op >= O_FPI && op <= O_FLOAT_OF_DOUBLE) e->flag |= F_HASFP;
  e->ulo = 0; e->uhi = maskw(w); e->slo = -(i64)(1ULL << (w - 1)); e->shi = (i64)((1ULL << (w - 1)) - 1);
  if (op == O_SYM) { e->symmask = 1ULL << ((k & 0xffffffff) % 64); e->uhi = symmax; if (symmax <= (maskw(w) >> 1)) { e->slo = 0; e->shi = (i64)symmax; } }
  else setRange(e);
  { u64 q = (u64)op * 0x9E3779B97F4A7C15ULL + w; auto mx = [&](u64 x) { q ^= x + 0x9E3779B97F4A7C15ULL + (q << 6) + (q >> 2); q *= 0xff51afd7ed558ccdULL; q ^= q >> 31; };
    if (op == O_SYM) { mx(k & 0xffffffff); mx(symmax); } else mx(k); for (int j = 0; j < 3; j++) mx(e->a[j] ? e->a[j]->sh : 0); e->sh = q; }
  gTable[i] = e;
  if (gCount * 2 > gTable.size()) {
    std::vector<Expr *> old; old.swap(gTable); gTable.assign(old.size() * 2, nullptr);
    size_t mm = gTable.size() - 1;
    for (Expr *x : old) if (x) {
      u64 hh = hashNode(x->op, x->w, x->k, x->a[0], x->a[1], x->a[2]); size_t p = hh & mm;
      while (gTable[p]) p = (p + 1) & mm; gTable[p] = x;
    }
  }
  return e;
}

static inline i64 smin_(int w) { return w >= 64 ? INT64_MIN : -(i64)(1ULL << (w - 1)); }
static inline i64 smax_(int w) { return w >= 64 ? INT64_MAX : (i64)((1ULL << (w - 1)) - 1); }

static void meetU(Expr *e, u64 lo, u64 hi) { e->ulo = std::max(e->ulo, lo); e->uhi = std::min(e->uhi, hi); }
static void meetS(Expr *e, i64 lo, i64 hi) { e->slo = std::max(e->slo, lo); e->shi = std::min(e->shi, hi); }
static void reconcile(Expr *e) {
  int w = e->w;
  if (e->uhi <= (u64)smax_(w)) meetS(e, (i64)e->ulo, (i64)e->uhi);
  else if (e->ulo > (u64)smax_(w)) meetS(e, sextw(e->ulo, w), sextw(e->uhi, w));
  if (e->slo >= 0) meetU(e, (u64)e->slo, (u64)e->shi);
  else if (e->shi < 0) meetU(e, (u64)e->slo & maskw(w), (u64)e->shi & maskw(w));
}
static void setRange(Expr *e) {
  int w = e->w; Expr *a = e->a[0], *b = e->a[1], *c = e->a[2];
  switch (e->op) {
  case O_CONST: e->ulo = e->uhi = e->k; e->slo = e->shi = sextw(e->k, w); e->tz = e->k ? __builtin_ctzll(e->k) : w; return;
  case O_ADD: {
    e->tz = std::min(a->tz, b->tz);
    __int128 lo = (__int128)a->ulo + b->ulo, hi = (__int128)a->uhi + b->uhi, M = (__int128)maskw(w) + 1;
    if (hi < M) meetU(e, (u64)lo, (u64)hi); else if (lo >= M && hi < 2 * M) meetU(e, (u64)(lo - M), (u64)(hi - M));
    __int128 sl = (__int128)a->slo + b->slo, sh = (__int128)a->shi + b->shi;
    if (sl >= smin_(w) && sh <= smax_(w)) meetS(e, (i64)sl, (i64)sh);
    break; }
  case O_MUL: {
    e->tz = std::min(w, a->tz + b->tz);
    unsigned __int128 hi = (unsigned __int128)a->uhi * b->uhi;
    if (hi <= maskw(w)) meetU(e, a->ulo * b->ulo, (u64)hi);
    __int128 p[4] = {(__int128)a->slo * b->slo, (__int128)a->slo * b->shi, (__int128)a->shi * b->slo, (__int128)a->shi * b->shi};
    __int128 sl = p[0], sh = p[0]; for (int i = 1; i < 4; i++) { sl = std::min(sl, p[i]); sh = std::max(sh, p[i]); }
    if (sl >= smin_(w) && sh <= smax_(w)) meetS(e, (i64)sl, (i64)sh);
    break; }
  case O_UDIV: if (b->ulo > 0) meetU(e, a->ulo / b->uhi, a->uhi / b->ulo); break;
  case O_SDIV: if (b->slo > 0) { meetS(e, std::min(a->slo / b->slo, a->slo / b->shi), std::max(a->shi / b->slo, a->shi / b->shi)); } break;
  case O_UREM: if (b->ulo > 0) meetU(e, 0, std::min(a->uhi, b->uhi - 1)); break;
  case O_SREM: if (b->slo > 0) { if (a->slo >= 0) meetS(e, 0, std::min(a->shi, b->shi - 1)); else meetS(e, -(b->shi - 1), b->shi - 1); } break;
  case O_AND: e->tz = std::max(a->tz, b->tz); meetU(e, 0, std::min(a->uhi, b->uhi)); break;
  case O_OR: e->tz = std::min(a->tz, b->tz); { u64 hi = a->uhi | b->uhi; int n = hi ? 64 - __builtin_clzll(hi) : 0; meetU(e, std::max(a->ulo, b->ulo), maskw(n)); } break;
  case O_XOR: e->tz = std::min(a->tz, b->tz); { u64 hi = a->uhi | b->uhi; int n = hi ? 64 - __builtin_clzll(hi) : 0; meetU(e, 0, maskw(n)); } break;
  case O_SHL: if (b->op == O_CONST && b->k < (u64)w) { e->tz = std::min((int)w, (int)(a->tz + b->k)); if (a->uhi <= (maskw(w) >> b->k)) meetU(e, a->ulo << b->k, a->uhi << b->k);
      __int128 sl = (__int128)a->slo << b->k, sh = (__int128)a->shi << b->k; if (sl >= smin_(w) && sh <= smax_(w)) meetS(e, (i64)sl, (i64)sh); } break;
  case O_LSHR: if (b->op == O_CONST && b->k < (u64)w) meetU(e, a->ulo >> b->k, a->uhi >> b->k); else meetU(e, 0, a->uhi); break;
  case O_ASHR: if (b->op == O_CONST && b->k < (u64)w) meetS(e, a->slo >> b->k, a->shi >> b->k); break;
  case O_ITE: e->tz = std::min(b->tz, c->tz); meetU(e, std::min(b->ulo, c->ulo), std::max(b->uhi, c->uhi)); meetS(e, std::min(b->slo, c->slo), std::max(b->shi, c->shi)); break;
  case O_ZEXT: e->tz = a->tz == a->w ? w : a->tz; meetU(e, a->ulo, a->uhi); break;
  case O_SEXT: e->tz = a->tz == a->w ? w : a->tz; meetS(e, a->slo, a->shi); break;
  case O_EXTRACT: if (e->k == 0) { e->tz = std::min((int)a->tz, w); if (a->uhi <= maskw(w)) meetU(e, a->ulo, a->uhi); if (a->slo >= smin_(w) && a->shi <= smax_(w)) meetS(e, a->slo, a->shi); }
      else meetU(e, 0, std::min(maskw(w), a->uhi >> e->k)); break;
  case O_CONCAT: e->tz = b->tz == b->w ? std::min(w, b->w + a->tz) : b->tz; meetU(e, (a->ulo << b->w) | b->ulo, (a->uhi << b->w) | b->uhi); break;
  case O_CTLZ: case O_CTTZ: case O_CTPOP: meetU(e, 0, w); break;
  default: break;
  }
  reconcile(e);
}

// ---------------------------------------------------------------- constructors
Expr *mkConst(u64 v, int w) { return intern(O_CONST, w, v & maskw(w)); }
Expr *mkSymB(u32 ordinal, int w, u64 maxv) {
  // bound is part of the identity
  static std::unordered_map<u64, u32> idx; static u32 next = 1;
  u64 key = ((u64)w << 56) ^ maxv; u32 &r = idx[key]; if (!r) r = next++;
  return intern(O_SYM, w, ((u64)r << 32) | ordinal, nullptr, nullptr, nullptr, maxv);
}
Expr *mkSym(u32 ordinal, int w) { return mkSymB(ordinal, w, maskw(w)); }

static u64 foldBin(Op op, u64 a, u64 b, int w) {
  u64 m = maskw(w); i64 sa = sextw(a, w), sb = sextw(b, w);
  switch (op) {
  case O_ADD: return (a + b) & m; case O_MUL: return (a * b) & m;
  case O_UDIV: return b ? a / b : m; case O_UREM: return b ? a % b : a;
  case O_SDIV: if (!b) return sa < 0 ? 1 : m; if (sb == -1) return (0 - a) & m; return (u64)(sa / sb) & m;
  case O_SREM: if (!b) return a; if (sb == -1) return 0; return (u64)(sa % sb) & m;
  case O_AND: return a & b; case O_OR: return a | b; case O_XOR: return a ^ b;
  case O_SHL: return b >= (u64)w ? 0 : (a << b) & m;
  case O_LSHR: return b >= (u64)w ? 0 : a >> b;
  case O_ASHR: return (u64)(b >= (u64)w ? (sa < 0 ? -1 : 0) : sa >> b) & m;
  case O_EQ: return a == b; case O_ULT: return a < b; case O_ULE: return a <= b;
  case O_SLT: return sa < sb; case O_SLE: return sa <= sb;
  default: fprintf(stderr, "foldBin?\n"); abort();
  }
}
Expr *mkNot(Expr *a) { return mkBin(O_XOR, a, mkConst(1, 1)); }
Expr *mkNeg(Expr *a) { return mkBin(O_MUL, a, mkConst(~0ULL, a->w)); }
Expr *mkSub(Expr *a, Expr *b) { if (a == b) return mkConst(0, a->w); return mkBin(O_ADD, a, mkNeg(b)); }

// linear normal form for ADD
static void collect(Expr *e, u64 coef, std::vector<std::pair<Expr *, u64>> &t, u64 &cst, int &budget) {
  u64 m = maskw(e->w);
  if (e->op == O_CONST) { cst = (cst + coef * e->k) & m; return; }
  if (e->op == O_ADD && budget > 0) { budget--; collect(e->a[0], coef, t, cst, budget); collect(e->a[1], coef, t, cst, budget); return; }
  if (e->op == O_MUL && e->a[1]->op == O_CONST) { collect(e->a[0], (coef * e->a[1]->k) & m, t, cst, budget); return; }
  t.push_back({e, coef & m});
}
static Expr *mkAdd(Expr *a, Expr *b) {
  int w = a->w; u64 m = maskw(w);
  if (b->op == O_CONST && b->k == 0) return a;
  if (a->op == O_CONST && a->k == 0) return b;
  if (a->op == O_CONST && b->op == O_CONST) return mkConst(a->k + b->k, w);
  std::vector<std::pair<Expr *, u64>> t; u64 cst = 0; int budget = 24;
  collect(a, 1, t, cst, budget); collect(b, 1, t, cst, budget);
  std::sort(t.begin(), t.end(), [](const std::pair<Expr *, u64> &x, const std::pair<Expr *, u64> &y) { return x.first->id < y.first->id; });
  Expr *r = nullptr;
  for (size_t i = 0; i < t.size();) {
    u64 c = 0; size_t j = i; while (j < t.size() && t[j].first == t[i].first) c += t[j++].second;
    c &= m;
    if (c) { Expr *x = c == 1 ? t[i].first : intern(O_MUL, w, 0, t[i].first, mkConst(c, w)); r = r ? intern(O_ADD, w, 0, r, x) : x; }
    i = j;
  }
  if (!r) return mkConst(cst, w);
  if (cst) r = intern(O_ADD, w, 0, r, mkConst(cst, w));
  return r;
}

Expr *mkBin(Op op, Expr *a, Expr *b) {
  int w = a->w;
  if (op >= O_EQ && op <= O_SLE) return mkCmp(op, a, b);
  if (a->op == O_CONST && b->op == O_CONST) return mkConst(foldBin(op, a->k, b->k, w), w);
  if (w == 1) { if (op == O_ADD) op = O_XOR; else if (op == O_MUL) op = O_AND; }
  switch (op) {
  case O_ADD: return mkAdd(a, b);
  case O_MUL:
    if (a->op == O_CONST) std::swap(a, b);
    if (b->op == O_CONST) {
      if (b->k == 0) return b; if (b->k == 1) return a;
      if (a->op == O_MUL && a->a[1]->op == O_CONST) return mkBin(O_MUL, a->a[0], mkConst(a->a[1]->k * b->k, w));
      if (a->op == O_ADD) return mkAdd(mkBin(O_MUL, a->a[0], b), mkBin(O_MUL, a->a[1], b));
      // ite with constant leaves: push in
      if (a->op == O_ITE && a->a[1]->op == O_CONST && a->a[2]->op == O_CONST) return mkIte(a->a[0], mkBin(O_MUL, a->a[1], b), mkBin(O_MUL, a->a[2], b));
      break;
    }
    if (a->id > b->id) std::swap(a, b);
    break;
  case O_AND:
    if (a->op == O_CONST) std::swap(a, b);
    if (a == b) return a;
    if (b->op == O_CONST) {
      if (b->k == 0) return b; if (b->k == maskw(w)) return a;
      if (w > 1 && a->uhi <= b->k && (b->k & (b->k + 1)) == 0) return a;
      if (w > 1 && (b->k & (b->k + 1)) == 0) { int n = __builtin_popcountll(b->k); return mkZext(mkExtract(a, 0, n), w); }
      if (a->tz >= 64 - __builtin_clzll(b->k)) return mkConst(0, w);
    }
    if (w == 1) { if (a->op == O_XOR && a->a[0] == b && a->a[1]->op == O_CONST) return mkConst(0, 1); if (b->op == O_XOR && b->a[0] == a && b->a[1]->op == O_CONST) return mkConst(0, 1); }
    if (b->op != O_CONST && a->id > b->id) std::swap(a, b);
    break;
  case O_OR:
    if (a->op == O_CONST) std::swap(a, b);
    if (a == b) return a;
    if (b->op == O_CONST) { if (b->k == 0) return a; if (b->k == maskw(w)) return b; }
    if (w == 1) { if (a->op == O_XOR && a->a[0] == b && a->a[1]->op == O_CONST) return mkConst(1, 1); if (b->op == O_XOR && b->a[0] == a && b->a[1]->op == O_CONST) return mkConst(1, 1); }
    // disjoint add
    if (b->op == O_CONST && w > 1 && b->k < (1ULL << a->tz)) return mkAdd(a, b);
    if (b->op != O_CONST && a->id > b->id) std::swap(a, b);
    break;
  case O_XOR:
    if (a->op == O_CONST) std::swap(a, b);
    if (a == b) return mkConst(0, w);
    if (b->op == O_CONST) {
      if (b->k == 0) return a;
      if (a->op == O_XOR && a->a[1]->op == O_CONST) return mkBin(O_XOR, a->a[0], mkConst(a->a[1]->k ^ b->k, w));
      if (w == 1) { // negation of comparisons
        if (a->op == O_ULT) return mkCmp(O_ULE, a->a[1], a->a[0]);
        if (a->op == O_ULE) return mkCmp(O_ULT, a->a[1], a->a[0]);
        if (a->op == O_SLT) return mkCmp(O_SLE, a->a[1], a->a[0]);
        if (a->op == O_SLE) return mkCmp(O_SLT, a->a[1], a->a[0]);
      }
      if (w > 1 && b->k == maskw(w)) return mkAdd(mkNeg(a), mkConst(maskw(w), w)); // ~a = -a-1
    }
    if (b->op != O_CONST && a->id > b->id) std::swap(a, b);
    break;
  case O_SHL:
    if (b->op == O_CONST) { if (b->k == 0) return a; if (b->k >= (u64)w) return mkConst(0, w); return mkBin(O_MUL, a, mkConst(1ULL << b->k, w)); }
    break;
  case O_LSHR:
    if (b->op == O_CONST) { if (b->k == 0) return a; if (b->k >= (u64)w) return mkConst(0, w); return mkZext(mkExtract(a, b->k, w - b->k), w); }
    break;
  case O_ASHR:
    if (b->op == O_CONST) { if (b->k == 0) return a; if (b->k >= (u64)w) return mkBin(O_ASHR, a, mkConst(w - 1, w)); return mkSext(mkExtract(a, b->k, w - b->k), w); }
    break;
  case O_UDIV:
    if (b->op == O_CONST && b->k && !(b->k & (b->k - 1))) return mkBin(O_LSHR, a, mkConst(__builtin_ctzll(b->k), w));
    if (a->uhi < b->ulo) return mkConst(0, w);
    break;
  case O_UREM:
    if (b->op == O_CONST && b->k && !(b->k & (b->k - 1))) return mkBin(O_AND, a, mkConst(b->k - 1, w));
    if (a->uhi < b->ulo) return a;
    break;
  case O_SDIV: case O_SREM:
    if (a->slo >= 0 && b->slo >= 0) return mkBin(op == O_SDIV ? O_UDIV : O_UREM, a, b);
    break;
  case O_EQ: case O_ULT: case O_ULE: case O_SLT: case O_SLE: return mkCmp(op, a, b);
  default: break;
  }
  return intern(op, w, 0, a, b);
}

static bool fpiOf(Expr *e, Expr *&x, int &scale);
static bool fpiAlign(Expr *a, Expr *b, Expr *&x, Expr *&y, int &scale);

static bool constLeaves(Expr *e, int depth) {
  if (e->op == O_CONST) return true;
  if (e->op == O_ITE && depth > 0) return constLeaves(e->a[1], depth - 1) && constLeaves(e->a[2], depth - 1);
  return false;
}

// polynomial over the integers, exact (no wrap-around anywhere below); sub-terms that may wrap are atoms
typedef std::map<std::vector<Expr *>, __int128> Poly;
static bool polyFits(const Poly &p) { if (p.size() > 256) return false; for (auto &x : p) if (x.second > ((__int128)1 << 60) || x.second < -((__int128)1 << 60)) return false; return true; }
static bool polyOf(Expr *e, Poly &out, int &budget) {
  if (--budget < 0) return false;
  int w = e->w; Expr *a = e->a[0], *b = e->a[1];
  switch (e->op) {
  case O_CONST: out.clear(); if (e->k) out[{}] = sextw(e->k, w); return true;
  case O_SEXT: return polyOf(a, out, budget);
  case O_ZEXT: if (a->slo >= 0) return polyOf(a, out, budget); break;
  case O_EXTRACT: if (e->k == 0 && a->slo >= smin_(w) && a->shi <= smax_(w)) return polyOf(a, out, budget); break;
  case O_ADD: { __int128 lo = (__int128)a->slo + b->slo, hi = (__int128)a->shi + b->shi; if (lo < smin_(w) || hi > smax_(w)) break;
    Poly q; if (!polyOf(a, out, budget) || !polyOf(b, q, budget)) return false;
    for (auto &x : q) { auto &c = out[x.first]; c += x.second; if (!c) out.erase(x.first); }
    return polyFits(out); }
  case O_MUL: { __int128 v[4] = {(__int128)a->slo * b->slo, (__int128)a->slo * b->shi, (__int128)a->shi * b->slo, (__int128)a->shi * b->shi};
    if (*std::min_element(v, v + 4) < smin_(w) || *std::max_element(v, v + 4) > smax_(w)) break;
    Poly p, q; if (!polyOf(a, p, budget) || !polyOf(b, q, budget) || p.size() * q.size() > 256) return false;
    out.clear();
    for (auto &x : p) for (auto &y : q) { std::vector<Expr *> m(x.first); m.insert(m.end(), y.first.begin(), y.first.end()); std::sort(m.begin(), m.end(), [](Expr *i, Expr *j) { return i->id < j->id; }); auto &c = out[m]; c += x.second * y.second; if (!c) out.erase(m); }
    return polyFits(out); }
  default: break;
  }
  out.clear(); out[{e}] = 1; return true;
}
static int polyEq(Expr *a, Expr *b) { // 1 equal, 0 never equal, -1 unknown
  Poly p, q; int budget = 2000; if (!polyOf(a, p, budget) || !polyOf(b, q, budget)) return -1;
  for (auto &x : q) { auto &c = p[x.first]; c -= x.second; if (!c) p.erase(x.first); }
  if (p.empty()) return 1;
  if (p.size() == 1 && p.begin()->first.empty()) return 0;
  return -1;
}

Expr *mkCmp(Op op, Expr *a, Expr *b) {
  int w = a->w;
  if (a->op == O_CONST && b->op == O_CONST) return mkConst(foldBin(op, a->k, b->k, w), 1);
  if (w == 1 && op != O_EQ) { if (op == O_SLT || op == O_SLE) std::swap(a, b); return mkBin(op == O_ULT || op == O_SLT ? O_AND : O_OR, mkNot(a), b); }
  Expr *T = mkConst(1, 1), *F = mkConst(0, 1);
  if (op == O_EQ) {
    if (a == b) return T;
    if (a->uhi < b->ulo || b->uhi < a->ulo || a->shi < b->slo || b->shi < a->slo) return F;
    if (a->op == O_CONST) std::swap(a, b);
    if (w == 1) { if (b->op == O_CONST) return b->k ? a : mkNot(a); return mkNot(mkBin(O_XOR, a, b)); }
    if (b->op == O_CONST) {
      if (a->tz < w && b->k != 0 && (int)__builtin_ctzll(b->k) < a->tz) return F;
      if (a->op == O_ADD && a->a[1]->op == O_CONST) return mkCmp(O_EQ, a->a[0], mkConst(b->k - a->a[1]->k, w));
      if (a->op == O_ZEXT) return b->k > maskw(a->a[0]->w) ? F : mkCmp(O_EQ, a->a[0], mkConst(b->k, a->a[0]->w));
      if (a->op == O_SEXT) { u64 v = b->k & maskw(a->a[0]->w); if (((u64)sextw(v, a->a[0]->w) & maskw(w)) != b->k) return F; return mkCmp(O_EQ, a->a[0], mkConst(v, a->a[0]->w)); }
      if (a->op == O_MUL && a->a[1]->op == O_CONST) {
        u64 c = a->a[1]->k; 
        if (c & 1) { // odd constant: invertible
          u64 inv = c; for (int i = 0; i < 6; i++) inv *= 2 - c * inv;
          return mkCmp(O_EQ, a->a[0], mkConst(inv * b->k, w));
        }
        // no-overflow case by interval
        unsigned __int128 hi = (unsigned __int128)a->a[0]->uhi * c;
        if (hi <= maskw(w)) { if (b->k % c) return F; return mkCmp(O_EQ, a->a[0], mkConst(b->k / c, w)); }
      }
      if (a->op == O_ITE && (a->a[1]->op == O_CONST || a->a[2]->op == O_CONST))
        return mkIte(a->a[0], mkCmp(O_EQ, a->a[1], b), mkCmp(O_EQ, a->a[2], b));
      if (a->op == O_CONCAT) return mkBin(O_AND, mkCmp(O_EQ, a->a[0], mkConst(b->k >> a->a[1]->w, a->a[0]->w)), mkCmp(O_EQ, a->a[1], mkConst(b->k, a->a[1]->w)));
    }
    if (w == 64) { Expr *x, *y; int s; if ((a->op == O_FPI || b->op == O_FPI) && fpiAlign(a, b, x, y, s)) return mkCmp(O_EQ, x, y); }
    if ((a->op == O_ZEXT && b->op == O_ZEXT && a->a[0]->w == b->a[0]->w) || (a->op == O_SEXT && b->op == O_SEXT && a->a[0]->w == b->a[0]->w)) return mkCmp(O_EQ, a->a[0], b->a[0]);
    if (a->op == O_ADD || b->op == O_ADD || a->op == O_MUL || b->op == O_MUL) {
      // canonical: move everything to one side if that simplifies to a smaller form
      Expr *d = mkSub(a, b);
      if (d->op == O_CONST) return d->k ? F : T;
      if (d->op == O_ADD && d->a[1]->op == O_CONST && d->a[0]->op != O_ADD && d->a[0]->op != O_MUL) return mkCmp(O_EQ, d->a[0], mkConst(0 - d->a[1]->k, w));
    }
    if (((a->flag | b->flag) & F_NLMUL) && w <= 64) { int r = polyEq(a, b); if (r >= 0) return r ? T : F; }
    if (b->op != O_CONST && a->id > b->id) std::swap(a, b);
    return intern(O_EQ, 1, 0, a, b);
  }
  if (a == b) return (op == O_ULE || op == O_SLE) ? T : F;
  if (op == O_ULT) { if (a->uhi < b->ulo) return T; if (a->ulo >= b->uhi) return F; }
  if (op == O_ULE) { if (a->uhi <= b->ulo) return T; if (a->ulo > b->uhi) return F; }
  if (op == O_SLT) { if (a->shi < b->slo) return T; if (a->slo >= b->shi) return F; }
  if (op == O_SLE) { if (a->shi <= b->slo) return T; if (a->slo > b->shi) return F; }
  if (op == O_ULT && b->op == O_CONST && b->k == 1) return mkCmp(O_EQ, a, mkConst(0, w));
  if (op == O_ULE && b->op == O_CONST && b->k == 0) return mkCmp(O_EQ, a, b);
  if (op == O_ULT && a->op == O_CONST && a->k == 0) return mkNot(mkCmp(O_EQ, b, a));
  // signed comparisons of non-negative things become unsigned
  if ((op == O_SLT || op == O_SLE) && a->slo >= 0 && b->slo >= 0) return mkCmp(op == O_SLT ? O_ULT : O_ULE, a, b);
  bool uns = op == O_ULT || op == O_ULE;
  // x + c  <cmp> d   with no wrap
  auto noWrapAdd = [&](Expr *e) {
    if (e->op != O_ADD || e->a[1]->op != O_CONST) return false;
    Expr *x = e->a[0]; 
    if (uns) { __int128 hi = (__int128)x->uhi + e->a[1]->k; return hi <= (__int128)maskw(w); }
    __int128 lo = (__int128)x->slo + sextw(e->a[1]->k, w), hi = (__int128)x->shi + sextw(e->a[1]->k, w);
    return lo >= smin_(w) && hi <= smax_(w);
  };
  if (b->op == O_CONST && noWrapAdd(a)) {
    if (uns) { if (b->k < a->a[1]->k) return F; return mkCmp(op, a->a[0], mkConst(b->k - a->a[1]->k, w)); }
    __int128 d = (__int128)sextw(b->k, w) - sextw(a->a[1]->k, w);
    if (d >= smin_(w) && d <= smax_(w)) return mkCmp(op, a->a[0], mkConst((u64)d, w));
  }
  if (a->op == O_CONST && noWrapAdd(b)) {
    if (uns) { if (a->k < b->a[1]->k) return T; return mkCmp(op, mkConst(a->k - b->a[1]->k, w), b->a[0]); }
    __int128 d = (__int128)sextw(a->k, w) - sextw(b->a[1]->k, w);
    if (d >= smin_(w) && d <= smax_(w)) return mkCmp(op, mkConst((u64)d, w), b->a[0]);
  }
  // extensions
  if (a->op == O_ZEXT && b->op == O_CONST && uns && b->k <= maskw(a->a[0]->w)) return mkCmp(op, a->a[0], mkConst(b->k, a->a[0]->w));
  if (b->op == O_ZEXT && a->op == O_CONST && uns && a->k <= maskw(b->a[0]->w)) return mkCmp(op, mkConst(a->k, b->a[0]->w), b->a[0]);
  if (a->op == O_ZEXT && b->op == O_ZEXT && uns && a->a[0]->w == b->a[0]->w) return mkCmp(op, a->a[0], b->a[0]);
  if (a->op == O_SEXT && b->op == O_SEXT && !uns && a->a[0]->w == b->a[0]->w) return mkCmp(op, a->a[0], b->a[0]);
  if (a->op == O_SEXT && b->op == O_CONST && !uns) { int v = a->a[0]->w; i64 s = sextw(b->k, w); if (s >= smin_(v) && s <= smax_(v)) return mkCmp(op, a->a[0], mkConst((u64)s, v)); }
  if (b->op == O_SEXT && a->op == O_CONST && !uns) { int v = b->a[0]->w; i64 s = sextw(a->k, w); if (s >= smin_(v) && s <= smax_(v)) return mkCmp(op, mkConst((u64)s, v), b->a[0]); }
  if (a->op == O_ITE && b->op == O_CONST && constLeaves(a, 8)) return mkIte(a->a[0], mkCmp(op, a->a[1], b), mkCmp(op, a->a[2], b));
  if (b->op == O_ITE && a->op == O_CONST && constLeaves(b, 8)) return mkIte(b->a[0], mkCmp(op, a, b->a[1]), mkCmp(op, a, b->a[2]));
  return intern(op, 1, 0, a, b);
}

Expr *mkIte(Expr *c, Expr *a, Expr *b) {
  if (c->op == O_CONST) return c->k ? a : b;
  if (a == b) return a;
  if (c->op == O_XOR && c->a[1]->op == O_CONST) return mkIte(c->a[0], b, a);
  if (a->w == 1) {
    if (a->op == O_CONST && b->op == O_CONST) return a->k ? c : mkNot(c);
    if (a->op == O_CONST) return a->k ? mkBin(O_OR, c, b) : mkBin(O_AND, mkNot(c), b);
    if (b->op == O_CONST) return b->k ? mkBin(O_OR, mkNot(c), a) : mkBin(O_AND, c, a);
    if (a == c) return mkBin(O_OR, c, b);
    if (b == c) return mkBin(O_AND, c, a);
  }
  if (a->op == O_ITE && a->a[0] == c) a = a->a[1];
  if (b->op == O_ITE && b->a[0] == c) b = b->a[2];
  if (a == b) return a;
  if (b->op == O_ITE && b->a[1] == a) return mkIte(mkBin(O_OR, c, b->a[0]), a, b->a[2]);
  if (a->w == 64 && (a->op == O_FPI || b->op == O_FPI)) {
    Expr *x, *y; int s;
    if (fpiAlign(a, b, x, y, s)) return mkFpi(mkIte(c, x, y), s);
  }
  if (a->op == O_ZEXT && b->op == O_ZEXT && a->a[0]->w == b->a[0]->w) return mkZext(mkIte(c, a->a[0], b->a[0]), a->w);
  return intern(O_ITE, a->w, 0, c, a, b);
}
Expr *mkZext(Expr *a, int w) {
  if (a->w == w) return a;
  if (a->op == O_CONST) return mkConst(a->k, w);
  if (a->op == O_ZEXT) return mkZext(a->a[0], w);
  if (a->op == O_ITE && constLeaves(a, 6) ) return mkIte(a->a[0], mkZext(a->a[1], w), mkZext(a->a[2], w));
  if (a->op == O_ADD && a->a[1]->op == O_CONST && (unsigned __int128)a->a[0]->uhi + a->a[1]->k <= maskw(a->w)) return mkAdd(mkZext(a->a[0], w), mkConst(a->a[1]->k, w));
  return intern(O_ZEXT, w, 0, a);
}
Expr *mkSext(Expr *a, int w) {
  if (a->w == w) return a;
  if (a->op == O_CONST) return mkConst((u64)sextw(a->k, a->w), w);
  if (a->op == O_SEXT) return mkSext(a->a[0], w);
  if (a->op == O_ITE && constLeaves(a, 6)) return mkIte(a->a[0], mkSext(a->a[1], w), mkSext(a->a[2], w));
  if (a->op == O_ADD && a->a[1]->op == O_CONST) {
    __int128 c = sextw(a->a[1]->k, a->w), lo = a->a[0]->slo + c, hi = a->a[0]->shi + c;
    if (lo >= smin_(a->w) && hi <= smax_(a->w)) return mkAdd(mkSext(a->a[0], w), mkConst((u64)(i64)c, w));
  }
  if (a->op == O_MUL && a->a[1]->op == O_CONST) {
    __int128 c = sextw(a->a[1]->k, a->w), p = a->a[0]->slo * c, q = a->a[0]->shi * c;
    if (std::min(p, q) >= smin_(a->w) && std::max(p, q) <= smax_(a->w)) return mkBin(O_MUL, mkSext(a->a[0], w), mkConst((u64)(i64)c, w));
  }
  if (a->slo >= 0) return mkZext(a, w);
  return intern(O_SEXT, w, 0, a);
}
Expr *mkExtract(Expr *a, int lo, int w) {
  if (lo == 0 && w == a->w) return a;
  if (a->op == O_CONST) return mkConst(a->k >> lo, w);
  if (a->op == O_EXTRACT) return mkExtract(a->a[0], lo + a->k, w);
  if (a->op == O_CONCAT) {
    int bw = a->a[1]->w;
    if (lo >= bw) return mkExtract(a->a[0], lo - bw, w);
    if (lo + w <= bw) return mkExtract(a->a[1], lo, w);
  }
  if (a->op == O_ZEXT || a->op == O_SEXT) {
    int iw = a->a[0]->w;
    if (lo + w <= iw) return mkExtract(a->a[0], lo, w);
    if (lo == 0) return a->op == O_ZEXT ? mkZext(a->a[0], w) : mkSext(a->a[0], w);
    if (lo >= iw && a->op == O_ZEXT) return mkConst(0, w);
    if (lo >= iw) return mkSext(mkExtract(a->a[0], iw - 1, 1), w);
    return a->op == O_ZEXT ? mkZext(mkExtract(a->a[0], lo, iw - lo), w) : mkSext(mkExtract(a->a[0], lo, iw - lo), w);
  }
  if (lo == 0 && (a->op == O_ADD || a->op == O_MUL)) return mkBin(a->op, mkExtract(a->a[0], 0, w), mkExtract(a->a[1], 0, w));
  if (a->op == O_AND || a->op == O_OR || a->op == O_XOR) return mkBin(a->op, mkExtract(a->a[0], lo, w), mkExtract(a->a[1], lo, w));
  if (a->op == O_ITE && (constLeaves(a, 4) || (lo == 0 && a->a[1]->op != O_FPI))) return mkIte(a->a[0], mkExtract(a->a[1], lo, w), mkExtract(a->a[2], lo, w));
  return intern(O_EXTRACT, w, lo, a);
}
Expr *mkConcat(Expr *hi, Expr *lo) {
  int w = hi->w + lo->w;
  if (hi->op == O_CONST && lo->op == O_CONST) return mkConst((hi->k << lo->w) | lo->k, w);
  if (hi->op == O_CONST && hi->k == 0) return mkZext(lo, w);
  if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->a[0] == lo->a[0] && hi->k == lo->k + lo->w) return mkExtract(hi->a[0], lo->k, w);
  return intern(O_CONCAT, w, 0, hi, lo);
}
Expr *mkCt(Op op, Expr *a) {
  if (a->op == O_CONST) {
    u64 v = a->k; int r;
    if (op == O_CTLZ) r = v ? __builtin_clzll(v) - (64 - a->w) : a->w;
    else if (op == O_CTTZ) r = v ? __builtin_ctzll(v) : a->w;
    else r = __builtin_popcountll(v);
    return mkConst(r, a->w);
  }
  // expand
  if (op == O_CTPOP) { Expr *s = mkConst(0, a->w); for (int i = 0; i < a->w; i++) s = mkAdd(s, mkZext(mkExtract(a, i, 1), a->w)); return s; }
  Expr *r = mkConst(a->w, a->w);
  if (op == O_CTLZ) for (int i = 0; i < a->w; i++) r = mkIte(mkExtract(a, i, 1), mkConst(a->w - 1 - i, a->w), r);
  else for (int i = a->w - 1; i >= 0; i--) r = mkIte(mkExtract(a, i, 1), mkConst(i, a->w), r);
  return r;
}

// ---------------------------------------------------------------- doubles
static double asD(u64 b) { double d; memcpy(&d, &b, 8); return d; }
static u64 asB(double d) { u64 b; memcpy(&b, &d, 8); return b; }
static u64 fpiBits(u64 x, int scale) { return asB(std::ldexp((double)sextw(x, 32), -scale)); }

Expr *mkFpi(Expr *a, int scale) {
  if (a->op == O_CONST) return mkConst(fpiBits(a->k, scale), 64);
  return intern(O_FPI, 64, (u64)scale, a);
}
static bool fpiOf(Expr *e, Expr *&x, int &scale) {
  if (e->op == O_FPI) { x = e->a[0]; scale = (int)e->k; return true; }
  if (e->op == O_CONST) {
    double d = asD(e->k);
    if (!(std::fabs(d) <= 1e6)) return false;
    for (int s = 0; s <= 20; s++) { double t = std::ldexp(d, s); if (t == std::floor(t)) { if (std::fabs(t) > (1 << 29)) return false; x = mkConst((u64)(i64)t, 32); scale = s; return true; } }
  }
  return false;
}
static bool inR(__int128 lo, __int128 hi) { return lo >= -(1 << 30) && hi <= (1 << 30); }
static Expr *fpiShift(Expr *x, int n) { // x * 2^n or null when it could overflow
  if (n == 0) return x;
  if (n > 28 || !inR((__int128)x->slo << n, (__int128)x->shi << n)) return nullptr;
  return mkBin(O_MUL, x, mkConst(1ULL << n, 32));
}
static bool fpiAlign(Expr *a, Expr *b, Expr *&x, Expr *&y, int &scale) {
  int s, t;
  if (!fpiOf(a, x, s) || !fpiOf(b, y, t)) return false;
  scale = std::max(s, t);
  x = fpiShift(x, scale - s); y = fpiShift(y, scale - t);
  return x && y;
}
static int bitsFor(i64 lo, i64 hi) { int w = 1; while (lo < smin_(w) || hi > smax_(w)) w++; return w; }

static double foldF(Op op, double a, double b) {
  switch (op) { case O_FADD: return a + b; case O_FSUB: return a - b; case O_FMUL: return a * b; case O_FDIV: return a / b; default: abort(); }
}
Expr *mkFp2(Op op, Expr *a, Expr *b) {
  if (a->op == O_CONST && b->op == O_CONST) return mkConst(asB(foldF(op, asD(a->k), asD(b->k))), 64);
  Expr *x, *y; int s, t;
  if (op == O_FADD || op == O_FSUB) {
    if (fpiAlign(a, b, x, y, s) && inR((__int128)x->slo + (op == O_FADD ? y->slo : -(__int128)y->shi), (__int128)x->shi + (op == O_FADD ? y->shi : -(__int128)y->slo)))
      return mkFpi(op == O_FADD ? mkBin(O_ADD, x, y) : mkSub(x, y), s);
  } else if (op == O_FMUL) {
    if (fpiOf(a, x, s) && fpiOf(b, y, t)) {
      __int128 p[4] = {(__int128)x->slo * y->slo, (__int128)x->slo * y->shi, (__int128)x->shi * y->slo, (__int128)x->shi * y->shi};
      __int128 lo = *std::min_element(p, p + 4), hi = *std::max_element(p, p + 4);
      if (inR(lo, hi)) {
        if (x->op == O_CONST || y->op == O_CONST) return mkFpi(mkBin(O_MUL, x, y), s + t);
        int w = std::max(bitsFor((i64)lo, (i64)hi), std::max(bitsFor(x->slo, x->shi), bitsFor(y->slo, y->shi)));
        if (w > 32) w = 32;
        return mkFpi(mkSext(mkBin(O_MUL, mkExtract(x, 0, w), mkExtract(y, 0, w)), 32), s + t);
      }
    }
  } else if (op == O_FDIV) {
    if (fpiOf(a, x, s) && fpiOf(b, y, t) && y->shi - y->slo <= 16) {
      // every non-zero possible divisor must be +-2^k; zero must be excluded by the interval
      int maxk = 0; bool ok = true;
      for (i64 v = y->slo; v <= y->shi; v++) { if (v == 0) { ok = false; break; } u64 m = (u64)(v < 0 ? -v : v); if (m & (m - 1)) { ok = false; break; } maxk = std::max(maxk, (int)__builtin_ctzll(m)); }
      if (!ok) { // the divisor may be an ite over powers of two (see sx_pow2)
        std::vector<Expr *> st{y}; std::vector<i64> vals; ok = true; int n = 0;
        while (!st.empty() && ok && n++ < 64) { Expr *e = st.back(); st.pop_back(); if (e->op == O_CONST) vals.push_back(sextw(e->k, 32)); else if (e->op == O_ITE) { st.push_back(e->a[1]); st.push_back(e->a[2]); } else ok = false; }
        maxk = 0;
        for (i64 v : vals) { u64 m = (u64)(v < 0 ? -v : v); if (!m || (m & (m - 1))) ok = false; else maxk = std::max(maxk, (int)__builtin_ctzll(m)); }
        if (ok) {
          std::sort(vals.begin(), vals.end()); vals.erase(std::unique(vals.begin(), vals.end()), vals.end());
          Expr *f = nullptr;
          for (i64 v : vals) { u64 m = (u64)(v < 0 ? -v : v); i64 q = (i64)1 << (maxk - __builtin_ctzll(m)); if (v < 0) q = -q; Expr *qc = mkConst((u64)q, 32); f = f ? mkIte(mkCmp(O_EQ, y, mkConst((u64)v, 32)), qc, f) : qc; }
          Expr *num = mkFpi(x, s), *inv = mkFpi(f, maxk - t >= 0 ? maxk - t : 0);
          if (maxk - t >= 0) return mkFp2(O_FMUL, num, inv);
        }
      } else {
        Expr *f = nullptr;
        for (i64 v = y->slo; v <= y->shi; v++) { u64 m = (u64)(v < 0 ? -v : v); i64 q = (i64)1 << (maxk - __builtin_ctzll(m)); if (v < 0) q = -q; Expr *qc = mkConst((u64)q, 32); f = f ? mkIte(mkCmp(O_EQ, y, mkConst((u64)v, 32)), qc, f) : qc; }
        if (maxk - t >= 0) return mkFp2(O_FMUL, mkFpi(x, s), mkFpi(f, maxk - t));
      }
    }
  }
  if ((op == O_FADD || op == O_FMUL) && a->id > b->id) std::swap(a, b);
  return intern(op, 64, 0, a, b);
}
Expr *mkFp1(Op op, Expr *a) {
  Expr *x; int s;
  if (a->op == O_CONST) {
    double d = asD(a->k);
    if (op == O_FNEG) return mkConst(asB(-d), 64);
    if (op == O_FABS) return mkConst(asB(std::fabs(d)), 64);
    if (op == O_FLOAT_OF_DOUBLE) { float f = (float)d; u32 b; memcpy(&b, &f, 4); return mkConst(b, 32); }
    if (op == O_FDOUBLE_OF_FLOAT) { float f; u32 b = (u32)a->k; memcpy(&f, &b, 4); return mkConst(asB((double)f), 64); }
  }
  if (a->w == 64 && fpiOf(a, x, s)) {
    if (op == O_FNEG) return mkFpi(mkNeg(x), s);
    if (op == O_FABS) return mkFpi(mkIte(mkCmp(O_SLT, x, mkConst(0, 32)), mkNeg(x), x), s);
  }
  return intern(op, op == O_FLOAT_OF_DOUBLE ? 32 : 64, 0, a);
}
Expr *mkFcmp(Op op, Expr *a, Expr *b) {
  if (a->op == O_CONST && b->op == O_CONST) {
    double x = asD(a->k), y = asD(b->k);
    switch (op) { case O_FEQ: return mkConst(x == y, 1); case O_FLT: return mkConst(x < y, 1); case O_FLE: return mkConst(x <= y, 1); case O_FUNO: return mkConst(x != x || y != y, 1); default: abort(); }
  }
  Expr *x, *y; int s;
  if (fpiAlign(a, b, x, y, s)) {
    switch (op) { case O_FEQ: return mkCmp(O_EQ, x, y); case O_FLT: return mkCmp(O_SLT, x, y); case O_FLE: return mkCmp(O_SLE, x, y); case O_FUNO: return mkConst(0, 1); default: abort(); }
  }
  return intern(op, 1, 0, a, b);
}
Expr *mkSiToF(Expr *a, bool isSigned) {
  if (a->op == O_CONST) return mkConst(asB(isSigned ? (double)sextw(a->k, a->w) : (double)a->k), 64);
  if (isSigned ? inR(a->slo, a->shi) : a->uhi <= (1u << 30)) {
    Expr *x = a->w == 32 ? a : a->w > 32 ? mkExtract(a, 0, 32) : isSigned ? mkSext(a, 32) : mkZext(a, 32);
    return mkFpi(x, 0);
  }
  return intern(isSigned ? O_SITOF : O_UITOF, 64, 0, a);
}
Expr *mkFToSi(Expr *a, int w) {
  if (a->op == O_CONST) return mkConst((u64)(i64)asD(a->k), w);
  Expr *x; int s;
  if (fpiOf(a, x, s)) {
    Expr *q = s == 0 ? x : mkBin(O_SDIV, x, mkConst(1ULL << s, 32));
    return w == 32 ? q : w > 32 ? mkSext(q, w) : mkExtract(q, 0, w);
  }
  return intern(O_FTOSI, w, 0, a);
}

// ---------------------------------------------------------------- evaluation
static u32 gEpoch = 1;
u32 newEpoch() { return ++gEpoch; }
u64 evalExpr(Expr *e, const Model &m) {
  if (e->op == O_CONST) return e->k;
  if (e->evalEpoch == m.epoch) return e->evalVal;
  u64 r = 0;
  switch (e->op) {
  case O_SYM: { u32 o = (u32)e->k; r = o < m.v.size() ? m.v[o] & maskw(e->w) : 0; break; }
  case O_ITE: r = evalExpr(e->a[0], m) ? evalExpr(e->a[1], m) : evalExpr(e->a[2], m); break;
  case O_ZEXT: r = evalExpr(e->a[0], m); break;
  case O_SEXT: r = (u64)sextw(evalExpr(e->a[0], m), e->a[0]->w) & maskw(e->w); break;
  case O_EXTRACT: r = (evalExpr(e->a[0], m) >> e->k) & maskw(e->w); break;
  case O_CONCAT: r = (evalExpr(e->a[0], m) << e->a[1]->w) | evalExpr(e->a[1], m); break;
  case O_FPI: r = fpiBits(evalExpr(e->a[0], m), (int)e->k); break;
  case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: r = asB(foldF(e->op, asD(evalExpr(e->a[0], m)), asD(evalExpr(e->a[1], m)))); break;
  case O_FNEG: r = asB(-asD(evalExpr(e->a[0], m))); break;
  case O_FABS: r = asB(std::fabs(asD(evalExpr(e->a[0], m)))); break;
  case O_FEQ: r = asD(evalExpr(e->a[0], m)) == asD(evalExpr(e->a[1], m)); break;
  case O_FLT: r = asD(evalExpr(e->a[0], m)) < asD(evalExpr(e->a[1], m)); break;
  case O_FLE: r = asD(evalExpr(e->a[0], m)) <= asD(evalExpr(e->a[1], m)); break;
  case O_FUNO: { double x = asD(evalExpr(e->a[0], m)), y = asD(evalExpr(e->a[1], m)); r = x != x || y != y; break; }
  case O_SITOF: r = asB((double)sextw(evalExpr(e->a[0], m), e->a[0]->w)); break;
  case O_UITOF: r = asB((double)evalExpr(e->a[0], m)); break;
  case O_FTOSI: r = (u64)(i64)asD(evalExpr(e->a[0], m)) & maskw(e->w); break;
  case O_FLOAT_OF_DOUBLE: { float f = (float)asD(evalExpr(e->a[0], m)); u32 b; memcpy(&b, &f, 4); r = b; break; }
  case O_FDOUBLE_OF_FLOAT: { u32 b = (u32)evalExpr(e->a[0], m); float f; memcpy(&f, &b, 4); r = asB((double)f); break; }
  default: r = foldBin(e->op, evalExpr(e->a[0], m), evalExpr(e->a[1], m), e->a[0]->w); break;
  }
  e->evalEpoch = m.epoch; e->evalVal = r;
  return r;
}

static const char *opn[] = {"const", "sym", "add", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "ite", "zext", "sext", "extract", "concat", "fpi", "fadd", "fsub", "fmul", "fdiv", "fneg", "fabs", "feq", "flt", "fle", "funo", "ftosi", "sitof", "uitof", "f2d", "d2f", "ctlz", "cttz", "ctpop"};
std::string exprStr(Expr *e, int depth) {
  char buf[64];
  if (e->op == O_CONST) { snprintf(buf, 64, "%lld", (long long)sextw(e->k, e->w)); return buf; }
  if (e->op == O_SYM) { snprintf(buf, 64, "s%u", (u32)e->k); return buf; }
  if (depth == 0) return "..";
  std::string s = "("; s += opn[e->op]; snprintf(buf, 64, "%d", e->w); s += buf;
  if (e->op == O_EXTRACT || e->op == O_FPI) { snprintf(buf, 64, "@%llu", (unsigned long long)e->k); s += buf; }
  for (int i = 0; i < 3; i++) if (e->a[i]) s += " " + exprStr(e->a[i], depth - 1);
  return s + ")";
}

// ---------------------------------------------------------------- Z3
SolverStats gStats;
static Z3_context C;
static Z3_solver S, SF;
static int gTimeout;
static Z3_sort bvs(int w) { return Z3_mk_bv_sort(C, w); }

static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "Z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
static void mkSolvers() {
  if (S) Z3_solver_dec_ref(C, S);
  S = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV")); Z3_solver_inc_ref(C, S);
  Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), gTimeout); Z3_solver_set_params(C, S, p); Z3_params_dec_ref(C, p);
}
static void mkSolverF() {
  if (SF) Z3_solver_dec_ref(C, SF);
  SF = Z3_mk_solver(C); Z3_solver_inc_ref(C, SF);
  Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), gTimeout); Z3_solver_set_params(C, SF, p); Z3_params_dec_ref(C, p);
}
void solverInit(int timeoutMs) {
  Z3_config cfg = Z3_mk_config();
  C = Z3_mk_context(cfg); Z3_set_error_handler(C, errh);
  gTimeout = timeoutMs; mkSolvers(); mkSolverF();
}
static Z3_ast b2bv(Z3_ast b) { return Z3_mk_ite(C, b, Z3_mk_unsigned_int64(C, 1, bvs(1)), Z3_mk_unsigned_int64(C, 0, bvs(1))); }
// booleans (width 1) are represented as Z3 Bool, everything else as bit-vectors
static Z3_ast tz3(Expr *e);
static Z3_ast tbv(Expr *e) { Z3_ast a = tz3(e); return e->w == 1 ? b2bv(a) : a; }
static Z3_ast tfp(Expr *e) {
  if (e->op == O_FPI) {
    Z3_ast x = Z3_mk_fpa_to_fp_signed(C, Z3_mk_fpa_rne(C), tbv(e->a[0]), Z3_mk_fpa_sort_double(C));
    if (e->k == 0) return x;
    Z3_ast sc = Z3_mk_fpa_numeral_double(C, std::ldexp(1.0, -(int)e->k), Z3_mk_fpa_sort_double(C));
    return Z3_mk_fpa_mul(C, Z3_mk_fpa_rne(C), x, sc);
  }
  Z3_ast rm = Z3_mk_fpa_rne(C); Z3_sort D = Z3_mk_fpa_sort_double(C);
  switch (e->op) {
  case O_FADD: return Z3_mk_fpa_add(C, rm, tfp(e->a[0]), tfp(e->a[1]));
  case O_FSUB: return Z3_mk_fpa_sub(C, rm, tfp(e->a[0]), tfp(e->a[1]));
  case O_FMUL: return Z3_mk_fpa_mul(C, rm, tfp(e->a[0]), tfp(e->a[1]));
  case O_FDIV: return Z3_mk_fpa_div(C, rm, tfp(e->a[0]), tfp(e->a[1]));
  case O_FNEG: return Z3_mk_fpa_neg(C, tfp(e->a[0]));
  case O_FABS: return Z3_mk_fpa_abs(C, tfp(e->a[0]));
  case O_SITOF: return Z3_mk_fpa_to_fp_signed(C, rm, tbv(e->a[0]), D);
  case O_UITOF: return Z3_mk_fpa_to_fp_unsigned(C, rm, tbv(e->a[0]), D);
  case O_FDOUBLE_OF_FLOAT: return Z3_mk_fpa_to_fp_float(C, rm, Z3_mk_fpa_to_fp_bv(C, tbv(e->a[0]), Z3_mk_fpa_sort_single(C)), D);
  default: return Z3_mk_fpa_to_fp_bv(C, tbv(e), D);
  }
}
static Z3_ast boolOf(Expr *e) { return tz3(e); }
static Z3_ast tz3(Expr *e) {
  if (e->z3) return (Z3_ast)e->z3;
  Z3_ast r = nullptr; Expr *a = e->a[0], *b = e->a[1], *c = e->a[2];
  switch (e->op) {
  case O_CONST: r = e->w == 1 ? (e->k ? Z3_mk_true(C) : Z3_mk_false(C)) : Z3_mk_unsigned_int64(C, e->k, bvs(e->w)); break;
  case O_SYM: {
    char nm[48]; snprintf(nm, 48, "s%u_%u_%d", (u32)e->k, (u32)(e->k >> 32), e->w);
    r = Z3_mk_const(C, Z3_mk_string_symbol(C, nm), bvs(e->w));
    if (e->w == 1) r = Z3_mk_eq(C, r, Z3_mk_unsigned_int64(C, 1, bvs(1)));
    break; }
  case O_ADD: r = Z3_mk_bvadd(C, tbv(a), tbv(b)); break;
  case O_MUL: r = Z3_mk_bvmul(C, tbv(a), tbv(b)); break;
  case O_UDIV: r = Z3_mk_bvudiv(C, tbv(a), tbv(b)); break;
  case O_SDIV: r = Z3_mk_bvsdiv(C, tbv(a), tbv(b)); break;
  case O_UREM: r = Z3_mk_bvurem(C, tbv(a), tbv(b)); break;
  case O_SREM: r = Z3_mk_bvsrem(C, tbv(a), tbv(b)); break;
  case O_SHL: r = Z3_mk_bvshl(C, tbv(a), tbv(b)); break;
  case O_LSHR: r = Z3_mk_bvlshr(C, tbv(a), tbv(b)); break;
  case O_ASHR: r = Z3_mk_bvashr(C, tbv(a), tbv(b)); break;
  case O_AND: if (e->w == 1) { Z3_ast x[2] = {boolOf(a), boolOf(b)}; r = Z3_mk_and(C, 2, x); } else r = Z3_mk_bvand(C, tbv(a), tbv(b)); break;
  case O_OR: if (e->w == 1) { Z3_ast x[2] = {boolOf(a), boolOf(b)}; r = Z3_mk_or(C, 2, x); } else r = Z3_mk_bvor(C, tbv(a), tbv(b)); break;
  case O_XOR: if (e->w == 1) r = b->op == O_CONST ? (b->k ? Z3_mk_not(C, boolOf(a)) : boolOf(a)) : Z3_mk_xor(C, boolOf(a), boolOf(b)); else r = Z3_mk_bvxor(C, tbv(a), tbv(b)); break;
  case O_EQ: r = a->w == 1 ? Z3_mk_iff(C, boolOf(a), boolOf(b)) : Z3_mk_eq(C, tbv(a), tbv(b)); break;
  case O_ULT: r = Z3_mk_bvult(C, tbv(a), tbv(b)); break;
  case O_ULE: r = Z3_mk_bvule(C, tbv(a), tbv(b)); break;
  case O_SLT: r = Z3_mk_bvslt(C, tbv(a), tbv(b)); break;
  case O_SLE: r = Z3_mk_bvsle(C, tbv(a), tbv(b)); break;
  case O_ITE: r = Z3_mk_ite(C, boolOf(a), tz3(b), tz3(c)); break;
  case O_ZEXT: r = Z3_mk_zero_ext(C, e->w - a->w, tbv(a)); break;
  case O_SEXT: r = Z3_mk_sign_ext(C, e->w - a->w, tbv(a)); break;
  case O_EXTRACT: r = Z3_mk_extract(C, e->k + e->w - 1, e->k, tbv(a)); if (e->w == 1) r = Z3_mk_eq(C, r, Z3_mk_unsigned_int64(C, 1, bvs(1))); break;
  case O_CONCAT: r = Z3_mk_concat(C, tbv(a), tbv(b)); break;
  case O_FEQ: r = Z3_mk_fpa_eq(C, tfp(a), tfp(b)); break;
  case O_FLT: r = Z3_mk_fpa_lt(C, tfp(a), tfp(b)); break;
  case O_FLE: r = Z3_mk_fpa_leq(C, tfp(a), tfp(b)); break;
  case O_FUNO: { Z3_ast x[2] = {Z3_mk_fpa_is_nan(C, tfp(a)), Z3_mk_fpa_is_nan(C, tfp(b))}; r = Z3_mk_or(C, 2, x); break; }
  case O_FTOSI: r = Z3_mk_fpa_to_sbv(C, Z3_mk_fpa_rtz(C), tfp(a), e->w); break;
  case O_FLOAT_OF_DOUBLE: r = Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_to_fp_float(C, Z3_mk_fpa_rne(C), tfp(a), Z3_mk_fpa_sort_single(C))); break;
  default: r = Z3_mk_fpa_to_ieee_bv(C, tfp(e)); break; // FPI and FP arithmetic used as bits
  }
  Z3_inc_ref(C, r); e->z3 = r; return r;
}

static void collectSyms(Expr *e, std::vector<Expr *> &out, std::unordered_set<Expr *> &seen) {
  if (e->op == O_CONST || !seen.insert(e).second) return;
  if (e->op == O_SYM) { out.push_back(e); return; }
  for (int i = 0; i < 3; i++) if (e->a[i]) collectSyms(e->a[i], out, seen);
}
static bool forceZ3 = getenv("SX_Z3") != nullptr, gCross = getenv("SX_CROSS") != nullptr;
static SatResult z3Solve(const std::vector<Expr *> &sl, Expr *q, std::vector<std::pair<u32, u64>> &vals, bool fp) {
  if (fp) mkSolverF(); else mkSolvers();
  Z3_solver s = fp ? SF : S;
  for (Expr *e : sl) Z3_solver_assert(C, s, boolOf(e)); Z3_solver_assert(C, s, boolOf(q));
  std::vector<Expr *> syms; std::unordered_set<Expr *> seen; for (Expr *e : sl) collectSyms(e, syms, seen); collectSyms(q, syms, seen);
  for (Expr *e : syms) if (e->uhi < maskw(e->w)) Z3_solver_assert(C, s, Z3_mk_bvule(C, tbv(e), Z3_mk_unsigned_int64(C, e->uhi, bvs(e->w))));
  Z3_lbool r = Z3_solver_check(C, s);
  if (r == Z3_L_TRUE) {
    Z3_model zm = Z3_solver_get_model(C, s); Z3_model_inc_ref(C, zm);
    for (Expr *e : syms) { Z3_ast o = nullptr; if (Z3_model_eval(C, zm, tbv(e), true, &o)) { uint64_t x = 0; Z3_get_numeral_uint64(C, o, &x); vals.push_back({(u32)e->k, x}); } }
    Z3_model_dec_ref(C, zm);
  }
  return r == Z3_L_TRUE ? R_SAT : r == Z3_L_FALSE ? R_UNSAT : R_UNKNOWN;
}

struct CacheEnt { SatResult r; std::vector<std::pair<u32, u64>> vals; };
static std::unordered_map<u64, CacheEnt> gCache;

SatResult solve(const std::vector<Expr *> &pc, Expr *q, const Model &model, Model *out) {
  if (q->op == O_CONST && !q->k) { return R_UNSAT; }
  gStats.queries++;
  // slice: constraints sharing symbols (transitively) with q
  u64 mask = q->symmask; std::vector<Expr *> sl; std::vector<char> in(pc.size(), 0);
  for (bool ch = true; ch;) { ch = false; for (size_t i = 0; i < pc.size(); i++) if (!in[i] && (pc[i]->symmask & mask)) { in[i] = 1; ch = true; mask |= pc[i]->symmask; } }
  for (size_t i = 0; i < pc.size(); i++) if (in[i]) sl.push_back(pc[i]);
  std::vector<u32> ids; for (Expr *e : sl) ids.push_back(e->id);
  std::sort(ids.begin(), ids.end()); ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
  u64 h = q->id * 0x9E3779B97F4A7C15ULL; for (u32 i : ids) { h ^= i + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 31; }
  auto it = gCache.find(h);
  if (it != gCache.end()) {
    gStats.cacheHits++;
    if (it->second.r == R_SAT && out) { *out = model; for (auto &p : it->second.vals) { if (out->v.size() <= p.first) out->v.resize(p.first + 1, 0); out->v[p.first] = p.second; } out->epoch = newEpoch(); }
    return it->second.r;
  }
  auto t0 = std::chrono::steady_clock::now();
  bool fp = q->flag & F_HASFP; for (Expr *e : sl) fp |= e->flag & F_HASFP;
  CacheEnt ent; bool sup = !forceZ3 && satSupported(q); for (size_t i = 0; sup && i < sl.size(); i++) sup = satSupported(sl[i]);
  if (sup) {
    std::vector<Expr *> syms, as = sl; as.push_back(q); std::unordered_set<Expr *> seen; for (Expr *e : as) collectSyms(e, syms, seen);
    ent.r = satSolve(as, syms, ent.vals, gTimeout);
    if (gCross && ent.r != R_UNKNOWN) { std::vector<std::pair<u32, u64>> v2; SatResult r2 = z3Solve(sl, q, v2, false); if (r2 != R_UNKNOWN && r2 != ent.r) { fprintf(stderr, "solver disagreement\n"); abort(); } gStats.z3++; }
  } else { ent.r = z3Solve(sl, q, ent.vals, fp); gStats.z3++; }
  if (ent.r == R_SAT && (gCross || !sup)) { // the model must satisfy the query
    Model m2 = model; for (auto &p : ent.vals) { if (m2.v.size() <= p.first) m2.v.resize(p.first + 1, 0); m2.v[p.first] = p.second; } m2.epoch = newEpoch();
    bool ok = evalExpr(q, m2); for (Expr *e : sl) ok = ok && evalExpr(e, m2); if (!ok) { ent.r = R_UNKNOWN; ent.vals.clear(); if (sup) { fprintf(stderr, "bad model\n"); abort(); } }
  }
  if (ent.r == R_SAT && out) { *out = model; for (auto &p : ent.vals) { if (out->v.size() <= p.first) out->v.resize(p.first + 1, 0); out->v[p.first] = p.second; } out->epoch = newEpoch(); }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); gStats.time += dt;
  static const char *dumpDir = getenv("SX_DUMP"); static double dumpMin = getenv("SX_DUMPMIN") ? atof(getenv("SX_DUMPMIN")) : 1.0; static int dumpN = 0;
  if (dumpDir && dt > dumpMin) {
    Z3_solver d = Z3_mk_solver(C); Z3_solver_inc_ref(C, d); for (Expr *e : sl) Z3_solver_assert(C, d, boolOf(e)); Z3_solver_assert(C, d, boolOf(q));
    std::vector<Expr *> syms; std::unordered_set<Expr *> seen; for (Expr *e : sl) collectSyms(e, syms, seen); collectSyms(q, syms, seen);
    for (Expr *e : syms) if (e->uhi < maskw(e->w)) Z3_solver_assert(C, d, Z3_mk_bvule(C, tbv(e), Z3_mk_unsigned_int64(C, e->uhi, bvs(e->w))));
    std::string fn = std::string(dumpDir) + "/q" + std::to_string(dumpN++) + ".smt2"; FILE *o = fopen(fn.c_str(), "w"); if (o) { fprintf(o, "; %.3f s result %d pc %zu\n%s(check-sat)\n", dt, (int)ent.r, sl.size(), Z3_solver_to_string(C, d)); fclose(o); } Z3_solver_dec_ref(C, d);
  }
  if (ent.r == R_SAT) gStats.sat++; else if (ent.r == R_UNSAT) gStats.unsat++; else gStats.unknown++;
  if (gCache.size() > 2000000) gCache.clear();
  gCache[h] = ent;
  return ent.r;
}
