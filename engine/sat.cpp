// Bit-blasting of bit-vector queries into an incremental SAT solver (MiniSat).
// Gates are hash-consed; a query is a set of assumption literals, and only the gates in its cone are decided.
#include "expr.hpp"
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstring>
#include <unordered_set>
#include <minisat/core/Solver.h>
using namespace Minisat;

namespace {
typedef u32 L; // literal: 2*var + negated; var 0 is the constant true
enum { G_IN, G_AND, G_XOR, G_ITE, G_MAJ };
struct Gate { u8 t; L a, b, c; u32 mark; };
struct Key { u64 x, y; bool operator==(const Key &o) const { return x == o.x && y == o.y; } };
struct KH { size_t operator()(const Key &k) const { u64 h = k.x * 0x9E3779B97F4A7C15ULL ^ (k.y + 0x7F4A7C15ULL) * 0xC2B2AE3D27D4EB4FULL; return h ^ (h >> 31); } };
Solver *S; std::vector<Gate> G; std::unordered_map<Key, L, KH> H; std::unordered_map<Expr *, std::vector<L>> B; u32 markEpoch; std::vector<u32> decided;
const L T = 0, F = 1;
inline L neg(L a) { return a ^ 1; }
inline Lit ml(L a) { return mkLit(a >> 1, a & 1); }
L newVar(u8 t, L a, L b, L c) { Var v = S->newVar(l_Undef, false); (void)v; G.push_back({t, a, b, c, 0}); return 2 * (L)(G.size() - 1); }
void reset() { delete S; S = new Solver; S->verbosity = 0; G.clear(); H.clear(); B.clear(); decided.clear(); newVar(G_IN, 0, 0, 0); S->addClause(ml(T)); }
L gate(u8 t, L a, L b, L c) { Key k{((u64)a << 32) | b, ((u64)c << 8) | t}; auto it = H.find(k); if (it != H.end()) return it->second; L o = newVar(t, a, b, c);
  Lit x = ml(a), y = ml(b), z = ml(o), w = ml(c);
  if (t == G_AND) { S->addClause(~z, x); S->addClause(~z, y); S->addClause(z, ~x, ~y); }
  else if (t == G_XOR) { S->addClause(~z, x, y); S->addClause(~z, ~x, ~y); S->addClause(z, ~x, y); S->addClause(z, x, ~y); }
  else if (t == G_ITE) { S->addClause(~x, ~y, z); S->addClause(~x, y, ~z); S->addClause(x, ~w, z); S->addClause(x, w, ~z); S->addClause(~y, ~w, z); S->addClause(y, w, ~z); }
  else { S->addClause(~x, ~y, z); S->addClause(~x, ~w, z); S->addClause(~y, ~w, z); S->addClause(x, y, ~z); S->addClause(x, w, ~z); S->addClause(y, w, ~z); }
  H[k] = o; return o; }
L And(L a, L b) { if (a == F || b == F || a == neg(b)) return F; if (a == T || a == b) return b; if (b == T) return a; if (a > b) std::swap(a, b); return gate(G_AND, a, b, 0); }
L Or(L a, L b) { return neg(And(neg(a), neg(b))); }
L Xor(L a, L b) { if (a == b) return F; if (a == neg(b)) return T; if (a < 2) return a == T ? neg(b) : b; if (b < 2) return b == T ? neg(a) : a; L s = (a ^ b) & 1; a &= ~1u; b &= ~1u; if (a > b) std::swap(a, b); return gate(G_XOR, a, b, 0) ^ s; }
L Ite(L c, L a, L b) { if (c == T) return a; if (c == F) return b; if (a == b) return a; if (a == neg(b)) return neg(Xor(c, a)); if (c & 1) { c ^= 1; std::swap(a, b); }
  if (a == T || a == c) return Or(c, b); if (a == F || a == neg(c)) return And(neg(c), b); if (b == T || b == neg(c)) return Or(neg(c), a); if (b == F || b == c) return And(c, a);
  L s = a & 1; if (s) { a ^= 1; b ^= 1; } return gate(G_ITE, c, a, b) ^ s; }
L Maj(L a, L b, L c) { if (a == b) return a; if (a == c) return a; if (b == c) return b; if (a == neg(b)) return c; if (a == neg(c)) return b; if (b == neg(c)) return a;
  if (a < 2) return a == T ? Or(b, c) : And(b, c); if (b < 2) return b == T ? Or(a, c) : And(a, c); if (c < 2) return c == T ? Or(a, b) : And(a, b);
  if (a > b) std::swap(a, b); if (b > c) std::swap(b, c); if (a > b) std::swap(a, b); return gate(G_MAJ, a, b, c); }
typedef std::vector<L> V;
V cst(u64 k, int w) { V r(w); for (int i = 0; i < w; i++) r[i] = (k >> i) & 1 ? T : F; return r; }
V add(const V &a, const V &b, L c = F) { V r(a.size()); for (size_t i = 0; i < a.size(); i++) { r[i] = Xor(Xor(a[i], b[i]), c); if (i + 1 < a.size()) c = Maj(a[i], b[i], c); } return r; }
V inv(const V &a) { V r(a); for (L &x : r) x = neg(x); return r; }
V negv(const V &a) { return add(inv(a), cst(0, a.size()), T); }
V ite(L c, const V &a, const V &b) { V r(a.size()); for (size_t i = 0; i < a.size(); i++) r[i] = Ite(c, a[i], b[i]); return r; }
L tree(V x, bool conj) { if (x.empty()) return conj ? T : F; while (x.size() > 1) { V y; for (size_t i = 0; i + 1 < x.size(); i += 2) y.push_back(conj ? And(x[i], x[i + 1]) : Or(x[i], x[i + 1])); if (x.size() & 1) y.push_back(x.back()); x.swap(y); } return x[0]; }
L eq(const V &a, const V &b) { V x; for (size_t i = 0; i < a.size(); i++) { L l = neg(Xor(a[i], b[i])); if (l == F) return F; if (l != T) x.push_back(l); } std::sort(x.begin(), x.end()); x.erase(std::unique(x.begin(), x.end()), x.end()); return tree(x, true); }
L less(const V &a, const V &b, bool sg, bool orEq) { L r = orEq ? T : F; for (size_t i = 0; i < a.size(); i++) { bool top = sg && i + 1 == a.size(); r = Ite(Xor(a[i], b[i]), top ? a[i] : b[i], r); } return r; }
V ext(const V &a, int w, bool sg) { V r(a); L f = sg ? a.back() : F; while ((int)r.size() < w) r.push_back(f); r.resize(w); return r; }
V mulc(const V &a, u64 k, int w) { V r = cst(0, w); bool any = false; k &= maskw(w); // non-adjacent form of the constant
  for (int i = 0; i < w && k; i++, k >>= 1) { if (!(k & 1)) continue; bool ng = (k & 3) == 3; k = ng ? k + 1 : k - 1; V p(w, F); for (int j = 0; i + j < w && j < (int)a.size(); j++) p[i + j] = a[j]; if (!any) { r = ng ? negv(p) : p; any = true; } else r = ng ? add(r, inv(p), T) : add(r, p); if (w == 64 && !k && ng) break; }
  return r; }
V mul(const V &a0, const V &b0) { V a = a0, b = b0; int w = a.size(); int ca = 0, cb = 0; for (L x : a) ca += x > 1; for (L x : b) cb += x > 1; if (cb > ca) std::swap(a, b);
  V r = cst(0, w); for (int i = 0; i < w; i++) { if (b[i] == F) continue; V p(w, F); for (int j = 0; i + j < w; j++) p[i + j] = And(b[i], a[j]); r = add(r, p); } return r; }
void udivrem(const V &a, const V &b, V &q, V &r) { int w = a.size(); q.assign(w, F); V R(w + 1, F), bb = ext(b, w + 1, false); for (int i = w - 1; i >= 0; i--) { for (int j = w; j > 0; j--) R[j] = R[j - 1]; R[0] = a[i]; L ge = neg(less(R, bb, false, false)); V d = add(R, inv(bb), T); R = ite(ge, d, R); q[i] = ge; } r = V(R.begin(), R.begin() + w); }
V shift(const V &a, const V &s, int kind) { int w = a.size(); L fill = kind == 2 ? a[w - 1] : F; V r = a; L big = F; for (int k = 0; k < w; k++) { if ((1ULL << std::min(k, 40)) >= (u64)w) { if (k < (int)s.size()) big = Or(big, s[k]); continue; } int d = 1 << k; V t(w); for (int i = 0; i < w; i++) { if (kind == 0) t[i] = i - d >= 0 ? r[i - d] : F; else t[i] = i + d < w ? r[i + d] : fill; } r = ite(s[k], t, r); }
  return ite(big, V(w, fill), r); }
int uw(Expr *e) { int n = e->uhi ? 64 - __builtin_clzll(e->uhi) : 1; return std::max(1, std::min(n, (int)e->w)); }
int sw(Expr *e) { int n = 1; while (n < e->w && !(e->slo >= -(i64)(1ULL << (n - 1)) && e->shi <= (i64)((1ULL << (n - 1)) - 1))) n++; return n; }

bool bad;
const V &bl(Expr *e);
L isnan(const V &a) { V x(a.begin() + 52, a.begin() + 63); V y(a.begin(), a.begin() + 52); return And(tree(x, true), tree(y, false)); }
L iszero(const V &a) { V y(a.begin(), a.begin() + 63); return neg(tree(y, false)); }
V clz(const V &a) { int w = a.size(); V r = cst(w, w); for (int i = 0; i < w; i++) r = ite(a[i], cst(w - 1 - i, w), r); return r; }
V fpi(const V &x, int k) { // double bits of the signed 32-bit x times 2^-k
  L s = x[31]; V m = ite(s, negv(x), x); V lz = clz(m); V sh = shift(m, lz, 0); V r(64, F); for (int i = 0; i < 31; i++) r[52 - 31 + i] = sh[i]; V ex = add(cst(1023 + 31 - k, 11), inv(V(lz.begin(), lz.begin() + 11)), T); for (int i = 0; i < 11; i++) r[52 + i] = ex[i]; r[63] = s; L z = neg(tree(x, false)); return ite(z, cst(0, 64), r); }
V compute(Expr *e) {
  Expr *a = e->a[0], *b = e->a[1], *c = e->a[2]; int w = e->w;
  switch (e->op) {
  case O_CONST: return cst(e->k, w);
  case O_SYM: { V r(w); int n = uw(e); for (int i = 0; i < w; i++) r[i] = i < n ? newVar(G_IN, 0, 0, 0) : F; if (e->uhi < maskw(w) && e->uhi != maskw(n)) S->addClause(ml(less(V(r.begin(), r.begin() + n), cst(e->uhi, n), false, true))); return r; }
  case O_ADD: { Expr *P = a, *N = nullptr; if (b->op == O_MUL && b->a[1]->op == O_CONST && b->a[1]->k == maskw(w)) { P = a; N = b->a[0]; } else if (a->op == O_MUL && a->a[1]->op == O_CONST && a->a[1]->k == maskw(w)) { P = b; N = a->a[0]; }
      if (N) { int n = std::min(std::max(sw(P), sw(N)) + 1, w); V x(bl(P).begin(), bl(P).begin() + n), y(bl(N).begin(), bl(N).begin() + n); V r = add(x, inv(y), T); return n < w ? ext(r, w, true) : r; }
      int n = std::min(uw(a) > uw(b) ? uw(a) + 1 : uw(b) + 1, w); if (n < w) { V r = add(V(bl(a).begin(), bl(a).begin() + n), V(bl(b).begin(), bl(b).begin() + n)); return ext(r, w, false); }
      n = std::min(std::max(sw(a), sw(b)) + 1, w); if (n < w) { V r = add(V(bl(a).begin(), bl(a).begin() + n), V(bl(b).begin(), bl(b).begin() + n)); return ext(r, w, true); } return add(bl(a), bl(b)); }
  case O_MUL: if (a->op == O_CONST) std::swap(a, b); if (b->op == O_CONST) { int n = std::min(w, sw(a) + sw(b)); return ext(mulc(V(bl(a).begin(), bl(a).begin() + n), b->k, n), w, true); }
    { int n = uw(a) + uw(b); if (n < w) { V x(bl(a).begin(), bl(a).begin() + n), y(bl(b).begin(), bl(b).begin() + n); return ext(mul(x, y), w, false); }
      n = sw(a) + sw(b); if (n < w) { V x(bl(a).begin(), bl(a).begin() + n), y(bl(b).begin(), bl(b).begin() + n); return ext(mul(x, y), w, true); }
      if (b->op == O_CONST && b->k == maskw(w)) return negv(bl(a)); return mul(bl(a), bl(b)); }
  case O_UDIV: case O_UREM: { int n = std::max(uw(a), uw(b)); V q, r; udivrem(V(bl(a).begin(), bl(a).begin() + n), V(bl(b).begin(), bl(b).begin() + n), q, r); return ext(e->op == O_UDIV ? q : r, w, false); }
  case O_SDIV: case O_SREM: { V x = bl(a), y = bl(b); L sx = x[w - 1], sy = y[w - 1]; V ax = ite(sx, negv(x), x), ay = ite(sy, negv(y), y); V q, r; udivrem(ax, ay, q, r); return e->op == O_SDIV ? ite(Xor(sx, sy), negv(q), q) : ite(sx, negv(r), r); }
  case O_AND: { V r(w); const V x = bl(a), y = bl(b); for (int i = 0; i < w; i++) r[i] = And(x[i], y[i]); return r; }
  case O_OR: { V r(w); const V x = bl(a), y = bl(b); for (int i = 0; i < w; i++) r[i] = Or(x[i], y[i]); return r; }
  case O_XOR: { V r(w); const V x = bl(a), y = bl(b); for (int i = 0; i < w; i++) r[i] = Xor(x[i], y[i]); return r; }
  case O_SHL: return shift(bl(a), bl(b), 0); case O_LSHR: return shift(bl(a), bl(b), 1); case O_ASHR: return shift(bl(a), bl(b), 2);
  case O_EQ: return V{eq(bl(a), bl(b))};
  case O_ULT: return V{less(bl(a), bl(b), false, false)}; case O_ULE: return V{less(bl(a), bl(b), false, true)};
  case O_SLT: return V{less(bl(a), bl(b), true, false)}; case O_SLE: return V{less(bl(a), bl(b), true, true)};
  case O_ITE: { L k = bl(a)[0]; if (k == T) return bl(b); if (k == F) return bl(c); const V x = bl(b), y = bl(c); return ite(k, x, y); }
  case O_ZEXT: return ext(bl(a), w, false); case O_SEXT: return ext(bl(a), w, true);
  case O_EXTRACT: { const V &x = bl(a); return V(x.begin() + e->k, x.begin() + e->k + w); }
  case O_CONCAT: { V r = bl(b); const V &h = bl(a); r.insert(r.end(), h.begin(), h.end()); return r; }
  case O_FPI: return fpi(bl(a), (int)e->k);
  case O_FNEG: { V r = bl(a); r[63] = neg(r[63]); return r; }
  case O_FABS: { V r = bl(a); r[63] = F; return r; }
  case O_FEQ: { const V x = bl(a), y = bl(b); return V{And(And(neg(isnan(x)), neg(isnan(y))), Or(eq(x, y), And(iszero(x), iszero(y))))}; }
  case O_FLT: case O_FLE: { const V x = bl(a), y = bl(b); L ok = And(neg(isnan(x)), neg(isnan(y))), zz = And(iszero(x), iszero(y)); V mx(x.begin(), x.begin() + 63), my(y.begin(), y.begin() + 63); L lt = Ite(x[63], Ite(y[63], less(my, mx, false, false), T), Ite(y[63], F, less(mx, my, false, false))); lt = And(lt, neg(zz)); if (e->op == O_FLE) lt = Or(lt, Or(eq(x, y), zz)); return V{And(ok, lt)}; }
  case O_FUNO: { const V x = bl(a), y = bl(b); return V{Or(isnan(x), isnan(y))}; }
  case O_CTLZ: return clz(bl(a));
  case O_CTTZ: { const V x = bl(a); V r = cst(w, w); for (int i = w - 1; i >= 0; i--) r = ite(x[i], cst(i, w), r); return r; }
  case O_CTPOP: { const V x = bl(a); V r = cst(0, w); for (int i = 0; i < w; i++) { V o(w, F); o[0] = x[i]; r = add(r, o); } return r; }
  case O_SITOF: if (a->slo >= INT32_MIN && a->shi <= INT32_MAX) { V x = bl(a); x = ext(x, 32, true); return fpi(x, 0); } bad = true; return V(w, F);
  default: bad = true; return V(w, F);
  }
}
const V &bl(Expr *e) { auto it = B.find(e); if (it != B.end()) return it->second; V r = compute(e); return B[e] = std::move(r); }
bool supported(Expr *e, std::unordered_map<Expr *, bool> &memo) {
  if (e->op == O_FADD || e->op == O_FSUB || e->op == O_FMUL || e->op == O_FDIV || e->op == O_FTOSI || e->op == O_UITOF || e->op == O_FDOUBLE_OF_FLOAT || e->op == O_FLOAT_OF_DOUBLE) return false;
  if (e->op == O_SITOF && !(e->a[0]->slo >= INT32_MIN && e->a[0]->shi <= INT32_MAX)) return false;
  if (e->op == O_CONST || e->op == O_SYM) return true;
  auto it = memo.find(e); if (it != memo.end()) return it->second; bool r = true; for (int i = 0; i < 3 && r; i++) if (e->a[i]) r = supported(e->a[i], memo); return memo[e] = r; }
std::unordered_map<Expr *, bool> supMemo;
} // namespace

bool satSupported(Expr *e) { if (supMemo.size() > 4000000) supMemo.clear(); return supported(e, supMemo); }
// conjunction of the (boolean) expressions
SatResult satSolve(const std::vector<Expr *> &as, const std::vector<Expr *> &syms, std::vector<std::pair<u32, u64>> &vals, int timeoutMs) {
  if (!S || G.size() > 400000) reset();
  vec<Lit> q; std::vector<L> roots;
  for (Expr *e : as) { L l = bl(e)[0]; if (l == F) return R_UNSAT; if (l == T) continue; q.push(ml(l)); roots.push_back(l); }
  for (Expr *e : syms) bl(e);
  // cone
  for (u32 v : decided) S->setDecisionVar(v, false);
  decided.clear(); markEpoch++; std::vector<u32> st; for (L l : roots) st.push_back(l >> 1);
  while (!st.empty()) { u32 v = st.back(); st.pop_back(); Gate &g = G[v]; if (g.mark == markEpoch) continue; g.mark = markEpoch; if (!v) continue; S->setDecisionVar(v, true); decided.push_back(v); if (g.t == G_IN) continue; st.push_back(g.a >> 1); st.push_back(g.b >> 1); if (g.t >= G_ITE) st.push_back(g.c >> 1); }
  for (Expr *e : syms) for (L l : bl(e)) if (l > 1 && G[l >> 1].mark != markEpoch) { G[l >> 1].mark = markEpoch; S->setDecisionVar(l >> 1, true); decided.push_back(l >> 1); }
  auto t0 = std::chrono::steady_clock::now(); lbool r; 
  for (;;) { S->setConfBudget(20000); r = S->solveLimited(q); if (r != l_Undef) break; if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() * 1000 > timeoutMs) { reset(); return R_UNKNOWN; } }
  if (r == l_False) { if (!S->okay()) { fprintf(stderr, "SAT solver state inconsistent\n"); abort(); } return R_UNSAT; }
  for (Expr *e : syms) { const V &x = bl(e); u64 v = 0; for (size_t i = 0; i < x.size(); i++) { bool bit; if (x[i] < 2) bit = x[i] == T; else { lbool m = S->model[x[i] >> 1]; bit = (m == l_True) != (bool)(x[i] & 1); if (m == l_Undef) bit = x[i] & 1; } if (bit) v |= 1ULL << i; } vals.push_back({(u32)e->k, v}); }
  return R_SAT;
}
