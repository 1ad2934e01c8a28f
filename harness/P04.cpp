// P04: permutation helpers, vector reordering
#include "sx.h"
#include "Utils.hpp"
#include "MemoryPool.hpp"
using namespace SpMP;
extern "C" void sx_main(void) {
  int T = sx_param("T", 2), op = sx_param("op", 0), nmax = sx_param("n", 4);
  sx_threads(T);
  int n = sx_dim("n", op == 0 ? 1 : 0, nmax);
  int *p = sx_ints(n), *q = sx_ints(n);
  if (op <= 1) {                        // predicates on arbitrary arrays
    for (int i = 0; i < n; i++) { p[i] = sx_int(sx_nm("p", i), op == 0 ? INT_MIN : -2, op == 0 ? INT_MAX : n + 1); if (op == 1) q[i] = sx_int(sx_nm("q", i), -2, n + 1); }
    int spec = sx_isperm(p, n);
    if (op == 0) { int r = isPerm(p, n); sx_assert(r == spec, "isPerm is true exactly for permutations"); sx_observe_i("r", r); }
    else { int inv = spec; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) inv &= (p[i] != j) | (q[j] == i); int r = isInversePerm(p, q, n); sx_assert(r == inv, "isInversePerm is true exactly for inverse permutations"); sx_observe_i("r", r); }
    sx_reach("checked"); return;
  }
  sx_perm("p", p, n);
  double *v = sx_dbls(n), *o = sx_dbls(n); int *vi = sx_ints(n), *oi = sx_ints(n);
  for (int i = 0; i < n; i++) { v[i] = sx_bits(sx_nm("v", i)); vi[i] = sx_int(sx_nm("w", i), INT_MIN, INT_MAX); }
  getInversePerm(q, p, n);
  int ok = 1; for (int i = 0; i < n; i++) { ok &= (q[i] >= 0) & (q[i] < n); for (int j = 0; j < n; j++) ok &= (q[i] != j) | (p[j] == i); }
  sx_assert(ok, "getInversePerm inverts");
  sx_assert(isPerm(p, n) && isPerm(q, n) && isInversePerm(p, q, n), "predicates accept inverse permutations");
  int null = sx_param("null", 0); const int *P = null ? 0 : p, *Q = null ? 0 : q;
#define CHK(dst, src, same, msg) do { int k = 1; for (int i = 0; i < n; i++) { if (null) k &= same(dst[i], src[i]); else { for (int j = 0; j < n; j++) k &= (p[i] != j) | same(dst[j], src[i]); } } sx_assert(k, msg); } while (0)
#define EQ(a, b) ((a) == (b))
  if (op == 2) {
    reorderVectorOutOfPlace(o, v, P, n); CHK(o, v, sx_same, "reorderVectorOutOfPlace(double)");
    reorderVectorOutOfPlace(oi, vi, P, n); CHK(oi, vi, EQ, "reorderVectorOutOfPlace(int)");
    double *g = getReorderVector(v, P, n); CHK(g, v, sx_same, "getReorderVector"); FREE(g);
  } else if (op == 3) {
    reorderVectorOutOfPlaceWithInversePerm(o, v, Q, n); CHK(o, v, sx_same, "reorderVectorOutOfPlaceWithInversePerm(double)");
    reorderVectorOutOfPlaceWithInversePerm(oi, vi, Q, n); CHK(oi, vi, EQ, "reorderVectorOutOfPlaceWithInversePerm(int)");
    double *g = getReorderVectorWithInversePerm(v, Q, n); CHK(g, v, sx_same, "getReorderVectorWithInversePerm"); FREE(g);
  } else {
    double *t = sx_dbls(n), *w = sx_dbls(n); for (int i = 0; i < n; i++) w[i] = v[i];
    reorderVector(w, t, P, n); CHK(w, v, sx_same, "reorderVector with buffer");
    reorderVectorWithInversePerm(w, P, n);
    int k = 1; for (int i = 0; i < n; i++) k &= sx_same(w[i], v[i]); sx_assert(k, "reordering by perm and back restores the vector");
    reorderVector(w, P, n); CHK(w, v, sx_same, "reorderVector");
    reorderVector(w, Q, n);
    k = 1; for (int i = 0; i < n; i++) k &= sx_same(w[i], v[i]); sx_assert(k, "reordering by the inverse restores the vector");
    reorderVectorWithInversePerm(w, t, Q, n); CHK(w, v, sx_same, "reorderVectorWithInversePerm with buffer");
    for (int i = 0; i < n; i++) sx_observe_d("w", w[i]);
  }
  sx_obs_arr("q", q, n);
  sx_reach("checked"); if (n > 2) sx_reach("n>2");
}
