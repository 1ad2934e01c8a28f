// P10: switching the index base is reversible and changes nothing else
#include "sx.h"
#include "CSR.hpp"
using namespace SpMP;
extern "C" void sx_main(void) {
  int T = sx_param("T", 2), base = sx_param("base", 0), nz = sx_param("nnz", 4), diag = sx_param("diag", 0), ext = sx_param("ext", 0), novals = sx_param("novals", 0);
  sx_threads(T);
  int m = sx_dim("m", diag, sx_param("m", 4)), n = diag ? m : sx_dim("n", 1, sx_param("n", 3));
  SxMat A = sx_matrix("a", m, n, base, nz, novals ? 0 : SX_BITS);
  int k = A.nnz; SxSnap S = sx_snap(A);
  CSR a(m, n, A.rowptr, A.colidx, A.values);
  int dp[40], ex[40]; double dg[40], ig[40];
  if (diag) { a.diagptr = sx_ints(m); a.diag = sx_dbls(m); a.idiag = sx_dbls(m); for (int i = 0; i < m; i++) { a.diagptr[i] = dp[i] = base + sx_int(sx_nm("d", i), 0, 9); a.diag[i] = dg[i] = sx_bits(sx_nm("dg", i)); a.idiag[i] = ig[i] = sx_bits(sx_nm("ig", i)); } }
  if (ext) { a.extptr = sx_ints(m); for (int i = 0; i < m; i++) { ex[i] = sx_int(sx_nm("e", i), 0, 9); sx_assume((ex[i] + base >= A.rowptr[i]) & (ex[i] + base <= A.rowptr[i + 1])); a.extptr[i] = ex[i] += base; } }
  int steps = sx_param("steps", 3); int cur = base;
  for (int q = 0; q < steps; q++) {
    int to = sx_pick(sx_nm("to", q), 0, 1);
    if (to) a.make1BasedIndexing(); else a.make0BasedIndexing();
    cur = to; int d = cur - base;
    sx_assert(a.getBase() == cur, "getBase reports the base"); sx_assert(a.getNnz() == k, "getNnz is unchanged"); sx_assert(a.m == m && a.n == n, "dimensions are unchanged");
    sx_assert(a.rowptr == A.rowptr && a.colidx == A.colidx && a.values == A.values, "arrays stay in place");
    for (int i = 0; i <= m; i++) sx_assert(a.rowptr[i] == S.rowptr[i] + d, "rowptr shifted by exactly one");
    for (int i = 0; i < k; i++) { sx_assert(a.colidx[i] == S.colidx[i] + d, "colidx shifted by exactly one"); if (!novals) sx_assert(sx_same(a.values[i], S.values[i]), "values untouched"); }
    if (diag) for (int i = 0; i < m; i++) { sx_assert(a.diagptr[i] == dp[i] + d, "diagptr shifted by exactly one"); sx_assert(sx_same(a.diag[i], dg[i]) & sx_same(a.idiag[i], ig[i]), "diag and idiag untouched"); }
    if (ext) for (int i = 0; i < m; i++) sx_assert(a.extptr[i] == ex[i] + d, "extptr shifted by exactly one");
  }
  sx_obs_arr("rp", a.rowptr, m + 1); sx_obs_arr("ci", a.colidx, k);
  sx_reach("checked");
}
