// P17: splitLU separates the strictly lower and upper parts
#include "sx.h"
#include "CSR.hpp"
using namespace SpMP;
extern "C" void sx_main(void) {
  int T = sx_param("T", 2), base = sx_param("base", 0), nz = sx_param("nnz", 5), novals = sx_param("novals", 0), diag = sx_param("diag", 1), ext = sx_param("ext", 0);
  sx_threads(T);
  int m = sx_dim("m", diag && !ext ? 0 : 1, sx_param("m", 3)), n = ext ? m + 1 : m;
  SxMat A = sx_matrix("a", m, n, base, nz, SX_DISTINCT | (novals ? 0 : SX_BITS) | (diag ? SX_DIAG : 0)); SxSnap S = sx_snap(A); int k = A.nnz;
  CSR a(m, n, A.rowptr, A.colidx, A.values); int ends[40]; for (int i = 0; i < m; i++) ends[i] = A.rowptr[i + 1];
  if (ext) { a.extptr = sx_ints(m); for (int i = 0; i < m; i++) { int e = A.rowptr[i]; for (int j = A.rowptr[i] - base; j < A.rowptr[i + 1] - base; j++) { int loc = A.colidx[j] < m + base; if (j > A.rowptr[i] - base) sx_assume(!loc | (A.colidx[j - 1] < m + base)); e += loc; } a.extptr[i] = ends[i] = sx_concretize(e); } }
  double ig[40]; if (diag) { a.idiag = sx_dbls(m); for (int i = 0; i < m; i++) a.idiag[i] = ig[i] = sx_bits(sx_nm("ig", i)); }
  CSR L, U; splitLU(a, &L, &U);
  sx_assert(sx_unchanged(S), "the source is unchanged"); if (ext) for (int i = 0; i < m; i++) sx_assert(a.extptr[i] == ends[i], "the source's extptr is unchanged");
  sx_assert(L.m == m && U.m == m && L.n == n && U.n == n, "dimensions");
  sx_assert(L.rowptr[0] == base && U.rowptr[0] == base, "both parts are in the source's base");
  sx_assert((L.values != 0) == !novals && (U.values != 0) == !novals, "values are present iff the source has them");
  int ln = 0, un = 0;
  for (int i = 0; i < m; i++) {
    int l = 0, u = 0, x = 0;
    for (int j = S.rowptr[i] - base; j < S.rowptr[i + 1] - base; j++) {
      int up = sx_concretize(S.colidx[j] < i + base ? 0 : S.colidx[j] > i + base ? 2 : 1);
      if (up == 1) continue;
      CSR &R = up ? U : L; int p = up ? un + u : ln + l;
      sx_assert(R.rowptr[i] - base == (up ? un : ln), "rows start where the previous one ends"); 
      sx_assert(R.colidx[p] == S.colidx[j] && (novals || sx_same(R.values[p], S.values[j])), "each part lists its entries in the source's order");
      if (up) { u++; x += j >= ends[i] - base; } else l++;
    }
    ln += l; un += u; sx_assert(L.rowptr[i + 1] - base == ln && U.rowptr[i + 1] - base == un, "row lengths");
    if (ext) sx_assert(U.extptr != 0 && U.extptr[i] == base + un - x, "extptr of the upper part");
    if (diag) sx_assert(sx_same(L.idiag[i], ig[i]) && sx_same(U.idiag[i], ig[i]), "idiag is copied");
  }
  sx_assert(k - ln - un <= m, "only diagonal entries are left out");
  sx_obs_arr("l", L.rowptr, m + 1); sx_obs_arr("u", U.rowptr, m + 1); sx_obs_arr("lc", L.colidx, ln); sx_obs_arr("uc", U.colidx, un);
  sx_reach("checked"); if (k >= 2) sx_reach("nnz>=2");
}
