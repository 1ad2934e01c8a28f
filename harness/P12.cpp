// P12: structural queries answer what they say
#include "sx.h"
#include "CSR.hpp"
using namespace SpMP;
extern "C" void sx_main(void) {
  // op 0 isSymmetric, 1 hasZeroDiag, 2 bandwidth and degree, 3 average width, 4 equals
  int T = sx_param("T", 2), base = sx_param("base", 0), op = sx_param("op", 0), nz = sx_param("nnz", 4), novals = sx_param("novals", 0), cv = sx_param("cv", 0), pr = sx_param("pr", 0), rect = sx_param("rect", 0), ext = sx_param("ext", 0);
  sx_threads(T);
  int m = sx_dim("m", op == 3 || op == 2 ? 1 : 0, sx_param("m", 3)), n = rect || ext ? sx_dim("n", 1, sx_param("n", 4)) : m;
  if (ext) sx_assume(n >= m); if (n == 0 && m > 0) return;
  SxMat A = sx_matrix("a", m, n, base, n > 0 ? nz : 0, SX_DISTINCT | (novals ? 0 : op == 4 ? SX_BITS : SX_VALS));
  int k = A.nnz; SxSnap S = sx_snap(A);
  if (op == 3) for (int i = 0; i < k; i++) sx_concretize(A.colidx[i]);
  CSR a(m, n, A.rowptr, A.colidx, A.values);
  int ends[40]; for (int i = 0; i < m; i++) ends[i] = A.rowptr[i + 1];
  if (ext) { a.extptr = sx_ints(m); for (int i = 0; i < m; i++) { int e = A.rowptr[i]; for (int j = A.rowptr[i] - base; j < A.rowptr[i + 1] - base; j++) { int loc = A.colidx[j] < m + base; if (j > A.rowptr[i] - base) sx_assume(!loc | (A.colidx[j - 1] < m + base)); e += loc; } a.extptr[i] = ends[i] = sx_concretize(e); } }
  if (op == 0) {
    int want = (m == n) | ext;
    for (int i = 0; i < m; i++) for (int j = A.rowptr[i] - base; j < ends[i] - base; j++) { int c = A.colidx[j], hit = (c == i + base) | (c >= m + base);
      for (int r = 0; r < m; r++) for (int p = A.rowptr[r] - base; p < ends[r] - base; p++) hit |= (c == r + base) & (A.colidx[p] == i + base) & (cv && !novals ? A.values[p] == A.values[j] : 1);
      want &= hit; }
    bool got = a.isSymmetric(cv, pr);
    sx_assert(got == (want != 0), "isSymmetric is true exactly for symmetric matrices"); sx_observe_i("sym", got);
    if (got) sx_reach("true"); else sx_reach("false");
  } else if (op == 1) {
    int want = 0;
    for (int i = 0; i < m; i++) { int has = 0; for (int j = A.rowptr[i] - base; j < A.rowptr[i + 1] - base; j++) has |= (A.colidx[j] == i + base) & (novals ? 1 : A.values[j] != 0); want |= !has; }
    bool got = a.hasZeroDiag(); sx_assert(got == (want != 0), "hasZeroDiag is true exactly when a row has no non-zero diagonal"); sx_observe_i("hz", got);
    if (got) sx_reach("true"); else sx_reach("false");
  } else if (op == 2) {
    int bw = INT_MIN, dg = 0; for (int i = 0; i < m; i++) { int l = A.rowptr[i + 1] - A.rowptr[i]; dg = l > dg ? l : dg; for (int j = A.rowptr[i] - base; j < A.rowptr[i + 1] - base; j++) { int d = A.colidx[j] - base - i; d = d < 0 ? -d : d; bw = d > bw ? d : bw; } }
    if (k > 0) { int g = a.getBandwidth(); sx_assert(g == bw, "getBandwidth is the largest |i-j|"); sx_observe_i("bw", g); }
    sx_assert(a.getMaxDegree() == dg, "getMaxDegree is the longest row");
  } else if (op == 3) {
    long tot = 0; int sorted = 1; for (int i = 0; i < m; i++) { int lo = INT_MAX, hi = INT_MIN, b = A.rowptr[i] - base, e = A.rowptr[i + 1] - base; for (int j = b; j < e; j++) { int c = A.colidx[j]; if (c < lo) lo = c; if (c > hi) hi = c; if (j > b && A.colidx[j - 1] > c) sorted = 0; } if (b < e) tot += hi - lo; }
    double w = (double)tot / m;
    sx_assert(a.getAverageWidth(false) == w, "getAverageWidth is the mean width"); if (sorted) { sx_assert(a.getAverageWidth(true) == w, "getAverageWidth of sorted rows"); sx_reach("sorted"); }
    sx_observe_d("w", w);
  } else {
    int b2 = sx_param("base2", base), nv2 = sx_param("novals2", novals);
    int m2 = sx_dim("m2", 0, sx_param("m", 3)), n2 = rect ? sx_dim("n2", 1, sx_param("n", 4)) : m2; if (m2 - m > 1 || m - m2 > 1 || n2 - n > 1 || n - n2 > 1 || (n2 == 0 && m2 > 0)) return;
    SxMat B = sx_matrix("b", m2, n2, b2, n2 > 0 ? nz : 0, SX_DISTINCT | (nv2 ? 0 : SX_BITS)); SxSnap SB = sx_snap(B);
    for (int j = 0; !novals && j < k; j++) sx_assume(A.values[j] == A.values[j]); 
    CSR b(m2, n2, B.rowptr, B.colidx, B.values);
    int want = (m == m2) & (n == n2) & (base == b2) & (k == B.nnz) & (novals == nv2);
    if (want) { for (int i = 0; i <= m; i++) want &= A.rowptr[i] == B.rowptr[i]; for (int j = 0; j < k; j++) { want &= A.colidx[j] == B.colidx[j]; if (!novals) want &= A.values[j] == B.values[j]; } }
    bool g = a.equals(b, pr); sx_assert(g == (want != 0), "equals is true exactly when everything agrees"); sx_assert(b.equals(a, pr) == g, "equals is symmetric"); sx_assert(a.equals(a, pr), "equals is reflexive");
    sx_assert(sx_unchanged(SB), "the other matrix is unchanged"); sx_observe_i("eq", g); if (g) sx_reach("true"); else sx_reach("false");
  }
  sx_assert(sx_unchanged(S) && a.m == m && a.n == n, "the matrix is unchanged");
  sx_reach("checked");
}
