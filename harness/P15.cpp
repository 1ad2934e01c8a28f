// P15: w = alpha*A*x + beta*y + gamma
#include "sx.h"
#include "CSR.hpp"
using namespace SpMP;
static double special(double v) { if (sx_concretize(v == 0)) return 0; if (sx_concretize(v == 1)) return 1; if (sx_concretize(v == -1)) return -1; return v; }
extern "C" void sx_main(void) {
  int T = sx_param("T", 2), base = sx_param("base", 0), nz = sx_param("nnz", 4), novals = sx_param("novals", 0), alias = sx_param("alias", 0) /*1 w==x, 2 w==y, 3 y NULL, 4 x==y*/, sh = sx_param("short", 0);
  sx_threads(T);
  int m = sx_dim("m", 1, sx_param("m", 3)), n = alias == 4 ? m : sx_dim("n", 1, sx_param("n", 3));
  SxMat A = sx_matrix("a", m, n, base, nz, SX_DISTINCT | (novals ? 0 : SX_VALS)); for (int j = 0; j < A.nnz; j++) A.colidx[j] = sx_concretize(A.colidx[j]); SxSnap S = sx_snap(A);
  CSR a(m, n, A.rowptr, A.colidx, A.values);
  int big = m > n ? m : n;
  double *x = sx_dbls(alias == 1 ? big : n), *y = alias == 4 ? x : sx_dbls(m), *w = alias == 1 ? x : alias == 2 ? y : sx_dbls(m), x0[40], y0[40];
  for (int i = 0; i < n; i++) x[i] = x0[i] = sx_val(sx_nm("x", i), -8, 8);
  if (alias == 4) for (int i = 0; i < m; i++) y0[i] = x0[i]; else for (int i = 0; i < m; i++) y[i] = y0[i] = sx_val(sx_nm("y", i), -8, 8);
  double al = sx_val("alpha", -4, 4), be = sx_val("beta", -4, 4), ga = sx_val("gamma", -4, 4);
  // the values a product may treat specially get paths of their own
  al = special(al); be = special(be); ga = special(ga);
  if (sh) { al = 1; be = 0; ga = 0; } if (alias == 3) be = 0;
  if (sh) a.multiplyWithVector(w, x); else a.multiplyWithVector(w, al, x, be, alias == 3 ? 0 : y, ga);
  for (int i = 0; i < m; i++) {
    double s = 0; for (int j = S.rowptr[i] - base; j < S.rowptr[i + 1] - base; j++) { double t = 0; for (int c = 0; c < n; c++) { double u = novals ? x0[c] : S.values[j] * x0[c]; t = S.colidx[j] == c + base ? u : t; } s += t; }
    sx_assert(w[i] == al * s + be * (alias == 3 ? 0 : y0[i]) + ga, "w = alpha*A*x + beta*y + gamma"); sx_observe_d("w", w[i]);
  }
  sx_assert(sx_unchanged(S), "the matrix is unchanged");
  for (int i = alias == 1 ? m : 0; i < n; i++) sx_assert(x[i] == x0[i], "x is unchanged");
  if (alias != 2) for (int i = 0; i < m; i++) sx_assert(y[i] == y0[i], "y is unchanged");
  sx_reach("checked"); if (A.nnz >= 2) sx_reach("nnz>=2");
}
