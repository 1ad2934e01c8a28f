// P16: W = alpha*A*X + beta*Y + gamma for dense operands with their own strides
#include "sx.h"
#include "CSR.hpp"
using namespace SpMP;
static double special(double v) { if (sx_concretize(v == 0)) return 0; if (sx_concretize(v == 1)) return 1; if (sx_concretize(v == -1)) return -1; return v; }
extern "C" void sx_main(void) {
  // layout bits: 1 W row-major, 2 X row-major, 4 Y row-major; pad: extra stride; sh: short form; ny: Y NULL with beta 0
  int T = sx_param("T", 2), base = sx_param("base", 0), nz = sx_param("nnz", 3), novals = sx_param("novals", 0), lay = sx_param("lay", 0), pad = sx_param("pad", 0), sh = sx_param("short", 0), ny = sx_param("ynull", 0), coef = sx_param("coef", 0);
  sx_threads(T);
  int m = sx_dim("m", 1, sx_param("m", 3)), n = sx_dim("n", 1, sx_param("n", 3)), k = sx_dim("k", 1, sx_param("k", 2));
  SxMat A = sx_matrix("a", m, n, base, nz, SX_DISTINCT | (novals ? 0 : SX_VALS)); for (int j = 0; j < A.nnz; j++) A.colidx[j] = sx_concretize(A.colidx[j]); SxSnap S = sx_snap(A);
  CSR a(m, n, A.rowptr, A.colidx, A.values);
  int wr = lay & 1 ? k + pad : 1 + pad, wc = lay & 1 ? 1 : m * (1 + pad) + pad, xr = lay & 2 ? k + pad : 1, xc = lay & 2 ? 1 : n + pad, yr = lay & 4 ? k : 1 + pad, yc = lay & 4 ? 1 : m * (1 + pad);
  if (sh) { wr = 1; wc = m; xr = 1; xc = n; }
  int wn = (m - 1) * wr + (k - 1) * wc + 1, xn = (n - 1) * xr + (k - 1) * xc + 1, yn = (m - 1) * yr + (k - 1) * yc + 1;
  double *W = sx_dbls(wn), *X = sx_dbls(xn), *Y = sx_dbls(yn), W0[512], X0[512], Y0[512];
  for (int i = 0; i < wn; i++) W[i] = W0[i] = 1000 + i;
  for (int i = 0; i < xn; i++) X[i] = X0[i] = sx_val(sx_nm("x", i), -8, 8);
  for (int i = 0; i < yn; i++) Y[i] = Y0[i] = sx_val(sx_nm("y", i), -8, 8);
  double al = sx_val("alpha", -4, 4), be = sx_val("beta", -4, 4), ga = sx_val("gamma", -4, 4);
  if (coef) { sx_assume(al == 1); sx_assume(be == 0); sx_assume(ga == 0); al = 1; be = 0; ga = 0; } else { al = special(al); be = special(be); ga = special(ga); }
  if (sh) { al = 1; be = 0; ga = 0; } if (ny) be = 0;
  if (sh) a.multiplyWithDenseMatrix(W, k, X); else a.multiplyWithDenseMatrix(W, k, wr, wc, al, X, xr, xc, be, ny ? 0 : Y, yr, yc, ga);
  char touched[512]; for (int i = 0; i < wn; i++) touched[i] = 0;
  for (int i = 0; i < m; i++) for (int q = 0; q < k; q++) {
    double s = 0; for (int j = S.rowptr[i] - base; j < S.rowptr[i + 1] - base; j++) { double t = 0; for (int c = 0; c < n; c++) { double u = novals ? X0[c * xr + q * xc] : S.values[j] * X0[c * xr + q * xc]; t = S.colidx[j] == c + base ? u : t; } s += t; }
    sx_assert(W[i * wr + q * wc] == al * s + be * (ny ? 0 : Y0[i * yr + q * yc]) + ga, "W = alpha*A*X + beta*Y + gamma"); touched[i * wr + q * wc] = 1; sx_observe_d("w", W[i * wr + q * wc]);
  }
  for (int i = 0; i < wn; i++) if (!touched[i]) sx_assert(W[i] == W0[i], "nothing outside the k columns is written");
  sx_assert(sx_unchanged(S), "the matrix is unchanged");
  for (int i = 0; i < xn; i++) sx_assert(X[i] == X0[i], "X is unchanged");
  for (int i = 0; i < yn; i++) sx_assert(Y[i] == Y0[i], "Y is unchanged");
  sx_reach("checked"); if (A.nnz >= 2) sx_reach("nnz>=2");
}
