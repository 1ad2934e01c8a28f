// P13: copies are deep, diagonal helpers exact, caller-owned arrays never freed
#include "sx.h"
#include "CSR.hpp"
using namespace SpMP;
extern "C" void sx_main(void) {
  // op 0: copy; 1: diagonal helpers; 2: ownership
  int T = sx_param("T", 2), base = sx_param("base", 0), op = sx_param("op", 0), nz = sx_param("nnz", 4), novals = sx_param("novals", 0), parts = sx_param("parts", 0);
  sx_threads(T);
  int m = sx_dim("m", op == 1, sx_param("m", 3)), n = op == 1 || parts ? m : sx_dim("n", 1, sx_param("n", 3)); if (n == 0) nz = 0;
  SxMat A = sx_matrix("a", m, n, base, nz, (op == 1 ? SX_DISTINCT | SX_VALS : SX_BITS) & (novals ? ~(SX_BITS | SX_VALS) : ~0));
  int k = A.nnz; SxSnap S = sx_snap(A);
  if (op == 1) {
    CSR a(m, n, A.rowptr, A.colidx, A.values);
    for (int i = 0; i < m; i++) for (int j = A.rowptr[i] - base; j < A.rowptr[i + 1] - base; j++) for (int q = A.rowptr[i] - base; q < j; q++) sx_assume((A.colidx[j] != i + base) | (A.colidx[q] < i + base));   // nothing beyond the diagonal comes before it
    int full = 1; for (int i = 0; i < m; i++) { int h = 0; for (int j = A.rowptr[i] - base; j < A.rowptr[i + 1] - base; j++) h |= (A.colidx[j] == i + base) & (novals || A.values[j] != 0); full &= h; }
    int inv = sx_param("inv", 0); if (inv) { sx_assume(full); a.computeInverseDiag(); } else a.constructDiagPtr();
    for (int i = 0; i < m; i++) for (int j = A.rowptr[i] - base; j < A.rowptr[i + 1] - base; j++) {
      int hit = A.colidx[j] == i + base;
      sx_assert(!hit | (a.diagptr[i] == j + base), "diagptr is the position of the diagonal entry");
      if (inv && sx_concretize(hit)) sx_assert(sx_same(a.idiag[i], 1 / A.values[j]), "idiag is the reciprocal of the diagonal");
    }
    int *d = a.diagptr; a.constructDiagPtr(); sx_assert(d == a.diagptr, "calling it again keeps the array"); 
    sx_assert(sx_unchanged(S), "the matrix is unchanged"); sx_reach("checked"); return;
  }
  if (op == 2) {
    int live = sx_heap_live();
    { CSR a(m, n, A.rowptr, A.colidx, A.values); if (parts) { a.constructDiagPtr(); } CSR b(a); CSR *c = new CSR(b); delete c; }
    sx_assert(sx_heap_live() == live, "everything a matrix owns is released, and nothing else");
    sx_assert(sx_unchanged(S), "caller-owned arrays survive"); free(A.rowptr); free(A.colidx); if (A.values) free(A.values);
    sx_reach("checked"); return;
  }
  CSR *a = new CSR(m, n, A.rowptr, A.colidx, A.values); int dp[40], ex[40]; double dg[40], ig[40];
  for (int i = 0; i < m; i++) { dp[i] = sx_int(sx_nm("d", i), 0, 9); ex[i] = sx_int(sx_nm("e", i), 0, 9); dg[i] = sx_bits(sx_nm("dg", i)); ig[i] = sx_bits(sx_nm("ig", i)); }
  int hasd = parts & 1, hasi = parts & 2, hasg = parts & 4, hase = parts & 8;
  if (hasd) { a->diagptr = sx_ints(m); for (int i = 0; i < m; i++) a->diagptr[i] = dp[i]; } if (hasi) { a->idiag = sx_dbls(m); for (int i = 0; i < m; i++) a->idiag[i] = ig[i]; } if (hasg) { a->diag = sx_dbls(m); for (int i = 0; i < m; i++) a->diag[i] = dg[i]; }
  int *ep = 0; if (hase) { ep = a->extptr = sx_ints(m); for (int i = 0; i < m; i++) a->extptr[i] = ex[i]; }
  CSR *b = new CSR(*a);
  sx_assert(sx_unchanged(S), "copying leaves the source unchanged");
  int order = sx_param("order", 0);
  if (order == 0) { for (int i = 0; i < k; i++) { A.colidx[i] = -1; if (A.values) A.values[i] = -1; } for (int i = 0; i <= m; i++) A.rowptr[i] = base; if (hasd) for (int i = 0; i < m; i++) a->diagptr[i] = -1; if (hasi) for (int i = 0; i < m; i++) a->idiag[i] = -1; if (hasg) for (int i = 0; i < m; i++) a->diag[i] = -1; delete a; free(A.rowptr); free(A.colidx); if (A.values) free(A.values); if (ep) free(ep); }
  CSR *c = b;
  sx_assert(c->m == m && c->n == n, "dimensions");
  sx_assert((c->values != 0) == !novals && (c->diagptr != 0) == (hasd != 0) && (c->idiag != 0) == (hasi != 0) && (c->diag != 0) == (hasg != 0) && (c->extptr != 0) == (hase != 0), "the same parts are present");
  for (int i = 0; i <= m; i++) sx_assert(c->rowptr[i] == S.rowptr[i], "rowptr");
  for (int i = 0; i < k; i++) { sx_assert(c->colidx[i] == S.colidx[i], "colidx"); if (!novals) sx_assert(sx_same(c->values[i], S.values[i]), "values"); }
  for (int i = 0; i < m; i++) { if (hasd) sx_assert(c->diagptr[i] == dp[i], "diagptr"); if (hasi) sx_assert(sx_same(c->idiag[i], ig[i]), "idiag"); if (hasg) sx_assert(sx_same(c->diag[i], dg[i]), "diag"); if (hase) sx_assert(c->extptr[i] == ex[i], "extptr"); }
  sx_obs_arr("rp", c->rowptr, m + 1); sx_obs_arr("ci", c->colidx, k);
  if (order == 1) { for (int i = 0; i < k; i++) { c->colidx[i] = -1; if (c->values) c->values[i] = -1; } for (int i = 0; i <= m; i++) c->rowptr[i] = base; delete c; sx_assert(sx_unchanged(S), "changing and destroying the copy leaves the source intact"); 
    for (int i = 0; i < m; i++) { if (hasd) sx_assert(a->diagptr[i] == dp[i], "source diagptr"); if (hase) sx_assert(a->extptr[i] == ex[i], "source extptr"); } delete a; } else delete c;
  sx_reach("checked");
}
