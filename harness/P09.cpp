// P09: binary store then load returns the same matrix
#include "sx.h"
#include "CSR.hpp"
using namespace SpMP;
static int word(const char *f, int i) { unsigned w = 0; for (int b = 0; b < 4; b++) w |= (unsigned)sx_file_byte(f, 4 * i + b) << (8 * b); return (int)w; }
extern "C" void sx_main(void) {
  int T = sx_param("T", 2), base = sx_param("base", 0), nz = sx_param("nnz", 3), mode = sx_param("mode", 0);
  sx_threads(T);
  int m = sx_dim("m", 0, sx_param("m", 3)), n = sx_dim("n", 1, sx_param("n", 3));
  SxMat A = sx_matrix("a", m, n, base, nz, SX_DISTINCT | (sx_param("novals", 0) ? 0 : SX_BITS));
  int k = A.nnz, novals = sx_param("novals", 0); /* entries of a pattern count as 1 */ SxSnap S = sx_snap(A);
  CSR a(m, n, A.rowptr, A.colidx, A.values);
  if (mode == 2) { // the file cannot be created
    a.storeBin(sx_path("nodir/a.bin")); sx_assert(sx_unchanged(S), "a failed store leaves the matrix as it was"); sx_reach("checked"); return; }
  const char *fn = sx_path("a.bin");
  if (sx_param("diag", 0)) { for (int i = 0; i < m; i++) { int h = i >= n; for (int j = A.rowptr[i] - base; j < A.rowptr[i + 1] - base; j++) h |= A.colidx[j] == i + base; sx_assume(h); } sx_assume(m <= n); for (int i = 0; i < m; i++) for (int j = A.rowptr[i] - base; j < A.rowptr[i + 1] - base; j++) for (int q = A.rowptr[i] - base; q < j; q++) sx_assume((A.colidx[j] != i + base) | (A.colidx[q] < i + base)); a.constructDiagPtr(); }
  a.storeBin(fn);
  sx_assert(sx_unchanged(S) && a.m == m && a.n == n, "storing leaves the matrix as it was");
  if (sx_param("diag", 0)) for (int i = 0; i < m; i++) for (int j = A.rowptr[i] - base; j < A.rowptr[i + 1] - base; j++) sx_assert((A.colidx[j] != i + base) | (a.diagptr[i] == j + base), "storing leaves diagptr as it was");
  // layout
  sx_assert(sx_file_size("a.bin") == 4 * (4 + m + k) + 8 * k, "file size");
  sx_assert(word("a.bin", 0) == 1211216 && word("a.bin", 1) == m && word("a.bin", 2) == n && word("a.bin", 3) == k, "header");
  for (int i = 0; i < m; i++) sx_assert(word("a.bin", 4 + i) == A.rowptr[i + 1] - A.rowptr[i], "row lengths");
  for (int j = 0; j < k; j++) { sx_assert(word("a.bin", 4 + m + j) == A.colidx[j] - base, "zero-based columns"); unsigned long v = (unsigned)word("a.bin", 4 + m + k + 2 * j); v |= (unsigned long)(unsigned)word("a.bin", 5 + m + k + 2 * j) << 32; sx_assert(v == (unsigned long)sx_db(novals ? 1. : A.values[j]), "values"); }
  for (int b2 = 0; b2 < 2; b2++) {
    CSR *c;
    if (mode == 1) c = new CSR(fn, b2); else { c = new CSR(); c->loadBin(fn, b2); if (mode == 3) c->loadBin(fn, b2); }
    sx_assert(c->m == m && c->n == n, "dimensions");
    for (int i = 0; i <= m; i++) sx_assert(c->rowptr[i] - b2 == A.rowptr[i] - base, "rowptr in the requested base");
    for (int j = 0; j < k; j++) { sx_assert(c->colidx[j] - b2 == A.colidx[j] - base, "colidx in the requested base"); sx_assert(sx_same(c->values[j], novals ? 1. : A.values[j]), "values bit for bit"); }
    for (int i = 0; i < m; i++) for (int j = A.rowptr[i] - base; j < A.rowptr[i + 1] - base; j++) sx_assert((A.colidx[j] - base != i) | (c->diagptr[i] == j + b2), "diagptr points at the diagonal entry");
    sx_obs_arr("rp", c->rowptr, m + 1); sx_obs_arr("ci", c->colidx, k); sx_obs_arrd("v", c->values, k);
    delete c;
  }
  sx_reach("checked");
}
