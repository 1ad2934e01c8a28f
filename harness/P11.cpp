// P11: CSR::transpose is the exact transpose
#include "sx.h"
#include "CSR.hpp"
using namespace SpMP;
extern "C" void sx_main(void) {
  int T = sx_param("T", 2), base = sx_param("base", 0), mmax = sx_param("m", 3), nmax = sx_param("n", 3), nz = sx_param("nnz", 4), novals = sx_param("novals", 0), diag = sx_param("diag", 0);
  sx_threads(T);
  int m = sx_dim("m", 0, mmax), n = sx_dim("n", 0, nmax);
  SxMat A = sx_matrix("a", m, n, base, n > 0 ? nz : 0, SX_DISTINCT | (novals ? 0 : SX_BITS) | (diag ? SX_DIAG : 0));
  CSR a(m, n, A.rowptr, A.colidx, A.values);
  if (diag) { sx_assume(m == n); a.constructDiagPtr(); }
  CSR *t = a.transpose();
  sx_assert(t->m == n && t->n == m, "dimensions are swapped");
  sx_assert((t->values != 0) == (A.values != 0), "values present iff present in the source");
  sx_assert(t->rowptr != 0, "row pointers exist");
  sx_assert(t->rowptr[0] == base, "rowptr starts at the base");
  sx_assert(t->rowptr[n] == base + A.nnz, "same number of entries");
  for (int c = 0; c < n; c++) { int k = 0; for (int j = 0; j < A.nnz; j++) k += A.colidx[j] == c + base; sx_assert(t->rowptr[c + 1] - t->rowptr[c] == k, "row lengths are the column counts of the source"); }
  // entry p of the transpose: find its row without splitting paths
  for (int c = 0; c < n; c++) for (int p = 0; p < A.nnz; p++) {
    int in = (p + base >= t->rowptr[c]) & (p + base < t->rowptr[c + 1]);
    int ok = 0;
    for (int i = 0; i < m; i++) for (int j = A.rowptr[i] - base; j < A.rowptr[i + 1] - base; j++)
      ok |= (A.colidx[j] == c + base) & (t->colidx[p] == i + base) & (novals ? 1 : sx_same(t->values[p], A.values[j]));
    sx_assert(!in | ok, "every entry (c,i,v) of the transpose is an entry (i,c,v) of the source");
    if (p > 0) sx_assert(!(in & (p - 1 + base >= t->rowptr[c])) | (t->colidx[p - 1] < t->colidx[p]), "columns ascend in each row");
    if (diag) sx_assert(!(in & (t->colidx[p] == c + base)) | (t->diagptr[c] == p + base), "diagptr points at the diagonal");
  }
  sx_obs_arr("rp", t->rowptr, n + 1); sx_obs_arr("ci", t->colidx, A.nnz); if (t->values) sx_obs_arrd("v", t->values, A.nnz);
  sx_reach("checked"); if (A.nnz >= 2) sx_reach("nnz>=2");
}
