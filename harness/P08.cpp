// P08: Matrix Market store then load returns the same matrix
#include "sx.h"
#include "COO.hpp"
using namespace SpMP;
extern "C" void sx_main(void) {
  // mode 0: CSR store, COO load; 1: CSR store, CSR(file) load; 2: COO store, COO load
  int T = sx_param("T", 2), base = sx_param("base", 0), mode = sx_param("mode", 0), nz = sx_param("nnz", 3), over = sx_param("over", 0), novals = sx_param("novals", 0); // novals: a pattern; its entries count as 1
  sx_threads(T);
  int m = sx_dim("m", 1, sx_param("m", 3)), n = sx_dim("n", 1, sx_param("n", 3));
  const char *fn = sx_path("a.mtx");
  if (over) { sx_file_begin("a.mtx"); for (int i = 0; i < 9; i++) sx_tok_int(i); sx_file_end(); }
  if (mode < 2) {
    SxMat A = sx_matrix("a", m, n, base, nz, SX_DISTINCT | (novals ? 0 : SX_BITS));
    if (!novals) for (int i = 0; i < A.nnz; i++) sx_assume(A.values[i] - A.values[i] == 0);   // finite
    SxSnap S = sx_snap(A);
    CSR a(m, n, A.rowptr, A.colidx, A.values);
    a.storeMatrixMarket(fn);
    sx_assert(sx_unchanged(S) && a.m == m && a.n == n, "storing leaves the matrix unchanged");
    if (mode == 0) {
      COO c; sx_assert(loadMatrixMarket(fn, c), "the stored file loads");
      sx_assert(c.m == m && c.n == n && c.nnz == A.nnz && !c.isSymmetric, "same sizes");
      int k = A.nnz;
      for (int i = 0; i < m; i++) for (int j = A.rowptr[i] - base; j < A.rowptr[i + 1] - base; j++) { int hit = 0; for (int p = 0; p < k; p++) hit |= (c.rowidx[p] == i + 1) & (c.colidx[p] == A.colidx[j] - base + 1) & sx_same(c.values[p], novals ? 1. : A.values[j]); sx_assert(hit, "every entry comes back bit for bit"); }
      sx_obs_arr("ri", c.rowidx, k); sx_obs_arr("ci", c.colidx, k); sx_obs_arrd("v", c.values, k);
    } else for (int b2 = 0; b2 < 2; b2++) {
      CSR c(fn, b2);
      sx_assert(c.m == m && c.n == n && c.rowptr[0] == b2, "same sizes");
      for (int i = 0; i < m; i++) { sx_assert(c.rowptr[i + 1] - c.rowptr[i] == A.rowptr[i + 1] - A.rowptr[i], "same row lengths");
        for (int j = A.rowptr[i] - base; j < A.rowptr[i + 1] - base; j++) { int hit = 0; for (int p = c.rowptr[i] - b2; p < c.rowptr[i + 1] - b2; p++) hit |= (c.colidx[p] - b2 == A.colidx[j] - base) & sx_same(c.values[p], novals ? 1. : A.values[j]); sx_assert(hit, "every entry comes back bit for bit"); } }
      sx_obs_arr("ci", c.colidx, A.nnz);
    }
  } else {
    int k = sx_pick("nnz", 0, nz); COO a; a.m = m; a.n = n; a.nnz = k; a.rowidx = sx_ints(k); a.colidx = sx_ints(k); a.values = novals ? 0 : sx_dbls(k); int r[8], c0[8]; double v[8];
    for (int i = 0; i < k; i++) { r[i] = a.rowidx[i] = sx_int(sx_nm("r", i), 1, m); c0[i] = a.colidx[i] = sx_int(sx_nm("c", i), 1, n); v[i] = 1; if (novals) continue; v[i] = a.values[i] = sx_bits(sx_nm("v", i)); sx_assume(v[i] - v[i] == 0); }
    a.storeMatrixMarket(fn);
    COO c; sx_assert(loadMatrixMarket(fn, c), "the stored file loads");
    sx_assert(c.m == m && c.n == n && c.nnz == k && !c.isSymmetric, "same sizes");
    for (int i = 0; i < k; i++) { sx_assert((a.rowidx[i] == r[i]) & (a.colidx[i] == c0[i]) & (novals ? !a.values : sx_same(a.values[i], v[i])), "storing leaves the matrix unchanged");
      int cnt = 0, got = 0; for (int p = 0; p < k; p++) { cnt += (r[p] == r[i]) & (c0[p] == c0[i]) & sx_same(v[p], v[i]); got += (c.rowidx[p] == r[i]) & (c.colidx[p] == c0[i]) & sx_same(c.values[p], v[i]); } sx_assert(cnt == got, "every entry comes back as often as it was stored"); }
    sx_obs_arr("ri", c.rowidx, k);
  }
  sx_reach("checked");
}
