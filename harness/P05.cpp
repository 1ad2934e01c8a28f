// P05: dcoo2csr keeps every entry, sorted per row
#include "sx.h"
#include "COO.hpp"
using namespace SpMP;
extern "C" void sx_main(void) {
  int T = sx_param("T", 2), base = sx_param("base", 0), mmax = sx_param("m", 3), nzmax = sx_param("nnz", 4), obj = sx_param("obj", 0), sort = sx_param("sort", 1), sep = sx_param("sep", 1), bits = sx_param("bits", 1);
  sx_threads(T);
  int m = sx_dim("m", obj ? 1 : 0, mmax), n = sx_param("n", 3), nnz = m > 0 ? sx_dim("nnz", 0, nzmax) : 0, form = sx_param("form", 0), fr[400], fc[400]; if (form) nnz = sx_form_list(form, m, n, sx_param("fd", 0) ? SX_DIAG : 0, fr, fc);
  int *r = sx_ints(nnz), *c = sx_ints(nnz); double *v = sx_dbls(nnz);
  for (int i = 0; i < nnz; i++) { r[i] = form ? fr[i] : sx_int(sx_nm("r", i), 1, m); c[i] = form ? fc[i] : sx_int(sx_nm("c", i), 1, n); v[i] = bits ? sx_bits(sx_nm("v", i)) : sx_val(sx_nm("v", i), -8, 8); }
  if (sx_param("dist", 0)) for (int i = 0; i < nnz; i++) for (int j = 0; j < i; j++) sx_assume((r[i] != r[j]) | (c[i] != c[j]));
  int *rp, *ci; double *va; CSR a;
  if (obj) {
    COO coo; coo.m = m; coo.n = n; coo.nnz = nnz; coo.rowidx = r; coo.colidx = c; coo.values = v;
    a.alloc(m, nnz, sep & 1);
    for (int i = 0; i < m; i++) { a.diagptr[i] = -7; if (a.diag) a.diag[i] = 77, a.idiag[i] = 78; }
    dcoo2csr(&a, &coo, base, sep >> 1);
    coo.rowidx = coo.colidx = 0; coo.values = 0;
    rp = a.rowptr; ci = a.colidx; va = a.values;
    sx_assert(a.m == m && a.n == n, "dimensions are set");
    for (int i = 0; i < m; i++) for (int k = 0; k < nnz; k++) {
      int hit = (r[k] == i + 1) & (c[k] == i + 1);
      sx_assert(!hit | ((a.diagptr[i] - base >= rp[i] - base) & (a.diagptr[i] < rp[i + 1])), "diagptr of a row with a diagonal entry lies in the row");
      if (sx_param("dist", 0)) for (int p = 0; p < nnz; p++) {
        int at = hit & (a.diagptr[i] == p + base);
        sx_assert(!at | (ci[p] == i + base), "diagptr points at the diagonal entry");
        if (sep == 3) sx_assert(!at | (sx_same(a.diag[i], va[p]) & sx_same(a.idiag[i], 1 / va[p])), "diag and idiag hold the diagonal and its reciprocal");
      }
    }
    if (sep == 1) for (int i = 0; i < m; i++) sx_assert(a.diag[i] == 77 && a.idiag[i] == 78, "diag and idiag are left alone when not asked for");
    sx_obs_arr("dp", a.diagptr, m);
  } else {
    rp = sx_ints(m + 1); ci = sx_ints(nnz); va = sx_dbls(nnz);
    for (int i = 0; i <= m; i++) rp[i] = -99;
    dcoo2csr(m, nnz, rp, ci, va, r, c, v, sort, base);
  }
  sx_assert(rp[0] == base, "rowptr starts at the base"); sx_assert(rp[m] == base + nnz, "rowptr ends at base + nnz");
  for (int i = 0; i < m; i++) {
    int k = 0; for (int j = 0; j < nnz; j++) k += r[j] == i + 1;
    sx_assert(rp[i + 1] - rp[i] == k, "row lengths are the entry counts");
    // multiset equality: same number of copies of each listed entry
    for (int j = 0; j < nnz; j++) {
      int cnt = 0, got = 0;
      for (int q = 0; q < nnz; q++) cnt += (r[q] == i + 1) & (c[q] == c[j]) & sx_same(v[q], v[j]);
      for (int p = 0; p < nnz; p++) got += (p + base >= rp[i]) & (p + base < rp[i + 1]) & (ci[p] == c[j] - 1 + base) & sx_same(va[p], v[j]);
      sx_assert((r[j] != i + 1) | (cnt == got), "each entry appears exactly as often as in the list");
    }
    if (sort) for (int p = 1; p < nnz; p++) sx_assert(!((p - 1 + base >= rp[i]) & (p + base < rp[i + 1])) | (ci[p - 1] <= ci[p]), "columns ascend in each row");
  }
  sx_obs_arr("rp", rp, m + 1); sx_obs_arr("ci", ci, nnz); sx_obs_arrd("va", va, nnz);
  sx_reach("checked");
  if (obj) { a.rowptr = a.rowptr; }
}
