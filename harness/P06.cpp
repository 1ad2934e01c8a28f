// P06: Matrix Market coordinate files load faithfully
#include "sx.h"
#include "COO.hpp"
using namespace SpMP;
extern "C" void sx_main(void) {
  // type 0 real, 1 integer, 2 pattern; sym 0 general, 1 symmetric; mode 0 COO, 1 forceSymmetric, 2 transposed, 3 CSR(file) base 0, 4 CSR(file) base 1
  int T = sx_param("T", 2), type = sx_param("type", 0), sym = sx_param("sym", 0), mode = sx_param("mode", 0), pad = sx_param("pad", 1), reuse = sx_param("reuse", 0), zero = sx_param("zero", 0), dup = sx_param("dup", 0), blank = sx_param("blank", 0);
  sx_threads(T);
  int expand = sym || mode == 1 || mode == 5;
  int m = sx_dim("m", 1, sx_param("m", 3)), n = expand ? m : sx_dim("n", 1, sx_param("n", 3)), nnz = sx_dim("nnz", zero ? 1 : 0, sx_param("nnz", 3));
  int r[200], c[200]; double v[200]; int iv[200], form = sx_param("form", 0), fr[200], fc[200]; if (form) { nnz = sx_form_list(form, m, n, sx_param("fd", 0) ? SX_DIAG : 0, fr, fc); if (sym) { int k = 0; for (int i = 0; i < nnz; i++) if (fr[i] >= fc[i]) fr[k] = fr[i], fc[k++] = fc[i]; nnz = k; } }
  int anyz = 0;
  for (int i = 0; i < nnz; i++) {
    r[i] = form ? fr[i] : sx_int(sx_nm("r", i), 1, m); c[i] = form ? fc[i] : sx_int(sx_nm("c", i), 1, n); anyz |= (r[i] == 1) | (c[i] == 1);
    iv[i] = type == 1 ? sx_int(sx_nm("v", i), INT_MIN, INT_MAX) : 0; v[i] = type == 0 ? sx_bits(sx_nm("v", i)) : type == 1 ? (double)iv[i] : 1.0;
    if (type == 0) sx_assume(v[i] == v[i]);
    for (int j = 0; j < i; j++) sx_assume(dup | (r[i] != r[j]) | (c[i] != c[j]));
    if (sym) sx_assume(r[i] >= c[i]);
  }
  if (zero) sx_assume(anyz);
  sx_file_begin("a.mtx");
  sx_tok_str("%%MatrixMarket matrix coordinate "); sx_tok_str(type == 0 ? "real " : type == 1 ? "Integer " : "pattern "); sx_tok_str(sym ? "symmetric\n" : "general\n");
  int cm = sx_param("comment", 1); if (cm == 1 || cm == 3) sx_tok_str("% a comment 7 8 9\n"); if (cm >= 2) { sx_tok_str("%"); for (int i = 0; i < 90; i++) sx_tok_str(" 1 2 3 4 5"); sx_tok_str("\n"); } if (cm == 3) for (int i = 0; i < 40; i++) sx_tok_str("%3 3 3\n"); if (blank) sx_tok_str("\n");
  sx_tok_int(m); sx_tok_int(n); sx_tok_int(nnz); sx_file_nl();
  for (int i = 0; i < nnz; i++) { sx_tok_int(r[i] - zero); sx_tok_int(c[i] - zero); if (type == 0) sx_tok_dbl(v[i]); else if (type == 1) sx_tok_int(iv[i]); sx_file_nl(); }
  sx_file_end();
  int M = (m + pad - 1) / pad * pad, N = (n + pad - 1) / pad * pad;
  if (mode == 2) { int t = m; m = n; n = t; t = M; M = N; N = t; for (int i = 0; i < nnz; i++) { t = r[i]; r[i] = c[i]; c[i] = t; } }
  // expected entries
  int er[440], ec[440], on[440]; double ev[440]; int E = 0;
  for (int i = 0; i < nnz; i++) { er[E] = r[i]; ec[E] = c[i]; ev[E] = v[i]; on[E++] = 1; }
  int mn = m < n ? m : n, MN = M < N ? M : N;
  for (int i = mn; i < MN; i++) { er[E] = ec[E] = i + 1; ev[E] = 1; on[E++] = 1; }
  if (expand) for (int i = 0; i < nnz; i++) { int have = r[i] == c[i]; for (int j = 0; j < nnz; j++) have |= (r[j] == c[i]) & (c[j] == r[i]); er[E] = c[i]; ec[E] = r[i]; ev[E] = v[i]; on[E++] = !have; }
  int tot = 0; for (int i = 0; i < E; i++) tot += on[i];
  const char *fn = sx_path("a.mtx");
  if (mode < 3) {
    COO coo; if (reuse) { coo.isSymmetric = reuse == 2; coo.m = 5; }
    bool ok = mode == 2 ? loadMatrixMarketTransposed(fn, coo, pad) : loadMatrixMarket(fn, coo, mode == 1, pad);
    sx_assert(ok, "a well-formed file loads");
    sx_assert(coo.m == M && coo.n == N, "dimensions rounded up to the pad multiple");
    sx_assert(coo.nnz == tot, "number of entries");
    sx_assert(coo.isSymmetric == (expand != 0), "isSymmetric tells whether the entries were expanded");
    int k = coo.nnz; k = sx_concretize(k);
    for (int e = 0; e < E; e++) { int cnt = 0, got = 0;
      for (int f = 0; f < E; f++) cnt += on[f] & (er[f] == er[e]) & (ec[f] == ec[e]) & sx_same(ev[f], ev[e]);
      for (int p = 0; p < k; p++) got += (coo.rowidx[p] == er[e]) & (coo.colidx[p] == ec[e]) & sx_same(coo.values[p], ev[e]);
      sx_assert(!on[e] | (cnt == got), "each entry of the file is loaded exactly once with its value"); }
    sx_obs_arr("ri", coo.rowidx, k); sx_obs_arr("ci", coo.colidx, k); sx_obs_arrd("va", coo.values, k);
  } else {
    int base = mode == 4; 
    CSR a(fn, base, mode == 5, pad);
    sx_assert(a.m == M && a.n == N, "dimensions rounded up to the pad multiple");
    sx_assert(a.rowptr[0] == base && a.rowptr[M] == base + tot, "number of entries and base");
    int k = sx_concretize(a.rowptr[M] - base);
    for (int e = 0; e < E; e++) { int cnt = 0, got = 0;
      for (int f = 0; f < E; f++) cnt += on[f] & (er[f] == er[e]) & (ec[f] == ec[e]) & sx_same(ev[f], ev[e]);
      for (int i = 0; i < M; i++) for (int p = 0; p < k; p++) got += (p + base >= a.rowptr[i]) & (p + base < a.rowptr[i + 1]) & (i + 1 == er[e]) & (a.colidx[p] + 1 - base == ec[e]) & sx_same(a.values[p], ev[e]);
      sx_assert(!on[e] | (cnt == got), "each entry of the file is in the matrix exactly once with its value");
      if (!dup) for (int i = 0; i < M; i++) for (int p = 0; p < k; p++) sx_assert(!((er[e] == i + 1) & (ec[e] == i + 1) & on[e] & (a.diagptr[i] == p + base)) | (a.colidx[p] == i + base && a.rowptr[i] <= p + base && p + base < a.rowptr[i + 1]), "diagptr points at the diagonal"); 
      if (!dup) for (int i = 0; i < M; i++) sx_assert(!((er[e] == i + 1) & (ec[e] == i + 1) & on[e]) | ((a.diagptr[i] >= a.rowptr[i]) & (a.diagptr[i] < a.rowptr[i + 1])), "diagptr of a row with a diagonal lies in the row"); }
    for (int p = 1; p < k; p++) for (int i = 0; i < M; i++) sx_assert(!((p - 1 + base >= a.rowptr[i]) & (p + base < a.rowptr[i + 1])) | (a.colidx[p - 1] <= a.colidx[p]), "columns ascend in each row");
    sx_obs_arr("rp", a.rowptr, M + 1); sx_obs_arr("ci", a.colidx, k); sx_obs_arrd("va", a.values, k);
  }
  sx_reach("checked"); if (nnz >= 2) sx_reach("nnz>=2");
}
