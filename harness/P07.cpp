// P07: malformed Matrix Market input is rejected and never corrupts memory
#include "sx.h"
#include "COO.hpp"
using namespace SpMP;
static int size_(const char *nm) { int v = sx_int(nm, INT_MIN, INT_MAX); sx_assume((v >= -2 && v <= 4) | (v == INT_MIN) | (nm[0] != 'z' && v == INT_MAX)); return v; }
static const char *LONG = "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx";
extern "C" void sx_main(void) {
  int T = sx_param("T", 2), kind = sx_param("kind", 0), type = sx_param("type", 0), sym = sx_param("sym", 0), mode = sx_param("mode", 0), pad = sx_param("pad", 1), csr = sx_param("csr", 0);
  sx_threads(T);
  static const char *W0[] = {"%%MatrixMarket", "%MatrixMarket", "%%MatrixMarke", "matrix", 0, "%%MatrixMarketX"};
  static const char *W1[] = {"matrix", "Matrix", "vector", "", 0, 0};
  static const char *W2[] = {"coordinate", "array", "coord", "", 0, 0};
  static const char *W3[] = {"real", "complex", "integer", "pattern", "double", 0};
  static const char *W4[] = {"general", "symmetric", "hermitian", "skew-symmetric", "full", 0};
  int w0 = 0, w1 = 0, w2 = 0, w3 = type == 0 ? 0 : type == 1 ? 2 : type == 2 ? 3 : 1, w4 = sym;
  if (kind == 1) { w0 = sx_pick("w0", 0, 5); w1 = sx_pick("w1", 0, 4); w2 = sx_pick("w2", 0, 4); w3 = sx_pick("w3", 0, 5); w4 = sx_pick("w4", 0, 5); 
    int bad = (w0 != 0 && w0 != 5) + (w1 > 1) + (w2 > 0) + (w3 > 3) + (w4 > 3); if (bad > 1) return; }
  int m = 2, n = 2, nnz = 2, E = 2, x[40], y[40], cut = 99, text = -1; double v[40];
  if (kind == 0) { m = size_("m"); n = size_("n"); nnz = size_("z"); E = sx_pick("E", 0, sx_param("E", 3)); m = sx_concretize(m); n = sx_concretize(n); nnz = sx_concretize(nnz); }
  int fE = sx_param("fE", 0); if (fE) { m = 7; n = 5; E = fE; nnz = E + sx_pick("more", -1, 1); }
  if (kind == 2) { text = sx_pick("text", 0, 2 + 3 * E); }
  if (kind == 3) { cut = sx_pick("cut", 0, 3 + 3 * E); }
  for (int i = 0; i < E; i++) { x[i] = sx_int(sx_nm("x", i), INT_MIN, INT_MAX); y[i] = sx_int(sx_nm("y", i), INT_MIN, INT_MAX); if (fE && i != fE - 1 && i != fE / 2) { x[i] = i % 7 + 1; y[i] = i * 3 % 5 + 1; } v[i] = sx_val(sx_nm("v", i), -8, 8); if ((kind == 2 && text < 3) || (kind == 3 && cut < 3)) sx_assume((x[i] >= -2) & (x[i] <= 6) & (y[i] >= -2) & (y[i] <= 6)); }
  sx_file_begin("a.mtx");
  const char *ws[5] = {W0[w0], W1[w1], W2[w2], W3[w3], W4[w4]};
  for (int i = 0; i < 5; i++) { sx_tok_str(ws[i] ? ws[i] : LONG); sx_tok_str(" "); } sx_tok_str("\n");
  int k = 0;
  int hs[3] = {m, n, nnz};
  for (int i = 0; i < 3; i++, k++) { if (k >= cut) break; if (k == text) sx_tok_str("abc "); else sx_tok_int(hs[i]); } if (cut > 3) sx_file_nl();
  for (int i = 0; i < E; i++) {
    for (int q = 0; q < 3; q++, k++) { if (k >= cut) break; if (k == text) sx_tok_str("abc "); else if (q == 0) sx_tok_int(x[i]); else if (q == 1) sx_tok_int(y[i]); else if (type == 0) sx_tok_dbl(v[i]); else if (type == 3) { sx_tok_int(7); sx_tok_int(8); } else if (type == 1) sx_tok_int(7); }
    if (k < cut) sx_file_nl(); }
  sx_file_end();
  const char *fn = sx_path("a.mtx");
  if (csr) {
    sx_opt("exit_ok", 1);
    CSR a(fn, csr - 1, mode == 1, pad);
    for (int i = 0; i < a.m; i++) for (int j = a.rowptr[i] - (csr - 1); j < a.rowptr[i + 1] - (csr - 1); j++) sx_assert((a.colidx[j] >= csr - 1) & (a.colidx[j] < a.n + csr - 1), "every loaded index lies inside the dimensions");
    sx_reach("checked"); return;
  }
  COO coo; coo.m = coo.n = coo.nnz = -5;
  bool ok = mode == 2 ? loadMatrixMarketTransposed(fn, coo, pad) : loadMatrixMarket(fn, coo, mode == 1, pad);
  if (ok) {
    sx_assert((coo.m >= 0) & (coo.n >= 0) & (coo.nnz >= 0), "sizes are not negative");
    for (int i = 0; i < coo.nnz; i++) sx_assert((coo.rowidx[i] >= 1) & (coo.rowidx[i] <= coo.m) & (coo.colidx[i] >= 1) & (coo.colidx[i] <= coo.n), "every loaded index lies inside the dimensions");
    if (kind == 0 || fE) {
      sx_assert(nnz == E, "a file whose entry count disagrees with its header is rejected");
      sx_assert(m >= 0 && n >= 0, "negative sizes are rejected");
      int z = 0, out = 0; for (int i = 0; i < E; i++) z |= (x[i] == 0) | (y[i] == 0);
      for (int i = 0; i < E; i++) out |= (x[i] < 0) | (y[i] < 0) | (x[i] > m - z) | (y[i] > n - z);
      sx_assert(!out, "an index outside the declared dimensions is rejected");
    }
    if (kind == 1) { sx_assert(w0 == 0 || w0 == 5, "the banner word is checked"); sx_assert(w1 < 2 && w2 == 0 && w3 < 4 && w4 < 4, "unsupported kinds are rejected"); }
    if (kind == 2) sx_assert(text < 3 || (type == 2 && text % 3 == 2), "text where a number is expected is rejected");
    if (kind == 3) sx_assert(cut >= 3 + 3 * E - (type == 2), "a truncated file is rejected");
    sx_reach("loaded");
  } else sx_reach("rejected");
  sx_observe_i("ok", ok);
}
