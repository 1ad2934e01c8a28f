// P29: vector files load faithfully or are rejected
#include "sx.h"
#include "Vector.hpp"
using namespace SpMP;
extern "C" void sx_main(void) {
  // kind 0: any sizes with some values; 1: banner variants; 2: text instead of a number
  int kind = sx_param("kind", 0), type = sx_param("type", 0), cmt = sx_param("comment", 0);
  static const char *W0[] = {"%%MatrixMarket", "%MatrixMarket", "MatrixMarket"};
  static const char *W1[] = {"matrix", "Matrix", "vector", ""};
  static const char *W2[] = {"array", "Array", "coordinate", "dense", ""};
  static const char *W3[] = {"real", "integer", "complex", "pattern", "double", ""};
  static const char *W4[] = {"general", "symmetric", "hermitian", "skew-symmetric", "full", ""};
  int w0 = 0, w1 = 0, w2 = 0, w3 = type, w4 = 0, m = 2, n = 2, E = 4, text = -1;
  if (kind == 1) { w0 = sx_pick("w0", 0, 2); w1 = sx_pick("w1", 0, 3); w2 = sx_pick("w2", 0, 4); w3 = sx_pick("w3", 0, 5); w4 = sx_pick("w4", 0, 5); }
  if (kind == 0) { m = sx_int("m", INT_MIN, INT_MAX); n = sx_int("n", INT_MIN, INT_MAX); sx_assume((m >= -2 && m <= 3) | (m == INT_MIN) | (m == INT_MAX) | (m == 65536)); sx_assume((n >= -2 && n <= 3) | (n == INT_MIN) | (n == INT_MAX) | (n == 65536)); m = sx_concretize(m); n = sx_concretize(n); if (((m > 3 || m < -2) && n == 0) || ((n > 3 || n < -2) && m == 0)) return; if (((m == INT_MAX || m == 65536) && n == 1) || ((n == INT_MAX || n == 65536) && m == 1) || (m == 65536 && (n == 2 || n == 3)) || (n == 65536 && (m == 2 || m == 3))) return; /* a big but valid size */ E = sx_pick("E", 0, 9); }
  if (kind == 3) { m = sx_param("fm", 5); n = sx_param("fn", 4); E = m * n - sx_pick("less", 0, 1); }
  if (kind == 2) text = sx_pick("text", type == 0 ? 2 : 0, 5);
  double v[200]; int vi[200]; for (int i = 0; i < E; i++) { if (type == 1) { vi[i] = sx_int(sx_nm("i", i), -1000, 1000); v[i] = vi[i]; if (kind == 2 && text < 2) sx_assume((vi[i] >= -2) & (vi[i] <= 3)); } else { v[i] = sx_bits(sx_nm("v", i)); sx_assume((sx_db(v[i]) & 0x7ff0000000000000L) != 0x7ff0000000000000L); } }
  sx_file_begin("v.mtx"); const char *ws[5] = {W0[w0], W1[w1], W2[w2], W3[w3], W4[w4]};
  for (int i = 0; i < 5; i++) { sx_tok_str(ws[i]); sx_tok_str(" "); } sx_tok_str("\n");
  int cm = cmt; if (cmt & 1) sx_tok_str("% a comment\n%\n"); if (cm >= 2) { sx_tok_str("%"); for (int i = 0; i < 90; i++) sx_tok_str(" 1 2 3 4 5"); sx_tok_str("\n"); } if (cm == 3) for (int i = 0; i < 40; i++) sx_tok_str("%3 3 3\n"); 
  if (text == 0) sx_tok_str("abc "); else sx_tok_int(m); if (text == 1) sx_tok_str("abc "); else sx_tok_int(n); sx_file_nl();
  for (int i = 0; i < E; i++) { if (text == i + 2) sx_tok_str("abc "); else if (type == 1) sx_tok_int(vi[i]); else sx_tok_dbl(v[i]); sx_file_nl(); }
  sx_file_end();
  double *p = 0; int M = -7, N = -7;
  bool ok = loadVectorMatrixMarket(sx_path("v.mtx"), &p, &M, &N);
  int good = w0 == 0 && w1 < 2 && w2 < 2 && w3 < 4 && w4 < 4;
  if (kind == 0) { good = m >= 0 && n >= 0 && (m == 0 || n == 0 || (m < 10 && n < 10 && m * n <= E)); sx_assert(ok == good, "the file is loaded exactly when it is complete and its sizes are valid"); }
  if (kind == 3) { good = E == m * n; sx_assert(ok == good, "the file is loaded exactly when it is complete"); }
  if (kind == 1) sx_assert(good || !ok, "unsupported headers are rejected");
  if (kind == 1 && good && w3 < 2 && w4 == 0) sx_assert(ok, "array files load");
  if (kind == 2 && text >= 2) sx_assert(!ok, "text where a number is expected is rejected");
  if (ok && kind == 2) sx_reach("lenient"); else if (ok) { sx_assert(M == m && N == n, "sizes"); for (int i = 0; i < (m == 0 || n == 0 ? 0 : m * n); i++) sx_assert(sx_same(p[i], v[i]), "values in file order"); sx_reach("loaded"); } else sx_reach("rejected");
  sx_observe_i("ok", ok);
  double *q = 0; int a, b; sx_assert(!loadVectorMatrixMarket(sx_path("nodir/x.mtx"), &q, &a, &b), "a file that cannot be opened is reported");
  sx_reach("checked");
}
