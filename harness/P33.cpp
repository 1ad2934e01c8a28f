// P33: the Matrix Market routines of mm_io agree with each other and with the format
#include "sx.h"
#include "mm_io.h"
static const char *W[4][4] = {{"matrix", 0, 0, 0}, {"coordinate", "array", 0, 0}, {"real", "complex", "pattern", "integer"}, {"general", "symmetric", "hermitian", "skew-symmetric"}};
static void code(MM_typecode *t, int c, int d, int s) { mm_initialize_typecode(t); mm_set_matrix(t); if (c) mm_set_array(t); else mm_set_coordinate(t); if (d == 0) mm_set_real(t); else if (d == 1) mm_set_complex(t); else if (d == 2) mm_set_pattern(t); else mm_set_integer(t); if (s == 0) mm_set_general(t); else if (s == 1) mm_set_symmetric(t); else if (s == 2) mm_set_hermitian(t); else mm_set_skew(t); }
static void banner(int c, int d, int s) { sx_tok_str("%%MatrixMarket "); sx_tok_str("matrix "); sx_tok_str(c ? "array " : "coordinate "); sx_tok_str(d == 0 ? "real " : d == 1 ? "complex " : d == 2 ? "pattern " : "integer "); sx_tok_str(W[3][s]); sx_tok_str("\n"); }
static int same(MM_typecode a, MM_typecode b) { return a[0] == b[0] && a[1] == b[1] && a[2] == b[2] && a[3] == b[3]; }
extern "C" void sx_main(void) {
  int op = sx_param("op", 0), big = sx_param("big", 8), open0 = sx_open_files();
  char fn[256], no[256]; strncpy(fn, sx_path("a.mtx"), 255); strncpy(no, sx_path("nodir/a.mtx"), 255);
  int c = op == 0 ? sx_pick("c", 0, 1) : 0, d = sx_pick("d", 0, 3), s = sx_pick("s", 0, 3); MM_typecode t, u; code(&t, c, d, s);
  int valid = !(c && d == 2) && !(d == 0 && s == 2) && !(d == 2 && s >= 2), per = d == 1 ? 2 : d == 2 ? 0 : 1;
  if (op == 0) {
    sx_assert(!mm_is_valid(t) == !valid, "valid exactly when the format allows the combination");
    sx_assert(!!mm_is_array(t) == c && !!mm_is_dense(t) == c && !!mm_is_coordinate(t) == !c && !!mm_is_sparse(t) == !c && !!mm_is_real(t) == (d == 0) && !!mm_is_complex(t) == (d == 1) && !!mm_is_pattern(t) == (d == 2) && !!mm_is_integer(t) == (d == 3) && !!mm_is_general(t) == (s == 0) && !!mm_is_symmetric(t) == (s == 1) && !!mm_is_hermitian(t) == (s == 2) && !!mm_is_skew(t) == (s == 3), "queries answer what was set");
    char *str = mm_typecode_to_str(t); char want[128]; strcpy(want, W[0][0]); const char *w[3] = {W[1][c], W[2][d], W[3][s]}; for (int i = 0; i < 3; i++) { strcat(want, " "); strcat(want, w[i]); }
    sx_assert(!strcmp(str, want), "the words of a type code"); free(str);
    int m = sx_int("m", 0, INT_MAX), n = sx_int("n", 0, INT_MAX), z = sx_int("z", 0, INT_MAX), m2 = -1, n2 = -1, z2 = -1;
    FILE *f = fopen(fn, "w"); sx_assert(mm_write_banner(f, t) == 0, "writing a banner succeeds"); sx_assert((c ? mm_write_mtx_array_size(f, m, n) : mm_write_mtx_crd_size(f, m, n, z)) == 0, "writing sizes succeeds"); fclose(f);
    f = fopen(fn, "r"); sx_assert(mm_read_banner(f, &u) == 0, "a written banner is read"); sx_assert(same(t, u), "the banner read is the one written"); sx_assert((c ? mm_read_mtx_array_size(f, &m2, &n2) : mm_read_mtx_crd_size(f, &m2, &n2, &z2)) == 0, "written sizes are read"); sx_assert(m2 == m && n2 == n && (c || z2 == z), "the sizes read are the ones written");
    sx_assert((c ? mm_read_mtx_array_size(f, &m2, &n2) : mm_read_mtx_crd_size(f, &m2, &n2, &z2)) != 0, "sizes that are missing are reported"); fclose(f);
    sx_observe_i("m", m2 + 0 * z2); sx_reach("checked"); return;
  }
  if (!valid) return;
  int fk = sx_param("fk", 0), k = fk ? fk : sx_pick("k", 0, sx_param("nnz", 2)), m = sx_int("m", 0, big), n = sx_int("n", 0, big), I[40], J[40]; double v[80];
  for (int i = 0; i < k; i++) { I[i] = sx_int(sx_nm("i", i), 1, big); J[i] = sx_int(sx_nm("j", i), 1, big); for (int q = 0; q < per; q++) { v[i * per + q] = d == 3 ? sx_val(sx_nm("v", i, q), -1000, 1000) : sx_bits(sx_nm("v", i, q)); sx_assume(v[i * per + q] - v[i * per + q] == 0); } }
  int cut = -1, M = -1, N = -1, Z = -1, *II = 0, *JJ = 0; double *V = 0;
  if (op == 1) { int r = mm_write_mtx_crd(fn, m, n, k, I, J, v, t); if (d == 3) { sx_assert(r != 0, "integer values are not written, and that is reported"); sx_assert(sx_open_files() == open0, "files are closed"); sx_reach("checked"); return; } sx_assert(r == 0, "writing succeeds"); sx_assert(mm_write_mtx_crd(no, m, n, k, I, J, v, t) != 0, "a file that cannot be written is reported"); }
  else { // a file made by hand, perhaps cut off somewhere
    int nc = sx_pick("comments", 0, sx_param("cm", 1)), w = 2 + (d == 3 ? 1 : per); cut = sx_param("cut", 0) ? fk ? sx_pick("cut", 0, 3) : sx_pick("cut", 0, 2 + k * w) : -1; int left = cut; // numbers left out at the end of the file
    int total = 3 + k * w, keep = cut < 0 ? total : total - 1 - left, at = 0; if (keep < 0) keep = 0;
    sx_file_begin("a.mtx"); banner(0, d, s); if (nc & 1) { sx_tok_str("% a comment\n"); } int cm = nc; if (cm >= 2) { sx_tok_str("%"); for (int i = 0; i < 90; i++) sx_tok_str(" 1 2 3 4 5"); sx_tok_str("\n"); } if (cm == 3) for (int i = 0; i < 40; i++) sx_tok_str("%3 3 3\n"); 
    int sz[3]; sz[0] = m; sz[1] = n; sz[2] = k; for (int q = 0; q < 3; q++) if (at++ < keep) sx_tok_int(sz[q]); sx_file_nl();
    for (int i = 0; i < k; i++) { if (at++ < keep) sx_tok_int(I[i]); if (at++ < keep) sx_tok_int(J[i]); for (int q = 0; q < (d == 3 ? 1 : per); q++) if (at++ < keep) { if (d == 3) sx_tok_int((int)v[i]); else sx_tok_dbl(v[i * per + q]); } sx_file_nl(); }
    sx_file_end();
  }
  if (op == 3) { // mm_read_unsymmetric_sparse: real matrices, counted from zero
    int r = mm_read_unsymmetric_sparse(fn, &M, &N, &Z, &V, &II, &JJ);
    sx_assert(sx_open_files() == open0, "files are closed");
    if (d != 0 || cut >= 0) sx_assert(r != 0, "what cannot be read is reported");
    else { sx_assert(r == 0, "a complete file is read"); sx_assert(M == m && N == n && Z == k, "sizes"); for (int i = 0; i < k; i++) sx_assert(II[i] == I[i] - 1 && JJ[i] == J[i] - 1 && sx_same(V[i], v[i]), "entries come back counted from zero"); free(II); free(JJ); free(V); }
    sx_assert(mm_read_unsymmetric_sparse(no, &M, &N, &Z, &V, &II, &JJ) != 0, "a missing file is reported");
    sx_observe_i("r", r != 0); sx_reach("checked"); return;
  }
  int r = mm_read_mtx_crd(fn, &M, &N, &Z, &II, &JJ, &V, &u);
  sx_assert(sx_open_files() == open0, "files are closed");
  if (cut >= 0) sx_assert(r != 0, "a file that ends too early is reported");
  else { sx_assert(r == 0, "a complete file is read"); sx_assert(same(t, u), "the type read is the one written"); sx_assert(M == m && N == n && Z == k, "sizes");
    for (int i = 0; i < k; i++) { sx_assert(II[i] == I[i] && JJ[i] == J[i], "positions"); for (int q = 0; q < per; q++) sx_assert(sx_same(V[i * per + q], v[i * per + q]), "values"); }
    sx_assert(d != 2 || !V, "a pattern has no values"); free(II); free(JJ); if (V) free(V); }
  sx_assert(mm_read_mtx_crd(no, &M, &N, &Z, &II, &JJ, &V, &u) != 0, "a missing file is reported");
  sx_observe_i("r", r != 0); sx_reach("checked");
}
