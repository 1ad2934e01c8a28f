// Interface between a harness and the symbolic executor; harness/sx_native.cpp implements it for replay on the real build.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <climits>
#include <cmath>
#include <omp.h>
extern "C" {
int sx_int(const char *name, int lo, int hi);          // arbitrary int in [lo,hi]
long sx_long(const char *name, long lo, long hi);
double sx_bits(const char *name);                      // arbitrary 64-bit pattern
double sx_val(const char *name, int lo, int hi);       // arbitrary integer-valued double
double sx_pow2(const char *name);                      // one of 1, 2, -1, 4
int sx_concretize(int v);                              // split into one path per value
long sx_concretize_long(long v);
void sx_assume(int c);
void sx_assert(int c, const char *msg);
void sx_reach(const char *label);
void sx_threads(int T);
int sx_param(const char *name, int dflt);
void sx_observe_i(const char *name, long v);
void sx_observe_d(const char *name, double v);
int sx_is_native(void);
void *sx_huge(long size); int sx_huge_hits(void *p, long k); int sx_huge_right(void *p, long k, void *src, int c);   // symbolic run only
void sx_interleave(int on);
int sx_heap_live(void); int sx_open_files(void);
void sx_opt(const char *name, int v);
const char *sx_path(const char *name);
void sx_file_begin(const char *name); void sx_tok_str(const char *s); void sx_tok_int(int v); void sx_tok_dbl(double v); void sx_file_nl(void); void sx_file_end(void);
long sx_file_size(const char *name); int sx_file_byte(const char *name, int i); void sx_file_putbyte(const char *name, int b); void sx_file_truncate(const char *name, int n);
}
// number with index in its name
static inline const char *sx_nm(const char *p, int i, int j = -1) { static char b[4][48]; static int k; k = (k + 1) & 3; char *o = b[k]; int n = 0; while (p[n]) { o[n] = p[n]; n++; } 
  int v[2] = {i, j}; for (int q = 0; q < 2; q++) { if (v[q] < 0) continue; o[n++] = '_'; if (v[q] >= 100) o[n++] = '0' + v[q] / 100; if (v[q] >= 10) o[n++] = '0' + v[q] / 10 % 10; o[n++] = '0' + v[q] % 10; } o[n] = 0; return o; }
static inline int sx_pick(const char *name, int lo, int hi) { return sx_concretize(sx_int(name, lo, hi)); }
// bitwise equality of doubles (NaN-safe), branchless
static inline long sx_db(double d) { long b; memcpy(&b, &d, 8); return b; }
static inline int sx_same(double a, double b) { return sx_db(a) == sx_db(b); }

// ---- symbolic sparse matrices
enum { SX_DISTINCT = 1, SX_SORTED = 2, SX_DIAG = 4, SX_VALS = 8 /*integer values*/, SX_BITS = 16 /*arbitrary bits*/, SX_ROWPTRSYM = 32, SX_SYMSTRUCT = 64, SX_NODIAG = 128, SX_LOWERFIRST = 256, SX_SYMVALS = 512 };
struct SxMat { int m, n, base, nnz; int *rowptr, *colidx; double *values; };
static inline int *sx_ints(int n) { int *p; if (posix_memalign((void **)&p, 64, sizeof(int) * (n > 0 ? n : 0))) return 0; return p; }
static inline double *sx_dbls(int n) { double *p; if (posix_memalign((void **)&p, 64, sizeof(double) * (n > 0 ? n : 0))) return 0; return p; }
// the first n numbers in an allocation of their own, so that reading past them shows
static inline int *sx_trim(int *p, int n) { int *q = sx_ints(n); for (int i = 0; i < n; i++) q[i] = p[i]; free(p); return q; }
// m,n concrete; row lengths are symbolic and split; columns symbolic
// fixed structures for larger matrices (sx_param "form"), the values stay symbolic: 1 row lengths 0,1,2,.. 2 and back, 3 band, 4 arrow, 5 mostly empty, 6 one long row
static inline int sx_form_has(int form, int m, int n, int flags, int i, int c) {
  if (c == i && (flags & SX_DIAG)) return 1; if (c == i && (flags & SX_NODIAG)) return 0;
  switch (form) { case 1: return (c + i * 3) % n < i; case 2: return (c + i) % n < m - i; case 3: return c - i <= 2 && i - c <= 2; case 4: return c == 0 || i == 0 || c == i; case 5: return i % 4 == 1 && (c == 0 || c == (i * 5) % n || c == n - 1); default: return i == m / 2 || c == i; } }
static inline int sx_form_at(int form, int m, int n, int flags, int i, int c) { return sx_form_has(form, m, n, flags, i, c) || ((flags & SX_SYMSTRUCT) && c < m && sx_form_has(form, m, n, flags, c, i)); }
// the columns of row i in the order they are listed: ascending, or odd positions backwards and then even ones (columns past m last; with "low", lower before diagonal before upper)
static inline int sx_form_row(int form, int m, int n, int flags, int i, int *out) { int k = 0, low = sx_param("low", 0), srt = (flags & SX_SORTED) || sx_param("srt", 0);
  for (int part = 0; part < 4; part++) { int *l = (int *)malloc(4 * n + 4), q = 0; for (int c = 0; c < n; c++) { int g = c >= m ? 3 : !low ? 0 : c < i ? 0 : c == i ? 1 : 2; if (g == part && sx_form_at(form, m, n, flags, i, c)) l[q++] = c; }
    if (srt) for (int j = 0; j < q; j++) out[k++] = l[j]; else { for (int j = q - 1; j >= 0; j--) if (j & 1) out[k++] = l[j]; for (int j = 0; j < q; j += 2) out[k++] = l[j]; } free(l); }
  return k; }
static inline SxMat sx_form(int form, const char *pf, int m, int n, int base, int flags) {
  SxMat A; A.m = m; A.n = n; A.base = base; A.rowptr = sx_ints(m + 1); A.rowptr[0] = base; int *c = (int *)malloc(4 * m * n + 4), t = 0;
  for (int i = 0; i < m; i++) { t += sx_form_row(form, m, n, flags, i, c + t); A.rowptr[i + 1] = base + t; }
  A.nnz = t; A.colidx = sx_ints(t); A.values = flags & (SX_VALS | SX_BITS) ? sx_dbls(t) : 0; for (int j = 0; j < t; j++) A.colidx[j] = base + c[j]; free(c);
  char nb[16]; int q = 0; while (pf[q] && q < 8) { nb[q] = pf[q]; q++; } nb[q] = 'v'; nb[q + 1] = 0; int cv = sx_param("cvals", 0);
  if (A.values) for (int i = 0, j = 0; j < t; j++) { while (j + base >= A.rowptr[i + 1]) i++; int g = A.colidx[j] - base; A.values[j] = cv == 1 ? j * 5 % 7 - 3 : cv == 2 && j != t / 2 && j != t - 2 ? (i + g) * 5 % 11 - 5 + i * g % 3 : flags & SX_BITS ? sx_bits(sx_nm(nb, j)) : sx_val(sx_nm(nb, j), -8, 8); }
  return A; }
// the entries of a fixed structure as a list, in scrambled order, one-based; returns their number
static inline int sx_form_list(int form, int m, int n, int flags, int *r, int *c) { int t = 0, *row = (int *)malloc(4 * n + 4);
  for (int i = m - 1; i >= 0; i--) { int ii = i % 2 ? i : m - 1 - (m - 1) % 2 - i; if (ii < 0) ii = m - 1; int k = sx_form_row(form, m, n, flags, ii, row); for (int j = 0; j < k; j++) { r[t] = ii + 1; c[t++] = row[j] + 1; } }
  for (int j = 0; j + 5 < t; j += 3) { int a = r[j], b = c[j]; r[j] = r[t - 1 - j]; c[j] = c[t - 1 - j]; r[t - 1 - j] = a; c[t - 1 - j] = b; } free(row); return t; }
// a dimension: split over lo..hi, or just hi for a fixed structure
static inline int sx_dim(const char *name, int lo, int hi) { return sx_param("form", 0) ? hi : sx_pick(name, lo, hi); }
static inline SxMat sx_matrix(const char *pf, int m, int n, int base, int maxnnz, int flags) {
  int form = sx_param("form", 0); if (form) return sx_form(form, pf, m, n, base, flags);
  SxMat A; A.m = m; A.n = n; A.base = base; A.rowptr = sx_ints(m + 1); A.rowptr[0] = base; int tot = 0;
  char nb[16]; int q = 0; while (pf[q] && q < 8) { nb[q] = pf[q]; q++; }
  for (int i = 0; i < m; i++) { int lo = (flags & SX_DIAG) && i < n ? 1 : 0; int rest = 0; if (flags & SX_DIAG) for (int r = i + 1; r < m; r++) rest += r < n; int hi = maxnnz - tot - rest; if ((flags & (SX_DISTINCT | SX_SORTED)) && hi > n) hi = n; if (hi < lo) hi = lo; nb[q] = 'l'; nb[q + 1] = 0; int len = sx_pick(sx_nm(nb, i), lo, hi); tot += len; A.rowptr[i + 1] = base + tot; }
  A.nnz = tot; A.colidx = sx_ints(tot); A.values = (flags & (SX_VALS | SX_BITS)) ? sx_dbls(tot) : 0;
  nb[q] = 'c'; nb[q + 1] = 0;
  for (int j = 0; j < tot; j++) A.colidx[j] = base + (n > 0 ? sx_int(sx_nm(nb, j), 0, n - 1) : 0);
  for (int i = 0; i < m; i++) {
    int b = A.rowptr[i] - base, e = A.rowptr[i + 1] - base;
    if (flags & SX_SORTED) for (int j = b + 1; j < e; j++) sx_assume(A.colidx[j - 1] < A.colidx[j]);
    else if (flags & SX_DISTINCT) for (int j = b; j < e; j++) for (int k = b; k < j; k++) sx_assume(A.colidx[k] != A.colidx[j]);
    if ((flags & SX_DIAG) && i < n) { int c = 0; for (int j = b; j < e; j++) c |= A.colidx[j] == i + base; sx_assume(c); }
    if (flags & SX_NODIAG) for (int j = b; j < e; j++) sx_assume(A.colidx[j] != i + base);
  }
  if (A.values) { nb[q] = 'v'; for (int j = 0; j < tot; j++) A.values[j] = flags & SX_BITS ? sx_bits(sx_nm(nb, j)) : sx_val(sx_nm(nb, j), -8, 8); }
  if (flags & SX_SYMSTRUCT) for (int i = 0; i < m; i++) for (int j = A.rowptr[i] - base; j < A.rowptr[i + 1] - base; j++) {
    int c = A.colidx[j] == i + base; for (int r = 0; r < m; r++) for (int k = A.rowptr[r] - base; k < A.rowptr[r + 1] - base; k++) { int hit = (A.colidx[j] == r + base) & (A.colidx[k] == i + base); if (flags & SX_SYMVALS) hit &= A.values[j] == A.values[k]; c |= hit; } sx_assume(c); }
  return A;
}
// does row i (0-based) of a CSR hold column c (in its base)?
static inline int sx_has(const int *rowptr, const int *colidx, int i, int c) { int b = rowptr[0], r = 0; for (int j = rowptr[i] - b; j < rowptr[i + 1] - b; j++) r |= colidx[j] == c; return r; }
static inline int sx_isperm(const int *p, int n) { int ok = 1; for (int i = 0; i < n; i++) { ok &= (p[i] >= 0) & (p[i] < n); for (int j = 0; j < i; j++) ok &= p[i] != p[j]; } return ok; }
static inline void sx_perm(const char *pf, int *p, int n) {
  if (sx_param("form", 0)) { int k = sx_pick(sx_nm(pf, 0), 0, 4); for (int i = 0; i < n; i++) p[i] = k == 0 ? i : k == 1 ? n - 1 - i : k == 2 ? (i + 1) % n : k == 3 ? (i & 1 ? i / 2 : (n + 1) / 2 - 1 - i / 2 + n / 2) : i == 0 ? n - 1 : i == n - 1 ? 0 : i; return; }   // of a few kinds
  for (int i = 0; i < n; i++) { p[i] = sx_int(sx_nm(pf, i), 0, n - 1); for (int j = 0; j < i; j++) sx_assume(p[i] != p[j]); } }
// snapshots, to check that an input is left alone
struct SxSnap { int m, nnz; int *rowptr, *colidx; double *values; const int *r0, *c0; const double *v0; };
static inline SxSnap sx_snap(int m, const int *rowptr, const int *colidx, const double *values) { SxSnap S; S.m = m; S.nnz = rowptr[m] - rowptr[0]; S.r0 = rowptr; S.c0 = colidx; S.v0 = values; S.rowptr = (int *)malloc(4 * (m + 1)); S.colidx = (int *)malloc(4 * S.nnz + 4); S.values = (double *)malloc(8 * S.nnz + 8);
  for (int i = 0; i <= m; i++) S.rowptr[i] = rowptr[i]; for (int i = 0; i < S.nnz; i++) { S.colidx[i] = colidx[i]; if (values) S.values[i] = values[i]; } return S; }
static inline SxSnap sx_snap(const SxMat &A) { return sx_snap(A.m, A.rowptr, A.colidx, A.values); }
static inline int sx_unchanged(const SxSnap &S) { int ok = 1; for (int i = 0; i <= S.m; i++) ok &= S.rowptr[i] == S.r0[i]; for (int i = 0; i < S.nnz; i++) { ok &= S.colidx[i] == S.c0[i]; if (S.v0) ok &= sx_same(S.values[i], S.v0[i]); } return ok; }
static inline void sx_obs_arr(const char *nm, const int *p, int n) { for (int i = 0; i < n; i++) sx_observe_i(nm, p[i]); }
static inline void sx_obs_arrd(const char *nm, const double *p, int n) { for (int i = 0; i < n; i++) sx_observe_d(nm, p[i]); }
extern "C" void sx_main(void);

// graphs of fixed structure on m vertices (j < i): 1 path, 2 path numbered out of order, 3 star, 4 binary tree, 5 grid of width 4, 6 three interleaved paths, 7 scattered edges, 8 layers of 5 joined completely, 9 cliques of 4 and isolated vertices, 10 everyone meets the last, 11 two-level tree whose middle vertices share leaves
static inline int sx_graph(int g, int i, int j, int m) {
  if (i < j) { int t = i; i = j; j = t; }
  int k = m % 7 ? 7 : 5, a = i * k % m, b = j * k % m;
  return g == 1 ? j == i - 1 : g == 2 ? a - b == 1 || b - a == 1 : g == 3 ? j == 0 : g == 4 ? j == (i - 1) / 2 : g == 5 ? (i % 4 != 0 && j == i - 1) || j == i - 4 : g == 6 ? j == i - 3 : g == 7 ? (i * 31 + j * 17 + i * j) % 9 == 0
    : g == 8 ? i / 5 == j / 5 + 1 : g == 9 ? i / 4 == j / 4 && i / 4 % 2 == 0 : g == 10 ? i == m - 1 : (j == 0 && i <= 4) || (j >= 1 && j <= 4 && i > 4 && (i + j) % 3 != 0);
}
// the same with the first "tog" of some scattered pairs present or absent in every combination
static inline int sx_gedge(int g, int i, int j, int m) {
  static int used = 0; int b = sx_graph(g, i, j, m);
  if (used < sx_param("tog", 0) && (i * 29 + j * 11) % 13 == 0) { used++; b ^= sx_pick(sx_nm("x", i, j), 0, 1); }
  return b;
}
