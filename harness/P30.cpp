// P30: parallel routines have no races, and T threads give the results of one thread
#include "sx.h"
#include "CSR.hpp"
#include "COO.hpp"
#include "Utils.hpp"
using namespace SpMP;
static long out[2][4000]; static int cnt[2], cur;
static void rec(long v) { if (cnt[cur] < 4000) out[cur][cnt[cur]++] = v; }
static void recs(const int *p, int n) { for (int i = 0; i < n; i++) rec(p[i]); }
static void recd(const double *p, int n) { for (int i = 0; i < n; i++) rec(sx_db(p[i])); }
static void recm(const CSR *r, int nnz, int vals = 1) { rec(r->m); rec(r->n); recs(r->rowptr, r->m + 1); recs(r->colidx, nnz); if (vals && r->values) recd(r->values, nnz); if (r->diagptr) recs(r->diagptr, r->m); if (r->extptr) recs(r->extptr, r->m); if (r->idiag) recd(r->idiag, r->m); if (r->diag) recd(r->diag, r->m); }
extern "C" void sx_main(void) {
  int T = sx_param("T", 2), base = sx_param("base", 0), op = sx_param("op", 0), nz = sx_param("nnz", 4), novals = sx_param("novals", 0), ext = sx_param("ext", 0), form = sx_param("form", 0);
  int fl = op == 10 ? SX_SORTED | SX_DIAG : op == 7 || op == 8 || op == 12 ? SX_DISTINCT | SX_VALS : op == 9 || op == 16 || op == 13 ? SX_DISTINCT | SX_DIAG | SX_BITS : SX_DISTINCT | SX_BITS; if (novals) fl &= ~(SX_BITS | SX_VALS);
  int m = op == 14 || op == 15 ? 1 : sx_dim("m", 1, sx_param("m", 3)), n = op == 0 || op == 7 || op == 8 || op == 3 ? sx_dim("n", 1, sx_param("n", 3)) : m; if (ext) n = m + 1;
  SxMat A = sx_matrix("a", m, n, base, op == 14 || op == 15 ? 0 : nz, fl); int k = A.nnz; if (op == 8) for (int j = 0; j < k; j++) A.colidx[j] = sx_concretize(A.colidx[j]);
  int *ex = 0; if (ext) { ex = sx_ints(m); for (int i = 0; i < m; i++) { int e = A.rowptr[i]; for (int j = A.rowptr[i] - base; j < A.rowptr[i + 1] - base; j++) { int loc = A.colidx[j] < m + base; if (j > A.rowptr[i] - base) sx_assume(!loc | (A.colidx[j - 1] < m + base)); if (op == 10 && j > A.rowptr[i] - base) sx_assume(A.colidx[j - 1] < A.colidx[j]); e += loc; } ex[i] = sx_concretize(e); } }
  int P[40], Q[40]; if (op >= 1 && op <= 5) { sx_perm("p", P, m); for (int i = 0; i < m; i++) P[i] = sx_concretize(P[i]); for (int i = 0; i < m; i++) Q[P[i]] = i; }
  double x[80], y[80]; if (op == 7 || op == 8) for (int i = 0; i < (form ? 2 * (m > n ? m : n) : 6); i++) { x[i] = sx_val(sx_nm("x", i), -8, 8); y[i] = sx_val(sx_nm("y", i), -8, 8); }
  int nv = 0, pv[40]; double v[40]; if (op == 15) { nv = sx_dim("nv", 0, sx_param("nv", 4)); sx_perm("pv", pv, nv); for (int i = 0; i < nv; i++) v[i] = sx_bits(sx_nm("v", i)); }
  int nx = 1, ny = 1, nzz = 1; if (op == 14) { nx = sx_pick("nx", 1, 2); ny = sx_pick("ny", 1, 3); nzz = sx_pick("nz", 1, 2); }
  int cr[400], cc[400]; double cv[400]; int cn = 0; if (op == 6) { cn = k; for (int i = 0; i < m; i++) for (int j = A.rowptr[i] - base; j < A.rowptr[i + 1] - base; j++) { int q = (j * 3 + 1) % (k % 3 ? k : 1) ; (void)q; cr[j] = i + 1; cc[j] = A.colidx[j] - base + 1; cv[j] = novals ? 0 : A.values[j]; } for (int j = 0; j + 1 < k; j += 2) { int t = cr[j]; cr[j] = cr[j + 1]; cr[j + 1] = t; t = cc[j]; cc[j] = cc[j + 1]; cc[j + 1] = t; double d = cv[j]; cv[j] = cv[j + 1]; cv[j + 1] = d; } }
  double al = 1, be = 0, ga = 0; if (op == 7 || op == 8) { al = sx_pow2("al"); be = sx_pow2("be"); ga = sx_pow2("ga"); }
  for (cur = 0; cur < 2; cur++) {
    sx_threads(cur ? 1 : T); cnt[cur] = 0;
    int *rp = sx_ints(m + 1), *ci = sx_ints(k); double *vv = A.values ? sx_dbls(k) : 0; for (int i = 0; i <= m; i++) rp[i] = A.rowptr[i]; for (int j = 0; j < k; j++) { ci[j] = A.colidx[j]; if (vv) vv[j] = A.values[j]; }
    CSR a(m, n, rp, ci, vv); if (ext) { a.extptr = sx_ints(m); for (int i = 0; i < m; i++) a.extptr[i] = ex[i]; }
    if (op == 0) { CSR *t = a.transpose(); recm(t, k); }
    else if (op == 1 || op == 2) { CSR *t = a.permute(P, Q, op == 2); recm(t, k); }
    else if (op == 3) { CSR *t = a.permuteRows(Q); recm(t, k); }
    else if (op == 4) { CSR *t = a.permuteRowptr(Q); recs(t->rowptr, m + 1); }
    else if (op == 5) { a.permuteColsInPlace(P); recm(&a, k); }
    else if (op == 6) { int *orp = sx_ints(m + 1), *oci = sx_ints(k); double *ov = sx_dbls(k); dcoo2csr(m, cn, orp, oci, ov, cr, cc, cv, sx_param("sort", 1), base); recs(orp, m + 1); recs(oci, k); recd(ov, k); }
    else if (op == 7) { double w[40]; for (int i = 0; i < 40; i++) w[i] = 7; a.multiplyWithVector(w, al, x, be, y, ga); recd(w, m); a.multiplyWithVector(w, x); recd(w, m); }
    else if (op == 8) { double w[80]; for (int i = 0; i < 80; i++) w[i] = 7; a.multiplyWithDenseMatrix(w, 2, 2, 1, al, x, 2, 1, be, y, 2, 1, ga); recd(w, 2 * m); a.multiplyWithDenseMatrix(w, 2, x); recd(w, 2 * m); }
    else if (op == 9) { if (A.values) a.computeInverseDiag(); CSR L, U; splitLU(a, &L, &U); recm(&L, sx_concretize(L.rowptr[m]) - base); recm(&U, sx_concretize(U.rowptr[m]) - base); }
    else if (op == 10) { int *sp = 0, *sd = 0, *sx = 0, *sc = 0; bool s = getSymmetricNnzPattern(&a, &sp, &sd, &sx, &sc); rec(s); if (!s) { recs(sp, m + 1); recs(sc, sx_concretize(sp[m]) - base); recs(sd, m); if (sx) recs(sx, m); } }
    else if (op == 11) { a.make1BasedIndexing(); recm(&a, k); a.make0BasedIndexing(); recm(&a, k); }
    else if (op == 12) { rec(a.isSymmetric(!novals)); rec(a.isSymmetric(false)); if (m == n && !ext) rec(a.hasZeroDiag()); if (k) { rec(a.getBandwidth()); double w = a.getAverageWidth(); recd(&w, 1); if (!ext) { w = a.getAverageWidth(true); recd(&w, 1); } } rec(a.getMaxDegree()); rec(a.equals(a)); }
    else if (op == 13) { a.constructDiagPtr(); if (A.values) a.computeInverseDiag(); CSR b(a); recm(&b, k); }
    else if (op == 14) { CSR b; generate3D27PtLaplacian(&b, nx, ny, nzz, base); recm(&b, b.rowptr[b.m] - base); }
    else if (op == 15) { double d[40], e[40]; int inv[40], ia[40]; for (int i = 0; i < 40; i++) d[i] = e[i] = 0, inv[i] = ia[i] = 0; getInversePerm(inv, pv, nv); recs(inv, nv); rec(isPerm(pv, nv)); rec(isInversePerm(pv, inv, nv)); reorderVectorOutOfPlace(d, v, pv, nv); recd(d, nv); reorderVectorOutOfPlaceWithInversePerm(e, v, pv, nv); recd(e, nv); reorderVectorOutOfPlace(ia, inv, pv, nv); recs(ia, nv); reorderVectorOutOfPlaceWithInversePerm(ia, inv, pv, nv); recs(ia, nv); reorderVector(d, e, pv, nv); recd(d, nv); copyVector(e, d, nv); recd(e, nv); char b[300]; parMemset(b, 5, 300); parMemcpy(b + 1, b + 150, 149); for (int i = 0; i < 300; i += 7) rec(b[i]); }
    else if (op == 16) { a.constructDiagPtr(); recs(a.diagptr, m); if (A.values) { a.computeInverseDiag(); recd(a.idiag, m); } }
  }
  int same = cnt[0] == cnt[1]; for (int i = 0; i < cnt[0] && i < cnt[1]; i++) same &= out[0][i] == out[1][i];
  sx_assert(same, "T threads give the result of one thread"); for (int i = 0; i < cnt[0] && i < 60; i++) sx_observe_i("o", out[0][i]);
  sx_reach("checked");
}
