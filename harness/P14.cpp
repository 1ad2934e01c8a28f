// P14: permutations move every entry to its permuted place
#include "sx.h"
#include "CSR.hpp"
using namespace SpMP;
extern "C" void sx_main(void) {
  // op 0 permute, 1 permute with sorting, 2 permuteRows, 3 permuteRowptr, 4 permuteColsInPlace
  int T = sx_param("T", 2), base = sx_param("base", 0), op = sx_param("op", 0), nz = sx_param("nnz", 4), novals = sx_param("novals", 0), diag = sx_param("diag", 0), ext = sx_param("ext", 0), null = sx_param("null", 0);
  sx_threads(T);
  int m = sx_dim("m", 1, sx_param("m", 3)), n = ext ? m + 1 : op == 2 && !diag ? sx_dim("n", 1, sx_param("n", 3)) : m;
  SxMat A = sx_matrix("a", m, n, base, nz, SX_DISTINCT | (novals ? 0 : SX_BITS) | (diag ? SX_DIAG : 0)); int k = A.nnz;
  int P[40], Q[40]; sx_perm("p", P, m); for (int i = 0; i < m; i++) P[i] = sx_concretize(P[i]); for (int i = 0; i < m; i++) Q[P[i]] = i;
  CSR a(m, n, A.rowptr, A.colidx, A.values);
  int ends[40]; for (int i = 0; i < m; i++) ends[i] = A.rowptr[i + 1];
  if (ext) { a.extptr = sx_ints(m); for (int i = 0; i < m; i++) { int e = A.rowptr[i]; for (int j = A.rowptr[i] - base; j < A.rowptr[i + 1] - base; j++) { int loc = A.colidx[j] < m + base; if (j > A.rowptr[i] - base) sx_assume(!loc | (A.colidx[j - 1] < m + base)); e += loc; } a.extptr[i] = ends[i] = sx_concretize(e); } }
  double ig[40];
  if (diag) { a.diagptr = sx_ints(m); a.idiag = sx_dbls(m); for (int i = 0; i < m; i++) { int d = 0; for (int j = A.rowptr[i] - base; j < ends[i] - base; j++) if (sx_concretize(A.colidx[j] == i + base)) d = j + base; a.diagptr[i] = d; a.idiag[i] = ig[i] = sx_bits(sx_nm("ig", i)); } }
  SxSnap S = sx_snap(A); int dp[40]; if (diag) for (int i = 0; i < m; i++) dp[i] = a.diagptr[i];
  const int *rows = null ? 0 : Q; CSR *r = &a; int moveRows = op != 4, moveCols = op != 2;
  if (op == 0) r = a.permute(P, rows); else if (op == 1) r = a.permute(P, rows, true); else if (op == 2) r = a.permuteRows(rows); else if (op == 3) r = a.permuteRowptr(rows); else a.permuteColsInPlace(P);
  if (op != 4) { sx_assert(sx_unchanged(S), "the source is unchanged"); if (diag) for (int i = 0; i < m; i++) sx_assert(a.diagptr[i] == dp[i] && sx_same(a.idiag[i], ig[i]), "the source's diagonal arrays are unchanged"); if (ext) for (int i = 0; i < m; i++) sx_assert(a.extptr[i] == ends[i], "the source's extptr is unchanged"); }
  sx_assert(r->m == m && r->n == n, "dimensions"); sx_assert(r->rowptr[0] == base, "the base stays");
  if (op != 3) sx_assert((r->values != 0) == !novals, "values are present iff the source has them");
  for (int i = 0; i < m; i++) {
    int s = moveRows && !null ? Q[i] : i, b = S.rowptr[s] - base, e = S.rowptr[s + 1] - base, le = ends[s] - base;
    sx_assert(r->rowptr[i + 1] - r->rowptr[i] == e - b, "row lengths are permuted"); if (ext) sx_assert(r->extptr != 0 && r->extptr[i] - r->rowptr[i] == le - b, "extptr follows its row");
    if (op == 3) continue;
    int rb = r->rowptr[i] - base;
    for (int j = b; j < e; j++) { int ok = 0, ok2 = 0;
      for (int q = b; q < e; q++) {
        int wc = S.colidx[q], rc = r->colidx[rb + q - b]; (void)rc;
        for (int z = 0; z < 1; z++) {
          int fc = S.colidx[q]; if (moveCols && q < le) { fc = 0; for (int c = 0; c < m; c++) fc = S.colidx[q] == c + base ? P[c] + base : fc; }
          ok |= (r->colidx[rb + j - b] == fc) & (novals ? 1 : sx_same(r->values[rb + j - b], S.values[q])) & ((j < le) == (q < le));
        }
        int fj = S.colidx[j]; if (moveCols && j < le) { fj = 0; for (int c = 0; c < m; c++) fj = S.colidx[j] == c + base ? P[c] + base : fj; }
        ok2 |= (r->colidx[rb + q - b] == fj) & (novals ? 1 : sx_same(r->values[rb + q - b], S.values[j])); (void)wc;
      }
      sx_assert(ok, "every entry of the result comes from the source row"); sx_assert(ok2, "no entry is lost");
      if (op == 2) sx_assert(r->colidx[rb + j - b] == S.colidx[j] && (novals || sx_same(r->values[rb + j - b], S.values[j])), "rows are copied as they are");
      if (op == 1 && j > b && j < le) sx_assert(r->colidx[rb + j - b - 1] < r->colidx[rb + j - b], "columns ascend when sorting is asked for");
      if (op == 4 && j > b && j < le && !diag) sx_assert(r->colidx[rb + j - b - 1] < r->colidx[rb + j - b], "columns ascend"); }
    if (diag) { int want = null || op == 4 ? P[s] : op == 2 ? s : i;
      int d = sx_concretize(r->diagptr[i] - base); sx_assert(d >= rb && d < rb + le - b && r->colidx[d] == want + base, "diagptr follows its entry"); sx_assert(sx_same(r->idiag[i], ig[s]), "idiag follows its row");
      if (op == 4) { sx_assert(d == dp[i] - base, "diagptr stays"); for (int j = b + 1; j < le; j++) if (j != d && j - 1 != d) sx_assert(r->colidx[j - 1] < r->colidx[j], "lower and upper parts ascend"); } }
  }
  if (op != 3) { sx_obs_arr("ci", r->colidx, k); if (!novals) sx_obs_arrd("v", r->values, k); }
  sx_reach("checked"); if (k >= 2) sx_reach("nnz>=2");
}
