// P18: getSymmetricNnzPattern is the union of A and its transpose
#include "sx.h"
#include "MemoryPool.hpp"
#include "CSR.hpp"
using namespace SpMP;
extern "C" void sx_main(void) {
  int T = sx_param("T", 2), base = sx_param("base", 0), nz = sx_param("nnz", 5), diag = sx_param("diag", 1), ext = sx_param("ext", 0);
  sx_threads(T);
  int m = sx_dim("m", diag && !ext ? 0 : 1, sx_param("m", 3)), n = ext ? m + 1 : m;
  SxMat A = sx_matrix("a", m, n, base, nz, (ext ? SX_DISTINCT : SX_SORTED) | (diag ? SX_DIAG : 0)); MemoryPool *P = MemoryPool::getSingleton(); size_t tail = 0; int at = sx_param("at", 64);
  if (sx_param("pool", 0)) { P->initialize(4096); if (at) P->allocate(at); P->setHead(P->getTail()); int *r = P->allocate<int>(m + 1); for (int i = 0; i <= m; i++) r[i] = A.rowptr[i]; A.rowptr = r; tail = P->getTail(); } // a matrix in the pool
  SxSnap S = sx_snap(A);
  CSR a(m, n, A.rowptr, A.colidx, 0); int ends[40]; for (int i = 0; i < m; i++) ends[i] = A.rowptr[i + 1];
  if (ext) { a.extptr = sx_ints(m); for (int i = 0; i < m; i++) { int e = A.rowptr[i]; for (int j = A.rowptr[i] - base; j < A.rowptr[i + 1] - base; j++) { int loc = A.colidx[j] < m + base; if (j > A.rowptr[i] - base) sx_assume((A.colidx[j - 1] < m + base) & (!loc | (A.colidx[j - 1] < A.colidx[j]))); e += loc; } a.extptr[i] = ends[i] = sx_concretize(e); } }
  int has[40][40], sym = 1;
  for (int i = 0; i < m; i++) for (int c = 0; c < m; c++) { int h = 0; for (int j = A.rowptr[i] - base; j < ends[i] - base; j++) h |= A.colidx[j] == c + base; has[i][c] = h; }
  for (int i = 0; i < m; i++) for (int c = 0; c < m; c++) sym &= has[i][c] == has[c][i];
  int *rp = 0, *dp = 0, *xp = (int *)8, *ci = 0; bool got = getSymmetricNnzPattern(&a, &rp, &dp, &xp, &ci);
  sx_assert(got == (sym != 0), "the result tells whether the pattern was already symmetric"); sx_assert(sx_unchanged(S), "A is unchanged"); if (ext) for (int i = 0; i < m; i++) sx_assert(a.extptr[i] == ends[i], "extptr is unchanged");
  sx_observe_i("sym", got);
  if (sx_param("pool", 0)) { if (got) sx_assert(P->getTail() == tail && rp == 0, "nothing stays allocated in the pool"); else sx_assert(P->contains(rp) && P->contains(rp + m) && (rp + m < A.rowptr || rp > A.rowptr + m), "the row pointers are a block of the pool of their own"); sx_assert(P->contains(A.rowptr) && P->contains(A.rowptr + m), "the matrix stays in the pool"); }
  if (got) { sx_reach("symmetric"); sx_reach("checked"); return; }
  sx_assert(rp[0] == base, "rowptr starts at the base");
  for (int i = 0; i < m; i++) {
    int cnt = 0; for (int c = 0; c < m; c++) cnt += has[i][c] | has[c][i];
    int b = sx_concretize(rp[i]) - base, e = sx_concretize(rp[i + 1]) - base, xl = A.rowptr[i + 1] - ends[i];
    sx_assert(e - b == cnt + xl, "rows have one entry per position of A or its transpose, plus the non-local ones");
    int d = -1;
    for (int j = b; j < e - xl; j++) { int ok = 0; for (int c = 0; c < m; c++) ok |= (ci[j] == c + base) & (has[i][c] | has[c][i]); sx_assert(ok, "every position belongs to A or its transpose"); if (j > b) sx_assert(ci[j - 1] < ci[j], "columns ascend and are distinct"); if (sx_concretize(ci[j] == i + base)) d = j + base; }
    for (int j = 0; j < xl; j++) sx_assert(ci[e - xl + j] == S.colidx[ends[i] - base + j], "non-local columns are kept after the local ones");
    if (diag) sx_assert(dp[i] == d, "the diagonal pointer points at the diagonal");
    if (ext) sx_assert(xp[i] == e - xl + base, "extptr");
    if (!ext) sx_assert(xp == 0, "no extptr without non-local columns");
  }
  sx_obs_arr("rp", rp, m + 1); sx_reach("unsymmetric"); sx_reach("checked");
}
