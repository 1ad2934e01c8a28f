// P25: the bipartite BFS ordering is valid and breadth-first
// shape 1: row 0 meets every column; 2: a path; 3: column 0 meets every row; 4: rows 0 and 1 meet every column but 0, row 0 column 0
#include "sx.h"
#include "CSR.hpp"
#include "synk/barrier.hpp"
#include "reordering/BFSBipartite.hpp"
using namespace SpMP;
extern "C" void sx_main(void) {
  int T = sx_param("T", 2), base = sx_param("base", 0), m = sx_pick("m", sx_param("mmin", 0), sx_param("m", 2)), n = sx_pick("n", sx_param("nmin", 0), sx_param("n", 2));
  sx_threads(T); int shape = sx_param("shape", 0), rev = sx_param("rev", 0), maxe = sx_param("maxe", 99), ne = 0;
  int e[40][40], *rp = sx_ints(m + 1), *ci = sx_ints(m * n), *rpt = sx_ints(n + 1), *cit = sx_ints(m * n), k = 0;
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { int fix = shape >= 20 ? (shape == 31 ? i / 3 == j / 4 : shape == 32 ? i > 0 && j > 1 && (i + 2 * j) % 5 < 2 : sx_gedge(shape - 20, i + 1, j, m > n ? m + 1 : n + 1)) : shape == 1 ? i == 0 : shape == 2 ? j == i || j == i + 1 : shape == 3 ? j == 0 : (i < 2 && j > 0) || (i == 0 && j == 0) || i - 1 == j; e[i][j] = shape ? fix : ne < maxe ? sx_pick(sx_nm("e", i, j), 0, 1) : 0; ne += e[i][j]; }
  for (int i = 0; i < m; i++) { rp[i] = base + k; for (int q = 0; q < n; q++) { int j = rev & 1 ? n - 1 - q : q; if (e[i][j]) ci[k++] = base + j; } } rp[m] = base + k; ci = sx_trim(ci, k); k = 0;
  for (int j = 0; j < n; j++) { rpt[j] = base + k; for (int q = 0; q < m; q++) { int i = rev & 2 ? m - 1 - q : q; if (e[i][j]) cit[k++] = base + i; } } rpt[n] = base + k; cit = sx_trim(cit, k);
  CSR *A = new CSR(m, n, rp, ci, (double *)NULL), *AT = new CSR(n, m, rpt, cit, (double *)NULL); SxSnap N = sx_snap(m, rp, ci, 0), NT = sx_snap(n, rpt, cit, 0);
  int *pr = sx_ints(m), *ir = sx_ints(m), *pc = sx_ints(n), *ic = sx_ints(n); for (int i = 0; i < m; i++) pr[i] = ir[i] = -1; for (int i = 0; i < n; i++) pc[i] = ic[i] = -1;
  if (T > 1) synk::Barrier::getInstance(); // its initialisation is the business of P26
  sx_interleave(sx_param("ilv", 0));
  bfsBipartite(*A, *AT, pr, ir, pc, ic);
  sx_interleave(0);
  sx_assert(sx_unchanged(N) & sx_unchanged(NT), "the matrices are unchanged");
  int ok = 1; for (int i = 0; i < m; i++) ok &= (pr[i] >= 0) & (pr[i] < m) & (ir[i] >= 0) & (ir[i] < m); for (int i = 0; i < n; i++) ok &= (pc[i] >= 0) & (pc[i] < n) & (ic[i] >= 0) & (ic[i] < n);
  sx_assert(ok, "entries are rows and columns"); if (!ok) return;
  for (int i = 0; i < m; i++) ok &= (ir[pr[i]] == i) & (pr[ir[i]] == i); for (int i = 0; i < n; i++) ok &= (ic[pc[i]] == i) & (pc[ic[i]] == i);
  sx_assert(ok, "permutations and inverses agree"); if (!ok) return;
  // walk both orders: each component is one block of rows and one block of columns, in breadth-first distance from its first row
  int rpos = 0, cpos = 0, seenr[40];  for (int i = 0; i < m; i++) seenr[i] = 0;
  while (rpos < m) {
    int dr[40], dc[40], r = sx_concretize(ir[rpos]), q[80], h = 0, t = 0, nr = 0, nc = 0; for (int i = 0; i < 40; i++) dr[i] = dc[i] = -1;
    sx_assert(!seenr[r], "components do not repeat"); dr[r] = 0; q[t++] = r;
    while (h < t) { int u = q[h++]; if (u < 40) { nr++; for (int v = 0; v < n; v++) if (e[u][v] && dc[v] < 0) { dc[v] = dr[u] + 1; q[t++] = v + 40; } } else { u -= 40; nc++; for (int v = 0; v < m; v++) if (e[v][u] && dr[v] < 0) { dr[v] = dc[u] + 1; q[t++] = v; } } }
    int last = 0; for (int i = 0; i < nr && rpos + i < m; i++) { int v = sx_concretize(ir[rpos + i]); sx_assert(dr[v] >= 0, "rows of a component are one block"); sx_assert(dr[v] >= last, "row distances do not decrease"); if (dr[v] > last) last = dr[v]; seenr[v] = 1; }
    last = 0; for (int i = 0; i < nc && cpos + i < n; i++) { int v = sx_concretize(ic[cpos + i]); sx_assert(dc[v] >= 0, "columns of a component are one block"); sx_assert(dc[v] >= last, "column distances do not decrease"); if (dc[v] > last) last = dc[v]; }
    rpos += nr; cpos += nc;
  }
  if (T == 1) { sx_obs_arr("r", pr, m); sx_obs_arr("c", pc, n); } sx_reach("checked");
}
