// P23: BFS and RCM orderings are valid and breadth-first
// shape 1: 0 - {1,2} - all others (last level reachable by two threads); 2: paths of three; 3: one path; 4: a star; 5, 7: a later candidate for the source is wider (7 is a tree); 6: a candidate has a larger eccentricity
#include "sx.h"
#include "CSR.hpp"
#include "synk/barrier.hpp"
namespace SpMP { extern int PAR_THR; }
using namespace SpMP;
static int listed(int shape, int i, int j) { static const char *L[] = {"3140505152546162", "2021324150", "30425160626570"}; const char *p = L[shape - 5]; for (; p[0] && p[1]; p += 2) if (p[0] - 48 == i && p[1] - 48 == j) return i > 0; return 0; }
extern "C" void sx_main(void) {
  int T = sx_param("T", 2), base = sx_param("base", 0), m = sx_pick("m", sx_param("mmin", 1), sx_param("m", 4)), alg = sx_param("alg", 0), dg = sx_param("diag", 2);
  sx_threads(T); int thr = sx_param("thr", 0); if (thr) PAR_THR = thr;
  int shape = sx_param("shape", 0); int e[80][80], *rowptr = sx_ints(m + 1), *colidx = sx_ints(m * m), k = 0, maxe = sx_param("maxe", 99), ne = 0;
  for (int i = 0; i < m; i++) { e[i][i] = dg == 2 ? sx_pick(sx_nm("d", i), 0, 1) : dg; for (int j = 0; j < i; j++) { int fix = shape >= 20 ? sx_gedge(shape - 20, i, j, m) : shape == 1 ? (j == 0 && i <= 2) || (j >= 1 && j <= 2 && i >= 3) : shape == 2 ? i % 3 && j == i - 1 : shape == 3 ? j == i - 1 : shape == 4 ? j == 0 : shape >= 5 ? listed(shape, i, j) : 0; e[i][j] = e[j][i] = shape ? fix : ne < maxe ? sx_pick(sx_nm("e", i, j), 0, 1) : 0; ne += e[i][j]; } }
  int rev = sx_param("rev", 0);
  for (int i = 0; i < m; i++) { rowptr[i] = base + k; for (int q = 0; q < m; q++) { int j = rev ? m - 1 - q : q; if (e[i][j]) colidx[k++] = base + j; } } rowptr[m] = base + k; colidx = sx_trim(colidx, k);
  CSR *A = new CSR(m, m, rowptr, colidx, (double *)NULL); SxSnap N = sx_snap(m, rowptr, colidx, 0);
  int *perm = sx_ints(m), *inv = sx_ints(m); for (int i = 0; i < m; i++) perm[i] = inv[i] = -1;
  if (T > 1 && sx_param("pre", 1)) synk::Barrier::getInstance(); // its initialisation is the business of P26
  sx_interleave(sx_param("ilv", 0));
  if (alg == 0) A->getBFSPermutation(perm, inv); else A->getRCMPermutation(perm, inv, alg == 2);
  sx_interleave(0);
  sx_assert(sx_unchanged(N), "the matrix is unchanged");
  int ok = 1; for (int i = 0; i < m; i++) ok &= (perm[i] >= 0) & (perm[i] < m) & (inv[i] >= 0) & (inv[i] < m);
  sx_assert(ok, "entries are rows"); if (!ok) return;
  for (int i = 0; i < m; i++) ok &= (inv[perm[i]] == i) & (perm[inv[i]] == i);
  sx_assert(ok, "perm and inversePerm are mutually inverse"); if (!ok) return;
  // walk the order (reversed for RCM): every component is one block, in breadth-first distance from its first vertex
  int pos = 0, seen[80], cut = 0; for (int i = 0; i < m; i++) seen[i] = 0;
#define AT(q) inv[alg ? m - 1 - (q) : (q)]
  while (pos < m) {
    int dist[80], r = sx_concretize(AT(pos)), q[80], h = 0, t = 0; for (int i = 0; i < m; i++) dist[i] = -1;
    if (seen[r]) cut = 1;
    dist[r] = 0; q[t++] = r; while (h < t) { int u = q[h++]; for (int v = 0; v < m; v++) if (e[u][v] && dist[v] < 0) { dist[v] = dist[u] + 1; q[t++] = v; } }
    int last = 0; for (int i = 0; i < t && pos + i < m; i++) { int v = sx_concretize(AT(pos + i)); sx_assert(dist[v] >= 0, "a component is one block"); sx_assert(dist[v] >= last, "distances from the first vertex do not decrease"); if (dist[v] > last) last = dist[v]; seen[v] = 1; }
    pos += t;
  }
  sx_assert(!cut, "components do not repeat");
  if (T == 1) sx_obs_arr("p", perm, m); sx_reach("checked");
}
