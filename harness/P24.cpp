// P24: connected components are found exactly
#include "sx.h"
#include "CSR.hpp"
#include "reordering/BitVector.hpp"
using namespace SpMP;
namespace SpMP { void findConnectedComponents(const CSR *, int *, int **, int **, int **, int **); void findConnectedComponentsWithBitVector(const CSR *, int *, int **, int **, int **, int **, const BitVector *); }
extern "C" void sx_main(void) {
  int T = sx_param("T", 2), base = sx_param("base", 0), m = sx_pick("m", sx_param("mmin", 1), sx_param("m", 4)), bvm = sx_param("bv", 0), g = sx_param("g", 0), dg = sx_param("diag", 2);
  sx_threads(T); int e[80][80], *rowptr = sx_ints(m + 1), *colidx = sx_ints(m * m), k = 0, maxe = sx_param("maxe", 99), ne = 0, rev = sx_param("rev", 0), hide[80], nh = 0;
  for (int i = 0; i < m; i++) hide[i] = g && bvm ? (i * 5 + i / 3) % 4 == bvm - 1 : bvm ? sx_pick(sx_nm("h", i), 0, 1) : 0;
  for (int i = 0; i < m; i++) { nh += hide[i]; e[i][i] = dg == 2 ? sx_pick(sx_nm("d", i), 0, 1) : dg; for (int j = 0; j < i; j++) { e[i][j] = e[j][i] = g ? hide[i] == hide[j] && sx_gedge(g, i, j, m) : ne < maxe && hide[i] == hide[j] ? sx_pick(sx_nm("e", i, j), 0, 1) : 0; ne += e[i][j]; } }
  for (int i = 0; i < m; i++) { rowptr[i] = base + k; for (int q = 0; q < m; q++) { int j = rev ? m - 1 - q : q; if (e[i][j]) colidx[k++] = base + j; } } rowptr[m] = base + k; colidx = sx_trim(colidx, k);
  CSR *A = new CSR(m, m, rowptr, colidx, (double *)NULL); SxSnap N = sx_snap(m, rowptr, colidx, 0); BitVector bv(m); for (int i = 0; i < m; i++) if (hide[i]) bv.set(i);
  int nc = -1, *root = 0, *size = 0, *pre = 0, *nodes = 0;
  sx_interleave(sx_param("ilv", 1));
  if (bvm) findConnectedComponentsWithBitVector(A, &nc, &root, &size, &pre, &nodes, &bv); else findConnectedComponents(A, &nc, &root, &size, &pre, &nodes);
  sx_interleave(0);
  sx_assert(sx_unchanged(N), "the matrix is unchanged");
  int c[80], w = 0; for (int i = 0; i < m; i++) c[i] = -1; // reference: smallest vertex reachable
  for (int i = 0; i < m; i++) if (!hide[i] && c[i] < 0) { int q[80], h = 0, t = 0; c[i] = w; q[t++] = i; while (h < t) { int u = q[h++]; for (int v = 0; v < m; v++) if (e[u][v] && c[v] < 0) { c[v] = w; q[t++] = v; } } w++; }
  sx_assert(nc == w, "number of components"); if (nc != w) return;
  int tot = 0, ok = 1; static int comp[80]; for (int i = 0; i < m; i++) comp[i] = -1;
  for (int x = 0; x < nc; x++) { sx_assert(pre[x] == tot, "offsets are the sums of the sizes"); sx_assert(size[x] > 0, "components are not empty"); tot += size[x]; if (tot > m - nh || pre[x] + size[x] != tot) { sx_assert(0, "sizes add up"); return; } }
  sx_assert(tot == m - nh, "every vertex is in one component");
  for (int x = 0; x < nc; x++) for (int j = pre[x]; j < pre[x] + size[x]; j++) { int v = nodes[j]; ok &= (v >= 0) & (v < m); if (!ok) break; ok &= comp[v] == -1; comp[v] = x; }
  sx_assert(ok, "the sorted list holds every vertex once"); if (!ok) return;
  for (int i = 0; i < m; i++) for (int j = 0; j < i; j++) if (!hide[i] && !hide[j]) sx_assert((comp[i] == comp[j]) == (c[i] == c[j]), "same component exactly when connected");
  for (int x = 0; x < nc; x++) { int r = root[x]; sx_assert((r >= 0) & (r < m), "roots are vertices"); if ((r < 0) | (r >= m)) return; sx_assert(comp[r] == x, "the root belongs to its component"); sx_assert(r == nodes[pre[x]], "the root is the first listed vertex of its component"); if (x) sx_assert(root[x - 1] < r, "components are in the order of their roots"); for (int j = pre[x] + 1; j < pre[x] + size[x]; j++) sx_assert(nodes[j - 1] < nodes[j], "the vertices of a component ascend"); }
  if (T == 1) for (int x = 0; x < nc; x++) sx_observe_i("r", root[x]); sx_reach("checked"); if (nc > 1) sx_reach("components>1");
}
