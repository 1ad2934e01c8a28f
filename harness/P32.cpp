// P32: objects release exactly what they own, and routines what they need on the way
#include "lev.h"
#include "COO.hpp"
#include "Vector.hpp"
#include "mm_io.h"
#include "synk/barrier.hpp"
#include "synk/reduce.hpp"
#include "reordering/BFSBipartite.hpp"
#include "reordering/BitVector.hpp"
namespace SpMP { extern int PAR_THR; }
namespace SpMP { void findConnectedComponents(const CSR *, int *, int **, int **, int **, int **); void findConnectedComponentsWithBitVector(const CSR *, int *, int **, int **, int **, int **, const BitVector *); }
static int live, files;
static void begin() { live = sx_heap_live(); files = sx_open_files(); }
static void end(const char *what) { sx_assert(sx_heap_live() == live, what); sx_assert(sx_open_files() == files, "every file is closed"); }
#define OP(what, ...) do { begin(); { __VA_ARGS__; } end(what); } while (0)
static void use_barrier(int T) { synk::Barrier b(T, 1);
#pragma omp parallel
  { b.init(omp_get_thread_num()); b.wait(omp_get_thread_num()); } }
static long add(long a, long b) { return a + b; }
static void use_reduce(int T) { synk::ReduceBarrier<long> b(T, 1);
#pragma omp parallel
  { b.init(omp_get_thread_num()); b.wait(omp_get_thread_num(), 0, 1, add); } }
extern "C" void sx_main(void) {
  int T = sx_param("T", 2), base = sx_param("base", 0), op = sx_param("op", 0), nz = sx_param("nnz", 3), vals = sx_param("vals", 1);
  sx_threads(T); synk::Barrier::getInstance();
  int sq = op != 1 && op != 2 && op != 6 && op != 10;
  if (op <= 6) {
    int m = sx_pick("m", 0, sx_param("m", 3)), n = sq ? m : sx_pick("n", 1, 3);
    SxMat A = sx_matrix("a", m, n, base, nz + (op == 3 || op == 4 ? m : 0), (op == 4 ? SX_SORTED : SX_DISTINCT) | (vals ? SX_BITS : 0) | (op == 3 || op == 4 || sx_param("diag", 0) ? SX_DIAG : 0)); int k = A.nnz;
    int P[8], Q[8]; if (op == 2) { sx_perm("p", P, m > n ? m : n); for (int i = 0; i < (m > n ? m : n); i++) P[i] = sx_concretize(P[i]); for (int i = 0; i < (m > n ? m : n); i++) Q[P[i]] = i; if (m != n) for (int i = 0; i < m; i++) Q[i] = m - 1 - i; }
    CSR a(m, n, A.rowptr, A.colidx, A.values);
    if (op == 0) { int full = sx_param("diag", 0);
      OP("a copy", CSR b(a); CSR c(b); c.dealloc(); c.dealloc());
      OP("an allocated matrix", CSR b(m, n, k); CSR *c = new CSR(m, n, k); delete c);
      OP("a matrix over given arrays", CSR b(m, n, A.rowptr, A.colidx, A.values); if (full) { b.constructDiagPtr(); b.constructDiagPtr(); if (vals) { b.computeInverseDiag(); b.computeInverseDiag(); } });
      OP("queries", a.isSymmetric(vals); a.isSymmetric(vals, true); a.hasZeroDiag(); if (k) { a.getBandwidth(); a.getAverageWidth(); a.getMaxDegree(); } a.equals(a); a.equals(a, true); a.make1BasedIndexing(); a.make0BasedIndexing());
      if (vals) { double x[8] = {0}, w[8]; OP("products", a.multiplyWithVector(w, x); a.multiplyWithVector(w, 1, x, 1, w, 1); a.multiplyWithDenseMatrix(w, 1, x)); }
    } else if (op == 1) OP("a transpose", CSR *t = a.transpose(); delete t);
    else if (op == 2) {
      OP("a row permutation", CSR *t = a.permuteRows(Q); delete t);
      OP("permuted row pointers", CSR *t = a.permuteRowptr(Q); delete t);
      if (m == n) { OP("a permutation", CSR *t = a.permute(P, Q, sx_param("sort", 0)); delete t); OP("columns in place", a.permuteColsInPlace(P)); }
    } else if (op == 3) OP("the parts of a split", CSR L; CSR U; splitLU(a, &L, &U));
    else if (op == 4) { int *sp = 0, *sd = 0, *sx = 0, *sc = 0; bool s; OP("a symmetric pattern", s = getSymmetricNnzPattern(&a, &sp, &sd, &sx, &sc); if (!s) { FREE(sp); FREE(sd); FREE(sx); FREE(sc); }); (void)s; }
    else if (op == 5) { if (vals) OP("a converted matrix", COO c; c.m = m; c.n = m; c.nnz = k; c.rowidx = MALLOC(int, k); c.colidx = MALLOC(int, k); c.values = MALLOC(double, k); for (int i = 0; i < m; i++) for (int j = A.rowptr[i] - base; j < A.rowptr[i + 1] - base; j++) { c.rowidx[j] = i + 1; c.colidx[j] = A.colidx[j] - base + 1; c.values[j] = A.values[j]; } CSR b; b.alloc(m, k, base == 0); dcoo2csr(&b, &c, base); CSR d(m, m, k); dcoo2csr(m, k, d.rowptr, d.colidx, d.values, c.rowidx, c.colidx, c.values, true, base)); }
    else if (op == 6 && vals) {
      OP("storing and loading a binary file", a.storeBin(sx_path("a.bin")); CSR b; b.loadBin(sx_path("a.bin"), base); b.loadBin(sx_path("a.bin"), base); CSR c(sx_path("a.bin"), base); CSR d(a); d.loadBin(sx_path("a.bin"), base); d.loadBin(sx_path("nodir/a.bin")); b.storeBin(sx_path("nodir/b.bin")));
    }
  } else if (op == 7) { int nx = sx_pick("nx", 1, 2), ny = sx_pick("ny", 1, 2), nzz = sx_pick("nz", 1, 2); OP("a Laplacian", CSR b; generate3D27PtLaplacian(&b, nx, ny, nzz, base); CSR c; generate3D27PtLaplacian(&c, 1, base); CSR d("2", base)); }
  else if (op == 8) { // level schedules
    int m = sx_pick("m", 0, sx_param("m", 3)), api = sx_param("api", 0); LevMat A = lev_matrix(m, base, 0, 0); verifLevelThresh = sx_param("thr", 64); int bar = sx_param("bar", 0), fuse = sx_param("fuse", 0), tr = sx_param("tr", 1), agg = sx_param("agg", 0);
    PrefixSumCostFunction F(A.rowptr);
    OP("a level schedule", LevelSchedule S; S.useBarrier = bar; S.transitiveReduction = tr; S.fuseSpMV = fuse; S.aggregateForVectorization = agg;
      { if (api == 0) { CSR a(m, m, A.rowptr, A.colidx, NULL); S.constructTaskGraph(a); } else if (api == 2) S.constructTaskGraph(m, A.rowptr, A.colidx, F); else S.constructTaskGraph(m, A.rowptr, A.diagptr, A.colidx, F); });
  } else if (op == 9) { // orderings and components
    int m = sx_pick("m", 1, sx_param("m", 4)), e[8][8], rp[9], ci[64], k = 0; for (int i = 0; i < m; i++) { e[i][i] = 0; for (int j = 0; j < i; j++) e[i][j] = e[j][i] = sx_pick(sx_nm("e", i, j), 0, 1); } for (int i = 0; i < m; i++) { rp[i] = base + k; for (int j = 0; j < m; j++) if (e[i][j]) ci[k++] = base + j; } rp[m] = base + k;
    CSR a(m, m, rp, ci, (double *)NULL); int perm[9], inv[9]; if (sx_param("par", 0)) PAR_THR = sx_param("par", 0);
    OP("a BFS ordering", a.getBFSPermutation(perm, inv)); OP("an RCM ordering", a.getRCMPermutation(perm, inv, false)); OP("an RCM ordering from pseudo-peripheral vertices", a.getRCMPermutation(perm, inv));
    OP("components", int n; int *r; int *z; int *p; int *s; findConnectedComponents(&a, &n, &r, &z, &p, &s); delete[] r; delete[] z; delete[] p; delete[] s);
    for (int part = 0; part < 3; part++) OP("components of a part", BitVector bv(m); if (part == 0) bv.set(0); else if (part == 1) for (int i = 0; i < m; i++) bv.set(i); for (int q = 0; q < m; q++) for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) if (e[i][j] && bv.get(i)) bv.set(j); int n; int *r; int *z; int *p; int *s; findConnectedComponentsWithBitVector(&a, &n, &r, &z, &p, &s, &bv); delete[] r; delete[] z; delete[] p; delete[] s);
    OP("a bipartite ordering", int p2[9]; int q2[9]; bfsBipartite(a, a, perm, inv, p2, q2));
  } else if (op == 10) { // Matrix Market files
    int m = sx_pick("m", 1, 2), n = sx_pick("n", 1, 2); SxMat A = sx_matrix("a", m, n, 0, nz, SX_SORTED | SX_VALS); CSR a(m, n, A.rowptr, A.colidx, A.values);
    OP("storing a matrix", a.storeMatrixMarket(sx_path("a.mtx")));
    OP("loading a matrix", COO c; loadMatrixMarket(sx_path("a.mtx"), c); COO d; loadMatrixMarketTransposed(sx_path("a.mtx"), d));
    if (m == n && A.nnz) OP("a matrix from a file", CSR b(sx_path("a.mtx"), base));
    if (A.nnz) OP("storing a coordinate matrix", COO c; loadMatrixMarket(sx_path("a.mtx"), c); c.storeMatrixMarket(sx_path("b.mtx")); c.storeMatrixMarket(sx_path("nodir/b.mtx")));
    int cut = sx_pick("cut", 0, 4);
    sx_file_begin("c.mtx"); sx_tok_str("%%MatrixMarket "); sx_tok_str("matrix "); sx_tok_str(cut == 1 ? "array " : "coordinate "); sx_tok_str(cut == 2 ? "complex " : "real "); sx_tok_str("general "); sx_tok_str("\n"); if (cut != 3) { sx_tok_int(m); sx_tok_int(n); sx_tok_int(2); sx_file_nl(); sx_tok_int(1); sx_tok_int(cut == 4 ? 3 : 1); sx_tok_dbl(1); sx_file_nl(); } sx_file_end();
    OP("a rejected file", COO c; bool ok = loadMatrixMarket(sx_path("c.mtx"), c); COO d; ok |= loadMatrixMarketTransposed(sx_path("c.mtx"), d); sx_assert(!ok, "rejected"));
    OP("a rejected vector", double *v = 0; int vm; int vn; bool ok = loadVectorMatrixMarket(sx_path("c.mtx"), &v, &vm, &vn); if (ok) { FREE(v); } ok = loadVectorMatrixMarket(sx_path("nodir/c.mtx"), &v, &vm, &vn));
  } else if (op == 11) { // vectors
    int n = sx_pick("n", 0, 4), P[8]; sx_perm("p", P, n); double v[8], t[8]; for (int i = 0; i < n; i++) v[i] = sx_bits(sx_nm("v", i)); int inv[8];
    OP("vector operations", getInversePerm(inv, P, n); isPerm(P, n); isInversePerm(P, inv, n); reorderVector(v, P, n); reorderVectorWithInversePerm(v, inv, n); reorderVector(v, t, P, n); reorderVectorWithInversePerm(v, t, inv, n));
    sx_file_begin("v.mtx"); sx_tok_str("%%MatrixMarket "); sx_tok_str("matrix "); sx_tok_str("array "); sx_tok_str("real "); sx_tok_str("general "); sx_tok_str("\n"); sx_tok_int(n); sx_tok_int(1); sx_file_nl(); for (int i = 0; i < n; i++) { sx_tok_dbl(1.5); sx_file_nl(); } sx_file_end();
    OP("a vector file", double *d = 0; int vm; int vn; bool ok = loadVectorMatrixMarket(sx_path("v.mtx"), &d, &vm, &vn); sx_assert(ok, "loads"); FREE(d));
  } else if (op == 12) { // the pool
    OP("a pool", MemoryPool p(4096); p.allocate<int>(10); p.allocateFront<int>(3); MemoryPool q; q.initialize(100); q.finalize(); q.initialize(200); MemoryPool r);
  } else if (op == 13) { // barriers
    OP("barriers", use_barrier(T); synk::Barrier c(T, 1));
    OP("reducing barriers", use_reduce(T); synk::ReduceBarrier<long> c(T, 1));
  }
  sx_observe_i("left", sx_heap_live() - live); sx_observe_i("open", sx_open_files());
  sx_reach("checked");
}
