// Shared by P20, P21, P22: structurally symmetric matrices with full diagonal, schedule construction, cost functions.
#pragma once
#include "sx.h"
#include "CSR.hpp"
#include "LevelSchedule.hpp"
#include "MemoryPool.hpp"
namespace SpMP { extern int verifLevelThresh; }
using namespace SpMP;
struct LevMat { int m, base, nnz; int *rowptr, *colidx, *diagptr, *extptr; int e[26][26]; };
// every graph on m vertices; rows list lower entries, the diagonal, upper entries (and halo columns beyond m); hub=k: only the first k rows have successors; ord=1 lists both parts backwards
static inline LevMat lev_matrix(int m, int base, int ord, int halo) { int hub = sx_param("hub", 99), g = sx_param("g", 0);
  LevMat A; A.m = m; A.base = base; int k = 0, cap = m * m + m; A.rowptr = sx_ints(m + 1); A.colidx = sx_ints(cap); A.diagptr = sx_ints(m); A.extptr = halo ? sx_ints(m) : 0;
  for (int i = 0; i < m; i++) { A.e[i][i] = 1; for (int j = 0; j < i; j++) A.e[i][j] = A.e[j][i] = g ? sx_gedge(g, i, j, m) : j < hub ? sx_pick(sx_nm("e", i, j), 0, 1) : 0; }
  for (int i = 0; i < m; i++) { A.rowptr[i] = base + k;
    for (int q = 0; q < i; q++) { int j = ord ? i - 1 - q : q; if (A.e[i][j]) A.colidx[k++] = base + j; }
    A.diagptr[i] = base + k; A.colidx[k++] = base + i;
    for (int q = i + 1; q < m; q++) { int j = ord ? m - q + i : q; if (A.e[i][j]) A.colidx[k++] = base + j; }
    if (halo) { A.extptr[i] = base + k; if (g ? i % 3 == 1 : sx_pick(sx_nm("h", i), 0, 1)) A.colidx[k++] = base + m; }
  }
  A.rowptr[m] = base + k; A.nnz = k; A.colidx = sx_trim(A.colidx, k); return A;
}
struct SymCost : public CostFunction { int c[26]; int getCostOf(int row) const { return c[row]; } };
// api: 0 CSR, 1 CSR + cost, 2 arrays, 3 arrays + diagptr, 4 arrays + diagptr + extptr
static inline void lev_build(LevelSchedule &S, LevMat &A, int api, int cmax) {
  if (int pool = sx_param("pool", 0)) { MemoryPool *P = MemoryPool::getSingleton(); P->initialize(pool); S.useMemoryPool = true; if (sx_param("poolat", 0)) { P->allocate(sx_param("poolat", 0)); P->setHead(P->getTail()); } }
  SymCost C; for (int i = 0; i < A.m; i++) C.c[i] = cmax >= 0 ? (sx_param("fork", 0) ? sx_pick(sx_nm("cost", i), 0, cmax) : sx_int(sx_nm("cost", i), 0, cmax)) : sx_param("g", 0) && sx_param("gcost", 0) ? (i * 5 + 3) % sx_param("gcost", 0) : A.rowptr[i + 1] - A.rowptr[i];
  PrefixSumCostFunction P(A.rowptr); const CostFunction &F = cmax >= 0 ? (const CostFunction &)C : (const CostFunction &)P;
  if (api <= 1) { CSR *a = new CSR(A.m, A.m, A.rowptr, A.colidx, NULL); if (api == 0) S.constructTaskGraph(*a); else S.constructTaskGraph(*a, F); }
  else if (api == 2) S.constructTaskGraph(A.m, A.rowptr, A.colidx, F);
  else if (api == 3) S.constructTaskGraph(A.m, A.rowptr, A.diagptr, A.colidx, F);
  else S.constructTaskGraph(A.m, A.rowptr, A.diagptr, A.extptr, A.colidx, F);
}
static inline int lev_thread(const LevelSchedule &S, int T, int task) { int t = 0; while (t + 1 < T && S.threadBoundaries[t + 1] <= task) t++; return t; }
