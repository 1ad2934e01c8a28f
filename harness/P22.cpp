// P22: the fused schedule makes SpMV wait for every vector entry it reads
#include "lev.h"
extern "C" void sx_main(void) {
  int T = sx_param("T", 2), base = sx_param("base", 0), m = sx_pick("m", sx_param("mmin", 0), sx_param("m", 4)), api = sx_param("api", 0);
  sx_threads(T); verifLevelThresh = sx_param("thr", 64);
  LevMat A = lev_matrix(m, base, sx_param("ord", 0), api == 4);
  LevelSchedule S; S.useBarrier = 0; S.transitiveReduction = sx_param("tr", 1); S.fuseSpMV = 1; S.aggregateForVectorization = sx_param("agg", 0);
  lev_build(S, A, api, sx_param("cost", -1));
  FusedGSAndSpMVSchedule *F = S.fusedSchedule; sx_assert(F != 0, "a fused schedule is built"); if (!F) return;
  int n = S.ntasks, ok = 1, used[640], nu = 0; static int task[256], lo[256], hi[256];
  for (int t = 0; t < T; t++) for (int k = S.threadBoundaries[t]; k < S.threadBoundaries[t + 1]; k++) { lo[k] = S.threadBoundaries[t]; hi[k] = S.threadBoundaries[t + 1]; for (int r = S.taskBoundaries[k]; r < S.taskBoundaries[k + 1]; r++) task[S.threadContToOrigPerm[r]] = k; }
  for (int u = 0; u < n; u++) {
    for (int q = 0; q < F->nparents[u]; q++) { ok &= (F->parents[u][q] >= 0) & (F->parents[u][q] < n); if (nu < 640) used[nu++] = (int)(F->parents[u] + q - F->parentsBuf); }
    for (int q = 0; q < S.nparentsBackward[u]; q++) ok &= (S.parentsBackward[u][q] >= 0) & (S.parentsBackward[u][q] < n);
    sx_assert(F->nparents[u] >= 0, "counts");
  }
  sx_assert(ok, "parents are tasks"); if (!ok) return;
  for (int a = 0; a < nu; a++) for (int b = 0; b < a; b++) ok &= used[a] != used[b];
  sx_assert(ok, "parent lists do not overlap");
  // what is known to be finished by the backward sweep once task u has waited: closure under the sweep's own order
  for (int u = 0; u < n; u++) {
    int done[256], stack[256], sp = 0; for (int k = 0; k < n; k++) done[k] = 0;
#define ADD(v) do { int v_ = (v); if (!done[v_]) { done[v_] = 1; stack[sp++] = v_; } } while (0)
    for (int q = 0; q < F->nparents[u]; q++) ADD(F->parents[u][q]);
    while (sp) { int v = stack[--sp]; if (v + 1 < hi[v]) ADD(v + 1); for (int q = 0; q < S.nparentsBackward[v]; q++) ADD(S.parentsBackward[v][q]); }
    for (int r = S.taskBoundaries[u]; r < S.taskBoundaries[u + 1]; r++) { int i = S.threadContToOrigPerm[r]; for (int j = 0; j < m; j++) if (A.e[i][j]) sx_assert(done[task[j]], "every row read by the product is finished"); }
  }
  sx_observe_i("ntasks", n); sx_observe_i("parents", nu); sx_reach("checked"); if (nu > n) sx_reach("other threads");
}
