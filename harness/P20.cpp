// P20: a level schedule orders every row exactly once
#include "lev.h"
extern "C" void sx_main(void) {
  int T = sx_param("T", 2), base = sx_param("base", 0), m = sx_pick("m", sx_param("mmin", 0), sx_param("m", 4)), api = sx_param("api", 0), reuse = sx_param("reuse", 0);
  sx_threads(T); verifLevelThresh = sx_param("thr", 64);
  LevMat A = lev_matrix(m, base, sx_param("ord", 0), api == 4);
  SxSnap N = sx_snap(m, A.rowptr, A.colidx, 0);
  LevelSchedule S; S.useBarrier = sx_param("bar", 0); S.transitiveReduction = sx_param("tr", 1); S.fuseSpMV = sx_param("fuse", 0); S.aggregateForVectorization = sx_param("agg", 0);
  if (reuse) { LevelSchedule S0; S0.useBarrier = S.useBarrier; sx_threads(reuse); int rp[2] = {0, 1}, ci[1] = {0}; S0.constructTaskGraph(1, rp, ci, CostFunction()); sx_threads(T); }
  lev_build(S, A, api, sx_param("cost", -1));
  sx_assert(sx_unchanged(N), "the matrix is unchanged");
  const int *o2t = S.origToThreadContPerm, *t2o = S.threadContToOrigPerm;
  int ok = 1; for (int i = 0; i < m; i++) { ok &= (o2t[i] >= 0) & (o2t[i] < m) & (t2o[i] >= 0) & (t2o[i] < m); }
  sx_assert(ok, "permutation entries are rows"); if (!ok) return;
  for (int i = 0; i < m; i++) ok &= (t2o[o2t[i]] == i) & (o2t[t2o[i]] == i);
  sx_assert(ok, "the permutations are mutually inverse");
  sx_assert((int)S.threadBoundaries.size() == T + 1 && S.threadBoundaries[0] == 0 && S.threadBoundaries[T] == S.ntasks && (int)S.taskBoundaries.size() == S.ntasks + 1 && S.taskBoundaries[0] == 0 && S.taskBoundaries[S.ntasks] == m, "boundaries start at 0 and end at the number of tasks and rows");
  for (int t = 0; t < T; t++) ok &= S.threadBoundaries[t] <= S.threadBoundaries[t + 1];
  for (int t = 0; t < S.ntasks; t++) ok &= S.taskBoundaries[t] <= S.taskBoundaries[t + 1];
  sx_assert(ok, "boundaries are in order"); if (!ok) return;
  int L = S.levIndices.size() - 1; sx_assert(L >= 0 && S.levIndices[0] == 0 && S.levIndices[L] == m, "levels cover the rows");
  for (int l = 0; l < L; l++) sx_assert(S.levIndices[l] < S.levIndices[l + 1], "levels are not empty");
  int lev[26];
  for (int t = 0; t < T; t++) {
    if (S.useBarrier) sx_assert(S.threadBoundaries[t + 1] - S.threadBoundaries[t] == L, "one task per level and thread with barriers");
    for (int k = S.threadBoundaries[t]; k < S.threadBoundaries[t + 1]; k++) for (int r = S.taskBoundaries[k]; r < S.taskBoundaries[k + 1]; r++) lev[sx_concretize(t2o[r])] = S.useBarrier ? k - S.threadBoundaries[t] : k;
  }
  for (int i = 0; i < m; i++) for (int j = 0; j < i; j++) if (A.e[i][j]) sx_assert(S.useBarrier ? lev[j] < lev[i] : lev[j] != lev[i], S.useBarrier ? "a level only depends on earlier levels" : "rows of one task are independent");
  if (sx_param("pool", 0)) { MemoryPool *P = MemoryPool::getSingleton(); int in = 1; if (m > 0) in &= P->contains(o2t) & P->contains(o2t + m - 1) & P->contains(t2o) & P->contains(t2o + m - 1);
    if (S.ntasks > 0) { int k = S.ntasks - 1; in &= P->contains(S.nparentsForward) & P->contains(S.nparentsForward + k) & P->contains(S.nparentsBackward + k) & P->contains(S.parentsForward + k) & P->contains(S.parentsBackward + k) & P->contains((const void *)(S.taskFinished + k)); for (int t = 0; t <= k; t++) for (int j = 0; j < S.nparentsForward[t]; j++) in &= P->contains(S.parentsForward[t] + j); for (int t = 0; t <= k; t++) for (int j = 0; j < S.nparentsBackward[t]; j++) in &= P->contains(S.parentsBackward[t] + j); }
    sx_assert(in, "the schedule stays inside the live part of the pool"); }
  sx_obs_arr("t2o", t2o, m); for (int t = 0; t <= T; t++) sx_observe_i("tb", S.threadBoundaries[t]); for (int t = 0; t <= S.ntasks; t++) sx_observe_i("kb", S.taskBoundaries[t]);
  sx_reach("checked"); if (L > 1) sx_reach("levels>1"); if (S.ntasks > 1) sx_reach("tasks>1");
}
