// P21: schedules enforce every dependency and cannot deadlock: forward and backward sweeps driven by the schedule
#include "lev.h"
#include "synk/barrier.hpp"
static void sweep(LevMat &A, LevelSchedule &S, int back, int T) {
  int m = A.m, base = A.base; static int done[26]; for (int i = 0; i < m; i++) done[i] = 0;
  if (S.useBarrier) synk::Barrier::getInstance();
#pragma omp parallel
  {
    int tid = omp_get_thread_num();
    const std::vector<int> &threadBoundaries = S.threadBoundaries, &taskBoundaries = S.taskBoundaries;
    const short *nparents = back ? S.nparentsBackward : S.nparentsForward; int **parents = back ? S.parentsBackward : S.parentsForward;
    volatile int *taskFinished = S.taskFinished;
    if (!S.useBarrier) { int per = (S.ntasks + T - 1) / T, b = tid * per; for (int k = b; k < b + per && k < S.ntasks; k++) taskFinished[k] = 0; }
#pragma omp barrier
    int nt = threadBoundaries[tid + 1] - threadBoundaries[tid];
    for (int k = 0; k < nt; k++) {
      int task = back ? threadBoundaries[tid + 1] - 1 - k : threadBoundaries[tid] + k;
      if (!S.useBarrier) SPMP_LEVEL_SCHEDULE_WAIT;
      int nr = taskBoundaries[task + 1] - taskBoundaries[task];
      for (int r = 0; r < nr; r++) {
        int i = S.threadContToOrigPerm[back ? taskBoundaries[task + 1] - 1 - r : taskBoundaries[task] + r], ok = 1;
        for (int j = A.rowptr[i]; j < A.rowptr[i + 1]; j++) { int c = A.colidx[j - base] - base; if (c < m && (back ? c > i : c < i)) ok &= done[c]; }
        sx_assert(ok, back ? "backward: all later neighbours are done" : "forward: all earlier neighbours are done");
        done[i] = 1;
      }
      if (!S.useBarrier) SPMP_LEVEL_SCHEDULE_NOTIFY else synk::Barrier::getInstance()->wait(tid);
    }
  }
  for (int i = 0; i < m; i++) sx_assert(done[i] == 1, "every row is solved");
}
extern "C" void sx_main(void) {
  int T = sx_param("T", 2), base = sx_param("base", 0), m = sx_pick("m", sx_param("mmin", 0), sx_param("m", 4)), api = sx_param("api", 0);
  sx_threads(T); verifLevelThresh = sx_param("thr", 64);
  LevMat A = lev_matrix(m, base, sx_param("ord", 0), api == 4);
  LevelSchedule S; S.useBarrier = sx_param("bar", 0); S.transitiveReduction = sx_param("tr", 1); S.fuseSpMV = sx_param("fuse", 0); S.aggregateForVectorization = sx_param("agg", 0);
  lev_build(S, A, api, sx_param("cost", -1));
  if (!S.useBarrier) for (int k = 0; k < S.ntasks; k++) {
    int ok = 1; for (int q = 0; q < S.nparentsForward[k]; q++) ok &= (S.parentsForward[k][q] >= 0) & (S.parentsForward[k][q] < S.ntasks);
    for (int q = 0; q < S.nparentsBackward[k]; q++) ok &= (S.parentsBackward[k][q] >= 0) & (S.parentsBackward[k][q] < S.ntasks);
    sx_assert(ok, "parents are tasks"); if (!ok) return;
  }
  sweep(A, S, 0, T); sweep(A, S, 1, T);
  int w = 0; if (!S.useBarrier) for (int k = 0; k < S.ntasks; k++) w += S.nparentsForward[k];
  sx_observe_i("ntasks", S.ntasks); sx_reach("checked"); if (w) sx_reach("waits");
}
