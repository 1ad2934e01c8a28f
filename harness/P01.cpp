// P01: thread partitions
#include "sx.h"
#include "Utils.hpp"
using namespace SpMP;
extern "C" void sx_main(void) {
  int T = sx_param("T", 2), lb = sx_param("lb", 0), n = 0, *ps = 0; int b[8], e[8];
  sx_threads(T);
  if (!lb) n = sx_int("n", 0, INT_MAX - T + 1);
  else {
    n = sx_pick("n", 0, sx_param("nmax", 5)); ps = sx_ints(n + 1);
    for (int i = 0; i <= n; i++) { ps[i] = sx_int(sx_nm("p", i), 0, sx_param("vmax", INT_MAX - T)); if (i) sx_assume(ps[i - 1] <= ps[i]); }
  }
  int N = 0;
#pragma omp parallel
  {
    int bb, ee;
    if (!lb) getSimpleThreadPartition(&bb, &ee, n); else getLoadBalancedPartition(&bb, &ee, ps, n);
    int t = omp_get_thread_num(); b[t] = bb; e[t] = ee; if (t == 0) N = omp_get_num_threads();
  }
  sx_assert(N == T, "team size");
  sx_assert(b[0] == 0, "the first thread starts at 0");
  sx_assert(e[T - 1] == n, "the last thread ends at n");
  for (int t = 0; t < T; t++) {
    sx_assert(b[t] <= e[t], "intervals are not reversed");
    if (t) sx_assert(b[t] == e[t - 1], "each thread starts where the previous one ends");
    sx_observe_i("b", b[t]); sx_observe_i("e", e[t]);
    if (!lb) sx_assert((long)(e[t] - b[t]) * T < (long)n + T, "no interval is longer than ceil(n/T)");
    else if (sx_param("load", 0)) {
      int bt = sx_concretize(b[t]), et = sx_concretize(e[t]); if (bt < 0 || et > n || bt > et) continue;
      int hv = 0; for (int i = bt; i < et; i++) { int w = ps[i + 1] - ps[i]; hv = w > hv ? w : hv; }
      sx_assert((ps[et] - ps[bt] - (long)hv) * T < (long)(ps[n] - ps[0]) + T, "work is at most ceil(W/T) plus the heaviest item");
    }
  }
  sx_reach("checked"); 
}
