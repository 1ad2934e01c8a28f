// P03: prefixSum, prefixSumMultiple
#include "sx.h"
#include "Utils.hpp"
using namespace SpMP;
extern "C" void sx_main(void) {
  int T = sx_param("T", 2), n = sx_param("lanes", 0), R = sx_param("rounds", 2);
  sx_threads(T);
  int L = n ? n : 1;
  static int in[2][8][16], out[2][8][16], sum[2][16];
  for (int r = 0; r < R; r++) for (int t = 0; t < T; t++) for (int i = 0; i < L; i++) in[r][t][i] = out[r][t][i] = sx_int(sx_nm("x", r * 10 + t, i), -(1 << 27), 1 << 27);
  int *ws = sx_ints(L * (T + 1));
#pragma omp parallel
  {
    int t = omp_get_thread_num();
    for (int r = 0; r < R; r++) {
      if (n) prefixSumMultiple(out[r][t], sum[r], n, ws); else prefixSum(out[r][t], sum[r], ws);
#pragma omp barrier
    }
  }
  for (int r = 0; r < R; r++) for (int i = 0; i < L; i++) {
    int acc = 0;
    for (int t = 0; t < T; t++) { sx_assert(out[r][t][i] == acc, "each thread gets the exclusive prefix sum"); sx_observe_i("o", out[r][t][i]); acc += in[r][t][i]; }
    sx_assert(sum[r][i] == acc, "sum is the total over all threads");
  }
  sx_reach("checked");
}
