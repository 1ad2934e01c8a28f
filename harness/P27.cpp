// P27: the reducing barrier returns the full reduction to every thread
#include "sx.h"
#include "synk/reduce.hpp"
using namespace synk;
typedef long T_;
static T_ add(T_ a, T_ b) { return a + b; }
static T_ mul(T_ a, T_ b) { return a * b; }
static T_ mx(T_ a, T_ b) { return a > b ? a : b; }
extern "C" void sx_main(void) {
  int C = sx_param("C", 2), H = sx_param("H", 1), T = C * H, R = sx_param("rounds", 2), mode = sx_param("mode", 0), op = sx_param("op", 0);
  sx_threads(T);
  static T_ in[8][16], out[8][16];
  for (int r = 0; r < R; r++) for (int t = 0; t < T; t++) { in[r][t] = sx_long(sx_nm("x", r, t), -1000, 1000); out[r][t] = -77777; }
  T_ zero = op == 0 ? 0 : LONG_MIN; T_ (*f)(T_, T_) = op == 0 ? add : mx;
  sx_interleave(mode == 1);
  ReduceBarrier<T_> *B = new ReduceBarrier<T_>(C, H);
#pragma omp parallel
  B->init(omp_get_thread_num());
  sx_interleave(mode == 0);
#pragma omp parallel
  {
    int t = omp_get_thread_num();
    for (int r = 0; r < R; r++) out[r][t] = B->wait(t, zero, in[r][t], f);
  }
  sx_interleave(0);
  for (int r = 0; r < R; r++) { T_ w = zero; for (int t = 0; t < T; t++) w = f(w, in[r][t]); for (int t = 0; t < T; t++) sx_assert(out[r][t] == w, "every thread gets the reduction of this round's values"); }
  delete B;
  for (int t = 0; t < T; t++) sx_observe_i("o", out[0][t]);
  sx_reach("checked");
}
