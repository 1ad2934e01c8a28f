// P31: the instrumented barrier separates phases and accounts the time threads wait
#include "sx.h"
#include "synk/loadimba.hpp"
using namespace synk;
static int entered[8][8], rnd_[8], nread[8][8]; static long clk[8][8][4];
// the time stamp counter: reading q of thread t in round r is an input
extern "C" unsigned long sx_clock(void) { int t = omp_get_thread_num(), r = rnd_[t], q = nread[t][r]; if (q < 3) nread[t][r] = q + 1; return clk[t][r][q]; }
extern "C" void sx_main(void) {
  int C = sx_param("C", 2), H = sx_param("H", 1), T = C * H, R = sx_param("rounds", 2), mode = sx_param("mode", 0), U = sx_param("uses", 2);
  sx_threads(T);
  LoadImba *B = 0;
  int live = sx_heap_live();
  if (mode == 3) { B = new LoadImba(C, H); delete B; sx_assert(sx_heap_live() == live, "a barrier that was never used releases what it allocated"); sx_reach("checked"); return; }
  if (sx_param("ilv", 1) > 1) sx_interleave(1);
  if (mode == 0) { B = new LoadImba(C, H);
#pragma omp parallel
    B->init(omp_get_thread_num(), U);
  } else if (mode == 1) { LoadImba::initializeInstance(C, H); B = LoadImba::getInstance(); U = 1; } else if (mode == 2) { B = LoadImba::getInstance(); U = 1; }
  else { 
#pragma omp parallel
    { if (mode == 4) LoadImba::initializeInstance(C, H); else LoadImba::getInstance(); }
    B = LoadImba::getInstance(); U = 1; }
  sx_interleave(0);
  sx_assert(B->numUses == U, "uses");
  long W = (1L << sx_param("bits", 8)) - 1;
  for (int r = 0; r < R; r++) for (int t = 0; t < T; t++) { entered[r][t] = 0; nread[t][r] = 0;
    clk[t][r][0] = 4 * r * (W + 1) + (sx_long(sx_nm("in", t, r), 0, W) & W); clk[t][r][1] = clk[t][r][2] = clk[t][r][3] = 4 * r * (W + 1) + (W + 1) + (sx_long(sx_nm("out", t, r), 0, W) & W); }
  sx_interleave(sx_param("ilv", 1));
#pragma omp parallel
  {
    int t = omp_get_thread_num();
    for (int r = 0; r < R; r++) {
      rnd_[t] = r;
      entered[r][t] = 1;
      B->wait(t, r % U);
      for (int u = 0; u < T; u++) sx_assert(entered[r][u] == 1, "no thread leaves the barrier before every thread has entered it");
    }
  }
  sx_interleave(0);
  for (int j = 0; j < U; j++) for (int t = 0; t < T; t++) {
    unsigned long n = 0, mn = ~0UL, mx = 0, tot = 0, bar = 0;
    for (int r = j; r < R; r += U) { unsigned long last = 0; for (int u = 0; u < T; u++) { unsigned long c = clk[u][r][0]; last = c > last ? c : last; }
      unsigned long w = last - clk[t][r][0]; n++; mn = w < mn ? w : mn; mx = w > mx ? w : mx; tot += w; bar += clk[t][r][1] - last; }
    ThreadLoadImba *L = B->limba[t];
    sx_assert(L->cnt[j] == n, "the uses of each barrier are counted");
    sx_assert((L->min[j] == mn) & (L->max[j] == mx), "shortest and longest wait for the last thread to come");
    sx_assert(L->tot[j] == tot, "total wait for the last thread to come");
    sx_assert(L->bar[j] == bar, "time spent in the barrier after the last thread came");
    sx_observe_i("tot", L->tot[j]); }
  if (sx_param("print", 1)) { B->print(true); B->printLoadImbalance(1000); } B->reset();
  for (int j = 0; j < U; j++) for (int t = 0; t < T; t++) { ThreadLoadImba *L = B->limba[t]; sx_assert(L->cnt[j] == 0 && L->tot[j] == 0 && L->bar[j] == 0 && L->max[j] == 0 && L->min[j] == ~0UL, "reset clears the times"); }
  if (mode == 0) delete B; else { LoadImba::deleteInstance(); LoadImba *D = LoadImba::getInstance(); sx_assert(D->limba[0]->cnt[0] == 0, "a deleted instance is made again"); LoadImba::deleteInstance(); }
  sx_assert(sx_heap_live() == live, "everything the barrier allocated is released");
  sx_reach("checked");
}
