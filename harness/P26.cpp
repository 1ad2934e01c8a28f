// P26: the synk barrier separates phases and never deadlocks
#include "sx.h"
#include "synk/barrier.hpp"
using namespace synk;
extern "C" void sx_main(void) {
  int C = sx_param("C", 2), H = sx_param("H", 1), T = C * H, R = sx_param("rounds", 2), mode = sx_param("mode", 0), ilv = sx_param("ilv", 1);
  sx_threads(T);
  static int entered[8][16]; Barrier *B = 0;
  for (int r = 0; r < 8; r++) for (int t = 0; t < 16; t++) entered[r][t] = 0;
  if (mode == 1) sx_interleave(ilv);
  if (mode == 0 || mode == 1) { B = new Barrier(C, H);
#pragma omp parallel
    B->init(omp_get_thread_num());
  } else if (mode == 2) Barrier::initializeInstance(C, H); else if (mode == 3) B = Barrier::getInstance();
  if (mode >= 4) sx_interleave(ilv > 1);
  if (mode == 4 || mode == 5) {
#pragma omp parallel
    { if (mode == 4) Barrier::initializeInstance(C, H); else Barrier::getInstance(); }
  }
  if (mode >= 2) B = Barrier::getInstance();
  if (mode == 6) { // after another team size
    sx_threads(T == 1 ? 2 : T - 1); 
#pragma omp parallel
    Barrier::getInstance()->wait(omp_get_thread_num());
    sx_threads(T); B = Barrier::getInstance(); }
  sx_interleave(mode == 1 ? 0 : ilv);
#pragma omp parallel
  {
    int t = omp_get_thread_num();
    for (int r = 0; r < R; r++) {
      entered[r][t] = 1;
      B->wait(t);
      for (int u = 0; u < T; u++) sx_assert(entered[r][u] == 1, "no thread leaves the barrier before every thread has entered it");
    }
  }
  sx_interleave(0);
  if (mode >= 2) Barrier::deleteInstance(); else delete B;
  sx_observe_i("n", T);
  sx_reach("checked");
}
