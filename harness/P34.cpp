// P34: bit vectors: every bit is on its own, and of several threads exactly one gets to set a bit
#include "sx.h"
#include "reordering/BitVector.hpp"
using namespace SpMP;
extern "C" void sx_main(void) {
  int T = sx_param("T", 2), n = sx_pick("n", sx_param("nmin", 1), sx_param("n", 3)), L = sx_param("L", 2), mode = sx_param("mode", 1);
  sx_threads(T); BitVector bv(n); static int op[8][8], bit[8][8], won[8][8]; int was[640], ref[640];
  for (int i = 0; i < n; i++) sx_assert(!bv.get(i), "a new vector is clear");
  if (mode == 0) { // one thread, any sequence of operations on any bits
    for (int i = 0; i < n; i++) ref[i] = 0;
    for (int k = 0; k < L; k++) {
      int o = sx_pick(sx_nm("o", k), 0, 2), b = sx_int(sx_nm("b", k), 0, n - 1);
      if (o == 0) { bv.set(b); ref[b] = 1; } else if (o == 1) { bool w = bv.testAndSet(b); sx_assert(w == !ref[b], "testAndSet tells whether the bit was clear"); ref[b] = 1; } else { bv.atomicClear(b); ref[b] = 0; }
      int p = sx_int(sx_nm("p", k), 0, n - 1); sx_assert(bv.get(p) == (ref[p] != 0), "every bit holds what was last stored in it");
    }
    sx_observe_i("x", bv.get(0)); sx_reach("checked"); return;
  }
  for (int i = 0; i < n; i++) { was[i] = sx_pick(sx_nm("w", i), 0, 1); if (was[i]) bv.set(i); }
  // mode 1: any threads test and set any bits; mode 2: the bits of a thread are its own, with any operation
  for (int t = 0; t < T; t++) for (int k = 0; k < L; k++) { op[t][k] = mode == 1 ? sx_pick(sx_nm("o", t, k), 1, 2) : sx_pick(sx_nm("o", t, k), 0, 3); bit[t][k] = sx_pick(sx_nm("b", t, k), 0, n - 1); won[t][k] = 0; if (mode == 2) sx_assume(bit[t][k] % T == t); }
  sx_interleave(1);
#pragma omp parallel
  { int t = omp_get_thread_num();
    for (int k = 0; k < L; k++) { int b = bit[t][k]; switch (op[t][k]) { case 0: bv.set(b); break; case 1: won[t][k] = bv.testAndSet(b); break; case 2: won[t][k] = bv.get(b); break; default: bv.atomicClear(b); } } }
  sx_interleave(0);
  if (mode == 1) for (int b = 0; b < n; b++) { int tried = 0, w = 0; for (int t = 0; t < T; t++) for (int k = 0; k < L; k++) if (bit[t][k] == b) { if (op[t][k] == 1) { tried = 1; w += won[t][k]; } else sx_assert(!was[b] || won[t][k], "a set bit is seen"); }
      sx_assert(w == (tried && !was[b]), "exactly one thread gets to set a clear bit"); sx_assert(bv.get(b) == (was[b] || tried), "bits are set exactly when a thread set them"); }
  else for (int b = 0; b < n; b++) { int cur = was[b], t = b % T; for (int k = 0; k < L; k++) if (bit[t][k] == b) { int o = op[t][k]; if (o == 1) sx_assert(won[t][k] == !cur, "testAndSet tells whether the bit was clear"); if (o == 2) sx_assert(won[t][k] == cur, "get tells what the bit holds"); cur = o == 2 ? cur : o != 3; }
      sx_assert(bv.get(b) == (cur != 0), "what threads do to other bits changes nothing"); }
  sx_reach("checked");
}
