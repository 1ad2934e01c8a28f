// P36: correctnessCheck
#include "sx.h"
#include <cmath>
#include "Utils.hpp"
using namespace SpMP;
template<class T> static T value(const char *kind, const char *val, int kinds, int conc, int *k) {
  *k = sx_pick(kind, 0, kinds);
  switch (*k) {
    case 1: return (T)INFINITY; case 2: return (T)-INFINITY; case 3: return (T)-0.0; case 4: return (T)1e30; case 5: return (T)1e-30; case 6: return (T)NAN;
    default: { int R = sx_param("v", 9), v = sx_int(val, -R, R); if (conc) v = sx_concretize(v); return v; }
  }
}
template<class T> static void run() {
  // tolerances and magnitudes at which every computation involved is exact or far from the boundary
  static const double tols[] = {1e-5, 0.25, 0.5, 4}, igns[] = {0, 1, 2.5, 1e31};
  int n = sx_pick("n", 0, sx_param("n", 2)), f = sx_param("tolign", -1), ti = f >= 0 ? f % 4 : sx_pick("tol", 0, 3), ii = f >= 0 ? f / 4 : sx_pick("ign", 0, 3), full = sx_param("conc", 0), ok = 1, k;
  double tol = tols[ti], ign = igns[ii];
  T *e = (T *)(sizeof(T) == 8 ? (void *)sx_dbls(n) : (void *)sx_ints(n)), *a = (T *)(sizeof(T) == 8 ? (void *)sx_dbls(n) : (void *)sx_ints(n)), e0[4], a0[4];
  for (int i = 0; i < n; i++) {
    T x = value<T>(sx_nm("ek", i), sx_nm("e", i), 5, 1, &k), y = value<T>(sx_nm("ak", i), sx_nm("a", i), 6, full || !(x == 1 || x == 2 || x == 4 || x == 8 || x == -1 || x == -2 || x == -4 || x == -8), &k);
    e[i] = e0[i] = x; a[i] = a0[i] = y;
    int good;
    if (k == 6) good = 0;                                     // not a number
    else {
      double m = x < 0 ? -x : x, w = y < 0 ? -y : y; int inf = (m > 1e200) | (w > 1e200);
      int same = x == y, small = (m < ign) & (w < ign), close = 0;
      if (!inf && m != 0) { double d = x > y ? (double)x - y : (double)y - x; close = d < tol * m; }
      good = same | small | close;
    }
    ok &= good;
  }
  int r = ti == 0 && ii == 0 ? correctnessCheck<T>(e, a, n) : ii == 0 ? correctnessCheck<T>(e, a, n, tol) : correctnessCheck<T>(e, a, n, tol, ign);
  sx_observe_i("r", r);
  sx_assert(r == ok, "true exactly when every element is within the tolerance");
  for (int i = 0; i < n; i++) sx_assert((e[i] == e0[i]) & (a[i] == a0[i] || a0[i] != a0[i]), "the vectors are unchanged");
  sx_reach("checked"); if (r && n) sx_reach("accepted"); if (!r) sx_reach("rejected");
}
extern "C" void sx_main(void) { if (sx_param("flt", 0)) run<float>(); else run<double>(); }
