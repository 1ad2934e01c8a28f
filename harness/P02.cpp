// P02: parMemset, parMemcpy, copyVector
#include "sx.h"
#include "Utils.hpp"
using namespace SpMP;
extern "C" void sx_main(void) {
  int T = sx_param("T", 2), op = sx_param("op", 0), nmax = sx_param("n", 200), in = sx_param("in", 0), lo = sx_param("lo", 0);
  sx_threads(T);
  if (op >= 3) { // sizes around and beyond 2^31
    long lo2 = (1L << 31) - 300, hi2 = (1L << 31) + (1L << sx_param("log", 24)); if (sx_param("low", 0)) { lo2 = 0; hi2 = (1L << 31) - 300; }
    long n = sx_long("n", lo2, hi2), k = sx_long("k", 0, hi2 + 4095); int c = op == 3 ? sx_int("c", 0, 255) : 0x5A;
    unsigned char *d = (unsigned char *)sx_huge(hi2 + 4096), *s = op == 4 ? (unsigned char *)sx_huge(hi2 + 4096) : 0;
    if (sx_is_native()) { d[k] = c ^ 0xff; if (s) s[k] = 0x5A; }
    if (op == 3) parMemset(d, c, n); else parMemcpy(d, s, n);
    if (sx_is_native()) sx_assert(d[k] == (k < n ? c : (c ^ 0xff)), "exactly the first n bytes are written");
    else { int h = sx_huge_hits(d, k); sx_assert((k < n) == (h > 0), "exactly the first n bytes are written"); sx_assert(sx_huge_right(d, k, s, c), "exactly the first n bytes are written"); }
    sx_reach("checked"); return;
  }
  int n = sx_pick("n", lo, nmax);
  if (op < 2) {
    unsigned char *d = (unsigned char *)malloc(n + 16), *s = (unsigned char *)malloc(n);
    for (int i = 0; i < n + 16; i++) d[i] = 0xA5 ^ i;
    int c = 0;
    if (op == 0) c = sx_int("c", INT_MIN, INT_MAX); else for (int i = 0; i < n; i++) s[i] = i % 7 == 3 || i > n - 3 ? (unsigned char)sx_int(sx_nm("s", i), 0, 255) : i * 3 + 1;
    if (!in) { if (op == 0) parMemset(d + 8, c, n); else parMemcpy(d + 8, s, n); }
    else {
#pragma omp parallel
      {
#pragma omp master
        { if (op == 0) parMemset(d + 8, c, n); else parMemcpy(d + 8, s, n); }
      }
    }
    int ok = 1, guard = 1;
    for (int i = 0; i < n; i++) ok &= d[8 + i] == (op == 0 ? (unsigned char)c : s[i]);
    for (int i = 0; i < 8; i++) guard &= (d[i] == (unsigned char)(0xA5 ^ i)) & (d[n + 8 + i] == (unsigned char)(0xA5 ^ (n + 8 + i)));
    sx_assert(ok, "every requested byte is written");
    sx_assert(guard, "no other byte is written");
    if (op == 1) { int same = 1; for (int i = 0; i < n; i++) if (!(i % 7 == 3 || i > n - 3)) same &= s[i] == (unsigned char)(i * 3 + 1); sx_assert(same, "source unchanged"); }
    if (n) { sx_observe_i("d0", d[8]); sx_observe_i("dn", d[7 + n]); }
  } else {
    int *a = sx_ints(n), *b = sx_ints(n + 2); double *x = sx_dbls(n), *y = sx_dbls(n + 2);
    for (int i = 0; i < n; i++) { a[i] = sx_int(sx_nm("a", i), INT_MIN, INT_MAX); x[i] = sx_bits(sx_nm("x", i)); }
    for (int i = 0; i < n + 2; i++) { b[i] = 77; y[i] = 7.5; }
    copyVector(b + 1, a, n); copyVector(y + 1, x, n);
    int ok = 1; for (int i = 0; i < n; i++) ok &= (b[i + 1] == a[i]) & sx_same(y[i + 1], x[i]);
    sx_assert(ok, "every element is copied");
    sx_assert((b[0] == 77) & (b[n + 1] == 77) & (y[0] == 7.5) & (y[n + 1] == 7.5), "no other element is written");
    sx_obs_arr("b", b, n + 2);
  }
  sx_reach("checked"); if (n % 64) sx_reach("tail");
}
