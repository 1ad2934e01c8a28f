// P35: binary matrix files load faithfully or are rejected
#include "sx.h"
#include "CSR.hpp"
#include "synk/barrier.hpp"
using namespace SpMP;
static void put(int w) { for (int b = 0; b < 4; b++) sx_file_putbyte("a.bin", (int)((unsigned)w >> (8 * b)) & 255); }
static int size_(const char *nm) { int v = sx_int(nm, INT_MIN, INT_MAX); sx_assume((v >= -2 && v <= sx_param("m", 3)) | (v == INT_MIN) | (v == 65536) | (nm[0] != 'z' && v == INT_MAX)); return v; }
extern "C" void sx_main(void) {
  // mode 0: loadBin into a fresh matrix; 1: into one that holds another matrix (of its own or over given arrays); 2: the constructor
  int T = sx_param("T", 2), b2 = sx_param("base", 0), mode = sx_param("mode", 0), diag = sx_param("diag", 0); sx_threads(T);
  int id = sx_param("anyid", 0) ? sx_int("id", INT_MIN, INT_MAX) : 1211216, m = size_("m"), n = sx_int("n", INT_MIN, INT_MAX), z = size_("z"), fm = sx_param("fm", 0), fz = sx_param("fz", 0), W = fm ? fm + 3 * fz - sx_pick("less", 0, 1) : sx_pick("W", -4, sx_param("W", 8)), part = sx_param("part", 0), w[160];
  if (fm) { id = 1211216; m = fm; z = fz; }
  if (id == 1211216) { m = sx_concretize(m); z = sx_concretize(z); }
  int h[4] = {id, m, n, z}; for (int i = 0; i < 4 && i < W + 4; i++) put(h[i]);
  for (int i = 0; i < W; i++) { w[i] = sx_int(sx_nm("w", i), INT_MIN, INT_MAX); if (fm && i < fm && i != fm / 2 && i != fm - 1) w[i] = i % (2 * fz / fm + 1); if (fm && i >= fm && i < fm + fz && i != fm + 3) w[i] = i % 5; put(w[i]); }
  for (int i = 0; i < part; i++) sx_file_putbyte("a.bin", 1);
  const char *fn = sx_path("a.bin");
  int good = (id == 1211216) & (W >= 0) & (m >= 0) & (m != INT_MAX) & (n >= 0) & (z >= 0);
  if (good) good = (long)m + 3 * (long)z <= W;
  if (good) { int sum = 0; for (int i = 0; i < m; i++) { good &= (w[i] >= 0) & (w[i] <= z - sum); if (!good) break; sum += w[i]; } good = good && sum == z; for (int j = 0; good && j < z; j++) good &= w[m + j] >= 0; }
  int live = sx_heap_live(), files = sx_open_files();
  { int rp0[3] = {0, 1, 2}, ci0[2] = {0, 1}; double v0[2] = {1, 2}; CSR *c;
    if (mode == 2) c = new CSR(fn, b2);
    else { int own = mode ? sx_pick("own", 0, 2) : 0; if (mode == 0) c = new CSR(); else if (own == 1) { c = new CSR(2, 2, 2); for (int i = 0; i < 3; i++) c->rowptr[i] = rp0[i]; for (int i = 0; i < 2; i++) { c->colidx[i] = ci0[i]; c->values[i] = v0[i]; } } else { c = new CSR(2, 2, rp0, ci0, v0); if (own) c->constructDiagPtr(); } c->loadBin(fn, b2); }
    sx_assert(sx_open_files() == files, "the file is closed");
    if (good) { sx_assert(c->rowptr != 0, "a complete, consistent file loads"); if (!c->rowptr) return; sx_assert((c->m == m) & (c->n == n) & (c->rowptr[0] == b2), "dimensions and base"); int at = 0;
      for (int i = 0; i < m; i++) { sx_assert(c->rowptr[i + 1] - c->rowptr[i] == w[i], "row lengths"); int last = -1; for (int k = sx_concretize(w[i]); k > 0; k--, at++) if (w[m + at] == i) last = at; if (last >= 0) sx_assert(c->diagptr[i] == last + b2, "diagptr points at the diagonal entry"); }
      for (int j = 0; j < z; j++) { unsigned long v = (unsigned)w[m + z + 2 * j]; v |= (unsigned long)(unsigned)w[m + z + 2 * j + 1] << 32; sx_assert((c->colidx[j] - b2 == w[m + j]) & ((unsigned long)sx_db(c->values[j]) == v), "columns and values"); }
      sx_reach("loaded");
    } else { sx_assert(!c->rowptr & !c->colidx & !c->values & !c->diagptr & !c->idiag & !c->diag & !c->extptr & (c->m == 0) & (c->n == 0), "a rejected file leaves an empty matrix"); sx_reach("rejected");
      c->loadBin(sx_path("nodir/b.bin")); sx_assert(!c->rowptr & (c->m == 0) & (c->n == 0), "a file that cannot be opened leaves an empty matrix"); }
    sx_observe_i("ok", c->rowptr != 0);
    delete c; }
  sx_assert(sx_heap_live() == live, "nothing is leaked");
  sx_reach("checked"); (void)diag;
}
