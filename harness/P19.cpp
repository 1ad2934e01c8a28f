// P19: the 27-point Laplacian
#include "sx.h"
#include "CSR.hpp"
using namespace SpMP;
extern "C" void sx_main(void) {
  int T = sx_param("T", 2), base = sx_param("base", 0), mx = sx_param("max", 3), cube = sx_param("cube", 0);
  sx_threads(T);
  if (sx_param("gx", 0)) mx = 1;
  int nx = sx_pick("nx", 1, mx), ny = cube ? nx : sx_pick("ny", 1, mx), nz = cube ? nx : sx_pick("nz", 1, mx), N = nx * ny * nz;
  if (sx_param("gx", 0)) { nx = sx_param("gx", 0); ny = sx_param("gy", 1); nz = sx_param("gz", 1); N = nx * ny * nz; }
  CSR A; if (cube == 2) { generate3D27PtLaplacian(&A, nx, base); } else generate3D27PtLaplacian(&A, nx, ny, nz, base);
  sx_assert(A.m == N && A.n == N, "dimensions"); sx_assert(A.rowptr[0] == base, "base");
  int p = 0;
  for (int i = 0; i < N; i++) {
    int x = i % nx, y = i / nx % ny, z = i / nx / ny; sx_assert(A.rowptr[i] == p + base, "rows start where the previous one ends");
    for (int c = 0; c < N; c++) { int X = c % nx, Y = c / nx % ny, Z = c / nx / ny, dx = X - x, dy = Y - y, dz = Z - z; if (dx > 1 || dx < -1 || dy > 1 || dy < -1 || dz > 1 || dz < -1) continue;
      sx_assert(A.colidx[p] == c + base, "columns are the neighbours in order"); sx_assert(A.values[p] == (c == i ? 26 : -1), "26 on the diagonal, -1 elsewhere"); if (c == i) { sx_assert(A.diagptr[i] == p + base, "diagptr"); sx_assert(A.diag[i] == 26 && A.idiag[i] == 1 / 26., "diag and idiag"); } p++; }
  }
  sx_assert(A.rowptr[N] == p + base, "total"); sx_observe_i("nnz", p); sx_reach("checked");
}
