
#include <ftk/ndarray.hh>
#include <ftk/ndarray/conv.hh>
#include <cstdio>
int main() {
  int bad = 0;
  for (int kx = 1; kx < 4; kx ++) for (int ky = 1; ky < 4; ky ++) {
    ftk::ndarray<double> a, k; a.reshape(6, 5); k.reshape(kx, ky); for (int i = 0; i < 30; i ++) a[i] = i * i % 7; for (int i = 0; i < kx * ky; i ++) k[i] = i + 1;
    auto r = ftk::conv2D(a, k);
    for (int y = 0; y + ky <= 5; y ++) for (int x = 0; x + kx <= 6; x ++) {
      double s = 0; for (int j = 0; j < ky; j ++) for (int i = 0; i < kx; i ++) s += a(x + i, y + j) * k(i, j);
      if (std::abs(r(x, y) * kx * ky - s) > 1e-9) bad ++;
    }
  }
  printf("%d values differ\n", bad);
  return bad != 0;
}
