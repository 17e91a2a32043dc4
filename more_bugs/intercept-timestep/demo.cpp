
#include <ftk/features/feature_curve.hh>
#include <cstdio>
int main() {
  int bad = 0;
  for (int shift = -2; shift <= 0; shift ++) {
    ftk::feature_curve_t c;
    for (int i = 0; i < 20; i ++) { ftk::feature_point_t p; p.t = i * 0.25; p.timestep = std::max(0, (int)p.t + shift); p.ordinal = i % 4 == 0; p.type = 2; c.push_back(p); }
    c.relabel(5); c.update_statistics();
    for (int a = 0; a <= 4; a ++) for (int b = a; b <= 4; b ++) {
      auto r = c.intercept(a, b); size_t n = 0;
      for (auto &p : c) if (p.t >= a && p.t <= b) n ++;
      if (r.size() != n) bad ++;
    }
  }
  printf("%d bad\n", bad); return bad != 0;
}
