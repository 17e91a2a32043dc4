
#include <algorithm>
#include <ftk/config.hh>
#include <ftk/filters/critical_point_tracker.hh>
#include <cstdio>
using namespace ftk;
int main() {
  feature_curve_t c;
  for (int i = 0; i < 6; i ++) { feature_point_t p; p.x[0] = i * i; p.x[1] = -i; p.t = i * 0.5; p.scalar[0] = 10 - 3 * i; p.type = i < 4 ? 2 : 4; p.ordinal = i % 2 == 0; c.push_back(p); }
  c.update_statistics();
  c.discard([](const feature_point_t& p) { return p.t > 1.6; });
  printf("size=%zu bbmax=%g tmax=%g min=%g type=%u\n", c.size(), c.bbmax[0], c.tmax, c.min[0], c.consistent_type);
  return !(c.size() == 4 && c.bbmax[0] == 9 && c.tmax == 1.5 && c.min[0] == 1 && c.consistent_type == 2);
}
