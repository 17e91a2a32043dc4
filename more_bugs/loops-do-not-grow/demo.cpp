
#include <bits/stdc++.h>
#include <ftk/config.hh>
#include <ftk/filters/critical_point_tracker_2d_regular.hh>
#include <cstdio>
#include <map>
using namespace ftk;
static size_t run(bool streaming, double ox, double oy, double vx, double vy) {
  diy::mpi::communicator comm;
  const int W = 6, H = 6, T = 6;
  critical_point_tracker_2d_regular tr(comm);
  tr.set_domain(lattice({0, 0}, {(size_t)W - 1, (size_t)H - 1})); tr.set_array_domain(lattice({0, 0}, {(size_t)W, (size_t)H}));
  tr.set_input_array_partial(false); tr.set_scalar_field_source(SOURCE_NONE); tr.set_vector_field_source(SOURCE_GIVEN);
  tr.set_jacobian_field_source(SOURCE_NONE); tr.set_enable_streaming_trajectories(streaming); tr.set_number_of_threads(1);
  tr.initialize();
  for (int t = 0; t < T; t ++) {
    ndarray<double> v; v.reshape(2, W, H); v.set_multicomponents(1);
    for (int y = 0; y < H; y ++) for (int x = 0; x < W; x ++) { v(0, x, y) = (x - ox) * (x - ox) + 0.3 * (y - oy) - vx * (t - 1) - vy; v(1, x, y) = y - oy + 0.1 * (x - ox); }
    tr.push_vector_field_snapshot(v);
    if (t) tr.advance_timestep();
    if (t == T - 1) tr.update_timestep();
  }
  tr.finalize();
  size_t n = 0;
  tr.get_traced_critical_points().foreach([&](const feature_curve_t& c) { n ++; });
  return n;
}
int main(int argc, char **argv) {
  diy::mpi::environment env(argc, argv);
  int bad = 0;
  for (double ox = 2.05; ox < 3; ox += 0.15) for (double oy = 2.15; oy < 3; oy += 0.15) for (double v = 0; v < 0.4; v += 0.05)
    if (run(false, ox, oy, 0.3, v) != run(true, ox, oy, 0.3, v)) bad ++;
  printf("%d of the births give other curves\n", bad);
  return bad != 0;
}
