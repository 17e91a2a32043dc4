
#include <bits/stdc++.h>
#include <ftk/config.hh>
#include <ftk/filters/critical_point_tracker_2d_unstructured.hh>
#include <ftk/mesh/simplicial_unstructured_extruded_2d_mesh_implicit.hh>
#include <cstdio>
using namespace ftk;
static size_t run(bool ahead) {
  diy::mpi::communicator comm;
  const int W = 6, H = 6, T = 5;
  std::vector<double> xy; std::vector<int> tris;
  for (int y = 0; y < H; y ++) for (int x = 0; x < W; x ++) { xy.push_back(x); xy.push_back(y); }
  for (int y = 0; y + 1 < H; y ++) for (int x = 0; x + 1 < W; x ++) { int a = x + y * W; for (int v : {a, a + 1, a + W + 1, a, a + W, a + W + 1}) tris.push_back(v); }
  std::shared_ptr<simplicial_unstructured_2d_mesh<>> m(new simplicial_unstructured_2d_mesh<>(xy, tris));
  std::shared_ptr<simplicial_unstructured_extruded_2d_mesh<>> m3(new simplicial_unstructured_extruded_2d_mesh_implicit<>(m));
  critical_point_tracker_2d_unstructured tr(comm, m3);
  tr.set_number_of_threads(1); tr.set_scalar_field_source(SOURCE_NONE); tr.set_vector_field_source(SOURCE_GIVEN); tr.set_jacobian_field_source(SOURCE_NONE); tr.initialize();
  for (int t = 0; t < T; t ++) {
    ndarray<double> v; v.reshape(2, W * H);
    for (int y = 0; y < H; y ++) for (int x = 0; x < W; x ++) { v(0, x + y * W) = x - 1.3 - 0.6 * t; v(1, x + y * W) = y - 2.7 - 0.3 * t; }
    tr.push_field_data_snapshot(ndarray<double>(), v, ndarray<double>());
    if (!ahead && t) tr.advance_timestep();
  }
  if (ahead) for (int t = 1; t < T; t ++) tr.advance_timestep();
  tr.update_timestep();
  return tr.get_critical_points().size();
}
int main(int argc, char **argv) {
  diy::mpi::environment env(argc, argv);
  size_t a = run(false), b = run(true);
  printf("one ahead: %zu points, all ahead: %zu points\n", a, b);
  return a == 0 || a != b;
}
