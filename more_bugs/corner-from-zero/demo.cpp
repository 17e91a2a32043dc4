
#include <ftk/config.hh>
#include <ftk/mesh/simplicial_regular_mesh.hh>
#include <cstdio>
int main(int argc, char **argv) {
  diy::mpi::environment env(argc, argv);
  int bad = 0;
  for (int l0 = 0; l0 < 3; l0 ++) for (int l1 = 0; l1 < 3; l1 ++) for (int l2 = 0; l2 < 2; l2 ++) {
    ftk::simplicial_regular_mesh m(3); m.set_lb_ub({l0, l1, l2}, {l0 + 2, l1 + 3, l2 + 2});
    for (int d = 0; d <= 3; d ++) for (int i = 0; i < 36 * m.ntypes(d); i ++) {
      ftk::simplicial_regular_mesh_element e(m, d, (uint64_t)i);
      if (e.to_integer(m) != i) bad ++;
    }
  }
  printf("%d bad\n", bad);
  return bad != 0;
}
