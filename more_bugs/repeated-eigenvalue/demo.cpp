
#include <ftk/config.hh>
#include <ftk/numeric/critical_point_type.hh>
#include <cstdio>
int main() {
  double A[4][2][2] = {{{2,0},{0,2}}, {{-1,0},{0,-1}}, {{1,1},{0,1}}, {{0,1},{-1,-2}}};
  unsigned want[4] = {ftk::CRITICAL_POINT_2D_REPELLING, ftk::CRITICAL_POINT_2D_ATTRACTING, ftk::CRITICAL_POINT_2D_REPELLING, ftk::CRITICAL_POINT_2D_ATTRACTING};
  int bad = 0;
  for (int i = 0; i < 4; i ++) bad += ftk::critical_point_type_2d(A[i], false) != want[i];
  printf("%d of 4 types wrong\n", bad);
  return bad != 0;
}
