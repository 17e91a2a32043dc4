
#include <bits/stdc++.h>
#include <mpi.h>
#include <ftk/config.hh>
#include <ftk/filters/critical_point_tracker_2d_regular.hh>
#include <cstdio>
int main() {
  ftk::feature_curve_set_t s; ftk::feature_curve_t c;
  for (int i = 0; i < 9; i ++) { ftk::feature_point_t p; p.x[0] = i; p.t = i; p.timestep = i; p.type = i < 3 ? 1 : i < 6 ? 2 : 4; p.tag = i; c.push_back(p); }
  s.add(c); s.add(c); s.split_all();
  nlohmann::json j; ftk::feature_curve_set_t r; typedef nlohmann::adl_serializer<ftk::feature_curve_set_t> J; J::to_json(j, s); J::from_json(j, r);
  int bad = s.size() != r.size() || s.size() < 3;
  for (auto& kv : s) if (s.count(kv.first) != r.count(kv.first)) bad ++;
  for (auto& kv : r) if (kv.second.id != kv.first) bad ++;
  printf("%zu curves, %zu read, %d bad\n", s.size(), r.size(), bad);
  return bad != 0;
}
