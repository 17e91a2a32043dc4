
#include <ftk/geometry/cc2curves.hh>
#include <cstdio>
#include <map>
int main() {
  // stars with arms of different lengths, a theta graph, a tailed loop
  std::vector<std::vector<std::pair<int,int>>> graphs = {
    {{0,1},{1,2},{0,3},{3,4},{0,5}}, {{9,1},{1,2},{9,3},{3,4},{9,5}}, {{0,1},{1,2},{2,3},{3,0},{2,5},{5,6}}, {{1,2},{2,3},{1,4},{4,3},{1,5},{5,3}}};
  int bad = 0;
  for (auto &es : graphs) {
    std::map<int, std::set<int>> adj; for (auto &e : es) { adj[e.first].insert(e.second); adj[e.second].insert(e.first); }
    std::set<int> all; for (auto &kv : adj) all.insert(kv.first);
    auto cs = ftk::connected_component_to_linear_components<int>(all, [&](int i) { return adj[i]; });
    std::multiset<int> used; for (auto &c : cs) for (int i : c) used.insert(i);
    for (auto &kv : adj) if (used.count(kv.first) != (kv.second.size() > 2 ? 0 : 1)) bad ++;
  }
  printf("%d nodes misplaced\n", bad);
  return bad != 0;
}
