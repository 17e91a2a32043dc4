// G01: graph algorithms.  Case: id n nodes.. m (a b w).. nq q.. nops ops..
#include "vj.hh"
#include <mpi.h>
#include <ftk/algorithms/cca.hh>
#include <ftk/algorithms/cca_bfs.hh>
#include <ftk/algorithms/bfs.hh>
#include <ftk/algorithms/dijkstra.hh>
#include <ftk/geometry/cc2curves.hh>
using vj::W; using vj::In;
typedef std::set<int> S;
typedef std::function<S(int)> NF;
int main(int argc, char** argv) {
  return vj::cases(argc, argv, [&](In& in) {
    W w; w.obj(); w.kv("id", in.i());
    int n = in.i(); auto nodes = in.vi(n);
    int m = in.i(); std::map<int, S> nb; std::map<std::pair<int, int>, int> wt; std::vector<std::vector<int>> e;
    for (int k = 0; k < m; k ++) { int a = in.i(), b = in.i(), c = in.i(); nb[a].insert(b); nb[b].insert(a); wt[{a, b}] = wt[{b, a}] = c; e.push_back({a, b, c}); }
    int nq = in.i(); auto q = in.vi(nq); S Q(q.begin(), q.end());
    w.ki("n", nodes).ki("q", q).key("e").ints2(e).key("ev").arr();
    NF N = [&](int x) { auto i = nb.find(x); return i == nb.end() ? S() : i->second; };
    std::function<bool(int)> crit = [&](int x) { return Q.count(x) > 0; };
    std::function<std::vector<int>(int)> NV = [&](int x) { auto s = N(x); return std::vector<int>(s.rbegin(), s.rend()); };
    S V(nodes.begin(), nodes.end()); int top = 0; for (int x : nodes) top = std::max(top, x + 1);
    int no = in.i();
    for (int k = 0; k < no; k ++) {
      std::string op = in.w(); w.obj();
      if (op == "cc") {
        int ov = in.i(); std::vector<S> c;
        if (ov == 0) c = ftk::extract_connected_components<int, S>(N, Q);
        else if (ov == 1) c = ftk::extract_connected_components<int, S>(top, N, crit);
        else if (ov == 2) c = ftk::extract_connected_components<int, S>(V, N, crit);
        else if (ov == 3) c = ftk::extract_connected_components_bfs<int, S>(N, Q);
        else if (ov == 4) c = ftk::extract_connected_components_bfs<int, S>(top, N, crit);
        else if (ov == 5) c = ftk::extract_connected_components_bfs<int, S>(V, N, crit);
        else c = ftk::extract_connected_components<int, std::vector<int>>(NV, Q);
        w.ks("op", "cc").kv("ov", ov).key("c").ints2(c);
      } else if (op == "lin") {           // the curves of every component of the qualified nodes
        int all = in.i();
        S U = Q; if (all) U = V;
        std::vector<std::vector<int>> cs; std::vector<int> loop;
        for (auto& c : ftk::extract_connected_components<int, S>(N, U))
          for (auto& t : ftk::connected_component_to_linear_components<int>(c, N)) { cs.push_back(t); loop.push_back(ftk::is_loop<int>(t, N)); }
        w.ks("op", "lin").ki("u", U).key("c").ints2(cs).key("l").arr(); for (int l : loop) w.v((bool)l); w.aend();
      } else if (op == "bfs") {
        int s = in.i(), l = in.i(); std::vector<int> o; 
        if (l) ftk::bfs<int, std::vector<int>>(s, NV, [&](int x) { o.push_back(x); }, crit);
        else ftk::bfs<int, S>(s, N, [&](int x) { o.push_back(x); }, crit);
        w.ks("op", "bfs").kv("s", s).ki("o", o);
      } else if (op == "dij") {
        int s = in.i(), t = in.i(), f = in.i(); std::vector<int> p;
        if (f) p = ftk::dijkstra<int, double>(s, t, N, [&](int a, int b) { return 0.25 * wt[{a, b}]; });
        else p = ftk::dijkstra<int, int>(s, t, N, [&](int a, int b) { return wt[{a, b}]; });
        w.ks("op", "dij").kv("s", s).kv("t", t).ki("p", p);
      } else if (op == "ov") {            // two lists of sets: components against arbitrary sets
        int ka = in.i(), kb = in.i(); std::vector<S> a(ka), b(kb);
        for (auto& s : a) { int l = in.i(); for (int x : in.vi(l)) s.insert(x); }
        for (auto& s : b) { int l = in.i(); for (int x : in.vi(l)) s.insert(x); }
        auto r = in.i() ? ftk::track_connected_components_bfs<int>(a, b) : ftk::track_connected_components<int>(a, b);
        w.ks("op", "ov").key("a").ints2(a).key("b").ints2(b).key("p").arr(); for (auto& p : r) w.ints(std::vector<int>{p.first, p.second}); w.aend();
      }
      w.end();
    }
    w.aend().end(); return w.s;
  });
}
