// G02: labelled regions, threshold tracker, tracking graph.  Case: id kind ...
#include "vj.hh"
#include <mpi.h>
#include <sys/stat.h>
#include <ftk/filters/threshold_tracker.hh>
using vj::W; using vj::In;
static std::string dir;
template <class G> void dump(W& w, G& g, int tmax, int lmax) {
  std::vector<std::vector<int>> n, e, gl, dn, de;
  for (int t = 0; t < tmax; t ++) for (int l = 0; l <= lmax; l ++) {
    if (g.has_node(t, l)) n.push_back({t, l});
    if (g.has_global_label(t, l)) gl.push_back({t, l, (int)g.get_global_label(t, l)});
    for (int m = 0; m <= lmax; m ++) for (int u = 0; u < tmax; u ++) if (g.has_edge(t, l, u, m)) e.push_back({t, l, u, m});
  }
  std::string f = dir + "/g.dot"; g.generate_dot_file(f);
  std::ifstream in(f); std::string s;
  while (std::getline(in, s)) {
    int a, b, c, d, x, y;
    if (sscanf(s.c_str(), "T%dL%dG%d->T%dL%dG%d", &a, &b, &x, &c, &d, &y) == 6) de.push_back({a, b, c, d});
    else if (sscanf(s.c_str(), "T%dL%dG%d [", &a, &b, &x) == 3) dn.push_back({a, b});
  }
  w.obj().ks("op", "graph").key("n").ints2(n).key("e").ints2(e).key("g").ints2(gl).key("dn").ints2(dn).key("de").ints2(de).ki("ts", g.get_timesteps()).key("ev").arr();
  for (auto& kv : g.get_events()) for (auto& x : kv.second)
    w.obj().kv("a", (long long)x.interval.first).kv("b", (long long)x.interval.second).ki("l", x.lhs).ki("r", x.rhs).ks("k", x.eventTypeToString(x.type())).end();
  w.aend().end();
}
template <class T, class L> struct Tr : ftk::threshold_tracker<T, L> {
  Tr() : ftk::threshold_tracker<T, L>(diy::mpi::communicator(MPI_COMM_WORLD)) {}
  ftk::tracking_graph<T, L>& g() { return this->tg; }
};
template <class L, class F> void track(W& w, In& in, int nx, int ny) {
  Tr<size_t, L> tr; tr.initialize(); int ns = in.i(), thr = in.i(), mode = in.i(); tr.set_threshold(thr, mode); int lmax = 1;
  for (int t = 0; t < ns; t ++) {
    auto v = in.vi(nx * ny); ftk::ndarray<F> a({(size_t)nx, (size_t)ny}); for (int i = 0; i < nx * ny; i ++) a[i] = v[i];
    tr.push_scalar_field_data_snapshot(a); tr.advance_timestep();
    auto lab = tr.get_last_labeled_array_snapshot().std_vector(); for (auto x : lab) lmax = std::max(lmax, (int)x);
    w.obj().ks("op", "img").kv("m", mode).kv("thr", thr).ki("v", v).ki("lab", lab).end();
  }
  tr.finalize(); w.obj().ks("op", "relabel").end();
  tr.g().detect_events(); w.obj().ks("op", "detect").ki("i", std::vector<int>()).end();
  dump(w, tr.g(), ns + 1, lmax + 1);
}
template <class L> void hk(W& w, In& in, int nx, int ny) {
  ftk::ndarray<L> a({(size_t)nx, (size_t)ny}); auto v = in.vi(nx * ny); for (int i = 0; i < nx * ny; i ++) a[i] = v[i];
  int n = ftk::hoshen_kopelman_2d(a);
  w.obj().ks("op", "img").kv("m", 1).kv("thr", 0).ki("v", v).ki("lab", a.std_vector()).kv("n", n).end();
}
int main(int argc, char** argv) {
  diy::mpi::environment env(argc, argv);
  std::string out = argv[argc - 1]; dir = out + ".d"; mkdir(dir.c_str(), 0777);
  int rc = vj::cases(argc, argv, [&](In& in) {
    W w; w.obj(); w.kv("id", in.i()); std::string k = in.w();
    int nx = in.i(), ny = in.i(); w.kv("w", nx).key("ev").arr();
    if (k == "hk") { if (in.i()) hk<size_t>(w, in, nx, ny); else hk<int>(w, in, nx, ny); }
    else if (k == "track") { int ty = in.i(); if (ty == 0) track<size_t, double>(w, in, nx, ny); else if (ty == 1) track<int, float>(w, in, nx, ny); else track<unsigned short, int>(w, in, nx, ny); }
    else {
      ftk::tracking_graph<size_t, size_t> g; int no = in.i(), tmax = in.i(), lmax = in.i();
      for (int i = 0; i < no; i ++) {
        std::string op = in.w();
        if (op == "node") { auto v = in.vi(2); g.add_node(v[0], v[1]); w.obj().ks("op", op).ki("n", v).end(); }
        else if (op == "edge") { auto v = in.vi(4); g.add_edge(v[0], v[1], v[2], v[3]); w.obj().ks("op", op).ki("n", v).end(); }
        else if (op == "relabel") { g.relabel(); w.obj().ks("op", op).end(); }
        else if (op == "detect") { int n = in.i(); auto v = in.vi(n); if (n) g.detect_events(v[0], v[1]); else g.detect_events(); w.obj().ks("op", op).ki("i", v).end(); }
        else dump(w, g, tmax, lmax);
      }
    }
    w.aend().end(); return w.s;
  });
  unlink((dir + "/g.dot").c_str()); rmdir(dir.c_str());
  return rc;
}
