// level-set trackers on regular grids
#include <bits/stdc++.h>
#include "vj.hh"
#include <mpi.h>
#include <ftk/config.hh>
#include <ftk/filters/critical_point_tracker.hh>
#include <ftk/filters/contour_tracker_2d_regular.hh>
#include <ftk/filters/contour_tracker_3d_regular.hh>
std::vector<ftk::feature_point_lite_t> extract_contour_3dt_cuda(int, int, const ftk::lattice&, const ftk::lattice&, const ftk::lattice&, double, const double*, const double*) { return {}; }
using namespace ftk; using vj::W; using vj::In;
typedef simplicial_regular_mesh_element E;
static int rank_ = 0, np_ = 1;
struct Case { int id, nd; std::vector<int> dims, lo, sz; int N, nth, backend, partial, root, sched, rep; int thr2, T; std::vector<std::vector<int>> s; double q; };

static void pt(W& w, const feature_point_t& p, const std::vector<long long>& e, const std::vector<long long>& tag, int nd) {
  w.obj(); w.ki("f", e); w.ki("g", tag); w.key("x").arr(); for (int i = 0; i < nd; i ++) w.v(vj::fx(p.x[i])); w.v(vj::fx(p.t)); w.aend();
  w.kv("o", p.ordinal).kv("ts", p.timestep).kv("s", vj::fx(p.scalar[0])); w.key("v").arr(); for (int i = 0; i < 3; i ++) w.v(vj::fx(p.v[i])); w.aend(); w.end();
}
static std::vector<long long> verts(const Case& c, const simplicial_regular_mesh& m, const E& e) {
  std::vector<long long> r;
  for (auto& v : e.vertices(m)) { long long s = 0, k = 1; for (int i = 0; i < c.nd; i ++) { s += v[i] * k; k *= c.dims[i]; } r.push_back(v[c.nd] * (long long)c.N + s); }
  std::sort(r.begin(), r.end()); return r;
}
static const std::vector<feature_point_t>& P(const contour_tracker_2d_regular& t) { return t.get_surfaces().pts; }
static const std::vector<feature_point_t>& P(contour_tracker_3d_regular& t) { return t.get_isovolume().pts; }
static void pieces(W& w, contour_tracker_2d_regular& t) { for (auto& a : t.get_surfaces().tris) w.ints(a); for (auto& a : t.get_surfaces().quads) w.ints(a); for (auto& a : t.get_surfaces().pentagons) w.ints(a); }
static void pieces(W& w, contour_tracker_3d_regular& t) { for (auto& a : t.get_isovolume().conn) w.ints(a); }
static void slice(W& w, const Case& c, contour_tracker_2d_regular& t, int k, const std::map<long long, int>&) {
  auto s = t.get_surfaces().slice_time(k); w.obj().ks("op", "slice").kv("t", k); w.key("curves").arr();
  for (auto& kv : s) { w.obj().kv("loop", kv.second.loop).kv("k", kv.first); w.key("p").arr(); for (auto& p : kv.second) w.v((long long)p.tag); w.aend(); w.key("ids").arr(); for (auto& p : kv.second) w.v((long long)p.id); w.aend().end(); }
  w.aend().end();
}
static void slice(W& w, const Case& c, contour_tracker_3d_regular& t, int k, const std::map<long long, int>& by) {
  auto s = t.get_isovolume().slice_time(k); w.obj().ks("op", "slice").kv("t", k); w.key("pts").arr(); for (auto& p : s.pts) { auto i = by.find(p.tag); w.v(i == by.end() ? -1 : i->second); } w.aend();
  w.key("tris").arr(); for (auto& a : s.tris) w.ints(a); w.aend().end();
}
template <class Tr> static std::string play(const Case& c) {
  diy::mpi::communicator comm; Tr t(comm); W w; w.obj(); w.kv("id", c.id);
  t.set_root_proc(c.root); if (c.nth > 0) t.set_number_of_threads(c.nth); t.use_thread_backend(c.backend);
  std::vector<size_t> st(c.lo.begin(), c.lo.end()), sz(c.sz.begin(), c.sz.end()), z(c.nd, 0), ad(c.dims.begin(), c.dims.end());
  t.set_domain(lattice(st, sz)); t.set_array_domain(lattice(z, ad)); t.set_input_array_partial(c.partial); t.set_threshold(c.thr2 * c.q / 2);
  t.initialize(); lattice la = t.get_local_array_domain();
  simplicial_regular_mesh m(c.nd + 1); { std::vector<int> lb(c.lo), ub; for (int i = 0; i < c.nd; i ++) ub.push_back(c.lo[i] + c.sz[i] - 1); lb.push_back(0); ub.push_back(std::numeric_limits<int>::max()); m.set_lb_ub(lb, ub); }
  auto arr = [&](int k) {
    std::vector<size_t> shape; for (int i = 0; i < c.nd; i ++) shape.push_back(c.partial ? la.size(i) : ad[i]);
    ndarray<double> a(shape); 
    for (size_t p = 0; p < a.nelem(); p ++) { size_t r = p, g = 0, mm = 1; for (int i = 0; i < c.nd; i ++) { size_t x = r % shape[i]; r /= shape[i]; g += (x + (c.partial ? la.start(i) : 0)) * mm; mm *= ad[i]; } a[p] = c.s[k][g] * c.q; }
    return a; };
  auto run = [&] {
    if (c.sched == 0) { for (int k = 0; k < c.T; k ++) { t.push_field_data_snapshot(arr(k)); if (k != 0) t.advance_timestep(); if (k == c.T - 1) t.update_timestep(); } }
    else if (c.sched == 1) { for (int k = 0; k < c.T; k ++) t.push_field_data_snapshot(arr(k)); for (int k = 0; k < c.T; k ++) t.advance_timestep(); }
    else { int k = 0; t.push_field_data_snapshot(arr(k ++)); if (k < c.T) t.push_field_data_snapshot(arr(k ++)); for (int i = 0; i < c.T; i ++) { bool more = t.advance_timestep(); (void)more; if (k < c.T) t.push_field_data_snapshot(arr(k ++)); } }
    t.finalize(); };
  run();
  for (int i = 0; i < c.rep; i ++) { t.reset(); run(); }
  if (rank_ != c.root) return "";
  w.key("ev").arr();
  std::vector<std::vector<long long>> key; std::vector<feature_point_t> ip;
  w.obj().ks("op", "points"); w.key("p").arr();
  for (auto& kv : t.get_discrete_intersections()) { auto v = verts(c, m, kv.first); key.push_back(v); ip.push_back(kv.second);
    pt(w, kv.second, v, c.nd == 3 || true ? verts(c, m, E(m, 1, kv.second.tag)) : v, c.nd); }
  w.aend().end();
  auto& ps = P(t); std::map<long long, int> by;
  auto same = [&](const feature_point_t& a, const feature_point_t& b) { return a.x == b.x && a.t == b.t && a.timestep == b.timestep && a.ordinal == b.ordinal; };
  w.obj().ks("op", "surface"); w.key("p").arr();
  std::vector<int> which;
  for (size_t i = 0; i < ps.size(); i ++) {
    int at = -1; if (i < ip.size() && same(ps[i], ip[i])) at = i; else for (size_t j = 0; j < ip.size(); j ++) if (same(ps[i], ip[j])) { at = j; break; }
    which.push_back(at); by[ps[i].tag] = i; w.v(at); }
  w.aend(); w.key("id").arr(); for (auto& p : ps) w.v((long long)p.id); w.aend();
  w.key("s").arr(); pieces(w, t); w.aend().end();
  for (int k = 0; k < c.T; k ++) slice(w, c, t, k, by);
  w.aend(); w.end(); return w.s;
}
int main(int argc, char** argv) {
  diy::mpi::environment env(argc, argv);
  MPI_Comm_rank(MPI_COMM_WORLD, &rank_); MPI_Comm_size(MPI_COMM_WORLD, &np_);
  std::ifstream in(argv[argc - 2]); std::ofstream out; if (rank_ == 0) out.open(argv[argc - 1]);
  vj::quiet(); std::string l;
  while (std::getline(in, l)) {
    In r(l); Case c; c.id = r.i(); c.nd = r.i(); c.dims = r.vi(c.nd); c.lo = r.vi(c.nd); c.sz = r.vi(c.nd);
    c.nth = r.i(); c.backend = r.i(); c.partial = r.i(); c.root = r.i(); c.sched = r.i(); c.rep = r.i(); c.q = r.d(); c.thr2 = r.i(); c.T = r.i();
    c.N = 1; for (int d : c.dims) c.N *= d; for (int k = 0; k < c.T; k ++) c.s.push_back(r.vi(c.N));
    std::string o = c.nd == 2 ? play<contour_tracker_2d_regular>(c) : play<contour_tracker_3d_regular>(c);
    if (np_ > 1) { int k = o.size(); MPI_Bcast(&k, 1, MPI_INT, c.root, MPI_COMM_WORLD); o.resize(k); MPI_Bcast(&o[0], k, MPI_CHAR, c.root, MPI_COMM_WORLD); }
    if (rank_ == 0) { out << o << "\n"; out.flush(); }
  }
}
