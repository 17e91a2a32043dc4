// T07: line trackers on regular grids
#include <bits/stdc++.h>
#include "vj.hh"
#include <mpi.h>
#include <ftk/config.hh>
#include <ftk/ndarray/grad.hh>
#include <ftk/filters/critical_line_tracker_3d_regular.hh>
#include <ftk/filters/sujudi_haimes_tracker_3d_regular.hh>
#include <ftk/filters/levy_degani_seginer_tracker_3d_regular.hh>
#include <ftk/filters/ridge_valley_tracker_3d_regular.hh>
std::vector<ftk::feature_point_lite_t> extract_3dclt_cuda(int, int, const ftk::lattice&, const ftk::lattice&, const ftk::lattice&, const int, const float*, const float*) { return {}; }
using namespace ftk; using vj::W; using vj::In;
typedef simplicial_regular_mesh_element E;
static int rank_ = 0, np_ = 1;
struct Case { int id; std::string kind; int nc; std::vector<int> dims, lo, sz; int N, nth, backend, partial, root, sched, rep, T; std::vector<std::vector<int>> d; double q; };
template <class B> struct Tr : public B {
  Tr(diy::mpi::communicator c) : tracker(c), regular_tracker(c, 3), critical_line_tracker(c), B(c) {}
  const std::map<E, feature_point_t>& found() const { return this->intersections; }
  const feature_curve_set_t& lines() const { return this->traced_curves; }
  bool single() const { return this->start_timestep == this->current_timestep; }
};
static std::vector<long long> verts(const Case& c, const simplicial_regular_mesh& m, const E& e) {
  std::vector<long long> r;
  for (auto& v : e.vertices(m)) { long long s = 0, k = 1; for (int i = 0; i < 3; i ++) { s += v[i] * k; k *= c.dims[i]; } r.push_back(v[3] * (long long)c.N + s); }
  std::sort(r.begin(), r.end()); return r;
}
template <class B> static std::string play(const Case& c) {
  diy::mpi::communicator comm; Tr<B> t(comm); W w; w.obj(); w.kv("id", c.id);
  t.set_root_proc(c.root); if (c.nth > 0) t.set_number_of_threads(c.nth); t.use_thread_backend(c.backend);
  std::vector<size_t> st(c.lo.begin(), c.lo.end()), sz(c.sz.begin(), c.sz.end()), z(3, 0), ad(c.dims.begin(), c.dims.end());
  t.set_domain(lattice(st, sz)); t.set_array_domain(lattice(z, ad)); t.set_input_array_partial(c.partial);
  t.initialize(); lattice la = t.get_local_array_domain();
  simplicial_regular_mesh m(4); { std::vector<int> lb(c.lo), ub; for (int i = 0; i < 3; i ++) ub.push_back(c.lo[i] + c.sz[i] - 1); lb.push_back(0); ub.push_back(std::numeric_limits<int>::max()); m.set_lb_ub(lb, ub); }
  critical_line_tracker& base = t;
  auto push = [&](int k) {
    std::vector<size_t> shape; if (c.nc > 1) shape.push_back(c.nc); for (int i = 0; i < 3; i ++) shape.push_back(c.partial ? la.size(i) : ad[i]);
    ndarray<float> a(shape); if (c.nc > 1) a.set_multicomponents(1);
    for (size_t p = 0; p < a.nelem(); p ++) { size_t r = p / c.nc, g = 0, mm = 1; for (int i = 0; i < 3; i ++) { size_t n = c.partial ? la.size(i) : ad[i], x = r % n; r /= n; g += (x + (c.partial ? la.start(i) : 0)) * mm; mm *= ad[i]; } a[p] = c.d[k][g * c.nc + p % c.nc] * c.q; }
    base.push_field_data_snapshot(a); };
  auto run = [&] {
    if (c.sched == 0) { for (int k = 0; k < c.T; k ++) { push(k); if (k != 0) t.advance_timestep(); if (k == c.T - 1) t.update_timestep(); } }
    else if (c.sched == 1) { for (int k = 0; k < c.T; k ++) push(k); for (int k = 0; k < c.T; k ++) t.advance_timestep(); }
    else { int k = 0; push(k ++); if (k < c.T) push(k ++); for (int i = 0; i < c.T; i ++) { t.advance_timestep(); if (k < c.T) push(k ++); } }
    t.finalize(); };
  run();
  for (int i = 0; i < c.rep; i ++) { t.reset(); run(); }
  if (rank_ != c.root) return "";
  w.key("ev").arr();
  std::vector<feature_point_t> ip; std::map<unsigned long long, int> by;
  w.obj().ks("op", "points"); w.key("p").arr();
  const double rs = c.q == 1 ? 64.0 : 64.0 / (c.kind == "rv" || c.kind == "sh" ? c.q * c.q * c.q : c.q * c.q);
  const double f = c.kind == "sh" ? 2 : c.kind == "rv" ? 16 : 1;
  for (auto& kv : t.found()) { auto& p = kv.second; by[p.tag] = ip.size(); ip.push_back(p);
    w.obj(); w.ki("f", verts(c, m, kv.first)); w.ki("g", verts(c, m, E(m, 2, p.tag))); w.key("x").arr(); for (int i = 0; i < 3; i ++) w.v(vj::fx(p.x[i])); w.v(vj::fx(p.t)); w.aend();
    w.kv("o", (bool)p.ordinal).kv("ts", p.timestep).kv("s", c.kind == "uv" ? 0 : vj::fx(p.scalar[0], rs * f)).kv("s2", c.kind == "rv" ? vj::fx(p.scalar[2], 64 / c.q) : 0).end(); }
  w.aend().end();
  auto curve = [&](const feature_curve_t& cv, long long key, const std::map<unsigned long long, int>& of) { w.obj().kv("loop", (bool)cv.loop).kv("k", key); w.key("p").arr(); for (auto& p : cv) { auto i = of.find(p.tag); w.v(i == of.end() ? -1 : i->second); } w.aend(); w.key("ids").arr(); for (auto& p : cv) w.v((long long)p.id); w.aend().end(); };
  if (t.single()) {
    w.obj().ks("op", "lines"); w.key("curves").arr(); for (auto& kv : t.lines()) curve(kv.second, kv.first, by); w.aend().end();
  } else {
    auto& sf = t.get_traced_surfaces(); std::map<unsigned long long, int> sby;
    w.obj().ks("op", "surface"); w.key("p").arr();
    for (size_t i = 0; i < sf.pts.size(); i ++) { auto& p = sf.pts[i]; auto j = by.find(p.tag); int at = -1; if (j != by.end() && ip[j->second].x == p.x && ip[j->second].t == p.t && ip[j->second].timestep == p.timestep && ip[j->second].ordinal == p.ordinal) at = j->second; w.v(at); sby[p.tag] = i; }
    w.aend(); w.key("id").arr(); for (auto& p : sf.pts) w.v((long long)p.id); w.aend();
    w.key("s").arr(); for (auto& a : sf.tris) w.ints(a); for (auto& a : sf.quads) w.ints(a); for (auto& a : sf.pentagons) w.ints(a); w.aend().end();
    for (int k = 0; k < c.T; k ++) { auto s = sf.slice_time(k); w.obj().ks("op", "slice").kv("t", k); w.key("curves").arr(); for (auto& kv : s) curve(kv.second, kv.first, sby); w.aend().end(); }
  }
  w.aend(); w.end(); return w.s;
}
int main(int argc, char** argv) {
  diy::mpi::environment env(argc, argv);
  MPI_Comm_rank(MPI_COMM_WORLD, &rank_); MPI_Comm_size(MPI_COMM_WORLD, &np_);
  std::ifstream in(argv[argc - 2]); std::ofstream out; if (rank_ == 0) out.open(argv[argc - 1]);
  vj::quiet(); std::string l;
  while (std::getline(in, l)) {
    In r(l); Case c; c.id = r.i(); c.kind = r.w(); c.nc = c.kind == "uv" ? 2 : c.kind == "rv" ? 1 : 3; c.dims = r.vi(3); c.lo = r.vi(3); c.sz = r.vi(3);
    c.nth = r.i(); c.backend = r.i(); c.partial = r.i(); c.root = r.i(); c.sched = r.i(); c.rep = r.i(); c.q = r.d(); c.T = r.i();
    c.N = 1; for (int d : c.dims) c.N *= d; for (int k = 0; k < c.T; k ++) c.d.push_back(r.vi(c.N * c.nc));
    std::string o = c.kind == "uv" ? play<critical_line_tracker_3d_regular>(c) : c.kind == "sh" ? play<sujudi_haimes_tracker_3d_regular>(c) : c.kind == "ldg" ? play<levy_degani_seginer_tracker_3d_regular>(c) : play<ridge_valley_tracker_3d_regular>(c);
    if (np_ > 1) { int k = o.size(); MPI_Bcast(&k, 1, MPI_INT, c.root, MPI_COMM_WORLD); o.resize(k); MPI_Bcast(&o[0], k, MPI_CHAR, c.root, MPI_COMM_WORLD); }
    if (rank_ == 0) { out << o << "\n"; out.flush(); }
  }
}
