#include <bits/stdc++.h>
#include "vj.hh"
#include <mpi.h>
#include <ftk/filters/critical_point_tracker_2d_regular.hh>
#include <ftk/filters/critical_point_tracker_3d_regular.hh>
#include <ftk/filters/critical_point_tracker_2d_unstructured.hh>
#include <ftk/mesh/simplicial_unstructured_2d_mesh.hh>
#include <ftk/mesh/simplicial_unstructured_extruded_2d_mesh.hh>
#include <ftk/mesh/simplicial_unstructured_extruded_2d_mesh_implicit.hh>
using namespace ftk; using vj::W; using vj::In;
typedef simplicial_regular_mesh_element E;
static int rank_ = 0, np_ = 1;

struct Case {
  int id; std::string kind; int nd;
  std::vector<int> dims, lo, sz; int N, t0, t1;
  int nth, backend, stream, sym, ssrc, jsrc, tf, partial, root; double q;
  int coord; std::vector<double> cb; 
  int nv; std::vector<double> vc; std::vector<int> tris;
  struct Snap { std::vector<double> v, s, j; };
  std::vector<Snap> snaps;
};
static double val(long long x, double q) { return x == 99999 ? std::nan("") : x == 99998 ? std::numeric_limits<double>::infinity() : x * q; }

// how to decode an identifier into spacetime vertices g = t*N + s
static std::vector<long long> sorted(std::vector<long long> v) { std::sort(v.begin(), v.end()); return v; }
struct Reg {
  const Case& c; simplicial_regular_mesh m;
  Reg(const Case& c) : c(c), m(c.nd + 1) {
    std::vector<int> lb(c.lo), ub; for (int i = 0; i < c.nd; i ++) ub.push_back(c.lo[i] + c.sz[i] - 1);
    lb.push_back(c.t0); ub.push_back(c.t1 < 0 ? std::numeric_limits<int>::max() : c.t1);
    m.set_lb_ub(lb, ub);
  }
  std::vector<long long> verts(const E& e) const {
    std::vector<long long> r;
    for (auto& v : e.vertices(m)) {
      long long s = 0, k = 1;
      for (int i = 0; i < c.nd; i ++) { s += v[i] * k; k *= c.dims[i]; }
      r.push_back(v[c.nd] * (long long)c.N + s);
    }
    return sorted(r);
  }
  std::vector<long long> tag(unsigned long long t) const { return verts(E(m, c.nd, t)); }
};
struct Tri {
  std::shared_ptr<simplicial_unstructured_2d_mesh<>> m2; std::shared_ptr<simplicial_unstructured_extruded_2d_mesh<>> m3;
  Tri(const Case& c) {
    if (c.kind != "tri") return;
    ndarray<double> xy; xy.reshape({2, (size_t)c.nv}); for (size_t i = 0; i < c.vc.size(); i ++) xy[i] = c.vc[i];
    ndarray<int> tr; tr.reshape({3, c.tris.size() / 3}); for (size_t i = 0; i < c.tris.size(); i ++) tr[i] = c.tris[i];
    m2.reset(new simplicial_unstructured_2d_mesh<>(xy, tr));
    m3.reset(new simplicial_unstructured_extruded_2d_mesh_implicit<>(m2));
  }
  std::vector<long long> tag(unsigned long long t) const { int v[3]; m3->get_simplex(2, (int)t, v); return sorted({v[0], v[1], v[2]}); }
};

static void point(W& w, const feature_point_t& p, const std::vector<long long>& key, const std::vector<long long>& tag) {
  w.obj(); w.ki("f", key); w.ki("g", tag);
  w.key("x").arr(); for (int i = 0; i < 3; i ++) w.v(vj::fx(p.x[i])); w.v(vj::fx(p.t)); w.aend();
  auto lim = [](double t) { return std::isfinite(t) ? (long long)std::max(-1e8, std::min(1e8, t)) : 2000000001ll; };
  w.kv("fl", lim(std::floor(p.t))); w.kv("ce", lim(std::ceil(p.t)));
  w.kv("s", vj::fx(p.scalar[0])); w.kv("ty", (long long)p.type); w.kv("o", p.ordinal); w.kv("ts", p.timestep); w.kv("id", (long long)p.id);
  w.end();
}
static std::string gather_str(const std::string& s, int root) { // concatenation on every rank
  if (np_ == 1) return s;
  std::vector<int> n(np_), off(np_); int k = s.size();
  MPI_Allgather(&k, 1, MPI_INT, n.data(), 1, MPI_INT, MPI_COMM_WORLD);
  int tot = 0; for (int i = 0; i < np_; i ++) { off[i] = tot; tot += n[i]; }
  std::string r(tot, ' ');
  MPI_Allgatherv((void*)s.data(), k, MPI_CHAR, &r[0], n.data(), off.data(), MPI_CHAR, MPI_COMM_WORLD);
  return r;
}
static std::string bcast_str(std::string s, int root) {
  int k = s.size(); MPI_Bcast(&k, 1, MPI_INT, root, MPI_COMM_WORLD); s.resize(k);
  MPI_Bcast(&s[0], k, MPI_CHAR, root, MPI_COMM_WORLD); return s;
}


template <class Dec>
static std::string curves(const feature_curve_set_t& set, const Dec& D) {
  W w; w.arr();
  for (auto& kv : set) {
    auto& c = kv.second;
    w.obj(); w.kv("k", kv.first); w.kv("id", c.id); w.kv("loop", c.loop); w.kv("cpl", c.complete);
    w.kv("ct", (long long)c.consistent_type); w.kv("tn", vj::fx(c.tmin)); w.kv("tx", vj::fx(c.tmax));
    w.kv("sn", vj::fx(c.min[0])); w.kv("sx", vj::fx(c.max[0])); w.kv("pe", vj::fx(c.persistence[0]));
    w.key("bn").arr(); for (int i = 0; i < 3; i ++) w.v(vj::fx(c.bbmin[i])); w.aend();
    w.key("bx").arr(); for (int i = 0; i < 3; i ++) w.v(vj::fx(c.bbmax[i])); w.aend();
    w.key("p").arr(); for (auto& p : c) { auto g = D.tag(p.tag); point(w, p, g, g); } w.aend();
    w.end();
  }
  w.aend(); return w.s;
}

template <class T, class Dec, class Make, class Key>
static std::string play(const Case& c, In& in, T& t, const Dec& D, Make make, Key points) {
  W w; w.obj(); w.kv("id", c.id); w.key("ev").arr();
  int nops = in.i(); bool fin = false;
  for (int o = 0; o < nops; o ++) {
    std::string op = in.w();
    if (op == "P" || op == "V" || op == "S") {
      int k = in.i(); ndarray<double> s, v, j; make(k, s, v, j);
      if (op == "P") t.push_field_data_snapshot(s, v, j);
      else if (op == "V") t.push_vector_field_snapshot(v);
      else t.push_scalar_field_snapshot(s);
      w.obj(); w.ks("op", op); w.kv("k", k); w.end();
    } else if (op == "A") {
      bool r = t.advance_timestep();
      w.obj(); w.ks("op", op); w.kv("ret", r); w.kv("ct", t.get_current_timestep()); w.end();
    } else if (op == "U") { t.update_timestep(); w.obj(); w.ks("op", op); w.end(); }
    else if (op == "K") { int k = in.i(); t.set_current_timestep(k); w.obj(); w.ks("op", op); w.kv("ct", k); w.end(); }
    else if (op == "F") { t.finalize(); fin = true; w.obj(); w.ks("op", op); w.end(); }
    else if (op == "R") { t.reset(); fin = false; w.obj(); w.ks("op", op); w.kv("ct", t.get_current_timestep()); w.end(); }
    else if (op == "C") {
      std::string l = points(t);
      std::string a = gather_str(l, c.root);
      if (!a.empty() && a[0] == ',') a = a.substr(1);
      w.obj(); w.ks("op", op); w.key("p").raw("[" + a + "]"); w.end();
    } else if (op == "T") {
      std::string s = curves(t.get_traced_critical_points(), D);
      if (np_ > 1) s = bcast_str(s, c.root);
      w.obj(); w.ks("op", op); w.key("tr").raw(s); w.end();
    } else if (op == "L") {
      t.slice_traced_critical_points();
      W x; x.arr();
      for (auto& kv : t.get_sliced_critical_points()) {
        x.obj(); x.kv("t", kv.first); x.key("p").arr();
        for (auto& p : kv.second) { auto g = D.tag(p.tag); point(x, p, g, g); }
        x.aend(); x.end();
      }
      x.aend();
      std::string s = x.s; if (np_ > 1) s = bcast_str(s, c.root);
      w.obj(); w.ks("op", op); w.key("sl").raw(s); w.end();
    } else if (op == "I") {
      int a = in.i(), b = in.i();
      auto r = t.get_intercepted_critical_point(a, b);
      w.obj(); w.ks("op", op); w.kv("a", a); w.kv("b", b); w.key("tr").raw(curves(r, D)); w.end();
    } else if (op == "X") { // keep trajectories with at least n points
      int n = in.i();
      t.select_trajectories([n](const feature_curve_t& k) { return (int)k.size() >= n; });
      w.obj(); w.ks("op", op); w.kv("n", n); w.key("tr").raw(curves(t.get_traced_critical_points(), D)); w.end();
    } else if (op == "Y") { // keep sliced points of types in a mask
      int n = in.i();
      t.select_sliced_critical_points([n](const feature_point_t& p) { return (int)(p.type & n) != 0; });
      W x; x.arr();
      for (auto& kv : t.get_sliced_critical_points()) {
        x.obj(); x.kv("t", kv.first); x.key("p").arr();
        for (auto& p : kv.second) { auto g = D.tag(p.tag); point(x, p, g, g); }
        x.aend(); x.end();
      }
      x.aend();
      w.obj(); w.ks("op", op); w.kv("n", n); w.key("sl").raw(x.s); w.end();
    }
  }
  w.aend(); w.end(); return w.s;
}

template <class T>
static void setup(const Case& c, T& t) {
  t.set_scalar_field_source(c.ssrc); t.set_vector_field_source(c.ssrc && c.jsrc == 2 ? SOURCE_DERIVED : SOURCE_GIVEN);
  t.set_jacobian_field_source(c.jsrc); t.set_jacobian_symmetric(c.sym & 1); t.set_enable_computing_degrees(c.sym & 2);
  t.set_enable_streaming_trajectories(c.stream);
  if (c.tf >= 0) t.set_type_filter(c.tf);
  t.set_start_timestep(c.t0); if (c.t1 >= 0) t.set_end_timestep(c.t1);
  t.set_current_timestep(c.t0);
  t.set_root_proc(c.root);
  if (c.nth > 0) t.set_number_of_threads(c.nth);
  t.use_thread_backend(c.backend);
}

template <class T>
static std::string regular(const Case& c, In& in) {
  diy::mpi::communicator comm;
  T t(comm); setup(c, t);
  std::vector<size_t> st(c.lo.begin(), c.lo.end()), sz(c.sz.begin(), c.sz.end()), z(c.nd, 0), ad(c.dims.begin(), c.dims.end());
  t.set_domain(lattice(st, sz)); t.set_array_domain(lattice(z, ad));
  t.set_input_array_partial(c.partial);
  if (c.coord == 1) t.set_coords_bounds(c.cb);
  else if (c.coord == 2) { // one array per axis
    std::vector<ndarray<double>> r; size_t k = 0;
    for (int i = 0; i < c.nd; i ++) { ndarray<double> a; a.reshape({ad[i]}); for (size_t j = 0; j < ad[i]; j ++) a[j] = c.cb[k ++]; r.push_back(a); }
    t.set_coords_rectilinear(r);
  } else if (c.coord == 3) { // explicit coordinates, 3 per vertex
    std::vector<size_t> s{3}; s.insert(s.end(), ad.begin(), ad.end());
    ndarray<double> a; a.reshape(s); for (size_t j = 0; j < a.size(); j ++) a[j] = c.cb[j]; t.set_coords_explicit(a);
  }
  t.initialize();
  Reg D(c);
  lattice la = t.get_local_array_domain();
  auto make = [&](int k, ndarray<double>& s, ndarray<double>& v, ndarray<double>& j) {
    auto fill = [&](ndarray<double>& a, const std::vector<double>& d, int nc, std::vector<size_t> lead) {
      if (d.empty()) return;
      std::vector<size_t> shape(lead); for (int i = 0; i < c.nd; i ++) shape.push_back(c.partial ? la.size(i) : ad[i]);
      a.reshape(shape);
      size_t n = 1; for (int i = 0; i < c.nd; i ++) n *= shape[lead.size() + i];
      for (size_t p = 0; p < n; p ++) {
        size_t r = p, g = 0, m = 1;
        for (int i = 0; i < c.nd; i ++) { size_t x = r % shape[lead.size() + i]; r /= shape[lead.size() + i]; g += (x + (c.partial ? la.start(i) : 0)) * m; m *= ad[i]; }
        for (int q = 0; q < nc; q ++) a[p * nc + q] = d[g * nc + q];
      }
    };
    size_t d = c.nd;
    fill(s, c.snaps[k].s, 1, {}); fill(v, c.snaps[k].v, c.nd, {d}); fill(j, c.snaps[k].j, c.nd * c.nd, {d, d});
  };
  auto points = [&](T& t) {
    W w; w.comma = true;
    for (auto& kv : t.get_discrete_critical_points()) point(w, kv.second, D.verts(kv.first), D.tag(kv.second.tag));
    return w.s;
  };
  return play(c, in, t, D, make, points);
}
static std::string triangles(const Case& c, In& in) {
  diy::mpi::communicator comm; Tri D(c);
  critical_point_tracker_2d_unstructured t(comm, D.m3); setup(c, t);
  t.initialize();
  auto make = [&](int k, ndarray<double>& s, ndarray<double>& v, ndarray<double>& j) {
    size_t n = c.nv; auto& p = c.snaps[k];
    if (!p.s.empty()) { s.reshape({1, n}); for (size_t i = 0; i < n; i ++) s[i] = p.s[i]; }
    v.reshape({2, n}); for (size_t i = 0; i < 2*n; i ++) v[i] = p.v[i];
    if (!p.j.empty()) { j.reshape({2, 2, n}); for (size_t i = 0; i < 4*n; i ++) j[i] = p.j[i]; }
  };
  auto points = [&](critical_point_tracker_2d_unstructured& t) {
    W w; w.comma = true; // every process examines the whole mesh; the root's points are the result
    if (rank_ != c.root) return std::string();
    for (auto& p : t.get_critical_points()) { auto g = D.tag(p.tag); point(w, p, g, g); }
    return w.s;
  };
  return play(c, in, t, D, make, points);
}

int main(int argc, char** argv) {
  diy::mpi::environment env(argc, argv);
  MPI_Comm_rank(MPI_COMM_WORLD, &rank_); MPI_Comm_size(MPI_COMM_WORLD, &np_);
  std::ifstream in(argv[argc - 2]); std::ofstream out;
  if (rank_ == 0) out.open(argv[argc - 1]);
  vj::quiet();
  std::string l;
  while (std::getline(in, l)) {
    In r(l); Case c; c.id = r.i(); c.kind = r.w(); c.nd = r.i();
    c.dims = r.vi(c.nd); c.lo = r.vi(c.nd); c.sz = r.vi(c.nd); c.t0 = r.i(); c.t1 = r.i();
    c.nth = r.i(); c.backend = r.i(); c.stream = r.i(); c.sym = r.i(); c.ssrc = r.i(); c.jsrc = r.i(); c.tf = r.i(); c.partial = r.i(); c.root = r.i(); c.q = r.d();
    c.coord = r.i(); c.cb = r.vd(r.i());
    if (c.kind == "tri") { c.nv = r.i(); c.vc = r.vd(c.nv * 2); int k = r.i(); c.tris = r.vi(3 * k); c.N = c.nv; }
    else { c.N = 1; for (int d : c.dims) c.N *= d; c.nv = c.N; }
    int ns = r.i();
    for (int s = 0; s < ns; s ++) {
      Case::Snap p; int hv = r.i(), hs = r.i(), hj = r.i();
      if (hv) for (auto x : r.vd(c.nv * c.nd)) p.v.push_back(val((long long)x, c.q));
      if (hs) for (auto x : r.vd(c.nv)) p.s.push_back(val((long long)x, 1));
      if (hj) for (auto x : r.vd(c.nv * c.nd * c.nd)) p.j.push_back(val((long long)x, 1));
      c.snaps.push_back(p);
    }
    std::string o;
    if (c.kind == "tri") o = triangles(c, r);
    else if (c.nd == 2) o = regular<critical_point_tracker_2d_regular>(c, r);
    else o = regular<critical_point_tracker_3d_regular>(c, r);
    if (rank_ == 0) { out << o << "\n"; out.flush(); }
  }
  return 0;
}
