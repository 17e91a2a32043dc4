// K01: point queries.  Case: id kd dim n scale stride coords nq queries | id mesh scale nv xy nt tris nc field nq queries
// coordinates are integers divided by a power of two
#include "vj.hh"
#include <mpi.h>
#include <queue>
#include <ftk/ndarray.hh>
#include <ftk/basic/kd.hh>
#include <ftk/mesh/simplicial_unstructured_2d_mesh.hh>
#include <ftk/mesh/point_locator_2d_quad.hh>
using vj::W; using vj::In;
struct mesh_t : public ftk::simplicial_unstructured_2d_mesh<int, double> {
  using ftk::simplicial_unstructured_2d_mesh<int, double>::simplicial_unstructured_2d_mesh;
  void loc() { this->locator.reset(new ftk::point_locator_2d_quad<int, double>(*this)); }
};
template <int n> static void kd(In& in, W& w) {
  int np = in.i(); double sc = in.i(); int stride = in.i(); std::vector<std::array<long long, n>> p(np);
  for (auto& q : p) for (auto& c : q) c = in.i();
  ftk::kd_t<double, n> t;
  if (stride) {
    std::vector<double> a(np * stride, 1e30); for (int i = 0; i < np; i ++) for (int k = 0; k < n; k ++) a[i * stride + k] = p[i][k] / sc;
    t.set_inputs(np, a.data(), stride);
  } else {
    ftk::ndarray<double> a; a.reshape(n, np); for (int i = 0; i < np; i ++) for (int k = 0; k < n; k ++) a(k, i) = p[i][k] / sc;
    t.set_inputs(a);
  }
  t.build();
  w.key("h").obj().ks("k", "kd").kv("ok", true).key("p").ints2(p).ki("t", std::vector<int>()).ki("f", std::vector<int>()).end();
  w.key("ev").arr();
  int nq = in.i();
  for (int i = 0; i < nq; i ++) {
    std::array<long long, n> q; std::array<double, n> x; for (int k = 0; k < n; k ++) { q[k] = in.i(); x[k] = q[k] / sc; }
    std::vector<long long> r = {(long long)t.find_nearest(x), (long long)t.find_nearest(x.data()), (long long)t.find_nearest_naive(x)};
    w.obj().ks("op", "near").ki("x", q).ki("r", r).end();
    auto l = t.find_leaf(x); w.obj().ks("op", "leaf").kv("r", (long long)(l && l->is_leaf() ? (long long)l->id : -1)).end();
  }
  w.aend();
}
static void mesh(In& in, W& w) {
  double sc = in.i(); int nv = in.i(); auto xy = in.vi(2 * nv); int nt = in.i(); auto tr = in.vi(3 * nt); int nc = in.i(); auto f = in.vi(nv * std::max(1, nc));
  std::vector<double> c(xy.begin(), xy.end()); for (auto& v : c) v /= sc;
  mesh_t m(c, tr); m.loc();
  std::vector<std::vector<int>> P(nv), T(nt), F(nv);
  for (int i = 0; i < nv; i ++) { P[i] = {xy[2*i], xy[2*i+1]}; for (int k = 0; k < std::max(1, nc); k ++) F[i].push_back(f[i * std::max(1, nc) + k]); }
  bool ok = (int)m.n(2) == nt;
  for (int i = 0; i < nt && ok; i ++) { int t[3]; m.get_triangle(i, t); T[i] = {t[0], t[1], t[2]}; }      // the mesh may number its triangles itself
  w.key("h").obj().ks("k", "mesh").kv("ok", ok).key("p").ints2(P).key("t").ints2(T).key("f").ints2(F).end();
  w.key("ev").arr();
  ftk::ndarray<double> fa; if (nc == 0) { fa.reshape(nv); } else { fa.reshape(nc, nv); fa.set_multicomponents(1); }
  for (int i = 0; i < nv; i ++) for (int k = 0; k < std::max(1, nc); k ++) { if (nc) fa(k, i) = F[i][k]; else fa[i] = F[i][k]; }
  auto loc = std::dynamic_pointer_cast<ftk::point_locator_2d_quad<int, double>>(m.get_locator());
  auto bvh = loc->to_bvh(); w.obj().ks("op", "tree").key("n").arr();
  auto I = [&](double x) { return (long long)std::llround(x * sc); };
  for (auto& b : bvh) {
    w.obj().kv("p", b.parentId).ki("c", std::vector<int>(b.childrenIds, b.childrenIds + 4)).key("b").ints(std::vector<long long>{I(b.Ax), I(b.Ay), I(b.Bx), I(b.By)}).kv("t", b.triangleId);
    if (b.triangleId >= 0) w.ki("v", std::vector<int>{b.i0, b.i1, b.i2}).key("xy").ints2(std::vector<std::vector<long long>>{{I(b.x0), I(b.y0)}, {I(b.x1), I(b.y1)}, {I(b.x2), I(b.y2)}});
    else w.ki("v", std::vector<int>()).ki("xy", std::vector<int>());
    w.end();
  }
  w.aend().end();
  int nq = in.i();
  for (int i = 0; i < nq; i ++) {
    std::vector<int> q = in.vi(2); double x[2] = {q[0] / sc, q[1] / sc}, mu[3] = {0, 0, 0};
    int r = m.locate(x, mu), r2 = loc->point_locator_2d<int, double>::locate(x);
    w.obj().ks("op", "locate").ki("x", q).kv("r", r).kv("bvh", r != r2).key("mu").ints(std::vector<long long>{vj::fx(mu[0]), vj::fx(mu[1]), vj::fx(mu[2])}).end();
    w.obj().ks("op", "near").ki("x", q).ki("r", std::vector<int>{m.nearest(x)}).end();
    std::vector<double> v(std::max(1, nc)); bool e = m.eval(fa, x, v.data()); std::vector<long long> vv; for (auto z : v) vv.push_back(vj::fx(z));
    w.obj().ks("op", "eval").ki("x", q).kv("r", e).ki("v", vv).end();
  }
  w.aend();
}
int main(int argc, char** argv) {
  diy::mpi::environment env(argc, argv);
  return vj::cases(argc, argv, [&](In& in) {
    W w; w.obj(); w.kv("id", in.i()); std::string k = in.w();
    if (k == "mesh") mesh(in, w); else { int d = in.i(); if (d == 1) kd<1>(in, w); else if (d == 2) kd<2>(in, w); else if (d == 3) kd<3>(in, w); else kd<4>(in, w); }
    w.end(); return w.s;
  });
}
