// D03: derived fields.
// id grid op nc nd s.. ints..   |  id mesh sigma nv xy nt tris field(nv) vec(2nv) weights-seed  |  id simp d X f(rows)
#include "vj.hh"
#include <mpi.h>
#include <queue>
#include <ftk/ndarray.hh>
#include <ftk/ndarray/grad.hh>
#include <ftk/ndarray/conv.hh>
#include <ftk/numeric/gradient.hh>
#include <ftk/mesh/simplicial_unstructured_2d_mesh.hh>
using vj::W; using vj::In;
template <class A> static void out(W& w, const A& a, double scale) {
  std::vector<long long> v; bool ex = true;
  for (size_t i = 0; i < a.nelem(); i ++) { double y = a[i] * scale, z = std::round(y); if (!(std::abs(y - z) < 1e-3 * std::max(1.0, scale / 1000)) || std::abs(z) > 1e9) ex = false, z = std::isfinite(y) ? std::min(1e9, std::max(-1e9, z)) : 1e9; v.push_back((long long)z); }
  w.ki("out", v).ki("os", a.shape()).kv("ex", ex);
}
template <class T> static ftk::ndarray<T> mk(int nc, const std::vector<size_t>& s, const std::vector<int>& v, bool comp) {
  std::vector<size_t> d = s; if (comp) d.insert(d.begin(), nc);
  ftk::ndarray<T> a(d); if (comp) a.set_multicomponents(1);
  for (size_t i = 0; i < std::min(v.size(), a.nelem()); i ++) a[i] = v[i];
  return a;
}
template <class T> static void grid(In& in, W& w) {
  using namespace ftk;
  std::string op = in.w(); int nc = in.i(), nd = in.i(); auto s = in.vz(nd); size_t n = 1; for (auto x : s) n *= x;
  auto v = in.vi(n * nc);
  w.obj().ks("op", op).kv("nc", nc).ki("s", s).ki("in", v);
  bool comp = op == "jac2" || op == "jac2s" || op == "jac2t" || op == "jac3" || op == "jac3t" || op == "vort" || op == "cross" || op == "jv" || op == "jtv";
  auto a = mk<T>(nc, s, v, comp);
  if (op == "grad2" || op == "jac2" || op == "jac2s") {
    auto W0 = in.vi(2); std::vector<int> Wd = {W0[0] ? W0[0] : (int)s[0], W0[1] ? W0[1] : (int)s[1]}; w.ki("W", Wd);
    if (op == "grad2") out(w, W0[0] || W0[1] ? gradient2D(a, W0[0], W0[1]) : gradient2D(a), 1);
    else if (op == "jac2") out(w, W0[0] || W0[1] ? jacobian2D(a, W0[0], W0[1]) : jacobian2D(a), 1);
    else out(w, jacobian2D<T, true>(a, W0[0], W0[1]), 2);
  } else if (op == "grad2t") out(w, gradient2Dt(a), 2);
  else if (op == "jac2t") out(w, jacobian2Dt(a), 2);
  else if (op == "grad3") out(w, gradient3D(a), 2);
  else if (op == "grad3t") out(w, gradient3Dt(a), 2);
  else if (op == "jac3") { int b = in.i(); w.kv("b", b); out(w, b == 2 ? jacobian3D(a) : jacobian3D(a, b), 2); }
  else if (op == "jac3t") out(w, jacobian3Dt(a), 2);
  else if (op == "vort") out(w, vorticity3D(a), 1);
  else if (op == "jv") out(w, Jv_dot_v(a), 2);
  else if (op == "jtv") out(w, JvT_dot_v(a), 2);
  else if (op == "cross") { auto v2 = in.vi(n * nc); w.ki("in2", v2); auto b = mk<T>(nc, s, v2, true); out(w, cross_product3D(a, b), 1); }
  else if (op == "conv") {
    auto ks = in.vz(nd); int p = in.i(); size_t kn = 1; for (auto x : ks) kn *= x; auto k = in.vi(kn); auto K = mk<T>(1, ks, k, false);
    w.ki("ks", ks).kv("p", p).ki("k", k);
    out(w, nd == 2 ? conv2D(a, K, p) : conv3D(a, K, p), kn);
  } else if (op == "flat") {      // pre: 0 scalar, 1 components in one dimension, 2 in two dimensions
    int pre = in.i(), k = in.i(), p = in.i(); std::vector<size_t> P, ks(nd, k); size_t kn = 1; for (auto x : ks) kn *= x;
    if (pre == 1) P = {(size_t)nc}; else if (pre == 2) P = {2, (size_t)nc / 2};
    auto d = P; d.insert(d.end(), s.begin(), s.end()); a.reshape(d); a.set_multicomponents(pre);
    for (size_t i = 0; i < std::min(v.size(), a.nelem()); i ++) a[i] = v[i];
    w.ki("pre", P).ki("ks", ks).kv("p", p);
    out(w, conv_gaussian<T>(a, T(1e6), k, p), double(kn) * kn);
  }
  w.end();
}
static void mesh(In& in, W& w) {
  using namespace ftk;
  int sg = in.i(); int nv = in.i(); auto xy = in.vi(2 * nv); int nt = in.i(); auto tr = in.vi(3 * nt); auto f = in.vi(nv), vec = in.vi(2 * nv); int ks = in.i();
  std::vector<double> c(xy.begin(), xy.end());
  simplicial_unstructured_2d_mesh<int, double> m(c, tr);
  std::vector<std::vector<int>> P(nv), T(nt); for (int i = 0; i < nv; i ++) P[i] = {xy[2*i], xy[2*i+1]}; for (int i = 0; i < nt; i ++) T[i] = {tr[3*i], tr[3*i+1], tr[3*i+2]};
  w.key("h").obj().kv("mesh", true).key("p").ints2(P).key("t").ints2(T).end();
  w.key("ev").arr();
  ndarray<double> fa, va; fa.reshape(nv); va.reshape(2, nv); va.set_multicomponents(1); for (int i = 0; i < nv; i ++) { fa[i] = f[i]; va(0, i) = vec[2*i]; va(1, i) = vec[2*i+1]; }
  w.obj().ks("op", "mgrad").ki("in", f); out(w, m.scalar_gradient(fa), 60); w.end();
  w.obj().ks("op", "mjac").kv("nc", 2).ki("in", vec); out(w, m.vector_gradient(va), 60); w.end();
  ndarray<double> g, j; m.scalar_gradient_jacobian(fa, g, j);
  w.obj().ks("op", "mgrad").ki("in", f); out(w, g, 60); w.end();
  w.obj().ks("op", "mhess").ki("in", f); out(w, j, 3600); w.end();
  // built kernels: members and ranks of weights; 3 * (sigma / 3) may round: the limit used here lies between squared integer distances
  const double sig = std::sqrt(sg * sg + .5) / 3; m.build_smoothing_kernel(sig);
  auto rank = [&](W& w) {
    w.key("k").arr();
    for (auto& k : m.get_smoothing_kernel()) {
      std::set<double> ws; for (auto& t : k) ws.insert(std::get<1>(t)); std::vector<double> u; for (double x : ws) if (u.empty() || x - u.back() > 1e-9 * x) u.push_back(x);
      w.arr(); for (auto& t : k) { int r = 1; for (double x : u) if (x > std::get<1>(t) * (1 + 1e-9)) r ++; w.arr().v(std::get<0>(t)).v(r).aend(); } w.aend();
    }
    w.aend();
  };
  w.obj().ks("op", "kernel").kv("l2", sg * sg + 1); rank(w); w.end();
  // given kernels, written to and read from a file; smoothing
  std::vector<std::vector<std::tuple<int, double>>> K(nv); std::mt19937 rg(ks);
  for (int i = 0; i < nv; i ++) { std::set<int> u; int n = rg() % 5; while (n --) u.insert(rg() % nv); for (int x : u) K[i].push_back(std::make_tuple(x, double(int(rg() % 7) - 2))); }
  std::string fn = "kernel." + std::to_string(getpid()); double s2 = sg;
  diy::serializeToFile(s2, K, fn); bool ok = m.read_smoothing_kernel(fn); m.write_smoothing_kernel(fn + ".b");
  simplicial_unstructured_2d_mesh<int, double> m2(c, tr); ok = m2.read_smoothing_kernel(fn + ".b") && ok; unlink(fn.c_str()); unlink((fn + ".b").c_str());
  auto ker = [&](W& w) { w.key("k").arr(); for (auto& k : K) { w.arr(); for (auto& t : k) w.arr().v(std::get<0>(t)).v((long long)std::get<1>(t)).aend(); w.aend(); } w.aend(); };
  ndarray<double> fs, sgr, sj; m2.smooth_scalar_gradient_jacobian(fa, fs, sgr, sj);
  w.obj().ks("op", "smooth").ki("in", f); ker(w); out(w, m2.smooth_scalar(fa), ok ? 1 : 1e7); w.end();
  w.obj().ks("op", "smooth").ki("in", f); ker(w); out(w, fs, 1); w.end();
  w.obj().ks("op", "smoothg").ki("in", f); ker(w); out(w, sgr, sg * sg); w.end();
  w.obj().ks("op", "smoothj").kv("q", sg * sg).ki("in", f); ker(w); out(w, sj, sg * sg * sg * sg); w.end();
  w.aend();
}
static void simp(In& in, W& w) {
  using namespace ftk;
  std::string k = in.w(); int d = in.i(); std::vector<std::vector<int>> X(d + 1); for (auto& x : X) x = in.vi(d);
  int nr = in.i(); std::vector<std::vector<int>> f(nr); for (auto& r : f) r = in.vi(d + 1);
  std::vector<std::vector<long long>> g(nr); bool ex = true;
  auto put = [&](int r, double x) { double z = std::round(x); if (!(std::abs(x - z) < 1e-3)) ex = false, z = 0; g[r].push_back((long long)z); };
  if (d == 2) {
    double x[3][2]; for (int i = 0; i < 3; i ++) for (int a = 0; a < 2; a ++) x[i][a] = X[i][a];
    if (k == "grad") for (int r = 0; r < nr; r ++) { double v[3], o[2]; for (int i = 0; i < 3; i ++) v[i] = f[r][i]; gradient_2dsimplex2(x, v, o); for (double y : o) put(r, y); }
    else { double v[3][2], o[2][2]; for (int i = 0; i < 3; i ++) for (int r = 0; r < 2; r ++) v[i][r] = f[r][i]; jacobian_2dsimplex2(x, v, o); for (int r = 0; r < 2; r ++) for (int a = 0; a < 2; a ++) put(r, o[a][r]); }
  } else {
    double x[4][3]; for (int i = 0; i < 4; i ++) for (int a = 0; a < 3; a ++) x[i][a] = X[i][a];
    { double v[4][3], o[3][3]; for (int i = 0; i < 4; i ++) for (int r = 0; r < 3; r ++) v[i][r] = f[r][i]; jacobian_3dsimplex(x, v, o); for (int r = 0; r < 3; r ++) for (int a = 0; a < 3; a ++) put(r, o[a][r]); }
  }
  w.obj().ks("op", "simplex").ks("k", k).key("X").ints2(X).key("f").ints2(f).key("g").ints2(g).kv("ex", ex).end();
}
int main(int argc, char** argv) {
  diy::mpi::environment env(argc, argv);
  return vj::cases(argc, argv, [&](In& in) {
    W w; w.obj(); w.kv("id", in.i()); std::string k = in.w();
    if (k == "mesh") mesh(in, w);
    else {
      w.key("h").obj().kv("mesh", false).end().key("ev").arr(); int n = in.i();
      for (int i = 0; i < n; i ++) { std::string t = in.w(); if (t == "d") grid<double>(in, w); else if (t == "f") grid<float>(in, w); else simp(in, w); }
      w.aend();
    }
    w.end(); return w.s;
  });
}
