#include <bits/stdc++.h>
#include "vj.hh"
#include <ftk/mesh/simplicial_regular_mesh.hh>
#include <ftk/mesh/lattice.hh>
#include <ftk/mesh/lattice_partitioner.hh>
using namespace ftk; using vj::W; using vj::In;
typedef simplicial_regular_mesh_element E;
typedef std::vector<std::vector<int>> VV;

static void el(W& w, const E& e, const simplicial_regular_mesh& m) {
  w.obj(); w.key("v").ints2(e.vertices(m)); w.kv("ok", e.valid(m)); w.kv("or", e.is_ordinal(m)); w.end();
}
static std::string mesh_case(In& in) {
  int id = in.i(), nd = in.i();
  auto lb = in.vi(nd), ub = in.vi(nd);
  simplicial_regular_mesh m(nd);
  m.set_lb_ub(lb, ub);
  W w; w.obj(); w.kv("id", id); w.ks("kind", "mesh"); w.kv("nd", nd); w.ki("lb", lb); w.ki("ub", ub);
  w.key("ev").arr();
  int nq = in.i();
  for (int q = 0; q < nq; q ++) {
    std::string op = in.w();
    if (op == "visit") {           // d scope sub-box
      int d = in.i(), scope = in.i(), mode = in.i(), nth = in.i();
      auto st = in.vi(nd), sz = in.vi(nd);
      std::mutex mu; std::vector<E> got;
      auto f = [&](E e) { std::lock_guard<std::mutex> g(mu); got.push_back(e); };
      lattice sub; sub.reshape(st, sz);
      if (mode == 0) m.element_for(d, sub, scope, f, FTK_XL_NONE, nth, false);
      else if (mode == 1) m.element_for_ordinal(d, st[nd-1], f, FTK_XL_NONE, nth, false);
      else if (mode == 2) m.element_for_interval(d, st[nd-1], st[nd-1] + 1, f, FTK_XL_NONE, nth, false);
      else m.element_for(d, f, FTK_XL_NONE, nth, false);
      w.obj(); w.ks("op", "visit"); w.kv("d", d); w.kv("scope", scope); w.ki("st", st); w.ki("sz", sz);
      w.key("els").arr(); for (auto& e : got) el(w, e, m); w.aend();
      w.end();
    } else if (op == "rel") {      // d st sz : relations of every element with corner in the box
      int d = in.i(); auto st = in.vi(nd), sz = in.vi(nd);
      lattice sub; sub.reshape(st, sz);
      std::vector<E> got;
      m.element_for(d, sub, ELEMENT_SCOPE_ALL, [&](E e) { got.push_back(e); }, FTK_XL_NONE, 1, false);
      w.obj(); w.ks("op", "rel"); w.kv("d", d); w.key("els").arr();
      for (auto& e : got) {
        w.obj(); w.key("v").ints2(e.vertices(m));
        w.key("s").arr(); for (auto& s : e.sides(m)) w.ints2(s.vertices(m)); w.aend();
        w.key("c").arr(); for (auto& s : e.side_of(m)) w.ints2(s.vertices(m)); w.aend();
        w.end();
      }
      w.aend(); w.end();
    } else if (op == "ids") {      // identifiers: d scope st sz stride
      int d = in.i(), scope = in.i(); auto st = in.vi(nd), sz = in.vi(nd);
      lattice sub; sub.reshape(st, sz);
      std::vector<E> got;
      m.element_for(d, sub, scope, [&](E e) { got.push_back(e); }, FTK_XL_NONE, 1, false);
      w.obj(); w.ks("op", "ids"); w.kv("d", d); w.key("els").arr();
      size_t j = 0;
      for (auto& e : got) {
        auto i = e.to_integer<uint64_t>(m);
        E back(m, d, i);
        size_t wi = e.to_work_index(m, sub, scope);
        E wb(m, d, wi, sub, scope);
        w.obj(); w.key("v").ints2(e.vertices(m)); w.kv("ok", e.valid(m)); w.ks("i", std::to_string(i));
        w.key("b").ints2(back.vertices(m)); w.kv("eq", back == e && !(back != e) && !(back < e) && !(back > e));
        w.kv("w", wi); w.key("wb").ints2(wb.vertices(m));
        w.end(); j ++;
      }
      w.aend(); w.end();
    } else if (op == "order") {    // container order: distinct elements are strictly ordered
      int d = in.i(); auto st = in.vi(nd), sz = in.vi(nd);
      lattice sub; sub.reshape(st, sz);
      std::set<E> s; std::unordered_set<E> h; size_t n = 0;
      m.element_for(d, sub, ELEMENT_SCOPE_ALL, [&](E e) { s.insert(e); h.insert(e); n ++; }, FTK_XL_NONE, 1, false);
      w.obj(); w.ks("op", "order"); w.kv("n", n); w.kv("s", s.size()); w.kv("h", h.size()); w.end();
    }
  }
  w.aend(); w.end();
  return w.s;
}
// a lattice: identifiers of its points
static std::string lattice_case(In& in) {
  int id = in.i(), nd = in.i(); auto st = in.vi(nd), sz = in.vi(nd); int all = in.i();
  lattice l; l.reshape(st, sz);
  W w; w.obj(); w.kv("id", id); w.ks("kind", "lattice"); w.kv("nd", nd); w.ki("st", st); w.ki("sz", sz);
  w.key("ev").arr(); w.obj(); w.ks("op", "pts"); w.kv("all", all); w.ks("n", std::to_string(l.n()));
  { std::vector<int> a, b; for (int i = 0; i < nd; i ++) { a.push_back((int)l.lower_bounds()[i]); b.push_back((int)l.upper_bounds()[i]); } w.ki("lo", a); w.ki("hi", b); }
  w.key("p").arr();
  auto put = [&](const std::vector<int>& c) {
    auto i = l.to_integer<uint64_t>(c); auto b = l.from_integer<uint64_t>(i);
    std::vector<size_t> cz(c.begin(), c.end());
    w.obj(); w.ki("c", c); w.ks("i", std::to_string(i)); w.ki("b", b); w.end();
  };
  if (all) {
    std::vector<int> c(st);
    while (1) { put(c); int k = 0; while (k < nd) { if (++ c[k] < st[k] + sz[k]) break; c[k] = st[k]; k ++; } if (k == nd) break; }
  } else { int n = in.i(); for (int k = 0; k < n; k ++) put(in.vi(nd)); }
  w.aend(); w.end(); w.aend(); w.end();
  return w.s;
}
// containment and decomposition
static std::string part_case(In& in) {
  int id = in.i(), nd = in.i(); auto st = in.vz(nd), sz = in.vz(nd);
  lattice l(st, sz); lattice_partitioner p(l);
  W w; w.obj(); w.kv("id", id); w.ks("kind", "part"); w.kv("nd", nd); w.ki("st", st); w.ki("sz", sz);
  w.key("ev").arr();
  int nq = in.i();
  for (int q = 0; q < nq; q ++) {
    std::string op = in.w();
    if (op == "part") {
      int np = in.i(), mode = in.i(); // 0: np; 1: given; 2: given,ghost; 3: given, lo, hi
      std::vector<size_t> given = in.vz(nd), lo = in.vz(nd), hi = in.vz(nd);
      if (mode == 0) p.partition(np);
      else if (mode == 1) p.partition(np, given);
      else if (mode == 2) { hi = lo; p.partition(np, given, lo); }
      else p.partition(np, given, lo, hi);
      if (mode < 2) { lo.assign(nd, 0); hi.assign(nd, 0); }
      if (mode < 1) given.assign(nd, 0);
      w.obj(); w.ks("op", "part"); w.kv("np", np); w.ki("given", given); w.ki("lo", lo); w.ki("hi", hi);
      w.kv("nd", p.nd());
      w.key("cores").arr(); for (size_t i = 0; i < p.np(); i ++) { w.arr(); w.ints(p.get_core(i).starts()); w.ints(p.get_core(i).sizes()); w.aend(); } w.aend();
      w.key("exts").arr(); for (size_t i = 0; i < p.np(); i ++) { w.arr(); w.ints(p.get_ext(i).starts()); w.ints(p.get_ext(i).sizes()); w.aend(); } w.aend();
      w.end();
    } else if (op == "ghost") {
      auto bs = in.vz(nd), bz = in.vz(nd), lo = in.vz(nd), hi = in.vz(nd);
      auto g = p.add_ghost(lattice(bs, bz), lo, hi);
      w.obj(); w.ks("op", "ghost"); w.ki("bs", bs); w.ki("bz", bz); w.ki("lo", lo); w.ki("hi", hi);
      w.ki("gs", g.starts()); w.ki("gz", g.sizes()); w.end();
    } else if (op == "contains") {
      auto c = in.vz(nd); w.obj(); w.ks("op", "contains"); w.ki("c", c); w.kv("r", l.contains(c)); w.end();
    }
  }
  w.aend(); w.end();
  return w.s;
}
int main(int argc, char** argv) {
  diy::mpi::environment env(argc, argv);
  return vj::cases(argc, argv, [](In& in) {
    std::string k = in.w();
    return k == "mesh" ? mesh_case(in) : k == "lattice" ? lattice_case(in) : part_case(in);
  });
}
