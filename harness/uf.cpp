// U01: disjoint sets.  One case = one program (operations per thread); the record holds the distinct
// histories met over many schedules.
#include "vj.hh"
#include "sched.hh"
#include <mpi.h>
#include <ftk/basic/duf.hh>
#include <ftk/basic/union_find.hh>
#include <ftk/basic/simple_union_find.hh>
using vj::W; using vj::In;
struct Op { std::string n; int a = 0, b = 0; };
template <bool G> struct Cmp { bool operator()(int a, int b) const { sched::yield(); return G ? a > b : a < b; } };
static std::string name(int i) { return "e" + std::string(1, 'a' + i % 26) + std::to_string(i); }
static int num(const std::string& s) { return atoi(s.c_str() + 2); }
struct I { virtual ~I() {} virtual std::string run(const Op&) = 0; };
static std::string one(long long x) { return "[" + std::to_string(x) + "]"; }
template <class C> static std::string list(const C& c) { W w; w.ints(c); return w.s; }
template <bool G> struct Duf : I {
  ftk::duf<int, Cmp<G>> d;
  std::string run(const Op& o) {
    if (o.n == "unite") { d.unite(o.a, o.b); return "[]"; }
    if (o.n == "find") return one(d.find(o.a));
    if (o.n == "has") return one(d.has(o.a));
    if (o.n == "size") return one(d.size());
    if (o.n == "roots") { auto r = d.get_roots(); return list(std::vector<int>(r.begin(), r.end())); }
    if (o.n == "sync") { d.sync(); return "[]"; }
    return "[]";
  }
};
template <class T> struct Uf : I {
  ftk::union_find<T> u;
  static T m(int i, int*) { return i; } static T m(int i, std::string*) { return name(i); }
  static int r(int i) { return i; } static int r(const std::string& s) { return num(s); }
  T k(int i) { return m(i, (T*)0); }
  std::string run(const Op& o) {
    if (o.n == "add") { u.add(k(o.a)); return "[]"; }
    if (o.n == "unite") { u.unite(k(o.a), k(o.b)); return "[]"; }
    if (o.n == "find") return one(r(u.find(k(o.a))));
    if (o.n == "has") return one(u.has(k(o.a)));
    if (o.n == "same") return one(u.same_set(k(o.a), k(o.b)));
    if (o.n == "isroot") return one(u.is_root(k(o.a)));
    if (o.n == "parent") return one(r(u.parent(k(o.a))));
    if (o.n == "size") return one(u.eles.size());
    if (o.n == "sets") { W w; w.arr(); for (auto& s : u.get_sets()) { std::vector<int> v; for (auto& x : s) v.push_back(r(x)); w.ints(v); } w.aend(); return w.s; }
    return "[]";
  }
};
struct Simple : I {
  ftk::simple_union_find<size_t> u; Simple(int n) : u(n) {}
  std::string run(const Op& o) {
    if (o.n == "unite") { u.unite(o.a, o.b); return "[]"; }
    if (o.n == "find") return one(u.find(o.a));
    if (o.n == "same") return one(u.same_set(o.a, o.b));
    return "[]";
  }
};
struct E { int call, th; std::string op, res; };
int main(int argc, char** argv) {
  diy::mpi::environment env(argc, argv);
  return vj::cases(argc, argv, [&](In& in) {
    long long id = in.i(); std::string ty = in.w(); int n = in.i(); std::string mode = in.w(); int runs = in.i(); unsigned seed = in.i();
    int nth = in.i(); std::vector<std::vector<Op>> prog(nth + 2);          // setup, threads..., final
    for (auto& p : prog) { int k = in.i(); for (int i = 0; i < k; i ++) { Op o; o.n = in.w(); o.a = in.i(); o.b = in.i(); p.push_back(o); } }
    std::set<std::string> seen; std::vector<std::string> hist; sched::rng.seed(seed);
    std::vector<int> dfs; bool more = true; int nrun = 0;
    for (; nrun < runs && more; nrun ++) {
      std::unique_ptr<I> x;
      if (ty == "duf") x.reset(new Duf<false>); else if (ty == "dufg") x.reset(new Duf<true>);
      else if (ty == "uf") x.reset(new Uf<int>); else if (ty == "ufs") x.reset(new Uf<std::string>); else x.reset(new Simple(n));
      std::vector<E> log; std::atomic_flag lk = ATOMIC_FLAG_INIT;
      auto put = [&](E e) { while (lk.test_and_set()) ; log.push_back(e); lk.clear(); };
      auto exec = [&](int t, const std::vector<Op>& p) { for (auto& o : p) {
        W w; w.arr().str(o.n).v(o.a).v(o.b).aend(); put({1, t, w.s, ""});
        std::string r = x->run(o);
        put({0, t, "", r});
        sched::yield(); } };
      exec(0, prog[0]);
      bool ok = true;
      if (nth == 1) exec(1, prog[1]);
      else if (nth > 1) {
        sched::prefix.clear(); sched::p_switch = 0; sched::pct = false; sched::preempt_left = 1000000;
        if (mode == "dfs") { sched::prefix = dfs; sched::preempt_left = 2; if (sched::prefix.empty()) sched::prefix = {0}; }
        else if (mode == "free") ;
        else if (nrun % 2) { sched::pct = true; sched::prio.clear(); for (int i = 0; i < nth; i ++) sched::prio.push_back(sched::rng() % 1000 + 1); sched::change.clear(); for (int i = 0; i < 3; i ++) sched::change.push_back(sched::rng() % 60); }
        else sched::p_switch = (nrun % 4 == 0) ? .5 : .15;
        std::vector<std::function<void()>> b; for (int t = 1; t <= nth; t ++) b.push_back([&, t] { exec(t, prog[t]); });
        if (mode == "free") { std::vector<std::thread> w; for (auto& f : b) w.emplace_back(f); for (auto& t : w) t.join(); }
        else ok = sched::run(b) && !sched::deadlock;
        if (mode == "dfs") { auto t = sched::trail; while (!t.empty() && t.back().second + 1 >= t.back().first) t.pop_back(); if (t.empty()) more = false; else { dfs.clear(); for (auto& q : t) dfs.push_back(q.second); dfs.back() ++; } }
      }
      W w; w.arr();
      if (ok) {
        exec(0, prog.back());
        std::map<int, size_t> pend; // results known at the call
        for (size_t i = 0; i < log.size(); i ++) if (log[i].call) pend[log[i].th] = i; else log[pend[log[i].th]].res = log[i].res;
        for (auto& e : log) { w.arr(); w.str(e.call ? "c" : "r"); w.v(e.th); if (e.call) { w.raw(e.op); w.raw(e.res); } w.aend(); }
      } else { w.arr().str("r").v(99).aend(); }     // never returned
      w.aend();
      if (seen.insert(w.s).second && hist.size() < 200) hist.push_back(w.s);
      if (!ok) { x.release(); break; }
    }
    W w; w.obj(); w.kv("id", id); w.ks("kind", ty); w.kv("runs", nrun); w.key("init").arr(); if (ty == "simple") for (int i = 0; i < n; i ++) w.v(i); w.aend();
    w.key("h").arr(); for (auto& h : hist) w.raw(h); w.aend(); w.end(); return w.s;
  });
}
