// P02: parallel loops.  One case = one loop; the record lists begin/end of every task and the return.
#include "vj.hh"
#include <ftk/object.hh>
#include <ftk/mesh/simplicial_regular_mesh.hh>
#include <ftk/mesh/simplicial_unstructured_extruded_2d_mesh.hh>
#include <ftk/mesh/simplicial_unstructured_extruded_2d_mesh_implicit.hh>
using vj::W; using vj::In;
struct Ev { char k; long long j; };
static std::mutex mu; static std::vector<Ev> evs; static int slow_; static unsigned seed_;
static std::atomic<bool> stop_{false};
static void log_(char k, long long j) { std::lock_guard<std::mutex> g(mu); if (evs.size() < 100000) evs.push_back({k, j}); }
static void body(long long j) {
  log_('b', j);
  unsigned h = (unsigned)(j + 1) * 2654435761u ^ seed_; h ^= h >> 13;
  if (slow_ == 1) { if (h % 3 == 0) std::this_thread::yield(); else if (h % 7 == 1) usleep(h % 200); }
  else if (slow_ == 2 && j % 4 == (long long)(seed_ % 4)) usleep(1000 + h % 2000);      // one worker lags behind
  log_('e', j);
}
struct obj : ftk::object { using ftk::object::parallel_for; };
struct alignas(64) Acc { std::atomic<uint64_t> n{0}, s{0}; };
static Acc acc[512]; static std::atomic<int> nacc{0}; static std::atomic<bool> returned{false}; static std::atomic<long> late{0};
int main(int argc, char** argv) {
  diy::mpi::environment env(argc, argv);
  return vj::cases(argc, argv, [&](In& in) {
    long long id = in.i(); std::string kind = in.w(); size_t n = in.i(); int be = in.i(), nt = in.i(), aff = in.i(); slow_ = in.i(); seed_ = in.i();
    W w; w.obj(); w.kv("id", id); w.ks("kind", kind);
    evs.clear();
    cpu_set_t all; sched_getaffinity(0, sizeof all, &all);
    if (kind == "sum") {              // too many tasks to list
      for (auto& a : acc) { a.n = 0; a.s = 0; } returned = false; late = 0; nacc = 0;
      obj::parallel_for(n, [&](size_t j) { static thread_local int me = -1; if (me < 0) me = nacc ++ % 512;
        Acc& a = acc[me]; a.n.fetch_add(1, std::memory_order_relaxed); a.s.fetch_add(j, std::memory_order_relaxed);
        if (j % 1024 == 0 && returned) late ++; }, be, nt, aff);
      returned = true;
      // sums wrap modulo 2^64 only beyond 2^32 tasks
      uint64_t c = 0; unsigned __int128 s = 0; for (auto& a : acc) { c += a.n; s += a.s; }
      w.kv("n", 0); w.key("ev").arr(); w.arr().str("sum").v((long long)(n >> 16)).v((long long)(n & 65535)).v((long long)(c % 30011)).v((long long)(s % 30011)).v((long long)late); w.aend();
      w.aend(); w.end(); sched_setaffinity(0, sizeof all, &all); return w.s;
    }
    size_t nn = n;
    if (kind == "range") obj::parallel_for(n, [&](size_t j) { body(j); }, be, nt, aff);
    else if (kind == "nested") {
      size_t m = 3; nn = n * m;
      obj::parallel_for(n, [&](size_t i) { obj::parallel_for(m, [&](size_t j) { body(i * m + j); }, be, 2, false); }, be, nt, aff);
    } else if (kind == "set") { std::set<int> s; for (size_t i = 0; i < n; i ++) s.insert(i); obj::parallel_for<int>(s, std::function<void(const int&)>([&](const int& j) { body(j); }), be, nt, (bool)aff); }
    else if (kind == "vec") { std::vector<int> s; for (size_t i = 0; i < n; i ++) s.push_back(i); obj::parallel_for<int, std::vector<int>>(s, std::function<void(const int&)>([&](const int& j) { body(j); }), be, nt, (bool)aff); }
    else if (kind == "map") { std::map<int, int> s; for (size_t i = 0; i < n; i ++) s[i * 3] = i; typedef std::map<int, int>::iterator it;
      obj::parallel_for_container<std::map<int, int>>(s, [&](it i) { body(i->second); }, be, nt, aff); }
    else if (kind == "list") { std::list<int> s; for (size_t i = 0; i < n; i ++) s.push_back(i); typedef std::list<int>::iterator it;
      obj::parallel_for_container<std::list<int>>(s, [&](it i) { body(*i); }, be, nt, aff); }
    else if (kind == "reg") {         // elements of a regular mesh, numbered as the sequential loop meets them
      int nd = in.i(), d = in.i(), sc = in.i(); auto st = in.vi(nd), sz = in.vi(nd), bs = in.vi(nd), bz = in.vi(nd);
      ftk::simplicial_regular_mesh m(nd);
      m.set_lb_ub(st, [&] { auto u = st; for (int i = 0; i < nd; i ++) u[i] += sz[i] - 1; return u; }());
      std::vector<size_t> b1(bs.begin(), bs.end()), b2(bz.begin(), bz.end());
      ftk::lattice l(b1, b2); std::map<std::pair<std::vector<int>, int>, long long> num;
      nn = l.n() * m.ntypes(d, sc);
      for (size_t j = 0; j < nn; j ++) { ftk::simplicial_regular_mesh_element e(m, d, j, l, sc); num[{e.corner, e.type}] = j; }
      m.element_for(d, l, sc, [&](ftk::simplicial_regular_mesh_element e) { auto i = num.find({e.corner, e.type}); body(i == num.end() ? -1 : i->second); }, be, nt, aff);
    } else if (kind == "tri") {       // elements of an extruded triangle mesh
      int d = in.i(), sc = in.i(), t = in.i(); int nv = in.i(), nt2 = in.i(); std::vector<double> xy = in.vd(2 * nv); std::vector<int> tri = in.vi(3 * nt2);
      auto m2 = std::make_shared<ftk::simplicial_unstructured_2d_mesh<>>(xy, tri);
      m2->build_edges(); ftk::simplicial_unstructured_extruded_2d_mesh_implicit<> m(m2);
      nn = sc == 0 ? m.n(d) : sc == 1 ? m.n_ordinal(d) : m.n_interval(d);
      long long base = sc == 0 ? 0 : sc == 1 ? (long long)t * m.n(d) : (long long)t * m.n(d) + m.n_ordinal(d);
      auto f = [&](int e) { body(e - base); };
      if (sc == 0) m.element_for(d, f, be, nt, aff);
      else if (sc == 1) m.element_for_ordinal(d, t, f, false, be, nt, aff);
      else m.element_for_interval(d, t, f, false, be, nt, aff);
    }
    log_('r', 0);
    usleep(slow_ == 2 ? 4000 : 100);   // stragglers
    std::vector<Ev> c; { std::lock_guard<std::mutex> g(mu); c = evs; }
    sched_setaffinity(0, sizeof all, &all);
    w.kv("n", nn); w.key("ev").arr(); for (auto& e : c) { w.arr(); w.str(std::string(1, e.k)); w.v(e.j); w.aend(); } w.aend(); w.end();
    return w.s;
  });
}
