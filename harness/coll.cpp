// P01: process-group exchanges.  Every process reads the same case line; the record holds
// what every process put in and got out.
#include "vj.hh"
#include <mpi.h>
#include <ftk/utils/gather.hh>
#include <ftk/utils/bcast.hh>
#include <ftk/utils/scatter.hh>
#include <ftk/utils/all2all.hh>
#include <ftk/utils/redistribution.hh>
#include <ftk/features/feature_point.hh>
using vj::W; using vj::In;
static int rank_, np_;
typedef std::pair<int, std::vector<int>> KV;          // key, value
typedef std::map<int, std::vector<int>> Map; typedef std::set<int> Set; typedef std::vector<int> Vec;
struct Input { std::vector<KV> items; };              // per process (or per process and destination)
static Input read(In& in) { Input r; int n = in.i(); for (int i = 0; i < n; i ++) { int k = in.i(), m = in.i(); r.items.push_back({k, in.vi(m)}); } return r; }
static Map asmap(const Input& i) { Map m; for (auto& x : i.items) m.insert(x); return m; }
static Set asset(const Input& i) { Set m; for (auto& x : i.items) m.insert(x.first); return m; }
static Vec asvec(const Input& i) { Vec m; for (auto& x : i.items) m.push_back(x.first); return m; }
static std::vector<ftk::feature_point_t> aspts(const Input& i) { std::vector<ftk::feature_point_t> r; for (auto& x : i.items) { ftk::feature_point_t p; p.tag = x.first; p.t = x.second.size(); for (int k = 0; k < 3 && k < (int)x.second.size(); k ++) p.x[k] = x.second[k]; r.push_back(p); } return r; }
static void put(W& w, const Map& m) { w.arr(); for (auto& kv : m) { w.arr(); w.v(kv.first); w.ints(kv.second); w.aend(); } w.aend(); }
static void put(W& w, const Set& m) { w.arr(); for (auto k : m) { w.arr(); w.v(k); w.arr(); w.aend(); w.aend(); } w.aend(); }
static void put(W& w, const Vec& m) { w.arr(); for (auto k : m) { w.arr(); w.v(k); w.arr(); w.aend(); w.aend(); } w.aend(); }
static void put(W& w, const std::vector<ftk::feature_point_t>& m) { w.arr(); for (auto& p : m) { w.arr(); w.v((long long)p.tag); w.arr(); for (int k = 0; k < 3 && k < p.t; k ++) w.v((long long)p.x[k]); w.aend(); w.aend(); } w.aend(); }
// redistributed maps are flattened: [key, [sub key, value...]]
static void put(W& w, const std::map<int, std::map<int, int>>& m) { w.arr(); for (auto& a : m) for (auto& b : a.second) { w.arr(); w.v(a.first); w.arr(); w.v(b.first); w.v(b.second); w.aend(); w.aend(); } w.aend(); }
static std::string gather_str(const std::string& s) {
  std::vector<int> n(np_), off(np_); int k = s.size();
  MPI_Allgather(&k, 1, MPI_INT, n.data(), 1, MPI_INT, MPI_COMM_WORLD);
  int tot = 0; for (int i = 0; i < np_; i ++) { off[i] = tot; tot += n[i]; }
  std::string r(tot, ' ');
  MPI_Allgatherv((void*)s.data(), k, MPI_CHAR, &r[0], n.data(), off.data(), MPI_CHAR, MPI_COMM_WORLD);
  return r;
}
template <class T> static std::string txt(const T& t) { W w; put(w, t); return w.s; }
template <class V> static void append(const V& a, V& b) { for (auto& x : a) b.push_back(x); }
int main(int argc, char** argv) {
  diy::mpi::environment env(argc, argv); diy::mpi::communicator comm;
  rank_ = comm.rank(); np_ = comm.size();
  std::ifstream f(argv[argc - 2]); std::ofstream out; if (rank_ == 0) out.open(argv[argc - 1]);
  vj::quiet(); std::string l;
  while (std::getline(f, l)) {
    In in(l); W w; w.obj(); w.kv("id", in.i()); w.kv("np", np_); w.key("ev").arr();
    int nop = in.i();
    for (int o = 0; o < nop; o ++) {
      std::string op = in.w(), ty = in.w(); int root = in.i();
      bool mat = op == "scatter" || op == "all2all";           // inputs per (process, destination)
      std::vector<std::vector<Input>> I(np_);
      for (int a = 0; a < np_; a ++) for (int b = 0; b < (mat ? np_ : 1); b ++) I[a].push_back(read(in));
      auto& me = I[rank_]; std::string res;
      if (op == "gather" || op == "gathera") {
        bool al = op == "gathera";                             // in and out are the same object
#define G(T, conv, ...) { T i = conv(me[0]), o2; T& q = al ? i : o2; diy::mpi::gather<T>(comm, i, q, root, ##__VA_ARGS__); res = rank_ == root ? txt(q) : "[]"; }
        if (ty == "map") G(Map, asmap) else if (ty == "set") G(Set, asset)
        else if (ty == "vec") G(Vec, asvec, [](const Vec& a, Vec& b) { append(a, b); })
        else { typedef std::vector<ftk::feature_point_t> P; G(P, aspts, [](const P& a, P& b) { append(a, b); }) }
      } else if (op == "allgather") {
#define A(T, conv, ...) { T i = conv(me[0]), q; diy::mpi::allgather<T>(comm, i, q, ##__VA_ARGS__); res = txt(q); }
        if (ty == "map") A(Map, asmap) else if (ty == "set") A(Set, asset)
        else if (ty == "vec") A(Vec, asvec, [](const Vec& a, Vec& b) { append(a, b); })
        else { typedef std::vector<ftk::feature_point_t> P; A(P, aspts, [](const P& a, P& b) { append(a, b); }) }
      } else if (op == "bcast") {
        if (ty == "map") { Map i = rank_ == root ? asmap(me[0]) : Map(); diy::mpi::bcastv(comm, i, root); res = txt(i); }
        else if (ty == "set") { Set i = rank_ == root ? asset(me[0]) : Set(); diy::mpi::bcastv(comm, i, root); res = txt(i); }
        else if (ty == "vec") { Vec i = rank_ == root ? asvec(me[0]) : asvec(me[0]); diy::mpi::bcastv(comm, i, root); res = txt(i); }
        else { // json
          nlohmann::json j; if (rank_ == root) { j["v"] = asvec(me[0]); j["n"] = {{"a", 1.5}, {"b", "text"}, {"c", nullptr}}; }
          diy::mpi::bcastj(comm, j, root);
          Vec v; if (j.contains("v")) for (auto& x : j["v"]) v.push_back(x.get<int>());
          if (!(j.contains("n") && j["n"]["a"] == 1.5 && j["n"]["b"] == "text" && j["n"]["c"].is_null())) v.push_back(-77777);
          res = txt(v);
        }
      } else if (op == "scatter") {
        if (ty == "map") { std::vector<Map> i; for (auto& x : me) i.push_back(asmap(x)); Map q; diy::mpi::scatterv(comm, i, q, root); res = txt(q); }
        else if (ty == "set") { std::vector<Set> i; for (auto& x : me) i.push_back(asset(x)); Set q; diy::mpi::scatterv(comm, i, q, root); res = txt(q); }
        else if (ty == "vec") { std::vector<Vec> i; for (auto& x : me) i.push_back(asvec(x)); Vec q; diy::mpi::scatterv(comm, i, q, root); res = txt(q); }
        else { std::vector<std::vector<ftk::feature_point_t>> i; for (auto& x : me) i.push_back(aspts(x)); std::vector<ftk::feature_point_t> q; diy::mpi::scatterv(comm, i, q, root); res = txt(q); }
      } else if (op == "all2all") {
        if (ty == "map") { std::vector<Map> i; for (auto& x : me) i.push_back(asmap(x)); Map q; diy::mpi::all2all(comm, i, q); res = txt(q); }
        else { std::vector<Set> i; for (auto& x : me) i.push_back(asset(x)); Set q; diy::mpi::all2all(comm, i, q); res = txt(q); }
      } else if (op == "redist") {
        std::map<int, std::map<int, int>> i, q; for (auto& x : me[0].items) i[x.first][x.second[0]] = x.second[1];
        diy::mpi::redistribute(comm, i, q); res = txt(q);
      }
      res = gather_str(rank_ ? "," + res : res);
      w.obj(); w.ks("op", op); w.ks("ty", ty); w.kv("root", root);
      w.key("in").arr();
      for (int a = 0; a < np_; a ++) {
        w.arr(); for (auto& x : I[a]) { w.arr(); for (auto& kv : x.items) { w.arr(); w.v(kv.first); w.ints(kv.second); w.aend(); } w.aend(); } w.aend();
      }
      w.aend(); w.key("out").raw("[" + res + "]"); w.end();
    }
    w.aend(); w.end(); if (rank_ == 0) { out << w.s << "\n"; out.flush(); }
  }
  return 0;
}
