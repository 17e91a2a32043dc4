// contents of result files written by the command-line tool, with identifiers decoded to vertices
#include <bits/stdc++.h>
#include "expat.hh"
#include "vj.hh"
#include <mpi.h>
#include <vtkXMLPolyDataReader.h>
#include <vtkPolyData.h>
#include <vtkPointData.h>
#include <vtkCell.h>
#include <ftk/mesh/simplicial_regular_mesh.hh>
#include <ftk/filters/critical_point_tracker_2d_regular.hh>
#include <ftk/mesh/simplicial_unstructured_2d_mesh.hh>
#include <ftk/mesh/simplicial_unstructured_extruded_2d_mesh.hh>
#include <ftk/mesh/simplicial_unstructured_extruded_2d_mesh_implicit.hh>
using namespace ftk; using vj::W; using vj::In; using nlohmann::json;
typedef simplicial_regular_mesh_element E;

struct Dec {
  int nd; std::vector<int> dims, lo, sz; long long N = 1; simplicial_regular_mesh m;
  Dec(int nd, std::vector<int> d, std::vector<int> l, std::vector<int> s) : nd(nd), dims(d), lo(l), sz(s), m(nd + 1) {
    std::vector<int> lb(lo), ub; for (int i = 0; i < nd; i ++) { ub.push_back(lo[i] + sz[i] - 1); N *= dims[i]; }
    lb.push_back(0); ub.push_back(std::numeric_limits<int>::max());
    m.set_lb_ub(lb, ub);
  }
  std::shared_ptr<simplicial_unstructured_2d_mesh<>> m2; std::shared_ptr<simplicial_unstructured_extruded_2d_mesh<>> m3;
  void mesh(const std::vector<double>& vc, const std::vector<int>& t) {
    m2.reset(new simplicial_unstructured_2d_mesh<>(vc, t)); m3.reset(new simplicial_unstructured_extruded_2d_mesh_implicit<>(m2));
  }
  std::vector<long long> tag(unsigned long long t) const {
    std::vector<long long> r;
    if (m3) { int v[3]; m3->get_simplex(2, (int)t, v); r = {v[0], v[1], v[2]}; std::sort(r.begin(), r.end()); return r; }
    E e(m, nd, t);
    for (auto& v : e.vertices(m)) { long long s = 0, k = 1; for (int i = 0; i < nd; i ++) { s += v[i] * k; k *= dims[i]; } r.push_back(v[nd] * N + s); }
    std::sort(r.begin(), r.end()); return r;
  }
};
static void point(W& w, const Dec& D, double x, double y, double z, double t, double s, long long ty, bool o, int ts, unsigned long long tag, long long id) {
  auto g = D.tag(tag);
  w.obj(); w.ki("f", g); w.ki("g", g);
  w.key("x").arr(); w.v(vj::fx(x)); w.v(vj::fx(y)); w.v(vj::fx(z)); w.v(vj::fx(t)); w.aend();
  auto lim = [](double t) { return std::isfinite(t) ? (long long)std::max(-1e8, std::min(1e8, t)) : 2000000001ll; };
  w.kv("fl", lim(std::floor(t))); w.kv("ce", lim(std::ceil(t)));
  w.kv("s", vj::fx(s)); w.kv("ty", ty); w.kv("o", o); w.kv("ts", ts); w.kv("id", id); w.end();
}
static void point(W& w, const Dec& D, const json& p) {
  point(w, D, p["x"][0], p["x"][1], p["x"][2], p["t"], p["scalar"][0], p["type"].get<long long>(), p["ordinal"], p["timestep"], p["tag"].get<unsigned long long>(), p["id"].get<long long>());
}
static void point(W& w, const Dec& D, const feature_point_t& p) {
  point(w, D, p.x[0], p.x[1], p.x[2], p.t, p.scalar[0], p.type, p.ordinal, p.timestep, p.tag, p.id);
}
static bool line(W& w, const Dec& D, const std::string& l) { // a line of text holding a point
  size_t q = l.find("x=("); if (q == std::string::npos || l.find("ordinal=") == std::string::npos) return false;
  auto num = [&](const char* k) { size_t a = l.find(k); return a == std::string::npos ? 0.0 : atof(l.c_str() + a + strlen(k)); };
  auto big = [&](const char* k) { size_t a = l.find(k); return a == std::string::npos ? 0ull : strtoull(l.c_str() + a + strlen(k), 0, 10); };
  double x, y, z; if (sscanf(l.c_str() + q, "x=(%lf, %lf, %lf)", &x, &y, &z) != 3) return false;
  point(w, D, x, y, z, num(" t="), num(" scalar="), big(" type="), big("ordinal="), num("timestep="), big("tag="), big(" id="));
  return true;
}
static void head(W& w, long long k, bool loop, bool cpl) { w.obj(); w.kv("k", k); w.kv("id", k); w.kv("loop", loop); w.kv("cpl", cpl); }
static void poly(W& w, const Dec& D, const std::string& fn) { // curves of a poly data file
  vtkSmartPointer<vtkXMLPolyDataReader> r = vtkSmartPointer<vtkXMLPolyDataReader>::New(); r->SetFileName(fn.c_str()); r->Update();
  vtkSmartPointer<vtkPolyData> d = r->GetOutput(); auto a = [&](const char* n) { auto x = d->GetPointData()->GetArray(n); if (!x) throw std::runtime_error(std::string("no array ") + n); return x; };
  if (d->GetNumberOfPoints() == 0) return;
  auto tag = a("tag"), ty = a("type"), id = a("id"), tm = a("time"); std::vector<int> seen(d->GetNumberOfPoints(), 0);
  for (int pass = 0; pass < 2; pass ++) // lines are listed after isolated points
    for (vtkIdType c = 0; c < d->GetNumberOfCells(); c ++) {
      auto cell = d->GetCell(c); int n = cell->GetNumberOfPoints(); bool loop = n > 1 && cell->GetPointId(0) == cell->GetPointId(n - 1); if (loop) n --;
      if ((n > 1) != (pass == 0)) continue;
      w.obj(); w.kv("loop", loop); w.key("p").arr();
      for (int k = 0; k < n; k ++) {
        auto i = cell->GetPointId(k); seen[i] ++; double x[3]; d->GetPoint(i, x);
        w.obj(); auto g = D.tag((unsigned long long)tag->GetTuple1(i)); w.ki("f", g); w.kv("ty", (long long)ty->GetTuple1(i)); w.kv("id", (long long)id->GetTuple1(i)); w.kv("tm", vj::fx(tm->GetTuple1(i)));
        w.key("x").arr(); for (double v : x) w.v(vj::fx(v)); w.aend(); w.end();
      }
      w.aend(); w.end();
    }
  for (int s : seen) if (s != 1) throw std::runtime_error("points outside or in several cells");
}
static bool exists(const std::string& f) { return access(f.c_str(), R_OK) == 0; }

int main(int argc, char** argv) {
  int f; MPI_Init_thread(&argc, &argv, MPI_THREAD_MULTIPLE, &f); 
  return vj::cases(argc, argv, [](In& in) {
    int id = in.i(), nd = in.i(); auto a = in.vi(nd), b = in.vi(nd), c = in.vi(nd); Dec D(nd, a, b, c);
    int nv = in.i(); if (nv) { auto vc = in.vd(2 * nv); int k = in.i(); auto t = in.vi(3 * k); D.mesh(vc, t); }
    int n = in.i(); W w; w.obj(); w.kv("id", id); w.key("files").arr();
    for (int i = 0; i < n; i ++) {
      std::string kind = in.w(), fmt = in.w(), path = in.w(); int T = in.i();
      W x; std::string err;
      try {
        if (kind == "cuts") {
          x.arr();
          for (int t = 0; t < T; t ++) {
            char fn[4096]; snprintf(fn, 4096, path.c_str(), t); if (!exists(fn)) continue;
            x.obj(); x.kv("t", t); x.key("c").arr(); poly(x, D, fn); x.aend(); x.end();
          }
          x.aend();
        } else if (kind == "slices") {
          x.arr();
          for (int t = 0; t < T; t ++) {
            char fn[4096]; snprintf(fn, 4096, path.c_str(), t); if (!exists(fn)) continue;
            x.obj(); x.kv("t", t); x.key("p").arr();
            std::ifstream s(fn); std::string l; while (std::getline(s, l)) if (!line(x, D, l) && !l.empty()) throw std::runtime_error("odd line");
            x.aend(); x.end();
          }
          x.aend();
        } else if (!exists(path)) throw std::runtime_error("no file");
        else if (kind == "points") {
          x.arr();
          if (fmt == "json") { std::ifstream s(path); json j; s >> j; for (auto& p : j) point(x, D, p); }
          else if (fmt == "bin") { std::vector<feature_point_t> v; diy::unserializeFromFile(path, v); for (auto& p : v) point(x, D, p); }
          else { std::ifstream s(path); std::string l; while (std::getline(s, l)) line(x, D, l); }
          x.aend();
        } else {
          x.arr();
          auto stats = [&](long long ct, double tn, double tx, double sn, double sx, double pe, std::array<double, 3> bn, std::array<double, 3> bx) {
            x.kv("ct", ct); x.kv("tn", vj::fx(tn)); x.kv("tx", vj::fx(tx)); x.kv("sn", vj::fx(sn)); x.kv("sx", vj::fx(sx)); x.kv("pe", vj::fx(pe));
            x.key("bn").arr(); for (double v : bn) x.v(vj::fx(v)); x.aend(); x.key("bx").arr(); for (double v : bx) x.v(vj::fx(v)); x.aend();
          };
          if (fmt == "json") {
            std::ifstream s(path); json j; s >> j;
            for (auto& c : j["trajs"]) {
              head(x, c["id"].get<long long>(), c["loop"], c["complete"]);
              stats(c["consistent_type"].get<long long>(), c["tmin"], c["tmax"], c["min"][0], c["max"][0], c["persistence"][0], c["bbmin"], c["bbmax"]);
              x.key("p").arr(); for (auto& p : c["traj"]) point(x, D, p); x.aend(); x.end();
            }
          } else if (fmt == "bin") {
            feature_curve_set_t S; diy::unserializeFromFile(path, S);
            for (auto& kv : S) {
              auto& c = kv.second; head(x, kv.first, c.loop, c.complete);
              stats(c.consistent_type, c.tmin, c.tmax, c.min[0], c.max[0], c.persistence[0], c.bbmin, c.bbmax);
              x.key("p").arr(); for (auto& p : c) point(x, D, p); x.aend(); x.end();
            }
          } else {
            std::ifstream s(path); std::string l; bool open = false;
            while (std::getline(s, l)) {
              size_t q = l.find("--trajectory ");
              if (q == 0) { if (open) { x.aend(); x.end(); } open = true; head(x, atoll(l.c_str() + 13), false, false); x.key("p").arr(); }
              else line(x, D, l);
            }
            if (open) { x.aend(); x.end(); }
          }
          x.aend();
        }
      } catch (std::exception& e) { err = e.what(); if (err.empty()) err = "?"; }
      w.obj(); w.ks("err", err); if (err.empty()) w.key("c").raw(x.s); w.end();
    }
    w.aend(); w.end(); return w.s;
  });
}
