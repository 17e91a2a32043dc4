// F03: results written to files (or buffers) and read back.
// Case: id kind ncomp nops ops; two slots (trackers), files by name.
#include "vj.hh"
#include "expat.hh"
#include <mpi.h>
#include <ftk/filters/critical_point_tracker_2d_regular.hh>
#include <ftk/filters/critical_point_tracker_3d_regular.hh>
#include <ftk/filters/critical_point_tracker_2d_unstructured.hh>
#include <ftk/mesh/simplicial_unstructured_2d_mesh.hh>
#include <ftk/mesh/simplicial_unstructured_extruded_2d_mesh.hh>
#include <ftk/mesh/simplicial_unstructured_extruded_2d_mesh_implicit.hh>
#include <ftk/features/feature_curve_set.hh>
#include <ftk/features/feature_point_set.hh>
#include <ftk/features/feature_surface.hh>
#include <ftk/features/feature_volume.hh>
#include <ftk/features/feature_line.hh>
#include <ftk/utils/serialization.hh>
#include <vtkXMLPolyDataReader.h>
#include <vtkPolyDataReader.h>
#include <vtkDataArray.h>
#include <vtkCell.h>
using namespace ftk; using vj::W; using vj::In;
typedef feature_point_t P; typedef feature_curve_t C; typedef feature_curve_set_t S;
static int rank_ = 0, np_ = 1; static std::string dir;
static double num(const std::string& s) { return strtod(s.c_str(), nullptr); }
static std::string enc(double x) { char b[64]; snprintf(b, 64, "%a", x); return b; }
static std::string enc(unsigned long long x) { return std::to_string(x); }
template <class A> static W& strs(W& w, const std::string& k, const A& a, size_t n = 999) { w.key(k).arr(); size_t i = 0; for (auto x : a) { if (i ++ == n) break; w.str(enc((double)x)); } return w.aend(); }
static W& split(W& w, const std::string& k, const std::string& s) { w.key(k).arr(); std::stringstream ss(s); std::string t; while (std::getline(ss, t, ',')) w.str(t); return w.aend(); }
static std::vector<std::string> names;
struct Acc : critical_point_tracker { static std::map<int, std::vector<P>>& sl(critical_point_tracker& t) { return t.*(&Acc::sliced_critical_points); } };
struct I {                       // what a case does with a tracker of any kind
  std::shared_ptr<critical_point_tracker> x; std::shared_ptr<regular_tracker> r;
  critical_point_tracker& t() { return *x; } std::map<int, std::vector<P>>& sl() { return Acc::sl(*x); } void put(const std::vector<P>& v) { x->put_critical_points(v); } std::vector<P> get() { return x->get_critical_points(); } };
static std::shared_ptr<simplicial_unstructured_2d_mesh<>> mesh2() {
  std::vector<double> v = {0,0, 1,0, 2,0, 0,1, 1,1, 2,1, 0,2, 1,2, 2,2}; std::vector<int> t = {0,1,4, 0,4,3, 1,2,5, 1,5,4, 3,4,7, 3,7,6, 4,5,8, 4,8,7};
  ndarray<double> xy; xy.reshape({2, 9}); for (size_t i = 0; i < v.size(); i ++) xy[i] = v[i]; ndarray<int> tr; tr.reshape({3, 8}); for (size_t i = 0; i < t.size(); i ++) tr[i] = t[i];
  return std::make_shared<simplicial_unstructured_2d_mesh<>>(xy, tr);
}
template <class T> static std::shared_ptr<I> reg(diy::mpi::communicator& comm, const lattice& l) { auto x = std::make_shared<T>(comm); x->set_domain(l); x->set_array_domain(l); x->set_start_timestep(0); x->set_vector_field_source(SOURCE_GIVEN); x->set_number_of_threads(1); x->initialize(); auto i = std::make_shared<I>(); i->x = x; return i; }
static std::shared_ptr<I> make(int kind, diy::mpi::communicator& comm) {
  if (kind == 2) return reg<critical_point_tracker_2d_regular>(comm, lattice({0, 0}, {9, 9}));
  if (kind == 3) return reg<critical_point_tracker_3d_regular>(comm, lattice({0, 0, 0}, {5, 5, 5}));
  std::shared_ptr<simplicial_unstructured_extruded_2d_mesh<>> m3(new simplicial_unstructured_extruded_2d_mesh_implicit<>(mesh2()));
  auto i = std::make_shared<I>(); auto x = std::make_shared<critical_point_tracker_2d_unstructured>(comm, m3); x->set_number_of_threads(1); x->initialize(); i->x = x; return i;
}
static P point(In& in) {
  P p; for (auto& x : p.x) x = num(in.w()); p.t = num(in.w()); p.timestep = in.i(); for (size_t k = 0; k < 3; k ++) p.scalar[k] = num(in.w());
  p.scalar[FTK_CP_MAX_NUM_VARS - 1] = num(in.w()); for (auto& x : p.v) x = num(in.w());
  p.type = (unsigned)in.i(); p.ordinal = in.i(); p.tag = strtoull(in.w().c_str(), 0, 10); p.id = strtoull(in.w().c_str(), 0, 10); return p;
}
static void wpoint(W& w, const P& p) {
  w.obj(); strs(w, "x", p.x).ks("t", enc(p.t)).kv("tq", vj::fx(p.t)).kv("ts", p.timestep); strs(w, "sc", p.scalar);
  strs(w, "v", p.v).ks("ty", enc((unsigned long long)p.type)).kv("o", p.ordinal).ks("g", enc(p.tag)).ks("i", enc(p.id)).end();
}
static void wpoints(W& w, const std::vector<P>& v) { w.arr(); for (auto& p : v) wpoint(w, p); w.aend(); }
static C curve(In& in) { C c; c.complete = in.i(); c.loop = in.i(); int st = in.i(), n = in.i(); for (int i = 0; i < n; i ++) c.push_back(point(in)); if (st) c.update_statistics(); return c; }
static void wcurve(W& w, int key, const C& c) {
  w.obj().kv("key", key).kv("id", c.id).kv("complete", c.complete).kv("loop", c.loop); strs(w, "mx", c.max); strs(w, "mn", c.min); strs(w, "pe", c.persistence); strs(w, "lo", c.bbmin); strs(w, "hi", c.bbmax);
  w.ks("t0", enc(c.tmin)).ks("t1", enc(c.tmax)).ks("v0", enc(c.vmmin)).ks("v1", enc(c.vmmax)).ks("ct", enc((unsigned long long)c.consistent_type)).key("p"); wpoints(w, c); w.end();
}
static void wset(W& w, const S& s) { w.arr(); for (auto& kv : s) wcurve(w, kv.first, kv.second); w.aend(); }
static void wslices(W& w, const std::map<int, std::vector<P>>& m) { w.arr(); for (auto& kv : m) { w.obj().kv("k", kv.first).key("p"); wpoints(w, kv.second); w.end(); } w.aend(); }
static std::string slurp(const std::string& f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
// "a=1, b=(1, 2)" -> {a: 1, b: "1,2"} with numbers re-encoded
static std::map<std::string, std::string> fields(const std::string& l) {
  std::map<std::string, std::string> m; size_t i = 0;
  while (i < l.size()) { size_t e = l.find('=', i); if (e == std::string::npos) break; std::string k = l.substr(i, e - i); while (k.size() && strchr(", -", k[0])) k.erase(0, 1); 
    auto sp = k.find_last_of(' '); if (sp != std::string::npos) { m["head"] = k.substr(0, k.find(',')); k = k.substr(sp + 1); }
    size_t j = e + 1, b; std::string v; if (l[j] == '(') { b = l.find(')', j); if (b == std::string::npos) { m["unclosed"] = k; b = l.find(", ", j); if (b == std::string::npos) b = l.size(); } v = l.substr(j + 1, b - j - 1); j = b + 1; } else { b = l.find(',', j); if (b == std::string::npos) b = l.size(); v = l.substr(j, b - j); j = b; }
    std::string o; std::stringstream ss(v); std::string tk; while (std::getline(ss, tk, ',')) { if (o.size()) o += ","; o += (k == "tag" || k == "id" || k == "type" || k == "consistent_type") ? enc((unsigned long long)strtoull(tk.c_str(), 0, 10)) : (k == "timestep" || k == "ordinal" || k == "loop") ? std::to_string(atoll(tk.c_str())) : enc(num(tk)); }
    m[k] = o; i = j; }
  return m;
}
static void wtextpoint(W& w, std::map<std::string, std::string> m) {
  w.obj(); split(w, "x", m["x"]); split(w, "v", m["v"]); w.ks("t", m["t"]).ks("ty", m["type"]).ks("g", m["tag"]).ks("i", m["id"]).kv("ts", m.count("timestep") ? atoll(m["timestep"].c_str()) : -1ll).kv("o", m["ordinal"] == "1").key("sc").arr(); for (auto& n : names) w.str(m.count(n) ? m[n] : "-"); w.aend().end();
}
static void wtextpoints(W& w, const std::string& txt) { w.arr(); std::stringstream ss(txt); std::string l; while (std::getline(ss, l)) if (l.size()) wtextpoint(w, fields(l)); w.aend(); }
static void wtextset(W& w, const std::string& txt) {
  std::stringstream ss(txt); std::string l; std::getline(ss, l); bool open = false; w.key("n").v(l.rfind("#trajectories=", 0) == 0 ? atoll(l.c_str() + 14) : -1ll).key("cs").arr();
  while (std::getline(ss, l)) {
    if (l.rfind("---", 0) == 0) { wtextpoint(w, fields(l.substr(3))); continue; }
    if (open) w.aend().end(); open = true; auto m = fields(l); w.obj().kv("key", l.rfind("--trajectory ", 0) == 0 ? atoll(l.c_str() + 13) : -1ll).kv("loop", m["loop"] == "1").kv("ok", !m.count("unclosed"));
    split(w, "lo", m["bbmin"]); split(w, "hi", m["bbmax"]); split(w, "mn", m["min"]); split(w, "mx", m["max"]); split(w, "pe", m["persistence"]); w.ks("t0", m["tmin"]).ks("t1", m["tmax"]).ks("ct", m["consistent_type"]).key("p").arr();
  }
  if (open) w.aend().end(); w.aend();
}
static std::string arr(vtkDataSet* d, const char* n, vtkIdType i, bool whole) { auto a = d->GetPointData()->GetArray(n); if (!a && std::string(n) == "normals") a = d->GetPointData()->GetNormals(); if (!a || i >= a->GetNumberOfTuples()) return "-"; std::string s; for (int c = 0; c < a->GetNumberOfComponents(); c ++) { if (c) s += ","; s += whole ? enc((unsigned long long)a->GetComponent(i, c)) : enc(a->GetComponent(i, c)); } return s; }
static void wdata(W& w, vtkDataSet* d) {                                   // a vtk data set: points with attributes, cells as point lists
  w.key("pt").arr(); for (vtkIdType i = 0; i < d->GetNumberOfPoints(); i ++) { double x[3]; d->GetPoint(i, x); w.obj(); strs(w, "x", std::vector<double>{x[0], x[1], x[2]}).ks("i", arr(d, "id", i, true)).ks("t", arr(d, "time", i, false)).ks("ty", arr(d, "type", i, true)).ks("g", arr(d, "tag", i, true)); split(w, "v", arr(d, "velocity", i, false)); split(w, "nv", arr(d, "normals", i, false)); w.ks("s", arr(d, "scalar", i, false)).key("sc").arr(); for (auto& n : names) w.str(arr(d, n.c_str(), i, false)); w.aend().end(); } w.aend();
  w.key("cell").arr(); for (vtkIdType i = 0; i < d->GetNumberOfCells(); i ++) { auto c = d->GetCell(i); w.arr(); for (vtkIdType j = 0; j < c->GetNumberOfPoints(); j ++) w.v((long long)c->GetPointId(j)); w.aend(); } w.aend();
}
static vtkSmartPointer<vtkPolyData> readpoly(const std::string& f, bool legacy) {
  if (legacy) { auto r = vtkSmartPointer<vtkPolyDataReader>::New(); r->SetFileName(f.c_str()); r->Update(); return r->GetOutput(); }
  auto r = vtkSmartPointer<vtkXMLPolyDataReader>::New(); r->SetFileName(f.c_str()); r->Update(); return r->GetOutput();
}
template <class F> static void wsurf(W& w, const F& s) { w.key("p"); wpoints(w, s.pts); w.key("t"); w.ints2(s.tris); w.key("q"); w.ints2(s.quads); w.key("pent"); w.ints2(s.pentagons); }

static std::string one(In& in, diy::mpi::communicator& comm) {
  static int serial = 0; std::string base = dir + "/f03-" + std::to_string(serial ++) + "-";
  if (np_ > 1) { long long q = getpid(); MPI_Bcast(&q, 1, MPI_LONG_LONG, 0, MPI_COMM_WORLD); base += std::to_string(q); } else base += std::to_string(getpid());
  std::set<std::string> files; auto path = [&](const std::string& f) { std::string s = base + "-" + f; files.insert(s); return s; };
  W w; w.obj().kv("id", in.i()); int kind = in.i(); names.resize(in.i()); for (size_t i = 0; i < names.size(); i ++) names[i] = "var" + std::to_string(i); w.kv("ns", (long long)names.size()).key("ev").arr();
  std::vector<std::shared_ptr<I>> T; for (int i = 0; i < 2; i ++) { T.push_back(make(kind, comm)); T.back()->t().set_scalar_components(names); }
  int no = in.i();
  for (int k = 0; k < no; k ++) {
    std::string op = in.w(); w.obj().ks("op", op); MPI_Barrier(MPI_COMM_WORLD);
    if (op == "surf") {                                  // feature surfaces, volumes and lines
      feature_surface_t s, r; feature_volume_t v; feature_line_t l; int np = in.i(); for (int i = 0; i < np; i ++) s.pts.push_back(point(in)); v.pts = l.pts = r.pts = s.pts;
      int n = in.i(); for (int i = 0; i < n; i ++) { auto q = in.vi(3); s.tris.push_back({q[0], q[1], q[2]}); } n = in.i(); for (int i = 0; i < n; i ++) { auto q = in.vi(4); s.quads.push_back({q[0], q[1], q[2], q[3]}); v.conn.push_back({q[0], q[1], q[2], q[3]}); }
      n = in.i(); for (int i = 0; i < n; i ++) { auto q = in.vi(5); s.pentagons.push_back({q[0], q[1], q[2], q[3], q[4]}); l.edges.push_back({q[0], q[1]}); } r.tris.push_back({0, 0, 0}); int fm = in.i();
      std::string f = path("s.bin"); if (rank_ == 0) { s.save(f, fm ? "bin" : ""); r.load(f); } wsurf(w, s); w.key("got").obj(); wsurf(w, r); w.end();
      std::string g; diy::serializeToString(s, g); feature_surface_t y; y.quads.push_back({1, 2, 3, 4}); diy::unserializeFromString(g, y); w.key("str").obj(); wsurf(w, y); w.end();
      std::string f2 = path("s.vtp"); MPI_Barrier(MPI_COMM_WORLD); if (rank_ == 0) { s.save(f2); auto d = readpoly(f2, false); w.key("vtp").obj(); wdata(w, d); w.end(); }
      auto sp = s.to_vtp(false, true); w.key("st").obj(); wdata(w, sp); w.end();
      { auto d = s.to_vtu(); w.key("vtu").obj(); wdata(w, d); w.end(); } { auto d = v.to_vtu(); w.key("vol").obj(); wdata(w, d); w.end(); } { auto d = l.to_vtu(); w.key("lin").obj(); wdata(w, d); w.end(); }
      w.key("edges"); w.ints2(l.edges); w.end(); continue;
    }
    if (op == "retrace") {                               // points of a run, archived, traced by another tracker
      int nt = in.i(), ns = kind == 3 ? 125 : 81, nc = kind == 3 ? 3 : 2; bool js = in.i(), um = kind == 4; if (um) ns = 9; auto A = make(kind, comm), B = make(kind, comm);
      for (int t = 0; t < nt; t ++) { ndarray<double> d; if (um) d.reshape({2, 9}); else if (kind == 3) d.reshape({3, 5, 5, 5}); else d.reshape({2, 9, 9}); for (int i = 0; i < ns * nc; i ++) d[i] = in.i(); d.set_multicomponents();
        A->t().push_vector_field_snapshot(d); if (t) A->t().advance_timestep(); if (t == nt - 1) A->t().update_timestep(); }
      std::string f = path(js ? "r.json" : "r.bin"); A->t().finalize();
      if (js) A->t().write_critical_points_json(f); else A->t().write_critical_points_binary(f); MPI_Barrier(MPI_COMM_WORLD);
      if (js) B->t().read_critical_points_json(f); else B->t().read_critical_points_binary(f); B->t().finalize();
      w.key("n").v((long long)A->get().size()).key("a"); wset(w, A->t().get_traced_critical_points()); w.key("b"); wset(w, B->t().get_traced_critical_points()); w.end(); continue;
    }
    int a = in.i(); auto& X = *T[a]; auto& t = X.t(); w.kv("s", a);
    if (op == "curves") { S s; int n = in.i(); for (int i = 0; i < n; i ++) { int l = in.i(); C c = curve(in); s.add(c, l); } t.get_traced_critical_points() = s; w.key("cs"); wset(w, t.get_traced_critical_points()); }
    else if (op == "drop") { int n = in.i(); t.get_traced_critical_points().filter([&](const C& c) { return (int)c.size() != n; }); w.key("cs"); wset(w, t.get_traced_critical_points()); }
    else if (op == "points") { std::vector<P> v; int n = in.i(); for (int i = 0; i < n; i ++) v.push_back(point(in)); X.put(v); w.key("put"); wpoints(w, v); w.key("ps"); wpoints(w, X.get()); }
    else if (op == "slices") { std::map<int, std::vector<P>> m; int n = in.i(); for (int i = 0; i < n; i ++) { int l = in.i(), c = in.i(); m[l]; for (int j = 0; j < c; j ++) m[l].push_back(point(in)); } X.sl() = m; w.key("sl"); wslices(w, m); }
    else if (op == "swrite" || op == "sread") {          // a buffer in memory: one or two objects
      static std::map<std::string, std::string> buf; std::string b = in.w(); int two = in.i(); w.ks("f", "mem" + b).ks("k", two ? "both" : "curves").ks("fmt", "bin");
      if (op == "swrite") { std::string s; if (two) { diy::StringBuffer bb(s); diy::save(bb, t.get_traced_critical_points()); diy::save(bb, X.get()); } else diy::serializeToString(t.get_traced_critical_points(), s); buf[b] = s; }
      else { if (two) { diy::StringBuffer bb(buf[b]); std::vector<P> v; diy::load(bb, t.get_traced_critical_points()); diy::load(bb, v); X.put(v); } else diy::unserializeFromString(buf[b], t.get_traced_critical_points()); w.key("cs"); wset(w, t.get_traced_critical_points()); w.key("ps"); wpoints(w, X.get()); }
    }
    else {
      std::string kd = in.w(), fmt = in.w(), f = path(in.w() + "." + kd + "." + fmt); w.ks("k", kd).ks("fmt", fmt).ks("f", f.substr(base.size()));
      if (op == "write") {
        if (kd == "curves") { if (fmt == "json") t.write_traced_critical_points_json(f, in.i()); else if (fmt == "bin") t.write_traced_critical_points_binary(f); else t.write_traced_critical_points_vtk(f); }
        else if (kd == "points") { if (fmt == "json") t.write_critical_points_json(f); else t.write_critical_points_binary(f); }
        else if (kd == "slices") t.write_sliced_critical_points_json(f);
      } else if (op == "read") {
        if (kd == "curves") { if (fmt == "json") t.read_traced_critical_points_json(f); else if (fmt == "bin") t.read_traced_critical_points_binary(f); else if (rank_ == 0) t.get_traced_critical_points().from_vtp(readpoly(f, fmt == "vtk"), names); w.key("cs"); wset(w, t.get_traced_critical_points()); }
        else if (kd == "points") { if (fmt == "json") t.read_critical_points_json(f); else t.read_critical_points_binary(f); w.key("ps"); wpoints(w, X.get()); }
        else { t.read_sliced_critical_points_json(f); w.key("sl"); wslices(w, X.sl()); }
      } else if (op == "export") {                       // readable by people and other programs only
        int n = in.i(), m = in.i(); w.kv("n0", n).kv("n1", m).key("got");
        if (kd == "curves" && fmt == "txt") { std::string s; if (n) { std::ostringstream o; t.write_traced_critical_points_text(o); s = o.str(); } else { t.write_traced_critical_points_text(f); s = slurp(f); } w.obj(); wtextset(w, s); w.end(); }
        else if (kd == "points" && fmt == "txt") { std::string s; if (n) { std::ostringstream o; t.write_critical_points_text(o); s = o.str(); } else { t.write_critical_points_text(f); s = slurp(f); } wtextpoints(w, s); }
        else if (kd == "slices" && fmt == "txt") { std::string s; if (m) { std::ostringstream o; t.write_sliced_critical_points_text(n, o); s = o.str(); } else { t.write_sliced_critical_points_text(n, f); s = slurp(f); } wtextpoints(w, s); }
        else { w.obj(); vtkSmartPointer<vtkPolyData> d;
          if (kd == "points") { if (m) { feature_point_set_t ps; for (auto& p : X.get()) ps.push_back(p); d = ps.to_vtp(names); } else { t.write_critical_points_vtk(f); MPI_Barrier(MPI_COMM_WORLD); d = readpoly(f, fmt == "vtk"); } }
          else if (kd == "slices") { t.write_sliced_critical_points_vtk(n, f); MPI_Barrier(MPI_COMM_WORLD); d = readpoly(f, fmt == "vtk"); }
          else if (kd == "window") { t.write_intercepted_critical_points_vtk(n, m, f); MPI_Barrier(MPI_COMM_WORLD); d = readpoly(f, fmt == "vtk"); }
          else { t.write_traced_critical_points_vtk(f); MPI_Barrier(MPI_COMM_WORLD); d = readpoly(f, fmt == "vtk"); }
          wdata(w, d); w.end(); }
      }
    }
    w.end();
  }
  w.aend().end(); MPI_Barrier(MPI_COMM_WORLD); if (rank_ == 0) for (auto& f : files) unlink(f.c_str());
  return w.s;
}
int main(int argc, char** argv) {
  diy::mpi::environment env(argc, argv); diy::mpi::communicator comm; rank_ = comm.rank(); np_ = comm.size(); char* s = getenv("VERIF_SCRATCH"); dir = s ? s : "/tmp";
  std::ifstream f(argv[argc - 2]); std::ofstream out; if (rank_ == 0) out.open(argv[argc - 1]); vj::quiet(); std::string l;
  while (std::getline(f, l)) { In in(l); auto r = one(in, comm); if (rank_ == 0) { out << r << "\n"; out.flush(); } }
}
