// D02: arrays and fields in files.
// Case: id type np alg nops op...           operations on a growing list of arrays, array-to-file-to-array included
//     | id type np str fmt ...              a stream over files, each process reads a box
#include "vj.hh"
#include "expat.hh"
#include <ftk/config.hh>
#include <ftk/ndarray/stream.hh>
#include <vtkCellType.h>
#include <vtkPoints.h>
#include <vtkXMLUnstructuredGridWriter.h>
using vj::W; using vj::In; using ftk::ndarray;
static int rank_ = 0, np_ = 1; static std::string dir;
static std::string tmp(const std::string& s) { return dir + "/nd" + std::to_string(getpid()) + "-" + s; }
template <class A> static void dump(W& w, const A& a) {           // an array as seen through its interface
  w.obj().ki("d", a.shape()).kv("c", a.multicomponents()).kv("n", a.nelem()).key("v").arr();
  for (size_t i = 0; i < a.size(); i ++) { double x = a[i]; w.v(x == std::floor(x) && std::fabs(x) < 1e9 ? (long long)x : 2000000001LL); } w.aend().end();
}
static std::string gather_str(const std::string& s) {
  std::string out; if (np_ == 1) return s; int n = s.size(); std::vector<int> c(np_), d(np_); MPI_Gather(&n, 1, MPI_INT, c.data(), 1, MPI_INT, 0, MPI_COMM_WORLD);
  int t = 0; for (int i = 0; i < np_; i ++) { d[i] = t; t += c[i]; } if (rank_ == 0) out.resize(t);
  MPI_Gatherv((void*)s.data(), n, MPI_CHAR, &out[0], c.data(), d.data(), MPI_CHAR, 0, MPI_COMM_WORLD); return out;
}
template <class T> static int nctype(); template <> int nctype<double>() { return NC_DOUBLE; } template <> int nctype<float>() { return NC_FLOAT; } template <> int nctype<int>() { return NC_INT; }
template <class T> static hid_t h5t() { return ndarray<T>::h5_mem_type_id(); }
// a netcdf file with the variables of one or more timesteps; time > 0: an unlimited first dimension
template <class T> static void write_nc(const std::string& fn, const std::vector<size_t>& d, const std::vector<std::vector<ndarray<T>>>& steps, bool unlimited, const std::vector<std::string>& names) {
  int nc; nc_create(fn.c_str(), NC_CLOBBER | NC_64BIT_OFFSET, &nc); std::vector<int> ids; if (unlimited) { int t; nc_def_dim(nc, "time", NC_UNLIMITED, &t); ids.push_back(t); }
  for (size_t i = d.size(); i -- > 0;) { int x; nc_def_dim(nc, ("x" + std::to_string(i)).c_str(), d[i], &x); ids.push_back(x); }
  std::vector<int> v; for (auto& n : names) { int x; nc_def_var(nc, n.c_str(), nctype<T>(), ids.size(), ids.data(), &x); v.push_back(x); }
  nc_enddef(nc);
  for (size_t k = 0; k < steps.size(); k ++) for (size_t i = 0; i < names.size(); i ++) {
    const auto& a = steps[k][i]; if (unlimited && k == 0) { a.to_netcdf_unlimited_time(nc, v[i]); continue; } if (!unlimited) { a.to_netcdf(nc, v[i]); continue; }
    std::vector<size_t> st(d.size() + 1, 0), sz(d); sz.push_back(1); std::reverse(sz.begin(), sz.end()); st[0] = k; a.to_netcdf(nc, v[i], st.data(), sz.data());
  }
  nc_close(nc);
}
template <class T> static void write_h5(const std::string& fn, const std::vector<ndarray<T>>& arrays, const std::vector<std::string>& names) {
  hid_t f = H5Fcreate(fn.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
  for (size_t i = 0; i < names.size(); i ++) {
    std::vector<hsize_t> d(arrays[i].shape().rbegin(), arrays[i].shape().rend()); hid_t s = H5Screate_simple(d.size(), d.data(), NULL);
    hid_t v = H5Dcreate2(f, names[i].c_str(), h5t<T>(), s, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT); H5Dwrite(v, h5t<T>(), H5S_ALL, H5S_ALL, H5P_DEFAULT, arrays[i].data()); H5Dclose(v); H5Sclose(s); }
  H5Fclose(f);
}
template <class T> static T num(long long x) { return T(x); }
template <class T> struct alg {
  std::vector<ndarray<T>> R;
  template <class T1> ndarray<T> conv(const ndarray<T>& a) { ndarray<T1> b(a); ndarray<T1> c; c = a; ndarray<T> r; r = c; return ndarray<T>(b) == r ? r : ndarray<T>(); }
  ndarray<T>& g(In& in) { return R.at(in.i()); }
  void run(In& in, W& w) {
    std::string op = in.w(); w.obj().ks("op", op); std::vector<ndarray<T>> out; auto args = [&](std::initializer_list<long long> l) { w.ki("a", std::vector<long long>(l)); };
    std::vector<long long> vals; bool hv = false;
    if (op == "new") { int nd = in.i(); auto d = in.vz(nd); int c = in.i(); size_t n = 1; for (auto x : d) n *= x; auto v = in.vi(n); int how = in.i() % 5; ndarray<T> a; std::vector<T> q(v.begin(), v.end());
      if (how == 0) { a.reshape(d); for (size_t i = 0; i < n; i ++) a[i] = v[i]; } else if (how == 1) a = ndarray<T>(q.data(), d); else if (how == 2) { a.reshape(d, T(7)); a.fill(q); }
      else if (how == 3) { a.copy(q.begin(), q.end()); a.reshape(d); } else { a.copy_vector(q); a.reshape(nd, d.data()); }
      a.set_multicomponents(c); w.ki("d", d).kv("c", c).ki("v", v); out = {a}; }
    else if (op == "fill") { int a = in.i(), k = in.i(); args({a, k}); auto x = R.at(a); x.fill(T(k)); out = {x}; }
    else if (op == "at") { int a = in.i(); int nd = R.at(a).nd(); auto ix = in.vz(nd); const auto& x = R.at(a); std::vector<int> ii(ix.begin(), ix.end());
      args({a}); w.ki("ix", ix); hv = true; auto y = x; double q = 0; T z = 0;
      switch (nd) { case 1: q = x.get(ix[0]); z = y(ix[0]); break; case 2: q = x.get(ix[0], ix[1]); z = x(ix[0], ix[1]); break; case 3: q = x.get(ix[0], ix[1], ix[2]); z = y(ix[0], ix[1], ix[2]); break;
        case 4: q = x.get(ix[0], ix[1], ix[2], ix[3]); z = x(ix[0], ix[1], ix[2], ix[3]); break; default: q = x.get(ix[0], ix[1], ix[2], ix[3], ix[4]); z = y(ix[0], ix[1], ix[2], ix[3], ix[4]); }
      vals = {(long long)x.at(ix), (long long)x.at(ii), (long long)x.at(ix.data()), (long long)y(ix), (long long)q, (long long)z, (long long)x[x.index(ix)]}; }
    else if (op == "set") { int a = in.i(), k = in.i(); auto x = R.at(a); auto ix = in.vz(x.nd()); args({a, k}); w.ki("ix", ix); x.at(ix) = T(k); out = {x}; }
    else if (op == "slice" || op == "sub") { int a = in.i(), n = in.i(); auto st = in.vz(n), sz = in.vz(n); args({a}); w.ki("st", st).ki("sz", sz); out = {op == "slice" ? R.at(a).slice(st, sz) : R.at(a).subarray(ftk::lattice(st, sz))}; }
    else if (op == "tr") { int a = in.i(); args({a}); auto x = R.at(a); x.transpose(); out = {R.at(a).get_transpose(), x}; }
    else if (op == "time") { int a = in.i(), t = in.i(); args({a, t}); out = {R.at(a).slice_time(t)}; }
    else if (op == "times") { int a = in.i(); args({a}); out = R.at(a).slice_time(); }
    else if (op == "stack" || op == "concat") { int n = in.i(); auto v = in.vi(n); w.ki("a", v); std::vector<ndarray<T>> s; for (int i : v) s.push_back(R.at(i)); out = {op == "stack" ? ndarray<T>::stack(s) : ndarray<T>::concat(s)}; }
    else if (op == "add") { int a = in.i(), b = in.i(); args({a, b}); auto x = R.at(a); x += R.at(b); ndarray<T> e; e += x; out = {R.at(a) + R.at(b), e}; }
    else if (op == "mul") { int a = in.i(), k = in.i(); args({a, k}); auto x = R.at(a); x *= T(k); ndarray<T> y = R.at(a) * T(k); out = {x, y}; }
    else if (op == "div") { int a = in.i(), k = in.i(); args({a, k}); auto x = R.at(a); auto z = x; z /= T(k); x /= T(k); out = {x, z}; }
    else if (op == "clamp") { int a = in.i(), l = in.i(), h = in.i(); args({a, l, h}); auto x = R.at(a); x.clamp(T(l), T(h)); out = {x}; }
    else if (op == "stat") { int a = in.i(); args({a}); hv = true; auto& x = R.at(a); auto m = x.min_max(); auto I = [](double v) { return std::fabs(v) < 1e9 && v == std::floor(v) ? (long long)v : v > 0 ? 2000000000LL : -2000000000LL; };
      vals = {I(std::get<0>(m)), I(std::get<1>(m)), I(x.maxabs()), I(x.resolution())}; }
    else if (op == "mk") { int a = in.i(); args({a}); auto x = R.at(a); x.make_multicomponents(); out = {x}; }
    else if (op == "setc") { int a = in.i(), c = in.i(); args({a, c}); auto x = R.at(a); x.set_multicomponents(c); out = {x}; }
    else if (op == "resh") { int a = in.i(), n = in.i(); auto d = in.vz(n); args({a}); w.ki("d", d); auto x = R.at(a); if (n == 2) x.reshape(d[0], d[1]); else if (n == 3) x.reshape(d[0], d[1], d[2]); else ((ftk::ndarray_base&)x).reshape(std::vector<int>(d.begin(), d.end())); out = {x}; }
    else if (op == "copy") { int a = in.i(), t = in.i(); args({a}); auto& x = R.at(a); ndarray<T> y; if (t == 0) y = x; else if (t == 1) y = conv<float>(x); else if (t == 2) y = conv<int>(x); else if (t == 3) y = conv<double>(x); else { ndarray<T> z = x; y.swap(z); } out = {y}; }
    else if (op == "ser") { int a = in.i(); args({a}); std::string b; diy::serializeToString(R.at(a), b); ndarray<T> y(std::vector<size_t>{2, 2}); diy::unserializeFromString(b, y); out = {y}; }
    else if (op == "eq") { int a = in.i(), b = in.i(); args({a, b}); hv = true; vals = {R.at(a) == R.at(b), R.at(a).hash() == R.at(b).hash()}; }
    else if (op == "lerp") { int a = in.i(); auto& x = R.at(a); int c = x.multicomponents(), n = x.nd() - c; auto q = in.vi(n); args({a}); w.ki("x", q); hv = true; std::vector<double> p(q.begin(), q.end()); for (auto& v : p) v /= 4;
      std::vector<float> pf(p.begin(), p.end()); size_t m = c ? x.dim(0) : 1; std::vector<T> v(m, T(9)); bool ok = x.mlerp(pf.data(), v.data()), ok2; std::vector<T> u(m, T(9)); ok2 = x.template mlerp<double>(p.data(), u.data());
      vals = {ok, ok2}; if (ok) for (auto z : v) vals.push_back(vj::fx(z, 64)); if (ok2) for (auto z : u) vals.push_back(vj::fx(z, 64)); }
    // files
    else if (op == "bin") { int a = in.i(), t = in.i(); args({a}); auto x = R.at(a); std::string f = tmp("b"); ndarray<T> y; 
      if (t == 0) { x.to_binary_file(f); y.reshape(x.shape()); y.read_binary_file(f); } else if (t == 1) { x.template to_binary_file2<float>(f); ndarray<float> z(x.shape()); z.read_binary_file(f); y = z; } else { x.template to_binary_file2<double>(f); ndarray<double> z(x.shape()); z.read_binary_file(f); y.from_array(z); }
      unlink(f.c_str()); y.set_multicomponents(x.multicomponents()); out = {y}; }
    else if (op == "binseq" || op == "vtiseq") { int n = in.i(); auto v = in.vi(n); w.ki("a", v); std::vector<std::string> fs; 
      for (int i = 0; i < n; i ++) { char b[16]; snprintf(b, 16, "q%04d", i); fs.push_back(tmp(b) + (op == "vtiseq" ? ".vti" : ".bin")); auto& x = R.at(v[i]); if (op == "vtiseq") x.to_vtk_image_data_file(fs.back(), "v"); else x.to_binary_file(fs.back()); }
      ndarray<T> y; std::string pat = tmp("q") + "*"; if (op == "vtiseq") y.read_vtk_image_data_file_sequence(pat); else { auto d = R.at(v[0]).shape(); d.push_back(1); y.reshape(d); y.read_binary_file_sequence(pat); }
      y.set_multicomponents(0); for (auto& f : fs) unlink(f.c_str()); out = {y}; }
    else if (op == "vti") { int a = in.i(), nm = in.i(); args({a}); std::string f = tmp("v.vti"); R.at(a).to_vtk_image_data_file(f, nm ? "field" : ""); ndarray<T> y; if (nm == 2) y = ndarray<T>::from_file(f, "field"); else y.read_vtk_image_data_file(f, nm ? "field" : ""); unlink(f.c_str()); out = {y}; }
    else if (op == "nc") { int a = in.i(), mode = in.i(), n = in.i(); auto st = in.vz(n), sz = in.vz(n); args({a}); auto x = R.at(a); std::string f = tmp("n.nc"); 
      if constexpr (std::is_same<T, int>::value || std::is_same<T, float>::value || std::is_same<T, double>::value) {
      write_nc<T>(f, x.shape(), {{x}}, mode == 3, {"f"}); ndarray<T> y; std::vector<size_t> s(st.rbegin(), st.rend()), z(sz.rbegin(), sz.rend());
      bool whole = mode == 0 || mode == 4 || mode == 3; if (mode == 3) whole = true;
      if (mode == 0) y.read_netcdf(f, "f"); else if (mode == 1) y.read_netcdf(f, "f", s.data(), z.data()); else if (mode == 2) { int nc; nc_open(f.c_str(), NC_NOWRITE, &nc); ((ftk::ndarray_base&)y).read_netcdf(nc, "f", s.data(), z.data()); nc_close(nc); }
      else if (mode == 3) { y.read_netcdf(f, "f"); auto d = y.shape(); if (d.back() == 1) { d.pop_back(); y.reshape(d); } } else y = ndarray<T>::from_file(f, "f");
      w.ki("st", whole ? std::vector<size_t>(n, 0) : st).ki("sz", whole ? x.shape() : sz); unlink(f.c_str()); out = {y}; } }
    else if (op == "ncul") { int a = in.i(); args({a}); ndarray<int> x; x = R.at(a); std::string f = tmp("u.nc"); write_nc<int>(f, x.shape(), {{x}}, false, {"f"}); ndarray<unsigned long> y; y.read_netcdf(f, "f"); unlink(f.c_str()); ndarray<T> z; z = y; out = {z}; }
    else if (op == "h5") { int a = in.i(), mode = in.i(); args({a}); auto x = R.at(a); std::string f = tmp("h.h5"); write_h5<T>(f, {x}, {"f"}); ndarray<T> y; if (mode == 0) y.read_h5(f, "f"); else if (mode == 1) y = ndarray<T>::from_h5(f, "f"); else y.read_file(f, "f"); unlink(f.c_str()); out = {y}; }
    else if (op == "amira") { int a = in.i(); args({a}); auto x = R.at(a); std::string f = tmp("a.am"); FILE* fp = fopen(f.c_str(), "wb"); auto d = x.shape(); // components, x, y, z
      fprintf(fp, "# AmiraMesh BINARY-LITTLE-ENDIAN 2.1\n\ndefine Lattice %zu %zu %zu\n\nParameters {\n  Content \"%zux%zux%zu float\",\n  BoundingBox 0 %zu 0 %zu 0 %zu,\n  CoordType \"uniform\"\n}\n\n", d[1], d[2], d[3], d[1], d[2], d[3], d[1] - 1, d[2] - 1, d[3] - 1);
      if (d[0] == 1) fprintf(fp, "Lattice { float Data } @1\n\n"); else fprintf(fp, "Lattice { float[%zu] Data } @1\n\n", d[0]);
      fprintf(fp, "# Data section follows\n@1\n"); for (size_t i = 0; i < x.nelem(); i ++) { float z = x[i]; fwrite(&z, 4, 1, fp); } fprintf(fp, "\n"); fclose(fp);
      ndarray<float> y; bool ok = y.read_amira(f), bad = y.empty() || ndarray<float>().read_amira(f + "no"); unlink(f.c_str()); w.kv("ok", ok && !bad); out = {ndarray<T>(y)}; }
    if (hv) w.ki("v", vals); else { w.key("r").arr(); for (auto& a : out) { dump(w, a); R.push_back(a); } w.aend(); }
    w.end();
  }
};
template <class T> static void stream(In& in, W& w) {
  using nlohmann::json; std::string fmt = in.w(); int asarray = in.i(), nt = in.i(), limit = in.i(), per = in.i(), nd = in.i(); auto d = in.vz(nd); int nv = in.i(), nc = in.i(), part = in.i(); long long seed = in.i(); int omit = in.i();
  std::vector<ftk::lattice> boxes; for (int p = 0; p < np_; p ++) { auto st = in.vz(nd), sz = in.vz(nd); boxes.push_back(ftk::lattice(st, sz)); }
  size_t n = 1; for (auto x : d) n *= x;
  auto val = [&](int t, int v, size_t i) { return (long long)((t * 7919 + v * 104729 + (long long)i * 31 + seed * 17 + (long long)i * i * (v + 3)) % 1999) - 999; };
  std::vector<std::string> names, files; for (int v = 0; v < nv; v ++) names.push_back("v" + std::to_string(v));
  static int serial = 0; char sx[32]; snprintf(sx, 32, "s%06d_", serial ++); pid_t pp = getpid(); std::string base = dir + "/nds" + std::to_string((long long)getppid()) + sx;
  if (np_ > 1) { long long q = getpid(); MPI_Bcast(&q, 1, MPI_LONG_LONG, 0, MPI_COMM_WORLD); base = dir + "/nds" + std::to_string(q) + sx; } else base = dir + "/nds" + std::to_string((long long)pp) + sx;
  const bool unst = fmt == "vtu"; const bool ncu = fmt == "ncu"; std::string ext = fmt == "ncu" ? "nc" : fmt;
  std::vector<std::vector<ndarray<double>>> F(nt); w.key("h").obj().ks("k", "str").ki("d", d).kv("nv", nv).kv("nc", nc).key("f").arr();
  for (int t = 0; t < nt; t ++) { w.arr(); for (int v = 0; v < nv; v ++) { ndarray<double> a; std::vector<size_t> s(d); if (nc > 1) s.insert(s.begin(), nc); a.reshape(s); if (nc > 1) a.set_multicomponents(1); for (size_t i = 0; i < a.nelem(); i ++) a[i] = val(t, v, i); F[t].push_back(a);
      w.obj().ki("d", a.shape()).kv("c", nc > 1 ? 1 : 0).key("v").arr(); for (size_t i = 0; i < a.nelem(); i ++) w.v((long long)a[i]); w.aend().end(); } w.aend(); }
  w.aend().kv("part", part != 0).kv("limit", limit).kv("np", np_).kv("unst", unst).end();
  int nf = ncu ? (nt + per - 1) / per : nt;
  for (int f = 0; f < nf; f ++) { char b[32]; snprintf(b, 32, "%04d.%s", f, ext.c_str()); files.push_back(base + b); }
  if (rank_ == 0) for (int f = 0; f < nf; f ++) {
    if (fmt == "float32" || fmt == "float64") { std::ofstream o(files[f], std::ios::binary); for (size_t i = 0; i < n; i ++) for (int v = 0; v < nv; v ++) { if (fmt == "float32") { float x = F[f][v][i]; o.write((char*)&x, 4); } else { double x = F[f][v][i]; o.write((char*)&x, 8); } } }
    else if (fmt == "nc" || fmt == "ncu") { std::vector<std::vector<ndarray<double>>> st; for (int t = f * (ncu ? per : 1); t < std::min(nt, (f + 1) * (ncu ? per : 1)); t ++) st.push_back(F[t]); if (seed % 2) { std::vector<std::vector<ndarray<float>>> sf; for (auto& x : st) { sf.emplace_back(); for (auto& y : x) sf.back().push_back(ndarray<float>(y)); } write_nc<float>(files[f], d, sf, ncu, names); } else write_nc<double>(files[f], d, st, ncu, names); }
    else if (fmt == "h5") { if (seed % 2) { std::vector<ndarray<float>> sf; for (auto& y : F[f]) sf.push_back(ndarray<float>(y)); write_h5<float>(files[f], sf, names); } else write_h5<double>(files[f], F[f], names); }
    else if (fmt == "vti") { auto im = F[f][0].to_vtk_image_data(names[0]); for (int v = 1; v < nv; v ++) im->GetPointData()->AddArray(F[f][v].to_vtk_data_array(names[v])); vtkNew<vtkXMLImageDataWriter> wr; wr->SetFileName(files[f].c_str()); wr->SetInputData(im); wr->Write(); }
    else if (fmt == "vtu") { vtkNew<vtkUnstructuredGrid> g; vtkNew<vtkPoints> p; for (size_t i = 0; i < n; i ++) { p->InsertNextPoint(i % 3, i / 3, 0); } g->SetPoints(p); g->Allocate(1); vtkIdType ids[1] = {0}; g->InsertNextCell(VTK_VERTEX, 1, ids);
      for (int v = 0; v < nv; v ++) g->GetPointData()->AddArray(F[f][v].to_vtk_data_array(names[v])); vtkNew<vtkXMLUnstructuredGridWriter> wr; wr->SetFileName(files[f].c_str()); wr->SetInputData(g); wr->Write(); }
  }
  MPI_Barrier(MPI_COMM_WORLD);
  json j; j["type"] = "file"; if (!(omit & 1) || fmt == "float32" || fmt == "float64") j["format"] = ncu ? "nc" : fmt; if (asarray) j["filenames"] = files; else j["filenames"] = base + "*"; if (limit >= 0) j["n_timesteps"] = limit;
  bool bin = fmt == "float32" || fmt == "float64"; if (bin) j["dimensions"] = d; if (nv > 1 || fmt == "nc" || ncu || fmt == "h5" || !(omit & 2)) j["variables"] = names;
  std::string e; W ev; int cnt = 0;
  { ftk::ndarray_stream<T> s; s.configure(j); if (part) s.set_part(boxes[rank_]);
    ev.obj().ks("op", "shape").kv("p", rank_).ki("s", unst ? std::vector<size_t>() : s.shape()).kv("nv", s.n_variables()).kv("nc", s.n_components()).kv("nt", s.n_timesteps()).end();
    s.set_callback([&](int k, const ndarray<T>& a) { ev.obj().ks("op", "read").kv("p", rank_).kv("t", k).ki("st", part ? boxes[rank_].starts() : std::vector<size_t>(nd, 0)).ki("sz", part ? boxes[rank_].sizes() : d).key("r"); dump(ev, a); ev.end(); cnt ++; });
    s.start(); s.finish(); ev.obj().ks("op", "end").kv("p", rank_).kv("n", cnt).end(); }
  MPI_Barrier(MPI_COMM_WORLD); if (rank_ == 0) for (auto& f : files) unlink(f.c_str());
  std::string all = gather_str((rank_ ? "," : "") + ev.s); w.key("ev").raw("[" + all + "]");
}
template <class T> static void one(In& in, W& w) {
  std::string k = in.w();
  if (k == "alg") { alg<T> a; w.key("h").obj().ks("k", "alg").ks("t", std::is_same<T, int>::value ? "int" : "real").end().key("ev").arr(); int n = in.i(); for (int i = 0; i < n; i ++) a.run(in, w); w.aend(); }
  else if constexpr (!std::is_same<T, int>::value) stream<T>(in, w);
}
int main(int argc, char** argv) {
  diy::mpi::environment env(argc, argv); diy::mpi::communicator comm; rank_ = comm.rank(); np_ = comm.size(); char* s = getenv("VERIF_SCRATCH"); dir = s ? s : "/tmp";
  H5Eset_auto2(H5E_DEFAULT, NULL, NULL);
  std::ifstream f(argv[argc - 2]); std::ofstream out; if (rank_ == 0) out.open(argv[argc - 1]); vj::quiet(); std::string l;
  while (std::getline(f, l)) { In in(l); W w; w.obj().kv("id", in.i()); std::string t = in.w(); if (t == "f") one<float>(in, w); else if (t == "i") one<int>(in, w); else one<double>(in, w); w.end(); if (rank_ == 0) { out << w.s << "\n"; out.flush(); } }
  return 0;
}
