#include <bits/stdc++.h>
#include "vj.hh"
#include <ftk/config.hh>
#include <vtkCellData.h>
#include <vtkPointData.h>
#include <vtkCell.h>
#include <ftk/mesh/simplicial_unstructured_2d_mesh.hh>
#include <ftk/mesh/simplicial_unstructured_extruded_2d_mesh.hh>
#include <ftk/mesh/simplicial_unstructured_extruded_2d_mesh_implicit.hh>
#include <ftk/mesh/simplicial_unstructured_3d_mesh.hh>
#include <ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh>
#include <vtkSmartPointer.h>
#include <vtkUnstructuredGrid.h>
#include <vtkPoints.h>
using namespace ftk; using vj::W; using vj::In;
typedef simplicial_unstructured_2d_mesh<> B2;
typedef simplicial_unstructured_3d_mesh<> B3;
struct B2x : public B2 { using B2::B2; const std::vector<std::set<int>>& duals() const { return triangle_edge_triangles; } };

static void tup(W& w, const int* v, int n) { w.arr(); for (int i = 0; i < n; i ++) w.v(v[i]); w.aend(); }

struct Any {   // both extruded meshes behind one face
  std::shared_ptr<B2> b2; std::shared_ptr<B3> b3;
  std::shared_ptr<simplicial_unstructured_extruded_2d_mesh_implicit<>> e2;
  std::shared_ptr<simplicial_unstructured_extruded_3d_mesh<>> e3;
  size_t bn(int d) { return b2 ? b2->n(d) : b3->n(d); }
  void bget(int d, int i, int* v) { if (d == 0) v[0] = i; else if (b2) b2->get_simplex(d, i, v); else b3->get_simplex(d, i, v); }
  size_t n(int d) { return e2 ? e2->n(d) : e3->n(d); }
  size_t no(int d) { return e2 ? e2->n_ordinal(d) : e3->n_ordinal(d); }
  size_t ni(int d) { return e2 ? e2->n_interval(d) : e3->n_interval(d); }
  bool ord(int d, int i) { return e2 ? e2->is_ordinal(d, i) : e3->is_ordinal(d, i); }
  int get(int d, int i, int* v) { if (e2) return e2->get_simplex(d, i, v); e3->get_simplex(d, i, v); return i; }
};

static std::string one(In& in, const std::string& dir) {
  int id = in.i(), D = in.i(), mode = in.i(), nv = in.i(), nc = in.i();
  std::vector<int> cells; for (int i = 0; i < nc * (D + 1); i ++) cells.push_back(in.i());
  std::vector<double> xy; for (int i = 0; i < nv; i ++) { xy.push_back(i % 3); xy.push_back(i / 3); if (D == 3) xy.push_back(i % 5); }
  Any a;
  auto grid = [&]() {
    vtkSmartPointer<vtkUnstructuredGrid> g = vtkSmartPointer<vtkUnstructuredGrid>::New();
    vtkSmartPointer<vtkPoints> p = vtkSmartPointer<vtkPoints>::New();
    for (int i = 0; i < nv; i ++) if (D == 2) p->InsertNextPoint(xy[2*i], xy[2*i+1], 0); else p->InsertNextPoint(xy[3*i], xy[3*i+1], xy[3*i+2]);
    g->SetPoints(p);
    for (int i = 0; i < nc; i ++) { vtkIdType q[4]; for (int j = 0; j <= D; j ++) q[j] = cells[i*(D+1)+j]; g->InsertNextCell(D == 2 ? VTK_TRIANGLE : VTK_TETRA, D + 1, q); }
    return g;
  };
  std::string fb = dir + ".m.bin", fv = dir + ".m.vtu";
  if (D == 2) {
    std::shared_ptr<B2> m;
    if (mode == 1) m.reset(new B2x(xy, cells));
    else {
      ndarray<double> c; c.reshape({2, (size_t)nv}); c.from_vector(xy);
      ndarray<int> t; t.reshape({3, (size_t)nc}); t.from_vector(cells);
      m.reset(new B2x(c, t));
    }
    if (mode == 2) { diy::serializeToFile(*m, fb); m = B2::from_file(fb); }
    if (mode == 3) { m->to_vtu(fv); m = B2::from_file(fv); }
    a.b2 = m; a.e2.reset(new simplicial_unstructured_extruded_2d_mesh_implicit<>(m));
  } else {
    std::shared_ptr<B3> m(new B3); m->from_vtu(grid());
    if (mode == 2) { m->to_file(fb); m = B3::from_file(fb); }
    if (mode == 3) { m->to_file(fv); m = B3::from_file(fv); }
    a.b3 = m; a.e3.reset(new simplicial_unstructured_extruded_3d_mesh<>(m));
  }
  W w; w.obj(); w.kv("id", id); w.kv("D", D); w.kv("mode", mode); w.kv("nv", nv);
  w.key("cells").arr(); for (int i = 0; i < nc; i ++) tup(w, &cells[i*(D+1)], D + 1); w.aend();
  w.key("ev").arr();
  int v[8], u[8];
  for (int d = 0; d <= D; d ++) {   // the base mesh
    w.obj(); w.ks("op", "base"); w.kv("d", d); w.key("els").arr();
    for (size_t i = 0; i < a.bn(d); i ++) {
      a.bget(d, i, v); int fi = -7; bool f = true;
      if (d > 0) {
        std::copy(v, v + d + 1, u); if (D == 2) std::reverse(u, u + d + 1);   // the 2D mesh finds vertices given in any order
        f = a.b2 ? a.b2->find_simplex(d, u, fi) : a.b3->find_simplex(d, u, fi);
        f = f && fi == (int)i;
      }
      std::vector<std::vector<int>> co, si;
      if (d < D) for (int s : (a.b2 ? a.b2->side_of(d, i) : a.b3->side_of(d, i))) { a.bget(d + 1, s, u); co.push_back(std::vector<int>(u, u + d + 2)); }
      if (D == 2 && d > 0) for (int s : a.b2->sides(d, i)) { a.bget(d - 1, s, u); si.push_back(std::vector<int>(u, u + d)); }
      w.obj(); w.key("v"); tup(w, v, d + 1); w.kv("f", f); w.key("c").ints2(co); w.key("s").ints2(si); w.end();
    }
    w.aend(); w.end();
  }
  if (D == 2) {
    w.obj(); w.ks("op", "vert"); w.key("els").arr();
    for (int i = 0; i < nv; i ++) { w.obj(); w.key("n").ints(a.b2->get_vertex_edge_vertex(i)); w.key("t").arr(); for (int t : a.b2->get_vertex_triangles()[i]) { a.b2->get_triangle(t, u); tup(w, u, 3); } w.aend(); w.end(); }
    w.aend(); w.end();
    if (mode < 3) {
      w.obj(); w.ks("op", "chi"); w.key("x").arr(); for (int i = 0; i < nc; i ++) w.v(a.b2->get_triangle_chi(i)); w.aend();
      w.key("e").arr(); for (int i = 0; i < nc; i ++) w.v(a.e2->get_triangle_chi(i + 2 * (int)a.n(2))); w.aend(); w.kv("up", a.e2->get_triangle_chi((int)a.no(2))); w.end();
    }
    if (mode < 2) {
      const auto& du = static_cast<B2x*>(a.b2.get())->duals();
      w.obj(); w.ks("op", "dual"); w.key("els").arr();
      for (int i = 0; i < nc; i ++) { w.arr(); a.b2->get_triangle(i, u); tup(w, u, 3); w.arr(); if (i < (int)du.size()) for (int t : du[i]) { a.b2->get_triangle(t, u); tup(w, u, 3); } w.aend(); w.aend(); }
      w.aend(); w.end();
    }
  }
  int nq = in.i();
  for (int q = 0; q < nq; q ++) {
    std::string op = in.w();
    if (op == "slab") {     // every d-simplex of slab t
      int d = in.i(), t = in.i();
      w.obj(); w.ks("op", "slab"); w.kv("d", d); w.kv("t", t); w.kv("n", a.n(d)); w.kv("no", a.no(d)); w.kv("ni", d ? a.ni(d) : 0);
      w.key("els").arr();
      for (int i = 0; i < (int)a.n(d); i ++) {
        int k = i + t * (int)a.n(d); int g = a.get(d, k, v); bool f = true;
        if (a.e2 && d > 0 && t >= 0) { int j = -7; std::copy(v, v + d + 1, u); f = a.e2->find_simplex(d, u, j) && j == k; }
        w.obj(); w.key("v"); tup(w, v, d + 1); w.kv("o", a.ord(d, k)); w.kv("g", g == k); w.kv("f", f); w.end();
      }
      w.aend(); w.end();
    } else if (op == "for") {   // parallel iteration over the ordinal/interval part
      int d = in.i(), t = in.i(), sc = in.i(), nth = in.i();
      std::mutex mu; std::vector<int> ids; auto f = [&](int i) { std::lock_guard<std::mutex> g(mu); ids.push_back(i); };
      if (a.e2) { if (sc == 1) a.e2->element_for_ordinal(d, t, f, false, FTK_XL_NONE, nth); else a.e2->element_for_interval(d, t, f, false, FTK_XL_NONE, nth); }
      else { if (sc == 1) a.e3->element_for_ordinal(d, t, f, FTK_XL_NONE, nth); else a.e3->element_for_interval(d, t, f, FTK_XL_NONE, nth); }
      w.obj(); w.ks("op", "for"); w.kv("d", d); w.kv("t", t); w.kv("sc", sc); w.key("els").arr();
      for (int i : ids) { a.get(d, i, v); tup(w, v, d + 1); } w.aend(); w.end();
    } else if (op == "rel") {   // sides and cofaces of every d-simplex of slab t
      int d = in.i(), t = in.i(); bool sd = a.e2 ? d == 3 : d >= 3, so = a.e2 ? d == 2 : (d == 2 || d == 3);
      w.obj(); w.ks("op", "rel"); w.kv("d", d); w.kv("t", t); w.kv("sd", sd); w.kv("so", so); w.key("els").arr();
      for (int i = 0; i < (int)a.n(d); i ++) {
        int k = i + t * (int)a.n(d); a.get(d, k, v);
        w.obj(); w.key("v"); tup(w, v, d + 1);
        w.key("s").arr(); if (sd) for (int x : (a.e2 ? a.e2->sides(d, k) : a.e3->sides(d, k))) { a.get(d - 1, x, u); tup(w, u, d); } w.aend();
        w.key("c").arr(); if (so) for (int x : (a.e2 ? a.e2->side_of(d, k) : a.e3->side_of(d, k))) { a.get(d + 1, x, u); tup(w, u, d + 2); } w.aend();
        w.end();
      }
      w.aend(); w.end();
    }
  }
  w.aend(); w.end();
  unlink(fb.c_str()); unlink(fv.c_str());
  return w.s;
}
int main(int argc, char** argv) {
  diy::mpi::environment env(argc, argv);
  std::string dir = argv[argc - 1];
  return vj::cases(argc, argv, [&](In& in) { return one(in, dir); });
}
