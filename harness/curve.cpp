// F02: edits of trajectories.  Case: id ncurves (label loop complete npts (ty ts t o x0 x1 x2 s v0 v1 v2 tag)*)* nops ops
#include "vj.hh"
#include <mpi.h>
#include <ftk/filters/critical_point_tracker.hh>
#include <ftk/features/feature_curve_set.hh>
#include <ftk/filters/feature_curve_set_post_processor.hh>
using vj::W; using vj::In;
typedef ftk::feature_curve_t C; typedef ftk::feature_curve_set_t S;
static long long n(double x, double f) { return vj::fx(x, f); }
static C curve(In& in, int& label) {
  C c; label = in.i(); c.loop = in.i(); c.complete = in.i(); int k = in.i();
  for (int i = 0; i < k; i ++) {
    ftk::feature_point_t p; p.type = in.i(); p.timestep = in.i(); p.t = in.i() / 8.0; p.ordinal = in.i();
    for (int d = 0; d < 3; d ++) p.x[d] = in.i() / 2.0;
    p.scalar[0] = in.i(); for (int d = 0; d < 3; d ++) p.v[d] = in.i() / 4.0;
    p.tag = in.i(); c.push_back(p);
  }
  return c;
}
static void point(W& w, const ftk::feature_point_t& p) {
  w.obj().kv("ty", (long long)p.type).kv("ts", p.timestep).kv("t", n(p.t, 8)).kv("o", p.ordinal).key("x").arr();
  for (int d = 0; d < 3; d ++) w.v(n(p.x[d], 2)); w.aend().kv("s", n(p.scalar[0], 1)).key("v").arr();
  for (int d = 0; d < 3; d ++) w.v(n(p.v[d], 4)); w.aend().kv("g", (long long)p.tag).kv("i", (long long)p.id).end();
}
static void points(W& w, const C& c) { w.arr(); for (auto& p : c) point(w, p); w.aend(); }
static void stat(W& w, const C& c) {
  w.key("st").obj().kv("tmin", n(c.tmin, 8)).kv("tmax", n(c.tmax, 8)).kv("min", n(c.min[0], 1)).kv("max", n(c.max[0], 1)).kv("per", n(c.persistence[0], 1)).kv("ct", (long long)c.consistent_type);
  w.key("lo").arr(); for (int d = 0; d < 3; d ++) w.v(n(c.bbmin[d], 2)); w.aend().key("hi").arr(); for (int d = 0; d < 3; d ++) w.v(n(c.bbmax[d], 2)); w.aend();
  w.kv("vmin", n(c.vmmin * c.vmmin, 16)).kv("vmax", n(c.vmmax * c.vmmax, 16)).end();
}
static void one(W& w, int key, const C& c, bool st = true) {
  w.obj().kv("key", key).kv("id", c.id).kv("loop", c.loop).kv("complete", c.complete).key("p"); points(w, c); if (st) stat(w, c); w.end();
}
static void all(W& w, const S& s) { w.key("cs").arr(); for (auto& kv : s) one(w, kv.first, kv.second); w.aend(); }
int main(int argc, char** argv) {
  return vj::cases(argc, argv, [&](In& in) {
    W w; w.obj(); w.kv("id", in.i()); int nc = in.i(); S s;
    for (int i = 0; i < nc; i ++) { int l; C c = curve(in, l); s.add(c, l); }
    w.key("cs").arr(); for (auto& kv : s) one(w, kv.first, kv.second, false); w.aend().key("ev").arr();
    w.obj().ks("op", "init").kv("st", false); all(w, s); w.end();
    int no = in.i();
    for (int k = 0; k < no; k ++) {
      std::string op = in.w(); int a = in.i(); bool st = false; w.obj();
      auto pp = [&](const std::string& o) { ftk::feature_curve_set_post_processor_t(o).filter(s); st = true; };
      if (op == "rotate") { if (a) pp(op); else s.foreach([](C& c) { c.rotate(); }); }
      else if (op == "reorder") { if (a) pp(op); else s.foreach([](C& c) { c.reorder(); }); }
      else if (op == "adjust") { if (a) pp("adjust_time"); else s.foreach([](C& c) { c.adjust_time(); }); }
      else if (op == "smooth") { if (a == 2) pp("smooth_types"); else s.foreach([&](C& c) { c.smooth_ordinal_types(a); c.smooth_interval_types(); }); }
      else if (op == "smooth_ordinals") s.foreach([&](C& c) { c.smooth_ordinal_types(a); });
      else if (op == "discard") { st = true; if (a == -3) { pp("discard_interval_points"); a = -1; } else if (a == -1) s.foreach([](C& c) { c.discard_interval_points(); }); else if (a == -2) s.foreach([](C& c) { c.discard_degenerate_points(); });
        else s.foreach([&](C& c) { c.discard([&](const ftk::feature_point_t& p) { return (int)p.type == a; }); }); }
      else if (op == "velocity") { if (a) pp("derive_velocity"); else s.foreach([](C& c) { c.derive_velocity(); }); }
      else if (op == "split") { s.foreach([](C& c) { c.update_statistics(); }); if (a) pp("split"); else s.split_all(); st = true; }
      else if (op == "filter") s.filter([&](const C& c) { return (int)c.size() >= a; });
      else if (op == "relabel") s.foreach([&](int id, C& c) { c.relabel(id + a); });
      else if (op == "unwrap") s.foreach([&](C& c) { c.unwrap<2>(a / 2.0); });
      else if (op == "intercept") { int b = in.i(); s = s.intercept(a, b); w.kv("b", b); st = true; }
      else if (op == "add") { int l; C c = curve(in, l); w.kv("label", l).key("c"); one(w, 0, c, false); if (l >= 0) s.add(c, l); else if (a) s.add(std::vector<C>{c}); else s.add(c); }
      else if (op == "query") {
        w.key("q").arr();
        for (auto& kv : (const S&)s) {
          const C& c = kv.second; w.obj();
          w.key("runs").arr(); for (auto& r : c.split()) one(w, 0, r); w.aend();
          w.key("geo").arr(); for (auto& r : c.split_geo()) points(w, r); w.aend();
          w.ki("ord", c.to_ordinals()).ki("sel", const_cast<C&>(c).select([&](const ftk::feature_point_t& p) { return (int)p.type == a; })).end();
        }
        w.aend();
      }
      w.ks("op", op).kv("a", a).kv("st", st); all(w, s); w.end();
    }
    w.aend().end(); return w.s;
  });
}
