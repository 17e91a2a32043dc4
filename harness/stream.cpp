// streams of timesteps: sync/async, clamping, spatial and temporal smoothing; streaming_filter on its own
#include <ftk/config.hh>
#include <ftk/ndarray/stream.hh>
#include "vj.hh"
#include "dsched.hh"
using namespace vj;
static std::string dir;
static void ev_values(W& w, const ftk::ndarray<double>& a) { w.arr(); for (size_t i = 0; i < a.nelem(); i ++) w.v(fx(a[i], 1000)); w.aend(); }
template <class T> static void ev(W& w, int k, const ftk::ndarray<T>& a) {
  w.arr().str("cb").v(k); w.arr(); for (size_t i = 0; i < a.nelem(); i ++) w.v(fx((double)a[i], 1000)); w.aend(); w.aend();
}
template <class T> static std::string filter(In& in) {
  W w; w.obj(); int n = in.i(), K = in.i(); auto ker = in.vi(K); int len = in.i();
  std::vector<std::vector<int>> x(n); for (auto& v : x) v = in.vi(len);
  w.key("inp").ints2(x).ki("tw", ker).kv("ts", 1).ki("sw", std::vector<int>()).ki("dim", std::vector<int>{len}).ki("clamp", std::vector<int>()).kv("tol", 0).kv("np", 1);
  w.key("ev").arr();
  { ftk::streaming_filter<ftk::ndarray<T>, T> f; f.set_kernel(std::vector<T>(ker.begin(), ker.end()));
    f.set_callback([&](int k, const ftk::ndarray<T>& a) { ev(w, k, a); });
    for (auto& v : x) { ftk::ndarray<T> a(std::vector<size_t>(1, len)); for (int i = 0; i < len; i ++) a[i] = v[i]; f.push(a); }
    f.finish(); }
  w.arr().str("end").aend(); w.aend().end(); return w.s;
}
template <class T> static std::string stream(In& in) {
  using nlohmann::json; W w; w.obj(); int id = in.i();
  std::string src = in.w(); int async = in.i(), seed = in.i(), strat = in.i();
  int nfiles = in.i(), limit = in.i(), asarray = in.i(), nv = in.i();
  int nd = in.i(); auto dim = in.vi(nd);
  int hasclamp = in.i(); auto cl = in.vi(2); int tk = in.i(); double tsig = in.d(); int tkn = in.i(); auto tw = in.vi(tk); int sk = in.i(); double ssig = in.d(); auto sw = in.vi(sk ? (int)std::pow(sk, nd) : 0);
  int npre = in.i(); auto pre = in.vi(npre);
  size_t len = nv; for (int d : dim) len *= d;
  json j; std::vector<std::vector<int>> x; int expect = nfiles;
  auto mk = [&](int k, size_t i) { return (int)((k * 37 + i * i * 11 + seed * 7 + i * k * 5) % 151) - 50; };
  if (src == "syn") {
    const char* names[] = {"woven", "moving_extremum_2d", "double_gyre", "merger_2d", "moving_extremum_3d", "moving_ramp_3d", "volcano_2d", "tornado"};
    j["type"] = "synthetic"; j["name"] = names[nfiles % 8]; if (limit >= 0) j["n_timesteps"] = limit;
    j["dimensions"] = dim;
  } else {
    j["type"] = "file"; j["format"] = src; j["dimensions"] = dim; std::vector<std::string> vars; for (int i = 0; i < nv; i ++) vars.push_back("v" + std::to_string(i));
    if (nv > 1) j["variables"] = vars;
    std::vector<std::string> fns; std::string base = dir + "/s" + std::to_string(id) + "-";
    for (int k = 0; k < nfiles; k ++) { char b[32]; snprintf(b, 32, "%04d.bin", k); fns.push_back(base + b); std::ofstream o(fns.back(), std::ios::binary);
      std::vector<int> v; for (size_t i = 0; i < len; i ++) { v.push_back(mk(k, i)); if (src == "float32") { float f = v.back(); o.write((char*)&f, 4); } else { double f = v.back(); o.write((char*)&f, 8); } }
      x.push_back(v); }
    if (asarray) j["filenames"] = fns; else j["filenames"] = base + "*.bin";
    if (limit >= 0) { j["n_timesteps"] = limit; expect = std::min(limit, nfiles); }
  }
  json plain = j;
  if (hasclamp) j["clamp"] = cl;
  if (tk) { j["temporal-smoothing-kernel"] = tsig; if (tkn) j["temporal-smoothing-kernel-size"] = tk; }
  if (sk) { j["spatial-smoothing-kernel"] = ssig; if (sk != 3 || (seed & 1)) j["spatial-smoothing-kernel-size"] = sk; }
  if (async) j["async"] = true;
  W e; e.arr();
  if (src == "syn") {             // the unprocessed timesteps, read in the foreground, are the input
    ftk::ndarray_stream<T> s; s.configure(plain); int k = 0; std::vector<std::vector<int>> y; 
    s.set_callback([&](int, const ftk::ndarray<T>& a) { std::vector<int> v; for (size_t i = 0; i < a.nelem(); i ++) v.push_back((int)fx(a[i], 1000)); y.push_back(v); });
    s.start(); s.finish(); x = y; expect = limit >= 0 ? limit : (int)s.n_timesteps();
  }
  w.kv("milli", src == "syn" ? 1 : 1000);
  auto body = [&] {
    ftk::ndarray_stream<T> s; s.configure(j);
    s.set_callback([&](int k, const ftk::ndarray<T>& a) { sched::yield(); ev(e, k, a); sched::yield(); });
    s.start(); s.finish(); };
  if (async && strat) {
    sched::rng.seed(seed); sched::prefix.assign(pre.begin(), pre.end()); sched::preempt_left = strat == 3 ? 4 : 1 << 30; sched::p_switch = strat == 1 ? 0.5 : strat == 2 ? 0.1 : strat == 3 ? 0.2 : 0; sched::pct = false; sched::p_spurious = strat == 1 || strat == 3 ? 0.15 : 0;
    sched::body_run(body);
  } else body();
  for (int k = 0; k < nfiles && src != "syn"; k ++) { char b[32]; snprintf(b, 32, "%04d.bin", k); unlink((dir + "/s" + std::to_string(id) + "-" + b).c_str()); }
  w.key("inp").ints2(x); w.ki("tw", tw).kv("ts", 10000).ki("sw", sw).ki("dim", dim).ki("clamp", hasclamp ? cl : std::vector<int>()).kv("n", expect).kv("tol", tk || sk ? 70 : src == "syn" ? 1 : 0).kv("sk", sk);
  w.kv("thr", sched::nthreads).kv("waits", sched::nwaits); w.key("trail").arr(); for (auto t : sched::trail) if (w.s.size() < 4000) w.v(t.first); w.aend();
  e.arr().str("end").aend(); e.aend(); w.key("ev").raw(e.s); w.end(); return w.s;
}
int main(int argc, char** argv) {
  diy::mpi::environment env(argc, argv); char* d = getenv("VERIF_SCRATCH"); dir = d ? d : "/tmp";
  return cases(argc, argv, [&](In& in) { std::string m = in.w(); int f = in.i();
    if (m == "filter") return f == 32 ? filter<float>(in) : filter<double>(in);
    return f == 32 ? stream<float>(in) : stream<double>(in); });
}
