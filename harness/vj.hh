// minimal JSON writer + line-oriented case runner shared by the harnesses
#ifndef VJ_HH
#define VJ_HH
#include <bits/stdc++.h>
#include <unistd.h>
#include <fcntl.h>
namespace vj {
struct W {                      // append-only JSON text builder
  std::string s; bool comma = false;
  void sep() { if (comma) s += ','; comma = true; }
  W& key(const std::string& k) { sep(); s += '"'; s += k; s += "\":"; comma = false; return *this; }
  W& obj() { sep(); s += '{'; comma = false; return *this; }
  W& end() { s += '}'; comma = true; return *this; }
  W& arr() { sep(); s += '['; comma = false; return *this; }
  W& aend() { s += ']'; comma = true; return *this; }
  W& v(long long x) { sep(); s += std::to_string(x); return *this; }
  W& v(int x) { return v((long long)x); }
  W& v(size_t x) { return v((long long)x); }
  W& v(bool b) { sep(); s += b ? "true" : "false"; return *this; }
  W& str(const std::string& x) { sep(); s += '"'; for (char c : x) { if (c == '"' || c == '\\') s += '\\'; if ((unsigned char)c < 32) s += ' '; else s += c; } s += '"'; return *this; }
  W& raw(const std::string& x) { sep(); s += x; return *this; }
  template <class C> W& ints(const C& c) { arr(); for (auto x : c) v((long long)x); return aend(); }
  template <class C> W& ints2(const C& c) { arr(); for (auto& x : c) ints(x); return aend(); }
  template <class T> W& kv(const std::string& k, T x) { key(k); return v(x); }
  W& ks(const std::string& k, const std::string& x) { key(k); return str(x); }
  template <class C> W& ki(const std::string& k, const C& c) { key(k); return ints(c); }
};
// fixed point with sentinels: NaN -> 2000000001, +-inf/out of range -> +-2000000000
inline long long fx(double x, double scale = 4096) {
  if (std::isnan(x)) return 2000000001LL;
  double y = std::floor(x * scale + 0.5);
  if (y > 1.9e9) return 2000000000LL;
  if (y < -1.9e9) return -2000000000LL;
  return (long long)y;
}
struct In {                     // whitespace tokenizer for one case line
  std::istringstream is;
  explicit In(const std::string& l) : is(l) {}
  long long i() { long long x = 0; is >> x; return x; }
  double d() { double x = 0; is >> x; return x; }
  std::string w() { std::string x; is >> x; return x; }
  std::vector<int> vi(int n) { std::vector<int> r(n); for (auto& x : r) x = (int)i(); return r; }
  std::vector<size_t> vz(int n) { std::vector<size_t> r(n); for (auto& x : r) x = (size_t)i(); return r; }
  std::vector<double> vd(int n) { std::vector<double> r(n); for (auto& x : r) x = d(); return r; }
};
// silence the library's chatter on stdout/stderr
inline void quiet() { int n = open("/dev/null", O_WRONLY); dup2(n, 1); if (!getenv("VERIF_NOISY")) dup2(n, 2); close(n); }
// for every line of argv[1], write one record line to argv[2] (flushed)
inline int cases(int argc, char** argv, std::function<std::string(In&)> f) {
  std::ifstream in(argv[argc - 2]); std::ofstream out(argv[argc - 1]); std::string l;
  quiet();
  while (std::getline(in, l)) { In c(l); out << f(c) << "\n"; out.flush(); }
  return 0;
}
}
#endif
