
#include <ftk/numeric/sign_det.hh>
#include <cstdio>
#include <map>
#include <vector>
// sign of the determinant of a perturbed matrix: the perturbation of entry (i,j) is e^(2^(3i+2-j)),
// e infinitesimal; the sign is the one of the dominating monomial with a non-zero coefficient
static long long det(std::vector<std::vector<long long>> m) {
  int n = m.size(); if (n == 0) return 1; if (n == 1) return m[0][0];
  long long s = 0;
  for (int c = 0; c < n; c ++) { std::vector<std::vector<long long>> q; for (int i = 1; i < n; i ++) { q.push_back({}); for (int j = 0; j < n; j ++) if (j != c) q.back().push_back(m[i][j]); } s += (c % 2 ? -1 : 1) * m[0][c] * det(q); }
  return s;
}
static std::map<long, long long> co;
static void rec(const long long X[4][3], std::vector<int> rows, std::vector<int> cols, long key, int sg, int minrow) {
  std::vector<std::vector<long long>> m;
  for (int r : rows) { m.push_back({}); for (int c : cols) m.back().push_back(c == 3 ? 1 : X[r][c]); }
  co[key] += sg * det(m);
  for (size_t a = 0; a < rows.size(); a ++) if (rows[a] >= minrow) for (size_t b = 0; b < cols.size(); b ++) if (cols[b] < 3) {
    auto r2 = rows; auto c2 = cols; r2.erase(r2.begin() + a); c2.erase(c2.begin() + b);
    rec(X, r2, c2, key + (1L << (3 * rows[a] + 2 - cols[b])), sg * ((a + b) % 2 ? -1 : 1), rows[a] + 1);
  }
}
static int exact(const long long X[4][3]) {
  co.clear(); rec(X, {0,1,2,3}, {0,1,2,3}, 0, 1, 0);
  for (auto &kv : co) if (kv.second) return kv.second > 0 ? 1 : -1;
  return 0;
}
int main() {
  int bad = 0;
  for (int k = 0; k < 531441; k += 1) { // entries in {-1,0,1}
    long long X[4][3]; int v = k; for (int i = 0; i < 4; i ++) for (int j = 0; j < 3; j ++) { X[i][j] = v % 3 - 1; v /= 3; }
    if (ftk::robust_sign_det4<long long>(X) != exact(X)) bad ++;
  }
  printf("%d of 531441 sign disagreements\n", bad);
  return bad != 0;
}
