// Estimates single models (SUR) on generated data and prints data, options and everything they report.
#include "vjson.h"
#include "sur.h"
#include <algorithm>
#include <cmath>
using namespace ldt;
typedef std::vector<double> V;
typedef std::vector<std::vector<double>> VV;

static VV rowsOf(const Matrix<Tv> &m) {
  VV r(m.RowsCount, V(m.ColsCount));
  for (int i = 0; i < m.RowsCount; i++) for (int j = 0; j < m.ColsCount; j++) r[i][j] = m.Data[(size_t)j * m.RowsCount + i];
  return r;
}
// memory whose end is guarded
template <class T> struct Mem {
  std::vector<T> d; size_t n; T mark;
  Mem(size_t n, T mark) : d(n + 16, mark), n(n), mark(mark) {}
  T *data() { return d.data(); }
  bool ok() { for (size_t i = n; i < d.size(); i++) if (d[i] != mark) return false; return true; }
};

// columns y1..ym, x1..xk; x1 is an intercept in most data sets
static VV genData(Rng &r, int N, int m, int k) {
  VV cols(m + k, V(N));
  bool intercept = r.chance(0.7);
  for (int j = 0; j < k; j++) {
    double sc = r.pick(V{1, 1, 1, 10, 0.1}), lo = r.pick(V{0, 0, 1, -2, 5});
    for (int i = 0; i < N; i++) cols[m + j][i] = j == 0 && intercept ? 1.0 : lo + sc * r.normal();
    if (!(j == 0 && intercept) && r.chance(0.15)) for (int i = 0; i < N; i++) cols[m + j][i] = r.range(0, 2); // dummies
  }
  for (int e = 0; e < m; e++) {
    double sd = r.pick(V{0.1, 1, 1, 3});
    for (int i = 0; i < N; i++) cols[e][i] = sd * r.normal();
    for (int j = 0; j < k; j++) {
      double b = r.chance(0.4) ? 0 : r.unit() * 4 - 2;
      for (int i = 0; i < N; i++) cols[e][i] += b * cols[m + j][i];
    }
    if (e > 0) for (int i = 0; i < N; i++) cols[e][i] += 0.5 * cols[e - 1][i];
  }
  return cols;
}
static Matrix<Tv> pack(const VV &cols, V &mem) {
  mem.clear();
  for (auto &c : cols) mem.insert(mem.end(), c.begin(), c.end());
  return Matrix<Tv>(mem.data(), (Ti)cols[0].size(), (Ti)cols.size());
}
static VV rowsC(const VV &cols) { VV r(cols[0].size(), V(cols.size())); for (size_t j = 0; j < cols.size(); j++) for (size_t i = 0; i < cols[j].size(); i++) r[i][j] = cols[j][i]; return r; }

static void sur1(Rng &r) {
  int m = r.range(1, 3), k = r.range(1, 4);
  int N = k + m + 3 + r.size(0, 14, 40, 80);
  auto cols = genData(r, N, m, k);
  bool nan = r.chance(0.4);
  if (nan) for (int q = r.range(0, 3); q > 0; q--) cols[r.range(0, m + k - 1)][r.range(0, N - 1)] = NAN;
  V mem; auto data = pack(cols, mem); V copy = mem;
  int km = k * m;
  std::string mode = r.pick(std::vector<std::string>{"free", "free", "zero", "linear", "search", "search"});
  int iters = 0; double prob = 0;
  V Rm; Matrix<Tv> R; int q = km;
  VV Rrows;
  if (mode == "zero") {
    std::vector<int> keep; for (int j = 0; j < km; j++) if (r.chance(0.7)) keep.push_back(j);
    if (keep.empty()) keep.push_back(r.range(0, km - 1));
    q = keep.size(); Rm.assign(km * q, 0.0);
    for (int j = 0; j < q; j++) Rm[j * km + keep[j]] = 1;
  } else if (mode == "linear") {
    q = r.range(1, km); Rm.assign(km * q, 0.0);
    std::vector<int> p; for (int j = 0; j < km; j++) p.push_back(j);
    r.shuffle(p);
    for (int j = 0; j < km; j++) { int c = j < q ? j : r.range(0, q - 1); Rm[c * km + p[j]] = j < q ? 1 : r.pick(V{1, -1, 0.5, 0}); }
  } else if (mode == "search") {
    iters = r.range(1, 4); prob = r.pick(V{0.01, 0.05, 0.1, 0.3, 0.9, 1});
    Rm.assign(km * km, -7.0);
  }
  int np = r.chance(0.6) ? r.range(1, 4) : 0;
  VV nx(k, V(std::max(np, 1)));
  for (int j = 0; j < k; j++) for (auto &x : nx[j]) x = r.normal() * 2;
  V nmem; auto NX = pack(nx, nmem); if (np == 0) NX.RowsCount = 0;
  bool details = r.chance(0.8), var = r.chance(0.7);
  bool restricted = mode != "free";
  Rec rec;
  rec("kind", "sur")("mode", mode)("data", rowsC(cols))("m", m)("k", k)("iters", iters)("prob", prob)("details", details || iters > 0)("variance", var)("restricted", restricted);
  if (restricted) { R = Matrix<Tv>(Rm.data(), km, mode == "search" ? km : q); if (mode != "search") Rrows = rowsOf(R); }
  rec("R", Rrows)("newx", np ? rowsOf(NX) : VV());
  std::string err; bool guard = true;
  Rec out;
  SurExtended M(N, m, k, restricted, nan, details, np, iters, var, nullptr, nullptr);
  Mem<double> st(M.StorageSize, -77.25), wk(M.WorkSize, -78.5);
  int reps = r.chance(0.3) ? 2 : 1; // a second use of the same object must not remember the first
  try {
    for (int t = 0; t < reps; t++) M.Calculate(data, m, st.data(), wk.data(), restricted ? &R : nullptr, prob, np ? &NX : nullptr);
  } catch (std::exception &e) { err = e.what(); }
  guard = st.ok() && wk.ok();
  rec("error", err)("guard", guard)("kept", copy.size() == mem.size() && std::equal(mem.begin(), mem.end(), copy.begin(), [](double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }));
  if (err.empty()) {
    auto &s = M.Model;
    rec("beta", rowsOf(s.beta))("gamma", rowsOf(s.gamma))("gvar", rowsOf(s.gamma_var))("yhat", rowsOf(s.yhat))("resid", rowsOf(s.resid))("rvar", rowsOf(s.resid_var))
       ("cn", s.condition_number)("ll", s.logLikelihood)("iter", s.mSigSearchIter)("used", restricted ? rowsOf(R) : VV());
    if (details || iters > 0)
      rec("std", rowsOf(s.e_beta_std))("t", rowsOf(s.e_beta_t))("p", rowsOf(s.e_beta_prob))("r2", s.r2)("aic", s.Aic)("sic", s.Sic)("hqic", s.Hqic)
         ("f", s.f)("fp", s.f_prob)("fd", V{s.f_prob_d1, s.f_prob_d2});
    rec("means", np ? rowsOf(M.Projections.Means) : VV())("vars", np && var ? rowsOf(M.Projections.Variances) : VV());
  }
  rec.out();
}

int main(int argc, char **argv) {
  std::string mode = argv[1];
  uint64_t seed = strtoull(argv[2], 0, 10);
  int n = atoi(argv[3]);
  for (int i = 0; i < n; i++) {
    Rng r(seed * 1000003 + i);
    if (mode == "sur") sur1(r);
    else return 3;
  }
}
