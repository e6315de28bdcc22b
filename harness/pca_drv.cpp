// Principal components: the analysis, the selection for a model, and models estimated on components.
#include "vjson.h"
#include "discrete_choice.h"
#include "pca.h"
#include "sur.h"
#include "varma.h"
#include <algorithm>
#include <cmath>
using namespace ldt;
typedef std::vector<double> V;
typedef std::vector<std::vector<double>> VV;

static VV rowsOf(const Matrix<Tv> &m) {
  VV r(m.Data ? m.RowsCount : 0, V(m.ColsCount));
  for (size_t i = 0; i < r.size(); i++) for (int j = 0; j < m.ColsCount; j++) r[i][j] = m.Data[(size_t)j * m.RowsCount + i];
  return r;
}
static V flat(const Matrix<Tv> &m) { return m.Data ? V(m.Data, m.Data + m.length()) : V(); }
static Matrix<Tv> pack(const VV &rows, int cols, V &mem) {
  mem.assign(rows.size() * cols, 0);
  for (size_t i = 0; i < rows.size(); i++) for (int j = 0; j < cols; j++) mem[(size_t)j * rows.size() + i] = rows[i][j];
  return Matrix<Tv>(mem.data(), (Ti)rows.size(), cols);
}
template <class T> struct Mem {
  std::vector<T> d; size_t n; T mark;
  Mem(size_t n, T mark) : d(n + 64, mark), n(n), mark(mark) {}
  T *data() { return d.data(); }
  bool ok() { for (size_t i = n; i < d.size(); i++) if (d[i] != mark) return false; return true; }
};
static bool same(const V &a, const V &b) { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin(), [](double x, double y) { return x == y || (std::isnan(x) && std::isnan(y)); }); }

// correlated columns of various sizes; `flat' of them constant
static VV columns(Rng &r, int n, int c, bool constant) {
  VV x(n, V(c)); int f = r.range(1, 3); VV fac(n, V(f));
  for (auto &row : fac) for (auto &z : row) z = r.normal();
  int scale = r.range(0, 2);
  for (int j = 0; j < c; j++) {
    V l(f); for (auto &z : l) z = 2 * r.normal();
    double e = r.pick(V{0.1, 1, 1, 3}), sc = scale == 0 ? 1 : r.pick(V{0.01, 1, 10, 1000}), m = r.pick(V{0, 0, 1, -5, 100});
    bool round = r.chance(0.1);
    for (int i = 0; i < n; i++) { double z = e * r.normal(); for (int q = 0; q < f; q++) z += l[q] * fac[i][q]; x[i][j] = sc * (z + m); if (round) x[i][j] = std::round(z); }
  }
  if (constant) { int j = r.range(0, c - 1); double v = r.pick(V{0, 1, 0.1, 1.0 / 3, 1e5 / 7, -2.7}); for (auto &row : x) row[j] = v; if (c > 1 && r.chance(0.2)) { j = r.range(0, c - 1); for (auto &row : x) row[j] = 5; } }
  return x;
}

// the analysis of x
static std::string analysis(const VV &x, int c, const VV &nx, bool check, bool center, bool scale, bool dopcs, int extra, Rng *r) {
  Rec rec;
  V mem, nm; auto X = pack(x, c, mem); auto N = pack(nx, c, nm); V copy = mem, ncopy = nm;
  std::string err, err2; bool guard = true; V v1, v2;
  rec("x", x)("nx", nx)("center", center)("scale", scale)("check", check)("dopcs", dopcs);
  try {
    PcaAnalysis p(x.size() + extra, c + extra, nx.size() + extra, dopcs, check, center, scale);
    Mem<double> st(p.StorageSize, -3.5), wk(p.WorkSize, -4.5);
    if (r && r->chance(0.3)) { // a former use of the object
      int c0 = r->range(1, c); V m0; auto o = columns(*r, x.size(), c0, r->chance(0.3)); auto O = pack(o, c0, m0);
      try { p.Calculate(O, wk.data(), st.data(), nullptr); } catch (std::exception &e) {}
    }
    for (int t = 0; t < 2; t++) {
      std::string e;
      try {
        p.Calculate(X, wk.data(), st.data(), nx.size() ? &N : nullptr);
        V v = flat(p.Stds), u = flat(p.Stds2Ratios); v.insert(v.end(), u.begin(), u.end());
        (t ? v2 : v1) = v;
        if (t == 0) {
          rec("dirs", rowsOf(p.Directions))("stds", flat(p.Stds))("ratios", flat(p.Stds2Ratios))("pcs", dopcs ? rowsOf(p.PCs) : VV())("fc", nx.size() ? rowsOf(p.Forecasts) : VV());
          rec("s", (center || scale) ? rowsOf(p.DataS.Result) : VV())("removed", scale && check ? p.DataS.RemovedZeroVar : std::vector<Ti>());
          std::vector<int> cut; V rates{0.1, 0.5, 0.8, 0.95, 0.9999};
          for (double q : rates) cut.push_back(p.GetCutoffColumn(q));
          rec("rates", rates)("cuts", cut);
        }
      } catch (std::exception &x) { e = x.what(); }
      (t ? err2 : err) = e;
      if (!st.ok() || !wk.ok()) guard = false;
    }
  } catch (std::exception &x) { err = err2 = x.what(); }
  rec("error", err)("guard", guard)("kept", same(mem, copy) && same(nm, ncopy))("repeated", err == err2 && same(v1, v2));
  return rec.str();
}

static void raw1(Rng &r) {
  int c = r.range(1, 5), n = r.chance(0.2) ? r.range(2, c + 1) : r.range(c + 1, 14), f = r.chance(0.5) ? r.range(1, 4) : 0;
  bool center = r.chance(0.7), scale = r.chance(0.7), check = r.chance(0.7), constant = r.chance(0.25);
  auto x = columns(r, n, c, constant); auto nx = columns(r, std::max(f, 1), c, r.chance(0.2)); if (!f) nx.clear();
  Rec rec;
  rec("kind", "raw")("an", Raw{analysis(x, c, nx, check, center, scale, r.chance(0.7), r.pick(std::vector<int>{0, 0, 1, 3}), &r)});
  rec.out();
}

static PcaAnalysisOptions options(Rng &r, int c) {
  PcaAnalysisOptions o;
  o.IgnoreFirstCount = std::min(r.pick(std::vector<int>{0, 0, 1, 1, 2}), r.chance(0.1) ? c : c - 1);
  int left = std::max(1, c - o.IgnoreFirstCount);
  if (r.chance(0.5)) { o.ExactCount = r.chance(0.12) ? left + r.range(1, 2) : r.range(1, left); if (r.chance(0.5)) o.CutoffRate = 0.8; }
  else o.CutoffRate = r.pick(V{0.3, 0.5, 0.8, 0.95, 0.999});
  o.CutoffCountMax = r.pick(std::vector<int>{1000, 1000, 1, 2, 3});
  return o;
}
// what a model was given, what it used, and the analysis of the variables which are replaced
static std::string block(const PcaAnalysisOptions &o, const VV &x, int c, const VV &nx, const VV &used, const VV &nused) {
  auto tail = [&](const VV &m) { VV t; for (auto &row : m) t.push_back(V(row.begin() + std::min((int)row.size(), o.IgnoreFirstCount), row.end())); return t; };
  Rec rec; int left = c - o.IgnoreFirstCount;
  rec("x", x)("c", c)("nx", nx)("ignore", o.IgnoreFirstCount)("exact", o.ExactCount)("cutoff", o.CutoffRate)("max", o.CutoffCountMax)("used", used)("nused", nused);
  rec("an", Raw{left > 0 && x.size() > 0 ? analysis(tail(x), left, tail(nx), true, true, true, true, 0, nullptr) : "{}"});
  return rec.str();
}

// the components which should take the place of the variables (judged by the specification); false if there are none
static bool replaced(const PcaAnalysisOptions &o, const VV &x, int c, const VV &nx, VV &ux, VV &un) {
  int ig = o.IgnoreFirstCount, left = c - ig;
  if (left <= 0 || x.size() < 2) return false;
  VV t, tn; for (auto &q : x) t.push_back(V(q.begin() + ig, q.end())); for (auto &q : nx) tn.push_back(V(q.begin() + ig, q.end()));
  V tm, tnm; auto T = pack(t, left, tm), TN = pack(tn, left, tnm);
  try {
    PcaAnalysis p(t.size(), left, nx.size()); std::vector<Tv> st(p.StorageSize + 1), wk(p.WorkSize + 1); p.Calculate(T, wk.data(), st.data(), nx.size() ? &TN : nullptr);
    V ra = flat(p.Stds2Ratios); int n = o.ExactCount;
    if (!n) { double s = 0; n = 0; while (n < (int)ra.size()) { s += ra[n++]; if (s > o.CutoffRate) break; } n = std::min(n, (int)o.CutoffCountMax); }
    if (n > (int)ra.size()) return false;
    auto P = rowsOf(p.PCs), F = nx.size() ? rowsOf(p.Forecasts) : VV();
    ux.clear(); un.clear();
    for (size_t i = 0; i < x.size(); i++) { ux.push_back(V(x[i].begin(), x[i].begin() + ig)); ux[i].insert(ux[i].end(), P[i].begin(), P[i].begin() + n); }
    for (size_t i = 0; i < nx.size(); i++) { un.push_back(V(nx[i].begin(), nx[i].begin() + ig)); un[i].insert(un[i].end(), F[i].begin(), F[i].begin() + n); }
    return true;
  } catch (std::exception &) { return false; }
}

static void model1(Rng &r) {
  int c = r.range(1, 5), n = r.chance(0.15) ? r.range(2, c + 1) : r.range(c + 1, 12), f = r.chance(0.5) ? r.range(1, 4) : 0;
  auto x = columns(r, n, c, r.chance(0.15)); auto nx = columns(r, std::max(f, 1), c, false); if (!f) nx.clear();
  auto o = options(r, c);
  V mem, nm; auto X = pack(x, c, mem), N = pack(nx, c, nm);
  std::string err; bool guard = true; VV used, nused;
  try {
    o.CheckValidity();
    PcaAnalysis p(n, c, f, true, true, true, true);
    Mem<double> st(p.StorageSize, -3.5), wk(p.WorkSize, -4.5);
    mem.resize(mem.size() + 32, -6.5); X.Data = mem.data(); nm.resize(nm.size() + 32, -7.5); N.Data = nm.data();
    try { o.CalculateForModel(p, X, wk.data(), st.data(), f ? &N : nullptr, r.chance(0.5)); used = rowsOf(X); if (f) nused = rowsOf(N); } catch (std::exception &e) { err = e.what(); }
    guard = st.ok() && wk.ok();
    for (int i = 0; i < 32; i++) guard = guard && mem[n * c + i] == -6.5 && nm[f * c + i] == -7.5;
  } catch (std::exception &e) { err = e.what(); }
  Rec rec;
  rec("kind", "select")("b", Raw{block(o, x, c, nx, used, nused)})("error", err)("guard", guard);
  rec.out();
}

struct Two { std::string err; V v; bool guard = true; };
static void add(V &v, const Matrix<Tv> &m) { V u = flat(m); v.insert(v.end(), u.begin(), u.end()); }
static void finish(Rec &rec, const Two &a, const Two &b, bool kept) {
  rec("error", a.err)("error2", b.err)("a", a.v)("b", b.v)("guard", a.guard && b.guard)("kept", kept);
  rec.out();
}

static void sur1(Rng &r) {
  int m = r.range(1, 4), k = r.range(1, 4), N = m + k + r.range(4, 20), np = r.chance(0.6) ? r.range(1, 4) : 0;
  bool py = r.chance(0.6), px = !py || r.chance(0.7);
  VV x = columns(r, N, k, false), y = columns(r, N, m, py && r.chance(0.05)), nx = columns(r, std::max(np, 1), k, false); if (!np) nx.clear();
  bool one = r.chance(0.5); if (one) { for (auto &q : x) q[0] = 1; for (auto &q : nx) q[0] = 1; }
  for (int i = 0; i < N; i++) for (int j = 0; j < m; j++) y[i][j] += x[i][k - 1] * 0.3;
  bool nan = r.chance(0.3); VV all(N), x2, y2;
  for (int i = 0; i < N; i++) {
    bool ok = true;
    if (nan && r.chance(0.1)) { ok = false; (r.chance(0.5) ? x[i][k - 1] : y[i][0]) = NAN; }
    all[i] = y[i]; all[i].insert(all[i].end(), x[i].begin(), x[i].end());
    if (ok) x2.push_back(x[i]), y2.push_back(y[i]);
  }
  auto oy = options(r, m), ox = options(r, k); if (one && r.chance(0.9)) ox.IgnoreFirstCount = std::max(1, ox.IgnoreFirstCount);
  int iters = r.pick(std::vector<int>{0, 0, 0, 2}); double prob = 0.2; bool details = r.chance(0.7) || iters > 0, var = r.chance(0.7);
  Two a, b; VV uy, ux, un; V mem, nm; auto D = pack(all, m + k, mem); auto NX = pack(nx, k, nm); V copy = mem, ncopy = nm;
  auto use = [&](SurExtended &M, const Matrix<Tv> &D, int m, const Matrix<Tv> *NX, Two &t, bool first) {
    Mem<double> st(M.StorageSize, -77.25), wk(M.WorkSize, -78.5);
    V Rm((size_t)(m * (D.ColsCount - m)) * (m * (D.ColsCount - m)) + 1, -2); Matrix<Tv> R(Rm.data(), m * (D.ColsCount - m), m * (D.ColsCount - m));
    try {
      M.Calculate(D, m, st.data(), wk.data(), iters ? &R : nullptr, prob, NX);
      add(t.v, M.Model.beta); add(t.v, M.Model.gamma_var); add(t.v, M.Model.resid); add(t.v, M.Model.resid_var); t.v.push_back(M.Model.logLikelihood);
      if (details) { t.v.push_back(M.Model.r2); t.v.push_back(M.Model.Aic); add(t.v, M.Model.e_beta_prob); }
      if (NX) { add(t.v, M.Projections.Means); if (var) add(t.v, M.Projections.Variances); }
      if (first) uy = rowsOf(M.Y), ux = rowsOf(M.X);
    } catch (std::exception &e) { t.err = e.what(); }
    t.guard = t.guard && st.ok() && wk.ok() && Rm.back() == -2;
  };
  try {
    SurExtended M(N, m, k, iters > 0, nan, details, np, iters, var, py ? &oy : nullptr, px ? &ox : nullptr);
    use(M, D, m, np ? &NX : nullptr, a, true);
  } catch (std::exception &e) { a.err = e.what(); }
  VV wy = y2, wx = x2, wn = nx, no;
  bool can = y2.size() > 0 && (!py || replaced(oy, y2, m, VV(), wy, no)) && (!px || replaced(ox, x2, k, nx, wx, wn));
  if (can) {
    un = wn; VV all2; for (size_t i = 0; i < wy.size(); i++) { all2.push_back(wy[i]); all2[i].insert(all2[i].end(), wx[i].begin(), wx[i].end()); }
    int m2 = wy[0].size(), k2 = wx[0].size(); V mem2, nm2; auto D2 = pack(all2, m2 + k2, mem2); auto N2 = pack(wn, k2, nm2);
    try { SurExtended M(wy.size(), m2, k2, iters > 0, false, details, np, iters, var, nullptr, nullptr); use(M, D2, m2, np ? &N2 : nullptr, b, false); } catch (std::exception &e) { b.err = e.what(); }
  }
  Rec rec; rec("can", can);
  rec("kind", "sur");
  std::string s = "["; if (py) s += block(oy, y2, m, VV(), uy, VV()); if (px) s += (py ? "," : "") + block(ox, x2, k, nx, ux, un); rec("blocks", Raw{s + "]"});
  finish(rec, a, b, same(mem, copy) && same(nm, ncopy));
}

static void dc1(Rng &r) {
  int k = r.range(2, 5), N = 10 * k + r.range(0, 20), np = r.chance(0.6) ? r.range(1, 4) : 0; bool w = r.chance(0.3), nan = r.chance(0.3), probit = r.chance(0.5);
  VV x = columns(r, N, k, false), nx = columns(r, std::max(np, 1), k, false); if (!np) nx.clear();
  for (auto &q : x) q[0] = 1; for (auto &q : nx) q[0] = 1;
  VV all(N), x2, head2;
  for (int i = 0; i < N; i++) {
    bool ok = true; double yy = r.unit() < 0.5 + (x[i][k - 1] > 0 ? 0.2 : -0.2);
    if (nan && r.chance(0.1)) { ok = false; x[i][k - 1] = NAN; }
    all[i] = V{yy}; if (w) all[i].push_back(0.5 + r.unit());
    all[i].insert(all[i].end(), x[i].begin(), x[i].end());
    if (ok) { x2.push_back(x[i]); head2.push_back(V(all[i].begin(), all[i].begin() + (w ? 2 : 1))); }
  }
  auto o = options(r, k); if (r.chance(0.9)) o.IgnoreFirstCount = std::max(1, o.IgnoreFirstCount);
  bool details = r.chance(0.6); RocOptions roc; int pre = w ? 2 : 1;
  Two a, b; VV ux, un; V mem, nm; auto D = pack(all, pre + k, mem); auto NX = pack(nx, k, nm); V copy = mem, ncopy = nm;
  auto use = [&](DiscreteChoiceExtended &M, const Matrix<Tv> &D, const Matrix<Tv> *NX, Two &t, bool first) {
    Mem<double> st(M.StorageSize, -77.25), wk(M.WorkSize, -78.5);
    try {
      M.Calculate(D, st.data(), wk.data(), true, NX, roc);
      add(t.v, M.Model->Beta); add(t.v, M.Model->BetaVar); t.v.push_back(M.Model->LogL);
      if (details) { t.v.push_back(M.BrierScore); t.v.push_back(M.Auc); add(t.v, M.Projections); }
      if (NX) add(t.v, M.PredProbs);
      if (first) ux = rowsOf(M.X);
    } catch (std::exception &e) { t.err = e.what(); }
    t.guard = t.guard && st.ok() && wk.ok();
  };
  auto dist = probit ? DiscreteChoiceDistType::kProbit : DiscreteChoiceDistType::kLogit;
  try {
    DiscreteChoiceExtended M(DiscreteChoiceModelType::kBinary, dist, N, pre + k, w, nan, 2, details, np, &o, nullptr, false);
    use(M, D, np ? &NX : nullptr, a, true);
  } catch (std::exception &e) { a.err = e.what(); }
  VV wx, wn; bool can = replaced(o, x2, k, nx, wx, wn);
  if (can) {
    un = wn; VV all2 = head2; for (size_t i = 0; i < wx.size(); i++) all2[i].insert(all2[i].end(), wx[i].begin(), wx[i].end());
    int k2 = wx[0].size(); V mem2, nm2; auto D2 = pack(all2, pre + k2, mem2); auto N2 = pack(wn, k2, nm2);
    try { DiscreteChoiceExtended M(DiscreteChoiceModelType::kBinary, dist, wx.size(), pre + k2, w, false, 2, details, np, nullptr, nullptr, false); use(M, D2, np ? &N2 : nullptr, b, false); } catch (std::exception &e) { b.err = e.what(); }
  }
  Rec rec; rec("kind", "dc")("can", can)("blocks", Raw{"[" + block(o, x2, k, nx, ux, un) + "]"});
  finish(rec, a, b, same(mem, copy) && same(nm, ncopy));
}

static void varma1(Rng &r) {
  int g = r.range(1, 4), x = r.range(0, 3), H = r.chance(0.6) ? r.range(1, 3) : 0, p = r.range(0, 2), q = r.chance(0.3) ? 1 : 0, d = r.pick(std::vector<int>{0, 0, 1});
  if (p + q == 0) p = 1;
  bool py = r.chance(0.6) || !x, px = x && (!py || r.chance(0.7));
  int n = d + (p + q) * g + x + g + p + q + 6 + r.range(0, 15), rows = n + (x ? H : 0);
  VV y = columns(r, n, g, false), e = columns(r, rows, std::max(x, 1), false);
  bool one = x && r.chance(0.4); if (one) for (auto &z : e) z[0] = 1;
  VV all(rows, V(g + x, NAN));
  for (int t = 0; t < rows; t++) { if (t < n) for (int j = 0; j < g; j++) all[t][j] = y[t][j]; for (int j = 0; j < x; j++) all[t][g + j] = e[t][j]; }
  for (auto &z : e) z.resize(x);
  auto oy = options(r, g), ox = options(r, std::max(1, x)); if (one && r.chance(0.9)) ox.IgnoreFirstCount = std::max(1, ox.IgnoreFirstCount);
  bool fin = r.chance(0.5), vc = r.chance(0.7);
  VV xs(e.begin(), e.begin() + n), xn(e.begin() + n, e.end());
  Two a, b; VV uy, ux, un; V mem; auto D = pack(all, g + x, mem); V copy = mem;
  auto use = [&](VarmaExtended &M, Matrix<Tv> &D, Two &t, bool first) {
    Mem<double> st(M.StorageSize, -77.25), wk(M.WorkSize, -78.5);
    try {
      M.Calculate(D, st.data(), wk.data(), false, H, 0, -1);
      auto &R = M.Model.Result; add(t.v, R.gamma); add(t.v, R.coef); add(t.v, R.resid); add(t.v, R.sigma2); add(t.v, R.coefprob); t.v.push_back(R.LogLikelihood); t.v.push_back(R.Aic);
      if (H) { add(t.v, M.Forecasts.Forecast); if (vc) add(t.v, M.Forecasts.Variance); }
      if (first) {
        auto Y = M.Y; for (int i = 0; i < Y.ColsCount; i++) uy.push_back(V(Y.Data + i * Y.RowsCount, Y.Data + (i + 1) * Y.RowsCount));
        if (x) { auto X = M.X; for (int i = 0; i < X.ColsCount; i++) ux.push_back(V(X.Data + i * X.RowsCount, X.Data + (i + 1) * X.RowsCount)); }
      }
    } catch (std::exception &e) { t.err = e.what(); }
    t.guard = t.guard && st.ok() && wk.ok();
  };
  auto rest = fin ? VarmaRestrictionType::kMaFinal : VarmaRestrictionType::kNone;
  try {
    VarmaSizes z(rows, g, x, p, d, q, 0, 0, 0, 0);
    VarmaExtended M(z, rest, true, true, vc, H, py ? &oy : nullptr, px ? &ox : nullptr, nullptr);
    use(M, D, a, true);
  } catch (std::exception &e) { a.err = e.what(); }
  VV wy = y, wx = xs, wn = xn, no;
  bool can = (!py || replaced(oy, y, g, VV(), wy, no)) && (!px || replaced(ox, xs, x, xn, wx, wn));
  ux.resize(x ? std::min((size_t)n, ux.size()) : 0);
  if (can) {
    un = wn; int k2 = x ? wx[0].size() : 0, m2 = wy[0].size();
    VV all2(rows, V(m2 + k2, NAN));
    for (int t = 0; t < rows; t++) { if (t < n) for (int j = 0; j < m2; j++) all2[t][j] = wy[t][j]; for (int j = 0; j < k2; j++) all2[t][m2 + j] = t < n ? wx[t][j] : wn[t - n][j]; }
    V mem2; auto D2 = pack(all2, m2 + k2, mem2);
    try { VarmaSizes z(rows, m2, k2, p, d, q, 0, 0, 0, 0); VarmaExtended M(z, rest, true, true, vc, H, nullptr, nullptr, nullptr); use(M, D2, b, false); } catch (std::exception &e) { b.err = e.what(); }
  }
  Rec rec; rec("kind", "varma")("can", can);
  std::string s = "["; if (py) s += block(oy, y, g, VV(), uy, VV()); if (px) s += (py ? "," : "") + block(ox, xs, x, xn, ux, un); rec("blocks", Raw{s + "]"});
  finish(rec, a, b, same(mem, copy));
}

int main(int argc, char **argv) {
  std::string mode = argv[1];
  uint64_t seed = strtoull(argv[2], 0, 10);
  int n = atoi(argv[3]);
  for (int i = 0; i < n; i++) {
    Rng r(seed * 1000003 + i);
    if (mode == "raw") raw1(r); else if (mode == "select") model1(r); else if (mode == "sur") sur1(r); else if (mode == "dc") dc1(r); else if (mode == "varma") varma1(r); else return 3;
  }
}
