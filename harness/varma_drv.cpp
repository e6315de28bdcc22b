// Vector ARMA models: sizes for given orders (sizes), and estimates and forecasts on generated data (est, ext).
#include "vjson.h"
#include "varma.h"
#include <algorithm>
#include <cmath>
using namespace ldt;
typedef std::vector<double> V;
typedef std::vector<std::vector<double>> VV;

static VV rowsOf(const Matrix<Tv> &m) { // rows of the matrix
  VV r(m.RowsCount, V(m.ColsCount));
  for (int i = 0; i < m.RowsCount; i++) for (int j = 0; j < m.ColsCount; j++) r[i][j] = m.Data[(size_t)j * m.RowsCount + i];
  return r;
}
static VV colsOf(const Matrix<Tv> &m) { // columns of the matrix: a row for each period
  VV r(m.ColsCount, V(m.RowsCount));
  for (int i = 0; i < m.RowsCount; i++) for (int j = 0; j < m.ColsCount; j++) r[j][i] = m.Data[(size_t)j * m.RowsCount + i];
  return r;
}
static V flat(const Matrix<Tv> &m) { return V(m.Data, m.Data + m.length()); }
template <class T> struct Mem {
  std::vector<T> d; size_t n; T mark;
  Mem(size_t n, T mark) : d(n + 32, mark), n(n), mark(mark) {}
  T *data() { return d.data(); }
  bool ok() { for (size_t i = n; i < d.size(); i++) if (d[i] != mark) return false; return true; }
};
struct Orders { int p, d, q, P, D, Q, s; };
static Rec ordersRec(const Orders &o) { Rec r; r("p", o.p)("d", o.d)("q", o.q)("P", o.P)("D", o.D)("Q", o.Q)("s", o.s); return r; }
static Rec sizesRec(const VarmaSizes &z) {
  Rec r;
  r("ar", z.ArLags)("ma", z.MaLags)("diff", z.DiffPoly)("armax", z.ArMax)("mamax", z.MaMax)("lost", z.ArMax_d)("degree", z.DiffDegree)
   ("pareq", z.NumParamsEq)("params", z.NumParams)("mastart", z.MaStart)("sample", z.T)
   ("has", std::vector<bool>{z.HasAr, z.HasMa, z.HasDiff, z.HasArExo})("counts", std::vector<int>{z.ArLength, z.MaLength});
  return r;
}

static void sizes1(const Orders &o, int obs, int g, int x) {
  Rec r;
  r("kind", "sizes")("o", Raw{ordersRec(o).str()})("obs", obs)("g", g)("x", x);
  try {
    VarmaSizes z(obs, g, x, o.p, o.d, o.q, o.P, o.D, o.Q, o.s, false);
    Mem<Ti> w(z.WorkSizeI, -77);
    z.Calculate(w.data());
    z.Calculate(w.data()); // again: the same
    r("error", "")("guard", w.ok())("z", Raw{sizesRec(z).str()});
    VarmaSizes z2(obs, g, x, o.p, o.d, o.q, o.P, o.D, o.Q, o.s);
    r("same", sizesRec(z2).str() == sizesRec(z).str());
  } catch (std::exception &e) { r("error", e.what())("guard", true)("z", Raw{"{}"})("same", true); }
  r.out();
}

static Orders pickOrders(Rng &r) {
  Orders o;
  for (;;) {
    o.s = r.pick(std::vector<int>{0, 0, 0, 2, 3, 4});
    o.p = r.range(0, 2); o.q = r.chance(0.35) ? r.range(1, 2) : 0; o.d = r.pick(std::vector<int>{0, 0, 0, 1, 1, 2});
    o.P = o.D = o.Q = 0;
    if (o.s) { o.P = r.range(0, 2); o.D = r.pick(std::vector<int>{0, 0, 1}); o.Q = r.chance(0.25) ? 1 : 0; }
    if (o.p + o.q + o.P + o.Q > 0) return o;
  }
}
static VV genSeries(Rng &r, int N, int g, int d) {
  VV y(N, V(g));
  V lev(g), sc(g), rho(g);
  for (int j = 0; j < g; j++) { lev[j] = r.pick(V{0, 0, 5, 100, -3}); sc[j] = r.pick(V{1, 1, 10, 0.2}); rho[j] = d ? 1 : r.pick(V{0, 0.5, 0.9, -0.6}); }
  V s(g, 0.0);
  for (int t = 0; t < N; t++)
    for (int j = 0; j < g; j++) {
      s[j] = rho[j] * s[j] + r.normal() + (j ? 0.3 * s[j - 1] * (1 - (d > 0)) : 0);
      y[t][j] = lev[j] + sc[j] * s[j];
    }
  return y;
}

static void outModel(Rec &rec, Varma &m, bool details) {
  auto &s = m.Result;
  rec("z", Raw{sizesRec(m.Sizes).str()})("gamma", flat(s.gamma))("gvar", rowsOf(s.gammavar))("y", colsOf(s.y))("sigma", rowsOf(s.sigma2))("cn", s.cn);
  VV resid = s.resid.ColsCount == 1 && m.Sizes.EqsCount > 1 ? VV() : colsOf(s.resid);
  rec("resid", resid)("coef", s.coef.Data ? rowsOf(s.coef) : VV())("details", details);
  if (details) rec("ll", s.LogLikelihood)("aic", s.Aic)("sic", s.Sic)("std", rowsOf(s.coefstd))("t", rowsOf(s.coeft))("p", rowsOf(s.coefprob));
}

static void est1(Rng &r) {
  Orders o = pickOrders(r);
  int g = r.pick(std::vector<int>{1, 1, 2, 2, 3}), nx = r.pick(std::vector<int>{0, 0, 1, 2});
  VarmaSizes z0(100, g, nx, o.p, o.d, o.q, o.P, o.D, o.Q, o.s);
  int H = r.range(1, 5), se = r.chance(0.4) ? r.range(1, 4) : 0;
  int N = z0.ArMax_d + z0.NumParamsEq + g + z0.ArMax_d + 4 + r.range(0, 12) + se;
  if (r.chance(0.1)) N = z0.ArMax_d + 1 + se + r.range(0, z0.NumParamsEq + z0.ArMax_d);   // too short for something
  auto Y = genSeries(r, N, g, o.d);
  VV X(N + H, V(nx));
  for (int j = 0; j < nx; j++) { double sc = r.pick(V{1, 10, 0.1}); bool one = j == 0 && r.chance(0.6); for (auto &row : X) row[j] = one ? 1 : sc * r.normal(); }
  V ym, xm; for (auto &row : Y) ym.insert(ym.end(), row.begin(), row.end());
  for (auto &row : X) xm.insert(xm.end(), row.begin(), row.end());
  Matrix<Tv> y(ym.data(), g, N), x(xm.data(), nx, N + H);
  V yc = ym, xc = xm;
  VarmaSizes z(N, g, nx, o.p, o.d, o.q, o.P, o.D, o.Q, o.s);
  std::string rest = r.pick(std::vector<std::string>{"none", "none", "final", "final", "general"});
  std::vector<Ti> zeros;
  if (rest == "general") { for (int j = 0; j < z.NumParams; j++) if (r.chance(0.25)) zeros.push_back(j); if (zeros.empty() || (int)zeros.size() == z.NumParams) rest = "none"; }
  bool details = r.chance(0.8), vc = r.chance(0.8), isnew = r.chance(0.4), fvar = r.chance(0.8);
  Rec rec;
  rec("kind", "est")("o", Raw{ordersRec(o).str()})("g", g)("x", nx)("Y", Y)("X", nx ? X : VV())("se", se)("H", H)("rest", rest)("zeros", rest == "general" ? zeros : std::vector<Ti>())("isnew", isnew)("varcoefs", vc);
  std::string err, ferr; bool guard = true;
  try {
    Mem<double> rm(0, 0);
    VarmaRestriction R(z, rest == "none" ? VarmaRestrictionType::kNone : rest == "final" ? VarmaRestrictionType::kMaFinal : VarmaRestrictionType::kGeneral, (Ti)zeros.size());
    if (rest != "general") zeros.clear();
    Mem<double> rs(R.StorageSize, -75.5);
    R.Calculate(rs.data(), &zeros);
    rec("restricted", R.IsRestricted)("R", R.IsRestricted ? rowsOf(R.R) : VV());
    guard = guard && rs.ok();
    Varma m(z, R.IsRestricted, details, vc);
    Mem<double> st(m.Result.StorageSize, -77.25), wk(m.Result.WorkSize, -78.5);
    int reps = r.chance(0.3) ? 2 : 1;
    int se0 = r.range(0, 2); // an earlier use of the object with another sample must not matter
    if (reps == 2) try { m.EstimateMl(y, nx ? &x : nullptr, wk.data(), st.data(), R.IsRestricted ? &R.R : nullptr, nullptr, se0); } catch (std::exception &) {}
    // r() must not depend on the outcome below
    int h2 = r.range(1, H);
    bool guardm = true;
    try { m.EstimateMl(y, nx ? &x : nullptr, wk.data(), st.data(), R.IsRestricted ? &R.R : nullptr, nullptr, se); } catch (std::exception &e) { err = e.what(); }
    guardm = st.ok() && wk.ok();
    guard = guard && guardm;
    if (err.empty()) {
      outModel(rec, m, details);
      bool fresh = true;
      if (reps == 2) {
        Varma m2(z, R.IsRestricted, details, vc);
        Mem<double> st2(m2.Result.StorageSize, -7.25), wk2(m2.Result.WorkSize, -8.5);
        m2.EstimateMl(y, nx ? &x : nullptr, wk2.data(), st2.data(), R.IsRestricted ? &R.R : nullptr, nullptr, se);
        V a = flat(m.Result.gamma), b = flat(m2.Result.gamma);
        for (size_t k = 0; k < a.size(); k++) fresh = fresh && (a[k] == b[k] || std::fabs(a[k] - b[k]) <= 1e-9 * std::fabs(b[k]) || (std::isnan(a[k]) && std::isnan(b[k])));
      }
      rec("fresh", fresh);
      VV nx2(nx, V(H));
      V nm; for (int h = 0; h < H; h++) for (int j = 0; j < nx; j++) nm.push_back(X[N - se + h][j]);
      Matrix<Tv> xn(nm.data(), nx, H);
      VarmaForecast f(z, H, fvar), f2(z, H, fvar);
      Mem<double> fs(f.StorageSize, -71.25), fw(f.WorkSize, -72.5), fs2(f2.StorageSize, -71.25), fw2(f2.WorkSize, -72.5);
      try {
        f.Calculate(m, nx ? (isnew ? &xn : &x) : nullptr, &y, fs.data(), fw.data(), -1, isnew);
        f2.Calculate(m, nx ? (isnew ? &xn : &x) : nullptr, &y, fs2.data(), fw2.data(), h2, isnew);
        rec("fc", colsOf(f.Forecast))("fv", fvar ? colsOf(f.Variance) : VV())("fc2", colsOf(f2.Forecast))("fv2", fvar ? colsOf(f2.Variance) : VV())("h2", h2)("start", f.StartIndex);
      } catch (std::exception &e) { ferr = e.what(); }
      guard = guard && fs.ok() && fw.ok() && fs2.ok() && fw2.ok();
      VarmaArma a(m.Sizes, H);
      Mem<double> as(a.StorageSize, -61.25), aw(a.WorkSize, -62.5);
      a.Calculate(m.Result.coef, as.data(), aw.data());
      guard = guard && as.ok() && aw.ok();
      std::string psi = "[";
      for (int h = 0; h < H; h++) psi += (h ? "," : "") + jv(rowsOf(*a.MaInf.Coefficients.at(h)));
      rec("psi", Raw{psi + "]"});
    }
  } catch (std::exception &e) { err = e.what(); }
  bool kept = true; // data with sample end
  for (size_t k = 0; k < ym.size(); k++) kept = kept && ym[k] == yc[k];
  for (size_t k = 0; k < xm.size(); k++) kept = kept && xm[k] == xc[k];
  rec("error", err)("ferror", ferr)("guard", guard)("kept", kept);
  rec.out();
}

// the same through VarmaExtended: data with incomplete first and last rows, and exogenous values after the sample
static void ext1(Rng &r) {
  Orders o = pickOrders(r);
  int g = r.pick(std::vector<int>{1, 1, 2, 2, 3}), nx = r.pick(std::vector<int>{0, 0, 1, 2});
  VarmaSizes z0(100, g, nx, o.p, o.d, o.q, o.P, o.D, o.Q, o.s);
  int H = r.range(0, 4), se = r.chance(0.4) ? r.range(1, 4) : 0;
  int N = z0.ArMax_d + z0.NumParamsEq + g + z0.ArMax_d + 4 + r.range(0, 12) + se;
  int lead = r.pick(std::vector<int>{0, 0, 1, 3}), tail = nx ? r.pick(std::vector<int>{H, H, H + 1, H + 1, std::max(0, H - se), std::max(0, H - se - 1)}) : r.pick(std::vector<int>{0, 0, 2});
  int rows = lead + N + tail;
  auto Y = genSeries(r, rows, g, o.d);
  VV X(rows, V(nx));
  for (int j = 0; j < nx; j++) { double sc = r.pick(V{1, 10, 0.1}); bool one = j == 0 && r.chance(0.6); for (auto &row : X) row[j] = one ? 1 : sc * r.normal(); }
  if (lead) { int c = r.range(0, g + nx - 1); for (int t = 0; t < lead; t++) for (int j = 0; j < g + nx; j++) if (j == c || (t == 0 && r.chance(0.3))) (j < g ? Y[t][j] : X[t][j - g]) = NAN; }
  if (tail) { int c = r.range(0, g - 1); for (int t = lead + N; t < rows; t++) for (int j = 0; j < g; j++) if (j == c || t == rows - 1) Y[t][j] = NAN; }
  if (r.chance(0.08)) { int t = lead + r.range(1, N - 2), j = r.range(0, g + nx - 1); (j < g ? Y[t][j] : X[t][j - g]) = NAN; }
  V dm;
  for (int j = 0; j < g; j++) for (auto &row : Y) dm.push_back(row[j]);
  for (int j = 0; j < nx; j++) for (auto &row : X) dm.push_back(row[j]);
  Matrix<Tv> data(dm.data(), rows, g + nx);
  V copy = dm;
  bool fin = r.chance(0.5), vc = r.chance(0.8);
  double maxcn = r.pick(V{0, 0, 100, 1e4, 1e12});
  Rec rec;
  rec("kind", "ext")("o", Raw{ordersRec(o).str()})("g", g)("x", nx)("Y", Y)("X", nx ? X : VV())("se", se)("H", H)("rest", fin ? "final" : "none")("zeros", std::vector<Ti>())("varcoefs", vc)("maxcn", maxcn);
  std::string err; bool guard = true;
  try {
    VarmaSizes z(rows, g, nx, o.p, o.d, o.q, o.P, o.D, o.Q, o.s);
    VarmaExtended e(z, fin ? VarmaRestrictionType::kMaFinal : VarmaRestrictionType::kNone, true, true, vc, H, nullptr, nullptr, nullptr);
    Mem<double> st(e.StorageSize, -77.25), wk(e.WorkSize, -78.5);
    int reps = r.chance(0.3) ? 2 : 1;
    for (int k = reps; k > 0; k--) {
      err = "";
      try { e.Calculate(data, st.data(), wk.data(), false, k == 2 ? r.range(0, H) : H, k == 2 ? r.range(0, 2) : se, maxcn); } catch (std::exception &x) { err = x.what(); }
    }
    guard = st.ok() && wk.ok();
    if (err.empty()) {
      outModel(rec, e.Model, true);
      rec("restricted", e.Restriction.IsRestricted)("R", e.Restriction.IsRestricted ? rowsOf(e.Restriction.R) : VV());
      if (H) rec("fc", colsOf(e.Forecasts.Forecast))("fv", colsOf(e.Forecasts.Variance))("start", e.Forecasts.StartIndex);
    }
  } catch (std::exception &x) { err = x.what(); }
  bool kept = true;
  for (size_t k = 0; k < dm.size(); k++) kept = kept && (dm[k] == copy[k] || (std::isnan(dm[k]) && std::isnan(copy[k])));
  rec("error", err)("ferror", "")("guard", guard)("kept", kept);
  rec.out();
}

// out-of-sample evaluations, with the individual estimate of every date: it is given the observations until the date only
static void sim1(Rng &r) {
  Orders o = pickOrders(r);
  if (r.chance(0.5)) o.q = o.Q = 0, o.p = o.p + o.P > 0 ? o.p : 1;
  bool ext = r.chance(0.5);
  int g = r.pick(std::vector<int>{1, 1, 2, 2, 3}), nx = r.pick(std::vector<int>{0, 0, 1, 2});
  VarmaSizes z0(100, g, nx, o.p, o.d, o.q, o.P, o.D, o.Q, o.s);
  int count = r.range(1, 6);
  std::vector<int> all{1, 2, 3, 4, 5, 6, 8}, hs;
  for (int h : all) if (r.chance(h <= count ? 0.5 : 0.25)) hs.push_back(h);
  if (hs.empty()) hs.push_back(r.range(1, count));
  if (r.chance(0.2)) r.shuffle(hs);
  int H = *std::max_element(hs.begin(), hs.end());
  int N = z0.ArMax_d + z0.NumParamsEq + g + z0.ArMax_d + 4 + r.range(0, 10) + count;
  auto Y = genSeries(r, N, g, o.d);
  double lam = r.pick(V{0, 0.5, 1, 2, -0.5});
  bool box = r.chance(0.35), pos = box || r.chance(0.4);
  V lams(g, NAN);
  if (pos) for (int j = 0; j < g; j++) { double m = 1e300, M = -1e300; for (auto &y : Y) m = std::min(m, y[j]), M = std::max(M, y[j]); for (auto &y : Y) y[j] = 2 + 3 * (y[j] - m) / (M - m + 1e-9) ; }
  if (box) for (int j = 0; j < g; j++) { lams[j] = j && r.chance(0.4) ? NAN : lam; lam = r.pick(V{0, 0.5, 1, 2}); if (!std::isnan(lams[j])) for (auto &y : Y) y[j] = lams[j] == 0 ? std::log(y[j]) : (std::pow(y[j], lams[j]) - 1) / lams[j]; }
  if (r.chance(0.15)) for (auto &y : Y) y[0] = std::round(y[0]);   // ties and zeros
  VV X(N + H, V(nx));
  for (int j = 0; j < nx; j++) { double sc = r.pick(V{1, 10, 0.1}); bool one = j == 0 && r.chance(0.6); for (auto &row : X) row[j] = one ? 1 : sc * r.normal(); }
  if (nx && r.chance(0.3)) { int k = N - count - 1 + r.range(0, count), j = nx - 1; for (int t = 0; t <= k; t++) X[t][j] = 0; }  // a variable which is zero before: some dates have no estimate
  bool fin = r.chance(0.5);
  std::vector<ScoringType> ms{ScoringType::kSign, ScoringType::kDirection, ScoringType::kMae, ScoringType::kMape, ScoringType::kRmse, ScoringType::kRmspe, ScoringType::kCrps};
  std::vector<std::string> names{"sign", "direction", "mae", "mape", "rmse", "rmspe", "crps"};
  { std::vector<ScoringType> m2; std::vector<std::string> n2; for (size_t k = 0; k < ms.size(); k++) if (r.chance(0.6)) m2.push_back(ms[k]), n2.push_back(names[k]); if (m2.size()) ms = m2, names = n2; if (r.chance(0.4)) std::reverse(ms.begin(), ms.end()), std::reverse(names.begin(), names.end()); }
  bool var = false; for (auto &s : names) var = var || s == "crps";
  // dates
  std::vector<double> cns; std::string dates = "["; bool guard = true;
  VarmaSizes zz(N, g, nx, o.p, o.d, o.q, o.P, o.D, o.Q, o.s);
  struct One { int se; double cn; bool ok; std::string s; };
  std::vector<One> ones;
  for (int se = count; se > 0; se--) {
    int n = N - se, fits = 0;
    for (int h : hs) if (h <= se) fits = std::max(fits, h);
    if (!fits) continue;
    One one{se, NAN, false, ""};
    V ym, xm;
    for (int t = 0; t < n; t++) ym.insert(ym.end(), Y[t].begin(), Y[t].end());
    for (int t = 0; t < n + fits; t++) xm.insert(xm.end(), X[t].begin(), X[t].end());
    Matrix<Tv> y(ym.data(), g, n), x(xm.data(), nx, n + fits);
    VarmaSizes z(n, g, nx, o.p, o.d, o.q, o.P, o.D, o.Q, o.s);
    VarmaRestriction R(z, fin ? VarmaRestrictionType::kMaFinal : VarmaRestrictionType::kNone, 0);
    Mem<double> rs(R.StorageSize, -75.5);
    R.Calculate(rs.data());
    VV fc, fv;
    try {
      Varma m(z, R.IsRestricted, true, true);
      Mem<double> st(m.Result.StorageSize, -77.25), wk(m.Result.WorkSize, -78.5);
      m.EstimateMl(y, nx ? &x : nullptr, wk.data(), st.data(), R.IsRestricted ? &R.R : nullptr, nullptr, 0);
      one.cn = m.Result.cn;
      VarmaForecast f(z, fits, true);
      Mem<double> fs(f.StorageSize, -71.25), fw(f.WorkSize, -72.5);
      f.Calculate(m, nx ? &x : nullptr, &y, fs.data(), fw.data());
      guard = guard && st.ok() && wk.ok() && fs.ok() && fw.ok();
      fc = colsOf(f.Forecast); fv = colsOf(f.Variance);
      fc.erase(fc.begin(), fc.begin() + f.StartIndex); fv.erase(fv.begin(), fv.begin() + f.StartIndex);
      one.ok = true;
    } catch (std::exception &) {}
    Rec d; d("se", se)("ok", one.ok)("cn", one.cn)("fc", fc)("fv", fv);
    one.s = d.str();
    ones.push_back(one);
    if (one.ok && std::isfinite(one.cn)) cns.push_back(one.cn);
  }
  for (size_t k = 0; k < ones.size(); k++) dates += (k ? "," : "") + ones[k].s;
  dates += "]";
  std::sort(cns.begin(), cns.end());
  double maxcn = 1e200;
  if (cns.size() > 1 && r.chance(0.35)) { size_t k = r.range(1, (int)cns.size() - 1); if (cns[k - 1] > 0 && cns[k] > 1.001 * cns[k - 1]) maxcn = std::sqrt(cns[k - 1]) * std::sqrt(cns[k]); }
  int maxinv = ext || r.chance(0.5) ? 1000 : r.range(0, 3);
  Rec rec;
  rec("kind", "sim")("ext", ext)("g", g)("x", nx)("Y", Y)("count", count)("hs", hs)("metrics", names)("maxcn", maxcn)("maxinv", maxinv)("lambdas", lams)("box", box)("sample", zz.T)("pure", !zz.HasMa)("dates", Raw{dates});
  std::string err; bool kept = true;
  bool prev = !zz.HasMa && r.chance(0.5); // starting from the previous estimate makes no difference to least squares
  try {
    if (ext) {
      int lead = r.pick(std::vector<int>{0, 0, 1, 3}), rows = lead + N + H;
      V dm;
      for (int j = 0; j < g; j++) { int from = j ? r.range(0, lead) : lead; for (int t = 0; t < lead; t++) dm.push_back(t < from ? NAN : r.normal()); for (auto &row : Y) dm.push_back(row[j]); for (int h = 0; h < H; h++) dm.push_back(NAN); }
      for (int j = 0; j < nx; j++) { for (int t = 0; t < lead; t++) dm.push_back(r.normal()); for (auto &row : X) dm.push_back(row[j]); }
      Matrix<Tv> data(dm.data(), rows, g + nx);
      V copy = dm;
      VarmaSizes z(rows, g, nx, o.p, o.d, o.q, o.P, o.D, o.Q, o.s);
      VarmaSimulation s(z, count, hs, ms, nullptr, true, fin ? VarmaRestrictionType::kMaFinal : VarmaRestrictionType::kNone, true, nullptr, nullptr);
      s.KeepDetails = true;
      Mem<double> st(s.StorageSize, -77.25), wk(s.WorkSize, -78.5);
      s.CalculateE(st.data(), wk.data(), data, maxcn, 2, false, prev, box ? &lams : nullptr);
      guard = guard && st.ok() && wk.ok();
      for (size_t k = 0; k < dm.size(); k++) kept = kept && (dm[k] == copy[k] || (std::isnan(dm[k]) && std::isnan(copy[k])));
      int fails = 0; for (auto &e : s.Errors) fails += e.second;
      std::string det = "[";
      for (auto &t : s.Details) {
        Rec d; d("se", std::get<0>(t))("m", std::get<1>(t) + 1)("h", std::get<2>(t))("v", std::get<3>(t) + 1)("last", std::get<4>(t))("act", std::get<5>(t))("forc", std::get<6>(t))("err", std::get<7>(t))("std", var ? std::get<8>(t) : 0.0);
        det += (det.size() > 1 ? "," : "") + d.str();
      }
      rec("valid", s.ValidCounts)("fails", fails)("agg", rowsOf(s.ResultAggs))("details", Raw{det + "]"});
    } else {
      V ym, xm;
      for (auto &row : Y) ym.insert(ym.end(), row.begin(), row.end());
      for (auto &row : X) xm.insert(xm.end(), row.begin(), row.end());
      V yc = ym, xc = xm;
      Matrix<Tv> y(ym.data(), g, N), x(xm.data(), nx, N + H);
      VarmaRestriction R(zz, fin ? VarmaRestrictionType::kMaFinal : VarmaRestrictionType::kNone, 0);
      Mem<double> rs(R.StorageSize, -75.5);
      R.Calculate(rs.data());
      VarmaSimulation s(zz, count, hs, ms);
      Mem<double> st(s.StorageSize, -77.25), wk(s.WorkSize, -78.5);
      bool cancel = false;
      int reps = r.chance(0.3) ? 2 : 1;
      for (int k = 0; k < reps; k++) { err = ""; try { s.Calculate(st.data(), wk.data(), y, cancel, nx ? &x : nullptr, R.IsRestricted ? &R.R : nullptr, nullptr, prev, maxcn, 2, false, maxinv, box ? &lams : nullptr); } catch (std::exception &e) { err = e.what(); } }
      guard = guard && st.ok() && wk.ok();
      for (size_t k = 0; k < ym.size(); k++) kept = kept && ym[k] == yc[k];
      for (size_t k = 0; k < xm.size(); k++) kept = kept && xm[k] == xc[k];
      if (err.empty()) rec("valid", s.ValidCounts)("fails", -1)("agg", rowsOf(s.ResultAggs))("details", Raw{"[]"});
    }
  } catch (std::exception &e) { err = e.what(); }
  rec("error", err)("guard", guard)("kept", kept);
  rec.out();
}

int main(int argc, char **argv) {
  std::string mode = argv[1];
  if (mode == "sizes") {
    int big = atoi(argv[2]);
    for (int s : big ? std::vector<int>{-1, 0, 1, 2, 3, 4, 5, 7, 12} : std::vector<int>{0, 1, 2, 3, 4, 12})
      for (int p = 0; p <= (big ? 5 : 3); p++) for (int d = 0; d <= (big ? 3 : 2); d++) for (int q = 0; q <= (big ? 3 : 2); q++)
        for (int P = 0; P <= (big ? 3 : 2); P++) for (int D = 0; D <= (big ? 3 : 2); D++) for (int Q = 0; Q <= (big ? 2 : 1); Q++) {
          if (s < 2 && (P + D + Q > 1)) continue;
          int h = p + 3 * d + 5 * q + 7 * P + 11 * D + 13 * Q + s;
          sizes1(Orders{p, d, q, P, D, Q, s}, 40 + h % 30, 1 + h % 3, h % 4 == 0 ? 0 : h % 4 - 1);
        }
    for (int k = 0; k < 6; k++) { Orders o{1, 0, 1, 1, 0, 1, 4}; (k == 0 ? o.p : k == 1 ? o.d : k == 2 ? o.q : k == 3 ? o.P : k == 4 ? o.D : o.Q) = -1; sizes1(o, 50, 1, 0); }
    return 0;
  }
  uint64_t seed = strtoull(argv[2], 0, 10);
  int n = atoi(argv[3]);
  for (int i = 0; i < n; i++) {
    Rng r(seed * 1000003 + i);
    if (mode == "est") est1(r);
    else if (mode == "ext") ext1(r);
    else if (mode == "sim") sim1(r);
    else return 3;
  }
}
