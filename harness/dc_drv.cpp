// Estimates of binary and ordered choice models.
#include "vjson.h"
#include "discrete_choice.h"
#include <algorithm>
#include <cmath>
using namespace ldt;
typedef std::vector<double> V;
typedef std::vector<std::vector<double>> VV;

static VV rowsOf(const Matrix<Tv> &m) {
  VV r(m.RowsCount, V(m.ColsCount));
  for (int i = 0; i < m.RowsCount; i++) for (int j = 0; j < m.ColsCount; j++) r[i][j] = m.Data[(size_t)j * m.RowsCount + i];
  return r;
}
static V flat(const Matrix<Tv> &m) { return m.Data ? V(m.Data, m.Data + m.length()) : V(); }
static VV rowsC(const VV &cols) { VV r(cols[0].size(), V(cols.size())); for (size_t j = 0; j < cols.size(); j++) for (size_t i = 0; i < cols[j].size(); i++) r[i][j] = cols[j][i]; return r; }
static Matrix<Tv> pack(const VV &cols, V &mem) {
  mem.clear();
  for (auto &c : cols) mem.insert(mem.end(), c.begin(), c.end());
  return Matrix<Tv>(mem.data(), (Ti)cols[0].size(), (Ti)cols.size());
}
template <class T> struct Mem {
  std::vector<T> d; size_t n; T mark;
  Mem(size_t n, T mark) : d(n + 16, mark), n(n), mark(mark) {}
  T *data() { return d.data(); }
  bool ok() { for (size_t i = n; i < d.size(); i++) if (d[i] != mark) return false; return true; }
};
static bool same(const V &a, const V &b) { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin(), [](double x, double y) { return x == y || (std::isnan(x) && std::isnan(y)); }); }

// A point which the specification may accept as the maximum (it is not trusted): damped Newton steps with numerical derivatives of the likelihood.
static double lik(bool probit, int J, const VV &X, const V &y, const V &w, const V &b) {
  int k0 = X[0].size(); double ll = 0;
  auto F = [&](double z) { return probit ? 0.5 * std::erfc(-z / std::sqrt(2.0)) : 1 / (1 + std::exp(-z)); };
  for (size_t i = 0; i < y.size(); i++) {
    double xb = 0; for (int j = 0; j < k0; j++) xb += X[i][j] * b[j];
    int c = (int)y[i];
    double hi = c == J ? INFINITY : (c == 0 ? 0 : b[k0 + c - 1]) - xb, lo = c == 0 ? -INFINITY : (c == 1 ? 0 : b[k0 + c - 2]) - xb;
    ll += w[i] * std::log(lo > 0 ? F(-lo) - F(-hi) : F(hi) - F(lo));
  }
  return std::isnan(ll) ? -INFINITY : ll;
}
static V witness(bool probit, int J, const VV &X, const V &y, const V &w) {
  int k0 = X[0].size(), k = k0 + J - 1; V b(k, 0.0);
  for (int j = 0; j < J - 1; j++) b[k0 + j] = 0.8 * (j + 1);
  const double h = 1e-4;
  auto f = [&](const V &p) { return lik(probit, J, X, y, w, p); };
  for (int it = 0; it < 60; it++) {
    V g(k); VV H(k, V(k + 1)); double f0 = f(b);
    auto at = [&](int a, double da, int c, double dc) { V p = b; p[a] += da; p[c] += dc; return f(p); };
    for (int a = 0; a < k; a++) g[a] = (at(a, h, a, 0) - at(a, -h, a, 0)) / (2 * h);
    for (int a = 0; a < k; a++) { for (int c = 0; c < k; c++) H[a][c] = -(at(a, h, c, h) - at(a, h, c, -h) - at(a, -h, c, h) + at(a, -h, c, -h)) / (4 * h * h); H[a][k] = g[a]; }
    for (int a = 0; a < k; a++) { // elimination
      int p = a; for (int c = a + 1; c < k; c++) if (std::fabs(H[c][a]) > std::fabs(H[p][a])) p = c;
      std::swap(H[a], H[p]); if (!(std::fabs(H[a][a]) > 1e-9)) return V();
      for (int c = 0; c < k; c++) if (c != a) { double q = H[c][a] / H[a][a]; for (int e = a; e <= k; e++) H[c][e] -= q * H[a][e]; }
    }
    V d(k); double gd = 0; for (int a = 0; a < k; a++) { d[a] = H[a][k] / H[a][a]; gd += d[a] * g[a]; }
    if (std::fabs(gd) < 1e-14) break;
    double t = 1; V p(k);
    for (; t > 1e-8; t /= 2) { for (int a = 0; a < k; a++) p[a] = b[a] + t * d[a]; if (f(p) > f0) break; }
    if (t <= 1e-8) break;
    b = p;
  }
  for (double x : b) if (!(std::fabs(x) < 1e3)) return V();
  return b;
}

struct Sample { int k, N, J; bool w, probit; VV X; V y, wt; };
static Sample sample(Rng &r, bool binary, bool w) {
  Sample s; s.w = w; s.probit = r.chance(0.5); s.J = binary ? 1 : r.range(2, 4); s.k = r.range(1, 3);
  s.N = s.k + s.J + r.pick(std::vector<int>{3, 8, 12, 20}) + r.range(0, 8);
  double noise = r.pick(V{0.3, 1, 1, 2}), size = r.pick(V{1, 1, 1, 20, 0.01});
  bool one = r.chance(0.85);
  V b(s.k); for (auto &x : b) x = r.pick(V{-1, 0, 0.5, 1});
  double shift = r.pick(V{-0.5, 0, 0.7, 2});
  for (int i = 0; i < s.N; i++) {
    V x(s.k); double z = shift;
    for (int j = 0; j < s.k; j++) { x[j] = j == 0 && one ? 1 : r.chance(0.5) ? r.normal() : r.range(-2, 2); z += b[j] * x[j]; if (j) x[j] *= size; }
    z += noise * r.normal();
    int c = 0; for (int q = 0; q < s.J; q++) if (z > 0.9 * q) c = q + 1;
    s.y.push_back(c); s.X.push_back(x); s.wt.push_back(s.w ? r.pick(V{1, 1, 2, 0.5, 3}) : 1);
  }
  if (r.chance(0.06)) for (auto &c : s.y) if (c == s.J) c = s.J - 1; // a choice never taken
  return s;
}
static void settings(Rng &r, Newton &o, Rec &rec) {
  o.IterationMax = r.pick(std::vector<int>{100, 100, 100, 300, 2, 0});
  o.TolFunction = r.pick(V{1e-6, 1e-6, 1e-8, 1e-11, 0}); o.TolGradient = r.pick(V{0, 0, 1e-5}); o.UseLineSearch = r.chance(0.7);
  if (o.TolFunction == 0 && o.TolGradient == 0) o.TolGradient = 1e-6;
  rec("itmax", o.IterationMax)("tolf", o.TolFunction)("tolg", o.TolGradient)("line", o.UseLineSearch);
}
static void estimate(Rec &rec, const DiscreteChoiceBase &m) {
  rec("beta", flat(m.Beta))("var", rowsOf(m.BetaVar))("logl", m.LogL)("aic", m.Aic)("sic", m.Sic)("cn", m.condition_number)("counts", flat(m.Counts))
     ("std", flat(m.BetaStd))("z", flat(m.BetaZ))("prob", flat(m.BetaProb))("it", m.Optim.Iteration);
}
static VV transpose(const VV &rows) { return rowsC(rows); }

static void model1(Rng &r) {
  bool binary = r.chance(0.45);
  Sample s = sample(r, binary, r.chance(0.4));
  bool details = r.chance(0.7), given = r.chance(0.6), start = r.chance(0.25), near = start && r.chance(0.6);
  if (!binary && !given) { int top = (int)*std::max_element(s.y.begin(), s.y.end()); if (top > 1) s.J = top; } // the number of choices comes from the data
  int N = s.N, k = s.k, J = s.J, extra = r.chance(0.3) ? r.range(1, 4) : 0;
  VV nx; for (int i = r.range(1, 4); i > 0; i--) { V x(k); for (auto &v : x) v = r.pick(V{1, 0, -3, 900, -900, 40, -40}) * (r.chance(0.3) ? r.unit() : 1); nx.push_back(x); }
  Rec rec;
  rec("kind", "model")("dist", s.probit ? "probit" : "logit")("J", J)("x", s.X)("y", s.y)("w", s.wt)("weighted", s.w)("details", details)("newx", nx);
  V wit = witness(s.probit, J, s.X, s.y, s.wt); if (wit.empty()) near = false;
  rec("witness", wit)("prior", !start)("near", near); // near: the start is close to the maximum
  V ym, xm, wm, nm; auto Y = pack(VV{s.y}, ym), X = pack(transpose(s.X), xm), W = pack(VV{s.wt}, wm), NX = pack(transpose(nx), nm);
  V all = ym; all.insert(all.end(), xm.begin(), xm.end()); all.insert(all.end(), wm.begin(), wm.end());
  std::string err, err2; V e1, e2; bool guard = true; VV p, np;
  try {
    auto M = DiscreteChoiceBase::GetFromType(binary ? DiscreteChoiceModelType::kBinary : DiscreteChoiceModelType::kOrdered, s.probit ? DiscreteChoiceDistType::kProbit : DiscreteChoiceDistType::kLogit, N + extra, k + (extra ? 1 : 0), J + 1, details);
    settings(r, M->Optim, rec);
    for (int t = 0; t < 2; t++) {
      Mem<double> st(M->StorageSize, -3), wk(M->WorkSize, t ? -5 : -4);
      std::string e;
      if (start) for (int j = 0; j < k + J - 1; j++) st.d[j] = near ? wit[j] * 1.01 : j < k ? 0 : 0.9 * (j - k + 1);
      try {
        M->Calculate(Y, X, s.w ? &W : nullptr, st.data(), wk.data(), given || binary ? J + 1 : -1, !start);
        V v = flat(M->Beta), u = flat(M->BetaVar); v.insert(v.end(), u.begin(), u.end()); v.push_back(M->LogL);
        (t ? e2 : e1) = v;
        if (!t) {
          estimate(rec, *M);
          for (int q = 0; q < 2; q++) {
            auto &Z = q ? NX : X; int n = Z.RowsCount;
            Mem<double> ps(n * (J + 1), -7), pw(n + J - 1, -8); Matrix<Tv> P(ps.data(), n, J + 1);
            M->GetProbabilities(Z, P, pw.data());
            (q ? np : p) = rowsOf(P); if (!ps.ok() || !pw.ok()) guard = false;
          }
        }
      } catch (std::exception &x) { e = x.what(); }
      if (!st.ok() || !wk.ok()) guard = false;
      (t ? err2 : err) = e;
    }
  } catch (std::exception &x) { err = err2 = x.what(); }
  V now = ym; now.insert(now.end(), xm.begin(), xm.end()); now.insert(now.end(), wm.begin(), wm.end());
  rec("error", err)("guard", guard)("kept", same(all, now))("repeated", err == err2 && same(e1, e2))("p", p)("np", np);
  rec.out();
}

static void whole1(Rng &r) {
  Sample s = sample(r, true, r.chance(0.5));
  int N = s.N, k = s.k, pre = s.w ? 2 : 1;
  bool details = r.chance(0.85), weval = r.chance(0.6), check = r.chance(0.7);
  VV nx; for (int i = r.range(0, 3); i > 0; i--) { V x(k); for (auto &v : x) v = r.normal(); x[0] = 1; nx.push_back(x); }
  VV cols(pre + k, V(N));
  for (int i = 0; i < N; i++) { cols[0][i] = s.y[i]; if (s.w) cols[1][i] = s.wt[i]; for (int j = 0; j < k; j++) cols[pre + j][i] = s.X[i][j]; }
  if (check && r.chance(0.7)) for (int q = r.range(1, 4); q > 0; q--) cols[r.range(0, pre + k - 1)][r.range(0, N - 1)] = NAN;
  VV X; V y, wt; // what is left
  for (int i = 0; i < N; i++) {
    bool ok = true; for (auto &c : cols) if (std::isnan(c[i])) ok = false;
    if (ok) { X.push_back(s.X[i]); y.push_back(s.y[i]); wt.push_back(s.wt[i]); }
  }
  int ntab = r.pick(std::vector<int>{0, 0, 1, 2}); std::vector<VV> tables; std::vector<V> tmems(ntab); std::vector<Matrix<Tv>> tmats;
  for (int t = 0; t < ntab; t++) {
    VV tab; int n = r.range(2, 4); V th; for (int i = 0; i < n - 1; i++) th.push_back(0.05 + 0.9 * r.unit()); std::sort(th.begin(), th.end()); th.push_back(1);
    for (int i = 0; i < n; i++) tab.push_back(V{th[i], r.unit(), r.unit()});
    tables.push_back(tab); tmats.push_back(pack(rowsC(tab), tmems[t]));
  }
  RocOptions roc; roc.Pessimistic = r.chance(0.2);
  if (r.chance(0.25)) { roc.LowerThreshold = r.pick(V{0, 0.1, 0.2}); roc.UpperThreshold = r.pick(V{0.5, 0.8, 1}); }
  Rec rec;
  rec("kind", "whole")("dist", s.probit ? "probit" : "logit")("J", 1)("all", rowsC(cols))("check", check)("x", X)("y", y)("w", wt)("weighted", s.w)("weval", s.w && weval)("details", details)("newx", nx)
     ("tables", tables)("pessimistic", roc.Pessimistic)("lower", roc.LowerThreshold)("upper", roc.UpperThreshold)("prior", true)("near", false);
  rec("witness", X.empty() ? V() : witness(s.probit, 1, X, y, wt));
  V mem, nm; auto D = pack(cols, mem); V copy = mem; Matrix<Tv> NX; if (nx.size()) NX = pack(rowsC(nx), nm);
  std::string err, err2; V e1, e2; bool guard = true; VV p, np;
  try {
    DiscreteChoiceExtended M(DiscreteChoiceModelType::kBinary, s.probit ? DiscreteChoiceDistType::kProbit : DiscreteChoiceDistType::kLogit, N, pre + k, s.w, check, 2, details, nx.size(), nullptr, ntab ? &tmats : nullptr, weval);
    settings(r, M.Model->Optim, rec);
    for (int t = 0; t < 2; t++) {
      Mem<double> st(M.StorageSize, -3), wk(M.WorkSize, t ? -5 : -4);
      std::string e;
      try {
        M.Calculate(D, st.data(), wk.data(), true, nx.size() ? &NX : nullptr, roc);
        V v = flat(M.Model->Beta), u = flat(M.Model->BetaVar); v.insert(v.end(), u.begin(), u.end()); v.push_back(M.Model->LogL);
        if (details) { v.push_back(M.BrierScore); v.push_back(M.Auc); }
        (t ? e2 : e1) = v;
        if (!t) {
          estimate(rec, *M.Model);
          if (details) { p = rowsOf(M.Projections); rec("brier", M.BrierScore)("auc", M.Auc); if (ntab) rec("cost", M.CostRatioAvg); }
          if (nx.size()) np = rowsOf(M.PredProbs);
          rec("usedy", flat(M.Y))("usedx", rowsOf(M.X))("usedw", s.w ? flat(M.W) : V());
        }
      } catch (std::exception &x) { e = x.what(); }
      if (!st.ok() || !wk.ok()) guard = false;
      (t ? err2 : err) = e;
    }
  } catch (std::exception &x) { err = err2 = x.what(); }
  rec("error", err)("guard", guard)("kept", same(mem, copy))("repeated", err == err2 && same(e1, e2))("p", p)("np", np);
  rec.out();
}

int main(int argc, char **argv) {
  std::string mode = argv[1];
  uint64_t seed = strtoull(argv[2], 0, 10);
  int n = atoi(argv[3]);
  for (int i = 0; i < n; i++) {
    Rng r(seed * 1000003 + i);
    if (mode == "model") model1(r); else whole1(r);
  }
}
