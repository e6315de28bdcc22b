// Real searches (SUR, discrete choice, VARMA): every candidate model is also estimated on its own.
#include "vjson.h"
#include "discrete_choice.h"
#include "matrix_utils.h"
#include "searchers.h"
#include "sur.h"
#include "varma.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
using namespace ldt;
typedef std::vector<double> V;
typedef std::vector<std::vector<double>> VV;
typedef std::vector<int> I;
typedef std::vector<std::vector<int>> II;

// ---- cancelling at a chosen moment: the calls of the linear algebra are counted, and the flag is set at one of them
#include <atomic>
#include <dlfcn.h>
#include <omp.h>
struct Stop {
  static std::atomic<long> count, at; static SearchOptions *opt; static bool par, cancel;
  static void tick() { long c = ++count; SearchOptions *o = opt; if (o && c == at) o->RequestCancel = true; }
  // before the search: as many calls were needed for the models on their own
  static void before(Rng &r, SearchOptions &o) { o.Parallel = par; if (par) omp_set_num_threads(r.range(2, 6)); if (cancel) { at = count + (long)(r.unit() * 0.9 * count); opt = &o; } }
  static void after(Rec &rec, const SearchOptions &o) { opt = nullptr; rec("par", par)("cancelled", o.RequestCancel); }
  static void begin() { count = 0; at = -1; opt = nullptr; }
};
std::atomic<long> Stop::count{0}, Stop::at{-1}; SearchOptions *Stop::opt = nullptr; bool Stop::par = false, Stop::cancel = false;
template <class F> static F next(const char *name) { return (F)dlsym(RTLD_NEXT, name); }
extern "C" {
void dgemm_(const char *a, const char *b, const int *c, const int *d, const int *e, const double *f, const double *g, const int *h, const double *i, const int *j, const double *k, double *l, const int *m) {
  static auto real = next<decltype(&dgemm_)>("dgemm_"); Stop::tick(); real(a, b, c, d, e, f, g, h, i, j, k, l, m);
}
void dgemv_(const char *a, const int *b, const int *c, const double *d, const double *e, const int *f, const double *g, const int *h, const double *i, double *j, const int *k) {
  static auto real = next<decltype(&dgemv_)>("dgemv_"); Stop::tick(); real(a, b, c, d, e, f, g, h, i, j, k);
}
}

static Matrix<Tv> pack(const VV &cols, V &mem) {
  mem.clear();
  for (auto &c : cols) mem.insert(mem.end(), c.begin(), c.end());
  return Matrix<Tv>(mem.data(), (Ti)cols[0].size(), (Ti)cols.size());
}
static VV rowsC(const VV &cols) { VV r(cols[0].size(), V(cols.size())); for (size_t j = 0; j < cols.size(); j++) for (size_t i = 0; i < cols[j].size(); i++) r[i][j] = cols[j][i]; return r; }
template <class T> struct Mem {
  std::vector<T> d; size_t n; T mark;
  Mem(size_t n, T mark) : d(n + 32, mark), n(n), mark(mark) {}
  T *data() { return d.data(); }
  bool ok() { for (size_t i = n; i < d.size(); i++) if (d[i] != mark) return false; return true; }
};
// the columns of a model, rows with a missing value removed
static VV complete(const VV &cols, const I &idx) {
  VV r(idx.size());
  for (size_t t = 0; t < cols[0].size(); t++) {
    bool ok = true; for (int j : idx) ok = ok && !std::isnan(cols[j][t]);
    if (ok) for (size_t k = 0; k < idx.size(); k++) r[k].push_back(cols[idx[k]][t]);
  }
  return r;
}

// ---- what is searched
struct Space {
  II parts, inner; I sizes; int fix = 0; bool innerExo = false; int T = 1;
  // every model: <<outer items in the order of the partitions, inner group>>
  std::vector<std::pair<I, I>> all() const {
    std::vector<std::pair<I, I>> r;
    for (int k : sizes) {
      std::function<void(int, I)> go = [&](int p, I cur) {
        if (p == (int)parts.size()) {
          if ((int)cur.size() == k) for (auto &g : inner) {
            auto &endo = innerExo ? cur : g;
            if (std::any_of(endo.begin(), endo.end(), [&](int e) { return e < T; })) r.push_back({cur, g});
          }
          return;
        }
        if (p >= fix) go(p + 1, cur);
        for (int x : parts[p]) { auto c2 = cur; c2.push_back(x); go(p + 1, c2); }
      };
      go(0, {});
    }
    return r;
  }
};
static I targetsFirst(I v, int T) { std::stable_partition(v.begin(), v.end(), [&](int a) { return a < T; }); return v; }

struct Model { // what the estimate of a model on its own gives
  I endo, exo, extra;
  bool est = false; std::string err; // estimated with all data
  int obs = 0, params = 0, lost = 0;  // observations, parameters of an equation, observations lost to lags
  double aic = NAN, sic = NAN, r2 = NAN, cn = NAN;
  bool sim = false; std::string serr; int valid = 0;
  std::map<int, V> met;              // target -> metrics
  std::map<int, std::map<int, std::pair<double, double>>> items; // item -> target -> mean, variance
  bool predicted = false; bool anynan = false; std::map<int, V> pred; // target -> predictions
  Raw raw(const I &targets) const {
    Rec r; r("endo", endo)("exo", exo)("extra", extra)("est", est)("err", err)("obs", obs)("params", params)("lost", lost)("aic", aic)("sic", sic)("r2", r2)("cn", cn)("sim", sim)("serr", serr)("valid", valid)("predicted", predicted)("anynan", anynan);
    VV m; for (int t : targets) { auto it = met.find(t); m.push_back(it == met.end() ? V() : it->second); }
    VV p; for (int t : targets) { auto it = pred.find(t); p.push_back(it == pred.end() ? V() : it->second); }
    std::vector<Raw> q;
    for (auto &a : items) for (auto &b : a.second) { Rec s; s("c", a.first)("t", b.first)("mean", b.second.first)("var", b.second.second); q.push_back(s.raw()); }
    r("met", m)("pred", p)("items", q);
    return r.raw();
  }
};

struct Checks { bool estimation = false, prediction = false; int minobs = 0, mindof = 0, minsim = 0; double minr2 = -INFINITY, maxaic = INFINITY, maxsic = INFINITY, maxcn = INFINITY; VV lower, upper; };

// a limit between two of the values
static bool between(Rng &r, V v, double &out) {
  std::vector<double> u; for (double x : v) if (std::isfinite(x) && std::fabs(x) < 1e12) u.push_back(x);
  std::sort(u.begin(), u.end());
  std::vector<double> mids;
  for (size_t i = 1; i < u.size(); i++) if (u[i] - u[i - 1] > 1e-5 * (1 + std::fabs(u[i]))) mids.push_back((u[i] + u[i - 1]) / 2);
  if (mids.empty()) return false;
  out = mids[r.range(0, (int)mids.size() - 1)];
  return true;
}
static bool between(Rng &r, const I &v, int &out) { if (v.empty()) return false; out = v[r.range(0, (int)v.size() - 1)] + r.range(0, 1); return out > 0; }

// thresholds: chosen such that some of the models fail
static Checks pickChecks(Rng &r, const std::vector<Model> &ms, bool r2, bool cn, double many) {
  Checks c;
  V aic, sic, rr, cc; I obs, dof, valid;
  for (auto &m : ms) { if (m.est) { aic.push_back(m.aic); sic.push_back(m.sic); rr.push_back(m.r2); cc.push_back(m.cn); obs.push_back(m.obs); dof.push_back(m.obs - m.lost - m.params); } }
  c.estimation = r.chance(0.5);
  if (r.chance(many)) between(r, obs, c.minobs);
  if (r.chance(many)) between(r, dof, c.mindof);
  if (r.chance(many)) between(r, aic, c.maxaic);
  if (r.chance(many)) between(r, sic, c.maxsic);
  if (r2 && r.chance(many)) between(r, rr, c.minr2);
  if (cn && r.chance(many)) { V l; for (double x : cc) if (x > 0) l.push_back(std::log(x)); double z; if (between(r, l, z)) c.maxcn = std::exp(z); }
  return c;
}
// a number of valid simulations, near those of a model
static int pickValid(Rng &r, const std::vector<Model> &ms, int total) {
  I v; for (auto &m : ms) if (m.sim && (m.valid < total || r.chance(0.2))) v.push_back(m.valid);
  return v.empty() ? r.range(0, total) : std::min(total, r.pick(v) + r.range(0, 1));
}
static SearchModelChecks toChecks(const Checks &c) {
  SearchModelChecks k; k.Estimation = c.estimation; k.MinObsCount = c.minobs; k.MinDof = c.mindof; k.MinOutSim = c.minsim; k.MinR2 = c.minr2; k.MaxAic = c.maxaic; k.MaxSic = c.maxsic; k.MaxConditionNumber = c.maxcn; k.Prediction = c.prediction;
  return k;
}
static Raw rawChecks(const Checks &c) {
  Rec r; r("estimation", c.estimation)("minobs", c.minobs)("mindof", c.mindof)("minsim", c.minsim)("minr2", c.minr2)("maxaic", c.maxaic)("maxsic", c.maxsic)("maxcn", c.maxcn)("prediction", c.prediction)("lower", c.lower)("upper", c.upper);
  return r.raw();
}

static const std::map<std::string, GoodnessOfFitType> Ins = {{"aic", GoodnessOfFitType::kAic}, {"sic", GoodnessOfFitType::kSic}, {"brierIn", GoodnessOfFitType::kBrier}, {"aucIn", GoodnessOfFitType::kAuc}, {"frequencyCostIn", GoodnessOfFitType::kFrequencyCost}};
static const std::map<std::string, ScoringType> Outs = {{"sign", ScoringType::kSign}, {"direction", ScoringType::kDirection}, {"mae", ScoringType::kMae}, {"mape", ScoringType::kMape}, {"rmse", ScoringType::kRmse}, {"rmspe", ScoringType::kRmspe}, {"crps", ScoringType::kCrps}, {"brierOut", ScoringType::kBrier}, {"aucOut", ScoringType::kAuc}, {"frequencyCostOut", ScoringType::kFrequencyCost}};
struct Names { std::vector<std::string> in, out; };
static Names pickNames(Rng &r, std::vector<std::string> in, std::vector<std::string> out, double pin, double pout) {
  Names n;
  for (auto &s : in) if (r.chance(pin)) n.in.push_back(s);
  for (auto &s : out) if (r.chance(pout)) n.out.push_back(s);
  if (r.chance(0.2)) n.in.clear();
  if (r.chance(0.2)) n.out.clear();
  if (n.in.empty() && n.out.empty()) { if (r.chance(0.5)) n.in.push_back(r.pick(in)); else n.out.push_back(r.pick(out)); }
  r.shuffle(n.in); r.shuffle(n.out);
  return n;
}

// ---- results of the search
struct Setup {
  SearchData data; SearchCombinations comb; SearchOptions opt; SearchItems items; SearchMetricOptions met; SearchModelChecks checks;
};
static void fill(Setup &s, const Space &sp, const Names &nm, int numEndo, int numExo, int simFix, int seed, int len1) {
  s.data.NumEndo = numEndo; s.data.NumExo = numExo; s.data.HasIntercept = false; s.data.HasWeight = false;
  s.comb.Sizes = sp.sizes; s.comb.Partitions = sp.parts; s.comb.InnerGroups = sp.inner; s.comb.NumFixPartitions = sp.fix; s.comb.NumFixItems = 0; s.comb.NumTargets = sp.T;
  s.items.KeepModelEvaluations = true; s.items.KeepAll = true; s.items.KeepBestCount = 100000; s.items.LengthTargets = sp.T; s.items.LengthEndogenous = numEndo; s.items.LengthExogenous = numExo; s.items.Length1 = len1;
  for (auto &n : nm.in) s.met.MetricsIn.push_back(Ins.at(n));
  for (auto &n : nm.out) s.met.MetricsOut.push_back(Outs.at(n));
  s.met.SimFixSize = simFix; s.met.Seed = seed;
}
static void results(Rec &rec, ModelSet &ms, const Setup &s) {
  SearcherModelingInfo info; std::vector<SearcherSummary *> l0, l1, l2;
  ms.CombineInfo(info, l0, l1, l2);
  int fails = 0; std::vector<std::string> msgs;
  for (auto &f : info.FailsCount) { fails += f.second; msgs.push_back(f.first); }
  std::vector<Raw> res, res1;
  int nM = s.met.MetricsIn.size() + s.met.MetricsOut.size();
  auto keep = [&](const EstimationKeep &k, int m, int t, int c) {
    Rec r; r("m", m + 1)("t", t)("c", c)("endo", k.Endogenous)("exo", k.Exogenouses)("extra", k.Extra)("metric", k.Metric)("weight", k.Weight);
    if (c >= 0) r("mean", k.Mean)("var", k.Variance);
    return r.raw();
  };
  for (int m = 0; m < nM; m++) for (int t = 0; t < s.items.LengthTargets; t++) {
    if (!l0.empty()) { std::vector<std::shared_ptr<EstimationKeep>> all; ms.CombineAll(m, t, 0, l0, all); for (auto &k : all) res.push_back(keep(*k, m, t, -1)); }
    if (!l1.empty()) for (int c = 0; c < s.items.Length1; c++) { std::vector<std::shared_ptr<EstimationKeep>> b; ms.CombineBests(m, t, c, l1, b); for (auto &k : b) res1.push_back(keep(*k, m, t, c)); }
  }
  rec("expected", info.ExpectedCount)("searched", info.SearchedCount)("fails", fails)("msgs", msgs)("res", res)("res1", res1);
}
static void none(Rec &rec) { rec("expected", 0)("searched", 0)("fails", 0)("msgs", I())("res", I())("res1", I()); }
static void head(Rec &rec, const char *kind, const Space &sp, const Names &nm, const Checks &ck, int simFix, int len1, const std::vector<Model> &ms, const II &extras) {
  I targets; for (int t = 0; t < sp.T; t++) targets.push_back(t);
  std::vector<Raw> q; for (auto &m : ms) q.push_back(m.raw(targets));
  std::vector<std::string> names; for (auto &n : nm.in) names.push_back("in:" + n); for (auto &n : nm.out) names.push_back("out:" + n);
  rec("kind", kind)("parts", sp.parts)("sizes", sp.sizes)("fix", sp.fix)("inner", sp.inner)("innerExo", sp.innerExo)("T", sp.T)("extras", extras)
     ("metrics", names)("nin", (int)nm.in.size())("simulated", simFix > 0 && nm.out.size() > 0)("total", simFix)("len1", len1)("checks", rawChecks(ck))("models", q);
}

static II cutParts(Rng &r, I items) {
  if (r.chance(0.4)) r.shuffle(items);
  II parts; for (int x : items) { if (parts.empty() || r.chance(0.7)) parts.push_back({}); parts.back().push_back(x); }
  return parts;
}
static I pickSizes(Rng &r, int np, int most) { I s; for (int k = 1; k <= std::min(np, most); k++) if (r.chance(0.6)) s.push_back(k); if (s.empty()) s.push_back(r.range(1, std::min(np, most))); if (r.chance(0.15)) r.shuffle(s); return s; }

// ---------------------------------------------------------------- SUR
static void sur1(Rng &r) {
  int E = r.range(1, 3), X = r.range(1, 4), N = X + E + 10 + r.range(0, 12);
  bool box = r.chance(0.3);
  VV cols(E + X, V(N));
  for (int j = 0; j < X; j++) { bool one = j == 0 && r.chance(0.6); double sc = r.pick(V{1, 1, 5, 0.1}); for (auto &x : cols[E + j]) x = one ? 1 : sc * r.normal(); }
  for (int e = 0; e < E; e++) {
    double sd = r.pick(V{0.3, 1, 2}), lo = (box ? 6 : r.pick(V{0, 2, -2}));
    for (int t = 0; t < N; t++) { double s = lo + sd * r.normal(); for (int j = 0; j < X; j++) s += 0.5 * (j + 1 - e) * cols[E + j][t] / (1 + std::fabs(cols[E + j][t])); cols[e][t] = box ? 0.3 * s : s; }
  }
  if (r.chance(0.5)) for (int q = r.range(1, 4); q > 0; q--) cols[r.range(0, E + X - 1)][r.range(0, N - 1)] = NAN;
  V lambdas; if (box) for (int e = 0; e < E; e++) lambdas.push_back(r.pick(V{0, 1, 0.5, 2, NAN}));
  Space sp; sp.T = r.range(1, E);
  I ex; for (int j = 0; j < X; j++) ex.push_back(E + j);
  sp.parts = cutParts(r, ex); sp.sizes = pickSizes(r, sp.parts.size(), 3);
  sp.fix = r.chance(0.6) ? 0 : r.range(1, *std::min_element(sp.sizes.begin(), sp.sizes.end()));
  for (int g = r.range(1, 3); g > 0; g--) { I v; for (int e = 0; e < E; e++) if (r.chance(0.6)) v.push_back(e); if (v.empty()) v.push_back(r.range(0, E - 1)); if (r.chance(0.5)) r.shuffle(v); bool dup = false; for (auto &w : sp.inner) { auto a = w, b = v; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); dup = dup || a == b; } if (!dup) sp.inner.push_back(v); }
  auto nm = pickNames(r, {"aic", "sic"}, {"sign", "mae", "mape", "rmse", "rmspe", "crps"}, 0.7, 0.35);
  int simFix = nm.out.empty() ? r.pick(I{0, 2}) : r.range(1, 4);
  int fix = r.chance(0.4) ? N / 2 + 2 : 0; double ratio = r.pick(V{0.6, 0.7, 0.8});
  int iters = r.chance(0.2) ? r.range(1, 2) : 0; double prob = iters ? 0.3 : 0;
  unsigned seed = r.range(1, 100000);
  std::vector<ScoringType> outs; for (auto &n : nm.out) outs.push_back(Outs.at(n));
  bool simulate = simFix > 0 && !outs.empty(), guard = true;
  auto estimateAll = [&](double maxcn) {
    std::vector<Model> ms;
    for (auto &p : sp.all()) {
      Model m; m.endo = targetsFirst(p.second, sp.T); m.exo = p.first;
      I idx = m.endo; idx.insert(idx.end(), m.exo.begin(), m.exo.end());
      auto D0 = complete(cols, idx); int n = D0[0].size(), g = m.endo.size(), k = m.exo.size();
      m.obs = n; m.params = k;
      for (int e : m.endo) if (e < sp.T) m.met[e] = V(nm.in.size() + nm.out.size(), NAN);
      try {
        V mem; auto D = pack(D0, mem); V Rm(g * k * g * k, -3.0); Matrix<Tv> R(Rm.data(), g * k, g * k);
        SurExtended S(n, g, k, iters > 0, true, true, 0, iters, false, nullptr, nullptr);
        Mem<double> st(S.StorageSize, -1), wk(S.WorkSize, -2);
        S.Calculate(D, g, st.data(), wk.data(), iters ? &R : nullptr, prob, nullptr, nullptr);
        m.est = true; m.aic = S.Model.Aic; m.sic = S.Model.Sic; m.r2 = S.Model.r2; m.cn = S.Model.condition_number;
        for (int e = 0; e < g; e++) if (m.endo[e] < sp.T) {
          for (size_t i = 0; i < nm.in.size(); i++) m.met[m.endo[e]][i] = nm.in[i] == "aic" ? m.aic : m.sic;
          for (int a = 0; a < k; a++) m.items[m.exo[a] - E][m.endo[e]] = {S.Model.beta.Get0(a, e), std::pow(S.Model.e_beta_std.Get0(a, e), 2)};
        }
      } catch (std::exception &x) { m.err = x.what(); }
      if (simulate) try {
        V mem; auto D = pack(D0, mem); V Rm(g * k * g * k, -3.0); Matrix<Tv> R(Rm.data(), g * k, g * k);
        V lam; for (int e : m.endo) if (box) lam.push_back(lambdas[e]);
        SurSimulation S(n, g, k, ratio, fix, outs, iters > 0, iters, nullptr, nullptr);
        Mem<double> st(S.StorageSize, -3), wk(S.WorkSize, -4); bool cancel = false;
        S.Calculate(D, g, st.data(), wk.data(), iters ? &R : nullptr, cancel, simFix, seed, prob, maxcn, INT32_MAX, box ? &lam : nullptr);
        m.sim = true; m.valid = S.ValidIters;
        for (int e = 0; e < g; e++) if (m.endo[e] < sp.T) for (size_t i = 0; i < outs.size(); i++) m.met[m.endo[e]][nm.in.size() + i] = S.Results.Get0(i, e);
      } catch (std::exception &x) { m.serr = x.what(); }
      ms.push_back(m);
    }
    return ms;
  };
  auto ms = estimateAll(INFINITY);
  auto ck = pickChecks(r, ms, true, true, r.pick(V{0, 0.25, 0.5}));
  if (simulate && ck.maxcn < INFINITY) ms = estimateAll(ck.maxcn);
  if (simulate && r.chance(0.5)) ck.minsim = pickValid(r, ms, simFix);
  int len1 = !nm.in.empty() || ck.estimation ? r.pick(I{0, X}) : 0;
  Rec rec; head(rec, "sur", sp, nm, ck, simFix, len1, ms, II{{}});
  rec("data", rowsC(cols))("E", E)("lambdas", lambdas);
  std::string err; bool kept = false;
  try {
    Setup s; V mem; s.data.Data = pack(cols, mem); V copy = mem;
    fill(s, sp, nm, E, X, simFix, -(int)seed, len1);
    s.data.Lambdas = lambdas; s.met.TrainFixSize = fix; s.met.TrainRatio = ratio; s.checks = toChecks(ck);
    SurModelset mset(s.data, s.comb, s.opt, s.items, s.met, s.checks, iters, prob);
    Mem<double> w(mset.Modelset.WorkSize, -9.5);
    Stop::before(r, s.opt); mset.Modelset.Start(w.data(), nullptr); Stop::after(rec, s.opt);
    guard = w.ok();
    kept = std::equal(mem.begin(), mem.end(), copy.begin(), [](double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); });
    results(rec, mset.Modelset, s);
  } catch (std::exception &x) { err = x.what(); none(rec); Stop::opt = nullptr; rec("par", Stop::par)("cancelled", false); }
  rec("error", err)("guard", guard)("kept", kept || !err.empty());
  rec.out();
}

// ---------------------------------------------------------------- discrete choice
static void dc1(Rng &r) {
  bool w = r.chance(0.5), weval = r.chance(0.6), ordered = r.chance(0.15);
  int X = r.range(1, 4), N = 16 + r.range(0, 14), pre = w ? 2 : 1, nch = ordered ? 3 : 2;
  VV cols(pre + X, V(N));
  std::vector<bool> rare; for (int j = 0; j < X; j++) rare.push_back(r.chance(0.2)); // some training samples are singular
  int seldom = r.range(3, 5);
  for (int t = 0; t < N; t++) {
    double z = 0.5 * r.normal();
    for (int j = 0; j < X; j++) { double x = j == 0 ? 1 : rare[j] ? t % (N / 2) == seldom : r.chance(0.7) ? r.normal() : r.range(-1, 2); cols[pre + j][t] = x; z += (j ? 0.6 : 0.1) * x; }
    cols[0][t] = ordered ? (z > 0.8 ? 2 : z > -0.4 ? 1 : 0) : z + 0.7 * r.normal() > 0;
    if (w) cols[1][t] = r.pick(V{1, 1, 2, 0.5, 3});
  }
  if (r.chance(0.4)) for (int q = r.range(1, 3); q > 0; q--) cols[r.range(0, pre + X - 1)][r.range(0, N - 1)] = NAN;
  if (ordered) cols[0][r.range(0, N - 1)] = 2;
  else if (r.chance(0.15)) { for (auto &x : cols[0]) x = 0; for (int q = r.range(1, 3); q > 0; q--) cols[0][r.range(0, N - 1)] = 1; } // a rare choice
  Space sp; sp.T = 1; sp.inner = II{{0}};
  I ex; for (int j = 1; j < X; j++) ex.push_back(1 + j);
  sp.parts = cutParts(r, ex); sp.parts.insert(sp.parts.begin(), I{1}); sp.sizes = pickSizes(r, sp.parts.size(), 3); sp.fix = 1;
  if (sp.sizes.size() && r.chance(0.2)) sp.fix = std::min<int>(2, *std::min_element(sp.sizes.begin(), sp.sizes.end()));
  bool logit = r.chance(0.7), probit = !logit || r.chance(0.5);
  auto nm = pickNames(r, ordered ? std::vector<std::string>{"aic", "sic"} : std::vector<std::string>{"aic", "sic", "brierIn", "aucIn", "frequencyCostIn"}, {"brierOut", "aucOut", "frequencyCostOut"}, 0.5, 0.5);
  if (ordered) { nm.out.clear(); if (nm.in.empty()) nm.in.push_back("aic"); }
  auto has = [&](const std::vector<std::string> &v, const char *s) { return std::find(v.begin(), v.end(), s) != v.end(); };
  int ntab = has(nm.in, "frequencyCostIn") || has(nm.out, "frequencyCostOut") ? r.range(1, 2) : 0;
  std::vector<V> tmems(ntab); std::vector<Matrix<Tv>> tables;
  for (int q = 0; q < ntab; q++) {
    int n = r.range(2, 4); V th; for (int i = 0; i < n - 1; i++) th.push_back(0.05 + 0.9 * r.unit()); std::sort(th.begin(), th.end()); th.push_back(1);
    VV tc(3, V(n)); for (int i = 0; i < n; i++) { tc[0][i] = th[i]; tc[1][i] = r.unit(); tc[2][i] = r.unit(); }
    tables.push_back(pack(tc, tmems[q]));
  }
  bool badtable = ntab > 0 && r.chance(0.06);
  int badat = badtable ? r.range(0, ntab - 1) : 0; double badcost = r.pick(V{-0.5, 1.5});
  int simFix = nm.out.empty() ? r.pick(I{0, 2}) : r.range(1, 4);
  int fix = r.chance(0.4) ? N / 2 : 0; double ratio = r.pick(V{0.6, 0.7, 0.8});
  unsigned seed = r.range(1, 100000);
  RocOptions roc; roc.Pessimistic = r.chance(0.2);
  if (r.chance(0.2)) { roc.LowerThreshold = r.pick(V{0, 0.1}); roc.UpperThreshold = r.pick(V{0.6, 1}); }
  Newton newton; newton.IterationMax = r.pick(I{100, 100, 7});
  Rng ro(r.range(0, 1 << 30));
  newton.TolGradient = ro.pick(V{0, 0, 0.5, 2}); newton.TolFunction = ro.pick(V{1e-6, 1e-6, 0.1}); newton.UseLineSearch = ro.chance(0.7);
  bool simulate = simFix > 0 && !nm.out.empty(), guard = true;
  auto type = ordered ? DiscreteChoiceModelType::kOrdered : DiscreteChoiceModelType::kBinary;
  std::vector<Model> ms; II extras;
  if (logit) extras.push_back({(int)DiscreteChoiceDistType::kLogit});
  if (probit) extras.push_back({(int)DiscreteChoiceDistType::kProbit});
  for (auto &p : sp.all()) for (auto &e : extras) {
    auto dist = (DiscreteChoiceDistType)e[0];
    Model m; m.endo = {0}; m.exo = p.first; m.extra = e;
    I idx; idx.push_back(0); if (w) idx.push_back(1); for (int a : m.exo) idx.push_back(a + pre - 1);
    auto D0 = complete(cols, idx); int n = D0[0].size(), k = m.exo.size(), nc = idx.size();
    m.obs = n; m.params = k + nch - 2;
    m.met[0] = V(nm.in.size() + nm.out.size(), NAN);
    try {
      V mem; auto D = pack(D0, mem);
      DiscreteChoiceExtended S(type, dist, n, nc, w, true, nch, !ordered, 0, nullptr, ntab ? &tables : nullptr, weval);
      S.Model->Optim.IterationMax = newton.IterationMax; S.Model->Optim.TolFunction = newton.TolFunction; S.Model->Optim.TolGradient = newton.TolGradient; S.Model->Optim.UseLineSearch = newton.UseLineSearch;
      Mem<double> st(S.StorageSize, -1), wk(S.WorkSize, -2);
      RocOptions ro = roc;
      S.Calculate(D, st.data(), wk.data(), true, nullptr, ro);
      m.est = true; m.aic = S.Model->Aic; m.sic = S.Model->Sic; m.cn = S.Model->condition_number;
      for (size_t i = 0; i < nm.in.size(); i++) m.met[0][i] = nm.in[i] == "aic" ? m.aic : nm.in[i] == "sic" ? m.sic : nm.in[i] == "brierIn" ? S.BrierScore : nm.in[i] == "aucIn" ? S.Auc : S.CostRatioAvg;
      for (int a = 0; a < k; a++) m.items[m.exo[a] - 1][0] = {S.Model->Beta.Data[a], S.Model->BetaVar.Get0(a, a)};
    } catch (std::exception &x) { m.err = x.what(); }
    if (simulate) try {
      V mem; auto D = pack(D0, mem);
      auto S = DiscreteChoiceSimBase::GetFromType(w, type, dist, n, nc, nch, ratio, fix, ntab, has(nm.out, "brierOut"), has(nm.out, "aucOut"), false, nullptr, weval);
      S->SimulationMax = simFix; S->Seed = seed; S->Optim.IterationMax = newton.IterationMax; S->Optim.TolFunction = newton.TolFunction; S->Optim.TolGradient = newton.TolGradient; S->Optim.UseLineSearch = newton.UseLineSearch;
      Mem<double> st(S->StorageSize, -3), wk(S->WorkSize, -4); Mem<Ti> wi(S->WorkSizeI, -6);
      bool cancel = false; RocOptions ro = roc;
      S->Calculate(D, ntab ? &tables : nullptr, st.data(), wk.data(), wi.data(), cancel, ro, true, nullptr, INT32_MAX);
      m.sim = true; m.valid = S->ValidSimulationCount;
      double cost = 0; for (int q = 0; q < ntab; q++) cost += S->CostRatios.Data[q] / ntab;
      for (size_t i = 0; i < nm.out.size(); i++) m.met[0][nm.in.size() + i] = nm.out[i] == "brierOut" ? S->BrierScore : nm.out[i] == "aucOut" ? S->Auc : cost;
    } catch (std::exception &x) { m.serr = x.what(); }
    ms.push_back(m);
  }
  auto ck = pickChecks(r, ms, false, true, r.pick(V{0, 0.25, 0.5}));
  if (simulate && r.chance(0.5)) ck.minsim = pickValid(r, ms, simFix);
  int len1 = !nm.in.empty() || ck.estimation ? r.pick(I{0, X + nch - 2}) : 0;
  Rec rec; head(rec, "dc", sp, nm, ck, simFix, len1, ms, extras);
  rec("data", rowsC(cols))("weighted", w)("weval", weval)("choices", nch)("badtable", badtable);
  if (badtable) tables[badat].Set0(r.range(0, tables[badat].RowsCount - 1), 0, badcost);
  std::string err; bool kept = false;
  try {
    Setup s; V mem; s.data.Data = pack(cols, mem); V copy = mem;
    fill(s, sp, nm, 1, X, simFix, -(int)seed, len1);
    s.data.HasWeight = w; s.data.HasIntercept = true; s.met.TrainFixSize = fix; s.met.TrainRatio = ratio; s.met.WeightedEval = weval; s.checks = toChecks(ck);
    std::unique_ptr<DiscreteChoiceModelsetBase> mset(DiscreteChoiceModelsetBase::GetFromTypes(!ordered, w, s.data, s.comb, s.opt, s.items, s.met, s.checks, s.data.Data, tables, logit, probit, newton, roc));
    Mem<double> wk(mset->Modelset.WorkSize, -9.5); Mem<Ti> wi(mset->Modelset.WorkSizeI, -9);
    Stop::before(r, s.opt); mset->Start(wk.data(), wi.data()); Stop::after(rec, s.opt);
    guard = wk.ok() && wi.ok();
    kept = std::equal(mem.begin(), mem.end(), copy.begin(), [](double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); });
    results(rec, mset->Modelset, s);
  } catch (std::exception &x) { err = x.what(); none(rec); Stop::opt = nullptr; rec("par", Stop::par)("cancelled", false); }
  rec("error", err)("guard", guard)("kept", kept || !err.empty());
  rec.out();
}

// ---------------------------------------------------------------- VARMA
static void varma1(Rng &r) {
  int E = r.range(1, 3), X = r.pick(I{0, 0, 1, 2}), season = r.pick(I{0, 0, 0, 2, 4}), H = r.range(1, 3);
  I max6{r.range(0, 2), r.chance(0.3) ? 1 : 0, r.chance(0.25) ? 1 : 0, season ? r.range(0, 1) : 0, season && r.chance(0.2) ? 1 : 0, 0};
  if (max6[0] + max6[2] + max6[3] == 0) max6[0] = 1;
  Space sp; sp.innerExo = true; sp.T = r.range(1, E);
  I en; for (int e = 0; e < E; e++) en.push_back(e);
  sp.parts = cutParts(r, en); sp.sizes = pickSizes(r, sp.parts.size(), 2);
  bool ragged = E > 1 && r.chance(0.15); // the first variable ends before the others
  if (ragged) sp.sizes = I{1};
  sp.fix = r.chance(0.7) ? 0 : r.range(1, *std::min_element(sp.sizes.begin(), sp.sizes.end()));
  int biggest = *std::max_element(sp.sizes.begin(), sp.sizes.end());
  if (X) { for (int g = r.range(1, 2); g > 0; g--) { I v; for (int j = 0; j < X; j++) if (r.chance(0.6)) v.push_back(E + j); bool dup = std::find(sp.inner.begin(), sp.inner.end(), v) != sp.inner.end(); if (!dup) sp.inner.push_back(v); } }
  if (sp.inner.empty()) sp.inner.push_back({});
  II extras;
  for (int p = 0; p <= max6[0]; p++) for (int d = 0; d <= max6[1]; d++) for (int q = 0; q <= max6[2]; q++) for (int P = 0; P <= max6[3]; P++) for (int D = 0; D <= max6[4]; D++) for (int Q = 0; Q <= max6[5]; Q++) if (p + q + P + Q > 0) extras.push_back({p, d, q, P, D, Q});
  VarmaSizes zmax(200, biggest, X, max6[0], max6[1], max6[2], max6[3], max6[4], max6[5], season);
  bool box = r.chance(0.3);
  auto nm = pickNames(r, {"aic", "sic"}, {"sign", "direction", "mae", "mape", "rmse", "rmspe", "crps"}, 0.7, 0.3);
  int simFix = nm.out.empty() ? r.pick(I{0, 2}) : r.range(1, 4);
  I hs; if (!nm.out.empty()) { for (int h = 1; h <= 4; h++) if (r.chance(0.4)) hs.push_back(h); if (hs.empty()) hs.push_back(1); }
  int miss = ragged ? 6 : r.chance(0.5) ? 3 : 0;
  int N = 2 * zmax.ArMax_d + zmax.NumParamsEq + biggest + 8 + 2 * miss + simFix + r.range(0, 6);
  int tail = r.pick(I{0, H, H, H + 1});
  if (ragged && r.chance(0.7)) tail = 0;
  // exogenous values after the sample
  VV cols(E + X, V(N + tail, NAN));
  for (int e = 0; e < E; e++) {
    double rho = r.pick(V{0, 0.5, 0.9, -0.5}), s = 0, lev = r.pick(V{0, 5, -2}), sc = r.pick(V{1, 3});
    for (int t = 0; t < N; t++) { s = rho * s + r.normal() + (e ? 0.2 * cols[0][t] : 0); cols[e][t] = box ? 2 + std::tanh(s / 4) : lev + sc * s; }
  }
  for (int j = 0; j < X; j++) { bool one = j == 0 && r.chance(0.5); for (auto &x : cols[E + j]) x = one ? 1 : r.normal(); }
  if (ragged) { for (int t = r.range(3, 6); t > 0; t--) cols[0][N - t] = NAN; }
  else if (miss) for (int e = 0; e < E; e++) { for (int t = r.range(-2, miss); t > 0; t--) cols[e][t - 1] = NAN; for (int t = r.range(-2, miss); t > 0; t--) cols[e][N - t] = NAN; }
  if (miss && X && r.chance(0.3)) cols[E][0] = NAN;
  if (tail && X && r.chance(0.2)) for (int q = r.range(1, tail); q > 0; q--) cols[E + X - 1][N + tail - q] = NAN;
  V lambdas; if (box) for (int e = 0; e < E; e++) lambdas.push_back(r.pick(V{0, 1, 0.5, 2, NAN}));
  bool predict = r.chance(0.5), prev = max6[2] + max6[5] == 0 && r.chance(0.5);
  std::vector<ScoringType> outs; for (auto &n : nm.out) outs.push_back(Outs.at(n));
  bool simulate = simFix > 0 && !outs.empty(), guard = true;
  LimitedMemoryBfgsbOptions opt; opt.IterationMax = 60;
  double mult = 2;
  auto estimateAll = [&](double maxcn) {
    std::vector<Model> ms;
    for (auto &p : sp.all()) for (auto &o : extras) {
      Model m; m.endo = targetsFirst(p.first, sp.T); m.exo = p.second; m.extra = o;
      I idx = m.endo; idx.insert(idx.end(), m.exo.begin(), m.exo.end());
      int start = 0, end = 1 << 20;
      for (int j : idx) { int a = 0, b = N + tail - 1; while (a <= b && std::isnan(cols[j][a])) a++; while (b >= a && std::isnan(cols[j][b])) b--; start = std::max(start, a); end = std::min(end, b); }
      int n = end - start + 1, g = m.endo.size(), k = m.exo.size(), nxx = N + tail - start;
      V ym, xm;
      for (int t = start; t <= end; t++) for (int j : m.endo) ym.push_back(cols[j][t]);
      for (int t = start; t < N + tail; t++) for (int j : m.exo) xm.push_back(cols[j][t]);
      Matrix<Tv> y(ym.data(), g, n), x(xm.data(), k, nxx);
      m.obs = n;
      for (int e : m.endo) if (e < sp.T) m.met[e] = V(nm.in.size() + nm.out.size(), NAN);
      VarmaSizes z; std::unique_ptr<VarmaRestriction> R; Mem<double> rs(0, 0);
      try {
        z = VarmaSizes(n, g, k, o[0], o[1], o[2], o[3], o[4], o[5], season);
        m.params = z.NumParamsEq; m.lost = z.ArMax_d;
        R = std::make_unique<VarmaRestriction>(z, z.HasMa ? VarmaRestrictionType::kMaFinal : VarmaRestrictionType::kNone, 0);
        rs = Mem<double>(R->StorageSize, -75.5); R->Calculate(rs.data());
        Varma v(z, true, true, true, &opt);
        Mem<double> st(v.Result.StorageSize, -1), wk(v.Result.WorkSize, -2);
        v.EstimateMl(y, k ? &x : nullptr, wk.data(), st.data(), R->IsRestricted ? &R->R : nullptr, nullptr, 0, false, mult);
        m.est = true; m.aic = v.Result.Aic; m.sic = v.Result.Sic; m.cn = v.Result.cn;
        for (int e : m.endo) if (e < sp.T) for (size_t i = 0; i < nm.in.size(); i++) m.met[e][i] = nm.in[i] == "aic" ? m.aic : m.sic;
        if (predict) try {
          VarmaForecast f(z, H, true);
          Mem<double> fs(f.StorageSize, -5), fw(f.WorkSize, -6);
          f.Calculate(v, k ? &x : nullptr, &y, fs.data(), fw.data(), H, false);
          m.predicted = true;
          for (int j = 0; j < f.Forecast.length(); j++) m.anynan = m.anynan || std::isnan(f.Forecast.Data[j]);
          for (int e = 0; e < g; e++) if (m.endo[e] < sp.T) for (int h = 0; h < H; h++) {
            double a = f.Forecast.Get0(e, f.StartIndex + h), b = f.Variance.Get0(e, f.StartIndex + h);
            m.pred[m.endo[e]].push_back(a); m.items[h][m.endo[e]] = {a, b};
          }
        } catch (std::exception &q) { m.predicted = false; m.items.clear(); m.pred.clear(); }
      } catch (std::exception &q) { m.err = q.what(); }
      if (simulate && R) try {
        V lam; for (int e : m.endo) if (box) lam.push_back(lambdas[e]);
        VarmaSimulation s(z, simFix, hs, outs, &opt);
        Mem<double> st(s.StorageSize, -3), wk(s.WorkSize, -4); bool cancel = false;
        s.Calculate(st.data(), wk.data(), y, cancel, k ? &x : nullptr, R->IsRestricted ? &R->R : nullptr, nullptr, prev, maxcn, mult, false, INT32_MAX, box ? &lam : nullptr);
        m.sim = true; m.valid = s.ValidCounts;
        for (int e = 0; e < g; e++) if (m.endo[e] < sp.T) for (size_t i = 0; i < outs.size(); i++) m.met[m.endo[e]][nm.in.size() + i] = s.ResultAggs.Get0(i, e);
      } catch (std::exception &q) { m.serr = q.what(); }
      ms.push_back(m);
    }
    return ms;
  };
  auto ms = estimateAll(INFINITY);
  auto ck = pickChecks(r, ms, false, true, r.pick(V{0, 0.25, 0.5}));
  if (simulate && ck.maxcn < INFINITY) ms = estimateAll(ck.maxcn);
  if (simulate && r.chance(0.5)) ck.minsim = pickValid(r, ms, simFix);
  if (predict) {
    ck.prediction = true; ck.estimation = true;
    if (r.chance(0.6)) {
      ck.lower = VV(H, V(sp.T, -1e300)); ck.upper = VV(H, V(sp.T, 1e300));
      for (int h = 0; h < H; h++) for (int t = 0; t < sp.T; t++) {
        V v; for (auto &m : ms) if (m.pred.count(t)) v.push_back(m.pred[t][h]);
        double z; if (r.chance(0.3) && between(r, v, z)) (r.chance(0.5) ? ck.lower : ck.upper)[h][t] = z;
      }
    }
  }
  int len1 = predict ? r.pick(I{0, H}) : 0;
  Rec rec; head(rec, "varma", sp, nm, ck, simFix, len1, ms, extras);
  rec("data", rowsC(cols))("E", E)("season", season)("horizons", hs)("H", H)("lambdas", lambdas);
  bool badpart = X > 0 && r.chance(0.05); rec("badpart", badpart);
  std::string err; bool kept = false;
  try {
    Setup s; V mem; s.data.Data = pack(cols, mem);
    V tm; for (auto &row : rowsC(cols)) tm.insert(tm.end(), row.begin(), row.end());
    Matrix<Tv> tr(tm.data(), E + X, N + tail); V copy = tm;
    DatasetTs<true> source(E + X, N + tail, true, true); source.Data(tr);
    if (source.HasMissingData) return; // not reached
    fill(s, sp, nm, E, X, simFix, -1, len1);
    s.data.Lambdas = lambdas; s.met.Horizons = hs; s.checks = toChecks(ck);
    V lo, up; if (ck.lower.size()) { VV a(sp.T, V(H)), b = a; for (int h = 0; h < H; h++) for (int t = 0; t < sp.T; t++) { a[t][h] = ck.lower[h][t]; b[t][h] = ck.upper[h][t]; } s.checks.PredictionLower = pack(a, lo); s.checks.PredictionUpper = pack(b, up); }
    if (X == 0) s.comb.InnerGroups = r.chance(0.5) ? II{} : II{{}};
    if (badpart) s.comb.Partitions.back().push_back(E + r.range(0, X - 1));
    VarmaModelset mset(s.data, s.comb, s.opt, s.items, s.met, s.checks, source, max6, season, prev, &opt, mult, H);
    Mem<double> w(mset.Modelset.WorkSize, -9.5);
    Stop::before(r, s.opt); mset.Modelset.Start(w.data(), nullptr); Stop::after(rec, s.opt);
    guard = w.ok();
    kept = std::equal(tm.begin(), tm.end(), copy.begin(), [](double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); });
    results(rec, mset.Modelset, s);
  } catch (std::exception &x) { err = x.what(); none(rec); Stop::opt = nullptr; rec("par", Stop::par)("cancelled", false); }
  rec("error", err)("guard", guard)("kept", kept || !err.empty());
  rec.out();
}

int main(int argc, char **argv) {
  std::string mode = argv[1];
  uint64_t seed = strtoull(argv[2], 0, 10);
  int n = atoi(argv[3]);
  int from = argc > 4 ? atoi(argv[4]) : 0;
  Stop::par = argc > 5 && strchr(argv[5], 'p'); Stop::cancel = argc > 5 && strchr(argv[5], 'c');
  for (int i = from; i < from + n; i++) {
    Rng r(seed * 1000003 + i);
    Stop::begin();
    if (mode == "sur") sur1(r);
    else if (mode == "dc") dc1(r);
    else if (mode == "varma") varma1(r);
    else return 3;
  }
}
