#include "pca.h"
// Out-of-sample evaluations of cross-section models (SUR, discrete choice), with every split replayed and estimated on its own.
#include "vjson.h"
#include "data_split.h"
#include "discrete_choice.h"
#include "sur.h"
#include <algorithm>
#include <cmath>
#include <map>
#include <set>
using namespace ldt;
typedef std::vector<double> V;
typedef std::vector<std::vector<double>> VV;

static VV rowsOf(const Matrix<Tv> &m) {
  VV r(m.RowsCount, V(m.ColsCount));
  for (int i = 0; i < m.RowsCount; i++) for (int j = 0; j < m.ColsCount; j++) r[i][j] = m.Data[(size_t)j * m.RowsCount + i];
  return r;
}
static VV rowsC(const VV &cols) { VV r(cols[0].size(), V(cols.size())); for (size_t j = 0; j < cols.size(); j++) for (size_t i = 0; i < cols[j].size(); i++) r[i][j] = cols[j][i]; return r; }
static Matrix<Tv> pack(const VV &cols, V &mem) {
  mem.clear();
  for (auto &c : cols) mem.insert(mem.end(), c.begin(), c.end());
  return Matrix<Tv>(mem.data(), (Ti)cols[0].size(), (Ti)cols.size());
}
static VV take(const VV &cols, const std::vector<int> &rows, int from = 0) {
  VV r;
  for (size_t j = from; j < cols.size(); j++) { V c; for (int i : rows) c.push_back(cols[j][i - 1]); r.push_back(c); }
  return r;
}
template <class T> struct Mem {
  std::vector<T> d; size_t n; T mark;
  Mem(size_t n, T mark) : d(n + 16, mark), n(n), mark(mark) {}
  T *data() { return d.data(); }
  bool ok() { for (size_t i = n; i < d.size(); i++) if (d[i] != mark) return false; return true; }
};
static bool same(const V &a, const V &b) { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin(), [](double x, double y) { return x == y || (std::isnan(x) && std::isnan(y)); }); }
static std::vector<int> colOf(const Matrix<Tv> &m, int j) { std::vector<int> r; for (int i = 0; i < m.RowsCount; i++) r.push_back((int)std::lround(m.Data[(size_t)j * m.RowsCount + i])); return r; }
// the rows of every split, taken from a copy of the data with the number of the row in the last column
static VV numbered(const VV &cols) { VV c = cols; V n; for (size_t i = 1; i <= cols[0].size(); i++) n.push_back(i); c.push_back(n); return c; }

static const std::map<std::string, ScoringType> Scores = {{"sign", ScoringType::kSign}, {"direction", ScoringType::kDirection}, {"mae", ScoringType::kMae}, {"mape", ScoringType::kMape}, {"rmse", ScoringType::kRmse}, {"rmspe", ScoringType::kRmspe}, {"crps", ScoringType::kCrps}};

// principal components in the place of some exogenous variables
static bool components(Rng &r, int k, PcaAnalysisOptions &o) {
  if (k < 2 || !r.chance(0.3)) return false;
  o.IgnoreFirstCount = r.range(k > 2 ? 0 : 1, k - 1);
  int left = k - o.IgnoreFirstCount;
  if (r.chance(0.6)) o.ExactCount = r.range(1, left); else o.CutoffRate = r.pick(V{0.5, 0.8, 0.95});
  if (o.ExactCount == k) o.ExactCount = k - 1;
  o.CutoffCountMax = r.pick(std::vector<int>{1000, 1, 2});
  return true;
}
static void sur1(Rng &r) {
  int m = r.range(1, 2), k = r.range(1, 3);
  int N = k + m + 6 + r.range(0, 12), km = k * m;
  VV cols(m + k, V(N));
  bool box = r.chance(0.3);
  for (int j = 0; j < k; j++) {
    bool one = j == 0 && r.chance(0.7), dummy = !one && r.chance(0.3);
    for (int i = 0; i < N; i++) cols[m + j][i] = one ? 1 : dummy ? 0 : r.normal();
    if (dummy) for (int q = r.range(1, 2); q > 0; q--) cols[m + j][r.range(0, N - 1)] = 1; // a split may leave nothing but zeros
  }
  for (int e = 0; e < m; e++) {
    double sd = r.pick(V{0.2, 1, 1, 3}), lo = r.pick(V{0, 0, 4, -3}) + (box ? 5 : 0);
    for (int i = 0; i < N; i++) {
      cols[e][i] = lo + sd * r.normal();
      for (int j = 0; j < k; j++) cols[e][i] += (j + 1) * 0.4 * cols[m + j][i];
      if (box) cols[e][i] = 0.3 * cols[e][i];
    }
  }
  std::string mode = r.pick(std::vector<std::string>{"free", "free", "zero", "search"});
  int iters = 0; double prob = 0; int q = km; V Rm;
  if (mode == "zero") {
    std::vector<int> keep; for (int j = 0; j < km; j++) if (r.chance(0.7)) keep.push_back(j);
    if (keep.empty()) keep.push_back(r.range(0, km - 1));
    q = keep.size(); Rm.assign(km * q, 0.0);
    for (int j = 0; j < q; j++) Rm[j * km + keep[j]] = 1;
  } else if (mode == "search") { iters = r.range(1, 3); prob = r.pick(V{0.05, 0.1, 0.3}); Rm.assign(km * km, -7.0); }
  PcaAnalysisOptions pca; bool hasPca = (mode == "free" || mode == "search") && components(r, k, pca);
  std::vector<std::string> names; std::vector<ScoringType> metrics;
  for (auto &p : Scores) if (r.chance(0.5) && (p.first != "direction" || r.chance(0.05))) { names.push_back(p.first); metrics.push_back(p.second); }
  if (names.empty()) { names.push_back("rmse"); metrics.push_back(ScoringType::kRmse); }
  std::vector<double> lambdas; if (box) for (int j = 0; j < m; j++) lambdas.push_back(r.pick(V{0, 1, 0.5, 2, -0.5, NAN}));
  int fix = r.chance(0.4) ? r.range(k + 1, N - 1) : 0; double ratio = r.pick(V{0.5, 0.6, 0.75, 0.8, 0.9});
  if (fix && r.chance(0.3)) ratio = 0;
  int total = r.range(1, 5), maxinv = r.pick(std::vector<int>{0, 1, 2, 1000, 1000});
  unsigned seed = r.range(1, 100000);
  int n0 = fix > 0 ? fix : (int)std::lround(N * ratio);
  bool var = false; for (auto &s : names) if (s == "crps") var = true;
  Rec rec;
  rec("kind", "sur")("pca", hasPca)("mode", mode)("data", rowsC(cols))("m", m)("N", N)("fix", fix)("ratio", ratio)("metrics", names)("box", box)("lambdas", lambdas)("total", total)("maxinv", maxinv);
  // every split on its own
  std::vector<Raw> splits; V cns;
  VV nc = numbered(cols); V nmem; auto ND = pack(nc, nmem);
  DataSplit sp(N, m + k + 1); Mem<double> sst(sp.StorageSize, 3); std::vector<Ti> wi(sp.WorkSizeI + 1);
  std::string spliterr; bool guard = true;
  try {
    sp.Calculate(ND, sst.data(), ratio, fix);
    std::mt19937 eng(seed);
    for (int t = 0; t < total; t++) {
      sp.Shuffle(ND, wi.data(), eng);
      auto train = colOf(sp.Sample0, m + k), test = colOf(sp.Sample1, m + k);
      V tmem, xmem; auto T = pack(take(cols, train), tmem); auto X = pack(take(cols, test, m), xmem);
      V R2 = Rm; Matrix<Tv> R; if (mode != "free") R = Matrix<Tv>(R2.data(), km, q);
      Rec s; s("train", train)("test", test);
      std::string err; VV fc, fv; double cn = NAN;
      try {
        SurExtended M(T.RowsCount, m, k, mode != "free", false, false, X.RowsCount, iters, var, nullptr, hasPca ? &pca : nullptr);
        Mem<double> st(M.StorageSize, -1), wk(M.WorkSize, -2);
        M.Calculate(T, m, st.data(), wk.data(), mode != "free" ? &R : nullptr, prob, &X, nullptr);
        cn = M.Model.condition_number; fc = rowsOf(M.Projections.Means); if (var) fv = rowsOf(M.Projections.Variances);
      } catch (std::exception &e) { err = e.what(); }
      if (err.empty()) cns.push_back(cn);
      s("ok", err.empty())("error", err)("cn", cn)("fc", fc)("fv", fv);
      splits.push_back(s.raw());
    }
  } catch (std::exception &e) { spliterr = e.what(); }
  double maxcn = 1e300;
  if (cns.size() > 1 && r.chance(0.4)) { // some of the estimates above the limit
    std::sort(cns.begin(), cns.end()); int g = r.range(0, (int)cns.size() - 2);
    if (cns[g + 1] < 1e9 && cns[g + 1] > 1.01 * cns[g]) maxcn = (cns[g] + cns[g + 1]) / 2;
  }
  rec("maxcn", maxcn)("splits", splits)("spliterror", spliterr);
  // the evaluation, twice
  V mem; auto D = pack(cols, mem); V copy = mem;
  std::string err, err2; VV agg, agg2; int valid = -1, counts = -1, failed = 0;
  try {
    int extra = r.chance(0.3) ? r.range(1, 3) : 0; // room for more observations than there are
    SurSimulation S(N + extra, m, k, ratio, fix, metrics, mode != "free", iters, nullptr, hasPca ? &pca : nullptr);
    for (int t = 0; t < 2; t++) {
      Mem<double> st(S.StorageSize, -3), wk(S.WorkSize, t ? -5 : -4);
      V R2 = Rm; Matrix<Tv> R; if (mode != "free") R = Matrix<Tv>(R2.data(), km, q);
      bool cancel = false;
      S.Errors.clear();
      std::string e1;
      try { S.Calculate(D, m, st.data(), wk.data(), mode != "free" ? &R : nullptr, cancel, total, seed, prob, maxcn, maxinv, box ? &lambdas : nullptr); }
      catch (std::exception &e) { e1 = e.what(); }
      (t ? err2 : err) = e1;
      if (!st.ok() || !wk.ok()) guard = false;
      if (e1.empty()) (t ? agg2 : agg) = rowsOf(S.Results);
      if (!t) { valid = S.ValidIters; counts = S.ValidCounts; for (auto &p : S.Errors) failed += p.second; }
    }
  } catch (std::exception &e) { err = e.what(); err2 = err; }
  bool rep = err == err2 && agg.size() == agg2.size(); for (size_t i = 0; rep && i < agg.size(); i++) rep = same(agg[i], agg2[i]);
  rec("error", err)("guard", guard)("kept", same(mem, copy))("repeated", rep)("valid", valid)("counts", counts)("failed", failed)("agg", agg);
  rec.out();
}

// a set of the type that the evaluation fills
template <class X> std::set<X> errorSet(void (DiscreteChoiceSimBase::*)(const Matrix<Tv> &, const std::vector<Matrix<Tv>> *, Tv *, Tv *, Ti *, bool &, RocOptions &, bool, std::set<X> *, Ti));
static void dc1(Rng &r) {
  bool w = r.chance(0.5), weval = r.chance(0.6), probit = r.chance(0.4);
  int k = r.range(1, 3), N = 10 + r.range(0, 14), pre = w ? 2 : 1;
  VV cols(pre + k, V(N));
  for (int i = 0; i < N; i++) {
    double z = r.normal() * 0.4;
    for (int j = 0; j < k; j++) { double x = j == 0 ? 1 : r.chance(0.5) ? r.normal() : r.range(-1, 2); cols[pre + j][i] = x; z += (j == 0 ? 0.2 : 0.7) * x; }
    cols[0][i] = z + r.normal() > 0 ? 1 : 0;
    if (w) cols[1][i] = r.pick(V{1, 1, 2, 0.5, 3});
  }
  if (r.chance(0.2)) { for (auto &x : cols[0]) x = 0; for (int q = r.range(1, 3); q > 0; q--) cols[0][r.range(0, N - 1)] = 1; } // a rare choice
  if (k > 1 && r.chance(0.15)) { for (auto &x : cols[pre + k - 1]) x = 0; for (int q = r.range(1, 2); q > 0; q--) cols[pre + k - 1][r.range(0, N - 1)] = 1; }
  int fix = r.chance(0.4) ? r.range(3, N - 1) : 0; double ratio = r.pick(V{0.5, 0.6, 0.75, 0.8, 0.33});
  int total = r.range(1, 5), maxinv = r.pick(std::vector<int>{0, 1, 2, 1000, 1000});
  unsigned seed = r.range(1, 100000);
  bool brier = r.chance(0.6), auc = r.chance(0.6), freq = r.chance(0.5);
  int ntab = r.pick(std::vector<int>{0, 0, 1, 2});
  if (!brier && !auc && !freq && !ntab) { if (r.chance(0.5)) brier = true; else auc = true; }
  std::vector<VV> tables; std::vector<V> tmems(ntab); std::vector<Matrix<Tv>> tmats;
  for (int t = 0; t < ntab; t++) {
    VV tab; int n = r.range(2, 4); V th; for (int i = 0; i < n - 1; i++) th.push_back(0.05 + 0.9 * r.unit()); std::sort(th.begin(), th.end()); th.push_back(1);
    for (int i = 0; i < n; i++) tab.push_back(V{th[i], r.unit(), r.unit()});
    tables.push_back(tab);
    VV tc(3, V(n)); for (int i = 0; i < n; i++) for (int j = 0; j < 3; j++) tc[j][i] = tab[i][j];
    tmats.push_back(pack(tc, tmems[t]));
  }
  RocOptions roc; roc.Pessimistic = r.chance(0.2);
  if (r.chance(0.25)) { roc.LowerThreshold = r.pick(V{0, 0.1, 0.2}); roc.UpperThreshold = r.pick(V{0.5, 0.8, 1}); }
  int itmax = r.pick(std::vector<int>{100, 100, 20, 5});
  Rng ro(r.range(0, 1 << 30));
  double tolg = ro.pick(V{0, 0, 0.5, 2}), tolf = ro.pick(V{1e-6, 1e-6, 0.1}); bool line = ro.chance(0.6); // stopping rules that stop early
  PcaAnalysisOptions pca; bool hasPca = components(r, k, pca);
  auto type = DiscreteChoiceModelType::kBinary; auto dist = probit ? DiscreteChoiceDistType::kProbit : DiscreteChoiceDistType::kLogit;
  Rec rec;
  V weights(N, 1.0); if (w) weights = cols[1];
  rec("kind", "dc")("pca", hasPca)("labels", std::vector<int>(cols[0].begin(), cols[0].end()))("weights", weights)("data", rowsC(cols))("weighted", w)("weval", w && weval)("N", N)("fix", fix)("ratio", ratio)("total", total)("maxinv", maxinv)
     ("brier", brier)("auc", auc)("freq", freq)("tables", tables)("pessimistic", roc.Pessimistic)("lower", roc.LowerThreshold)("upper", roc.UpperThreshold);
  std::vector<Raw> splits; std::string spliterr; bool guard = true;
  VV nc = numbered(cols); V nmem; auto ND = pack(nc, nmem);
  DataSplitDiscrete sp(N, pre + k + 1, 2); Mem<double> sst(sp.StorageSize, 3); std::vector<Ti> wi0(sp.WorkSizeI + 1);
  try {
    sp.Calculate(ND, sst.data(), ratio, fix);
    std::mt19937 eng(seed);
    for (int t = 0; t < total; t++) {
      sp.Shuffle(ND, wi0.data(), eng);
      auto train = colOf(sp.Sample0, pre + k), test = colOf(sp.Sample1, pre + k);
      V tmem, xmem; auto T = pack(take(cols, train), tmem); auto X = pack(take(cols, test, pre), xmem);
      Rec s; s("train", train)("test", test);
      std::string err; VV p;
      try {
        DiscreteChoiceExtended M(type, dist, T.RowsCount, pre + k, w, false, 2, false, X.RowsCount, hasPca ? &pca : nullptr);
        M.Model->Optim.IterationMax = itmax; M.Model->Optim.TolGradient = tolg; M.Model->Optim.TolFunction = tolf; M.Model->Optim.UseLineSearch = line;
        Mem<double> st(M.StorageSize, -1), wk(M.WorkSize, -2);
        RocOptions ro;
        M.Calculate(T, st.data(), wk.data(), true, &X, ro);
        p = rowsOf(M.PredProbs);
      } catch (std::exception &e) { err = e.what(); }
      s("ok", err.empty())("error", err)("p", p);
      splits.push_back(s.raw());
    }
  } catch (std::exception &e) { spliterr = e.what(); }
  rec("splits", splits)("spliterror", spliterr);
  V mem; auto D = pack(cols, mem); V copy = mem;
  int extra = r.chance(0.4) ? r.range(1, 4) : 0; // room for more observations than there are
  std::string err, err2; V res, res2; VV cost, table; int valid = -1, n1 = -1; bool listed = false; std::vector<std::string> texts;
  try {
    auto S = DiscreteChoiceSimBase::GetFromType(w, type, dist, N + extra, pre + k, 2, ratio, fix, ntab, brier, auc, freq, hasPca ? &pca : nullptr, weval);
    S->SimulationMax = total; S->Seed = seed; S->Optim.IterationMax = itmax; S->Optim.TolGradient = tolg; S->Optim.TolFunction = tolf; S->Optim.UseLineSearch = line;
    for (int t = 0; t < 2; t++) {
      Mem<double> st(S->StorageSize, -3), wk(S->WorkSize, t ? -5 : -4); Mem<Ti> wi(S->WorkSizeI, -6);
      bool cancel = false; decltype(errorSet(&DiscreteChoiceSimBase::Calculate)) errors; bool keep = r.chance(0.5);
      std::string e1;
      try { S->Calculate(D, ntab ? &tmats : nullptr, st.data(), wk.data(), wi.data(), cancel, roc, true, keep ? &errors : nullptr, maxinv); }
      catch (std::exception &e) { e1 = e.what(); }
      (t ? err2 : err) = e1;
      if (!st.ok() || !wk.ok() || !wi.ok()) guard = false;
      if (keep && !t) { listed = true; for (auto &e : errors) texts.push_back(e); }
      if (e1.empty()) {
        V x; if (brier) x.push_back(S->BrierScore); if (auc) x.push_back(S->Auc);
        if (ntab) x.insert(x.end(), S->CostRatios.Data, S->CostRatios.Data + ntab);
        if (freq) x.insert(x.end(), S->FrequencyTable.Data, S->FrequencyTable.Data + 20);
        (t ? res2 : res) = x;
        if (!t) {
          valid = S->ValidSimulationCount; n1 = S->N1;
          rec("b", brier ? S->BrierScore : 0.0)("a", auc ? S->Auc : 0.0);
          if (ntab) cost = rowsOf(S->CostRatios); if (freq) table = rowsOf(S->FrequencyTable);
        }
      }
    }
  } catch (std::exception &e) { err = e.what(); err2 = err; }
  rec("error", err)("guard", guard)("kept", same(mem, copy))("repeated", err == err2 && same(res, res2))("valid", valid)("n1", n1)("listed", listed)("texts", texts)("cost", cost)("table", table);
  rec.out();
}

int main(int argc, char **argv) {
  std::string mode = argv[1];
  uint64_t seed = strtoull(argv[2], 0, 10);
  int n = atoi(argv[3]);
  for (int i = 0; i < n; i++) {
    Rng r(seed * 1000003 + i);
    if (mode == "sur") sur1(r);
    else if (mode == "dc") dc1(r);
    else return 3;
  }
}
