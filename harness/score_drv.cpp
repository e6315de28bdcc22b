// Records of ROC curves and cost tables.
#include "scoring.h"
#include "vjson.h"
using namespace ldt;
using std::vector;

template <bool W, bool C> void roc1(Rng &r) {
  int n = r.size(2, 12, 17, 60);
  vector<double> y, s, w, costs;
  int grid = r.pick(vector<int>{2, 4, 10, 1000});
  for (int i = 0; i < n; i++) {
    y.push_back(r.range(0, 1));
    s.push_back(r.chance(0.1) ? r.range(0, 1) : (double)r.range(0, grid) / grid);
    w.push_back(r.chance(0.1) ? 0 : r.chance(0.3) ? 1 : r.unit() * 3 + 0.01);
    costs.push_back(r.chance(0.3) ? 1 : r.unit() * 4);
  }
  // both classes with some weight
  int a = r.range(0, n - 1), b = (a + 1 + r.range(0, n - 2)) % n;
  y[a] = 0; y[b] = 1;
  if (w[a] == 0) w[a] = 1;
  if (w[b] == 0) w[b] = 0.5;
  RocOptions o;
  if (r.chance(0.4)) {
    double l = r.chance(0.25) ? 0 : (double)r.range(0, 10) / 10, u = r.chance(0.25) ? 1 : (double)r.range(0, 10) / 10;
    if (r.chance(0.2)) { l = r.unit(); u = r.unit(); }
    if (l > u && r.chance(0.8)) std::swap(l, u);
    if (l == u) u = u < 1 ? 1 : (l = 0.3, 1);
    if (r.chance(0.04)) u = 1.5;
    if (r.chance(0.04)) l = -0.25;
    o.LowerThreshold = l;
    o.UpperThreshold = u;
  }
  o.NormalizePoints = r.chance(0.6);
  o.Pessimistic = r.chance(0.4);
  o.Epsilon = r.chance(0.6) ? 0 : r.pick(vector<double>{1e-12, 0.013, 0.15, 0.3});
  vector<double> cm{r.unit() * 3, -r.unit() * 2, -r.unit() * 2, r.unit() * 3};   // columns first
  if (r.chance(0.1)) cm = {1, 0, 0, 1};
  if (r.chance(0.1)) cm[r.range(0, 3)] *= -1;
  bool perObs = r.chance(0.7);
  if (C) {
    o.CostMatrix.SetData(cm.data(), 2, 2);
    if (perObs) o.Costs.SetData(costs.data(), n, 1);
  }
  if (!C || !perObs) costs.assign(n, 1.0);
  Matrix<Tv> ym(y.data(), n, 1), sm(s.data(), n, 1), wm(w.data(), n, 1);
  ROC<W, C> roc(n);
  std::string err;
  double first = NAN;
  try {
    roc.Calculate(ym, sm, W ? &wm : nullptr, o);
    first = roc.Result;
    if (r.chance(0.3)) roc.Calculate(ym, sm, W ? &wm : nullptr, o);   // again with the same object
  } catch (std::exception &e) { err = e.what(); }
  vector<vector<double>> pts;
  for (auto &p : roc.Points) pts.push_back({std::get<0>(p), std::get<1>(p)});
  if (!W) w.assign(n, 1.0);
  Rec()("kind", "roc")("y", y)("scores", s)("w", w)("hasCost", C)("costs", costs)("cm", vector<vector<double>>{{cm[0], cm[2]}, {cm[1], cm[3]}})
      ("lower", o.LowerThreshold)("upper", o.UpperThreshold)("normalize", o.NormalizePoints)("pessimistic", o.Pessimistic)("eps", o.Epsilon)
      ("auc", roc.Result)("auc1", first)("points", pts)("error", err != "").out();
}
template <bool W> void cost1(Rng &r) {
  int k = r.range(2, 4), n = r.size(1, 10, 17, 60), m = r.range(1, 3);
  vector<vector<double>> store;
  vector<Matrix<Tv>> tables;
  vector<vector<vector<double>>> trows;
  for (int t = 0; t < m; t++) {
    int rows = r.range(2, 5);
    vector<double> th;
    for (int i = 0; i + 1 < rows; i++) th.push_back((double)(r.range(0, 2) + 20 * (i + 1) / rows) / 23);
    std::sort(th.begin(), th.end());
    for (size_t i = 1; i < th.size(); i++) if (th[i] <= th[i - 1]) th[i] = th[i - 1] + 0.001;
    th.push_back(1);
    vector<double> c(rows * (k + 1));
    trows.push_back({});
    for (int i = 0; i < rows; i++) {
      trows[t].push_back({th[i]});
      c[i] = th[i];
      for (int j = 0; j < k; j++) { c[(j + 1) * rows + i] = r.chance(0.3) ? 0 : r.chance(0.5) ? r.range(-3, 9) : r.unit() * 5; trows[t].back().push_back(c[(j + 1) * rows + i]); }
    }
    store.push_back(c);
  }
  for (int t = 0; t < m; t++) tables.push_back(Matrix<Tv>(store[t].data(), (Ti)trows[t].size(), k + 1));
  vector<double> y, w, p(n * k);
  for (int i = 0; i < n; i++) {
    y.push_back(i > 0 && r.chance(0.1) ? NAN : r.range(0, k - 1));
    w.push_back(i > 0 && r.chance(0.1) ? 0 : r.unit() * 2 + 0.1);
    for (int j = 0; j < k; j++) {
      double x = r.chance(0.1) ? r.range(0, 1) : r.unit();
      if (r.chance(0.35)) { auto &t = trows[r.range(0, m - 1)]; x = t[r.range(0, (int)t.size() - 1)][0]; }
      p[j * n + i] = x;
    }
  }
  Matrix<Tv> ym(y.data(), n, 1), pm(p.data(), n, k), wm(w.data(), n, 1);
  FrequencyCost<W> f(m);
  vector<double> st(f.StorageSize + 4, -77.5);
  std::string err;
  try {
    f.Calculate(tables, ym, pm, W ? &wm : nullptr, st.data());
    if (r.chance(0.3)) f.Calculate(tables, ym, pm, W ? &wm : nullptr, st.data());
  } catch (std::exception &e) { err = e.what(); }
  vector<double> sums, counts;
  for (int t = 0; t < m; t++) { sums.push_back(f.CostSums.Data[t]); counts.push_back(f.CostCounts.Data[t]); }
  vector<vector<double>> prob;
  for (int i = 0; i < n; i++) { prob.push_back({}); for (int j = 0; j < k; j++) prob.back().push_back(p[j * n + i]); }
  if (!W) w.assign(n, 1.0);
  Rec()("kind", "cost")("tables", trows)("y", y)("w", w)("p", prob)("sums", sums)("counts", counts)("average", f.AverageRatio)
      ("inside", st[f.StorageSize] == -77.5)("error", err).out();
}
static void check1(Rng &r) {
  int k = r.range(2, 4), rows = r.range(1, 4), cols = r.chance(0.85) ? k + 1 : r.range(1, 6);
  vector<double> c(rows * cols);
  for (auto &x : c) x = r.range(0, 4);
  for (int i = 0; i < rows; i++) c[i] = (double)(i + 1) / rows;
  if (r.chance(0.5)) c[r.range(0, rows - 1)] = r.pick(vector<double>{0, 1, 0.5, -0.1, 1.1, NAN, 0.9});
  Matrix<Tv> t(c.data(), rows, cols);
  vector<double> th(c.begin(), c.begin() + rows);
  bool rej = false, rej2 = false;
  try { FrequencyCost<true>::Check(t, k); } catch (std::exception &e) { rej = true; }
  try { FrequencyCost<false>::Check(t, k); } catch (std::exception &e) { rej2 = true; }
  Rec()("kind", "check")("th", th)("rows", rows)("cols", cols)("k", k)("rejected", rej)("rejected2", rej2).out();
}

static const vector<GoodnessOfFitType> INS = {GoodnessOfFitType::kAic, GoodnessOfFitType::kSic, GoodnessOfFitType::kBrier, GoodnessOfFitType::kAuc, GoodnessOfFitType::kFrequencyCost};
static const vector<ScoringType> OUTS = {ScoringType::kSign, ScoringType::kDirection, ScoringType::kMae, ScoringType::kMape, ScoringType::kRmse, ScoringType::kRmspe, ScoringType::kCrps, ScoringType::kAuc, ScoringType::kFrequencyCost, ScoringType::kBrier};
// the documented names
static const vector<std::string> INN = {"aic", "sic", "brierIn", "aucIn", "frequencyCostIn"};
static const vector<std::string> OUTN = {"sign", "direction", "mae", "mape", "rmse", "rmspe", "crps", "aucOut", "frequencyCostOut", "brierOut"};
static std::string lower(std::string s) { for (auto &c : s) c = tolower(c); return s; }
// name -> type -> name, in every form a caller uses
static void names1(Rng &r) {
  for (size_t i = 0; i < INS.size(); i++) {
    for (auto q : {INN[i], lower(INN[i]), std::string(ToString(INS[i], true))}) {
      int got = -1; try { got = (int)FromString_GoodnessOfFitType(q.c_str()); } catch (std::exception &) {}
      std::string back = "none"; if (got >= 0) back = ToString((GoodnessOfFitType)got, true);
      Rec()("kind", "name")("side", "in")("name", q)("expected", INN[i])("printed", back)("right", got == (int)INS[i]).out();
    }
  }
  for (size_t i = 0; i < OUTS.size(); i++)
    for (auto q : {OUTN[i], lower(OUTN[i]), std::string(ToString(OUTS[i], true))}) {
      int got = -1; try { got = (int)FromString_ScoringType(q.c_str()); } catch (std::exception &) {}
      std::string back = "none"; if (got >= 0) back = ToString((ScoringType)got, true);
      Rec()("kind", "name")("side", "out")("name", q)("expected", OUTN[i])("printed", back)("right", got == (int)OUTS[i]).out();
    }
  for (auto q : {"", "a", "xyz", "r", "1aic", "mean", "error"}) {
    bool in = true, out = true;
    try { FromString_GoodnessOfFitType(q); } catch (std::exception &) { in = false; }
    try { FromString_ScoringType(q); } catch (std::exception &) { out = false; }
    Rec()("kind", "unknown")("name", std::string(q))("in", in)("out", out).out();
  }
}
// weights of a list of metric values, and back
static void weight1(Rng &r) {
  bool in = r.chance(0.4);
  size_t i = r.range(0, (int)(in ? INS.size() : OUTS.size()) - 1);
  std::string name = in ? INN[i] : OUTN[i];
  bool unit = name.rfind("auc", 0) == 0 || name.rfind("freq", 0) == 0 || name == "sign" || name == "direction";
  double loc = r.pick(vector<double>{0, 0, 1, -5, 100, 1000, -200}), sc = r.pick(vector<double>{1, 0.01, 10, 100});
  if (unit) { loc = 0; sc = 1; }
  int n = r.range(2, 6);
  vector<double> x, w, b;
  for (int k = 0; k < n; k++) x.push_back(r.chance(0.2) && k ? x[k - 1] : r.chance(0.1) ? loc : loc + sc * r.unit());
  double mn = r.chance(0.3) ? loc : r.chance(0.5) ? *std::min_element(x.begin(), x.end()) : loc + sc * (r.unit() - 0.5);
  bool pos, threw = false;
  for (double v : x) {
    double q = in ? GoodnessOfFit::ToWeight(INS[i], v, mn) : Scoring::ToWeight(OUTS[i], v, mn);
    w.push_back(q);
    b.push_back(in ? GoodnessOfFit::FromWeight(INS[i], q, mn) : Scoring::FromWeight(OUTS[i], q, mn));
  }
  pos = in ? GoodnessOfFit::IsPositiveOriented(INS[i]) : Scoring::IsPositiveOriented(OUTS[i]);
  bool variance = in ? false : Scoring::RequiresVariance(OUTS[i]);
  Rec()("kind", "weight")("name", std::string(in ? "in:" : "out:") + name)("x", x)("min", mn)("w", w)("back", b)("positive", pos)("variance", variance).out();
}
static void crps1(Rng &r) {
  double m = r.pick(vector<double>{0, 0, 1, -3, 2.5}), s = r.chance(0.1) ? 0 : r.pick(vector<double>{1, 0.1, 2, 0.5}) * (0.5 + r.unit());
  double y = m + (s > 0 ? s : 1) * (r.unit() * 6 - 3);
  Rec()("kind", "crps")("y", y)("m", m)("s", s)("log", false)("value", Scoring::GetScoreCrpsNormal(y, m, s)).out();
  double ml = r.unit() * 2 - 1, sl = 0.1 + r.unit();
  double yl = std::exp(ml + sl * (r.unit() * 4 - 2));
  Rec()("kind", "crps")("y", yl)("m", ml)("s", sl)("log", true)("value", Scoring::GetScoreCrpsLogNormal(yl, ml, sl)).out();
}
int main(int argc, char **argv) {
  std::string mode = argv[1];
  Rng r(atoi(argv[2]) * 17 + mode.size());
  int n = atoi(argv[3]);
  for (int i = 0; i < n; i++) {
    if (mode == "roc") switch (i % 4) { case 0: roc1<true, true>(r); break; case 1: roc1<true, false>(r); break; case 2: roc1<false, true>(r); break; default: roc1<false, false>(r); }
    else if (mode == "cost") switch (i % 3) { case 0: cost1<true>(r); break; case 1: cost1<false>(r); break; default: check1(r); }
    else if (mode == "metric") { if (i == 0) names1(r); else if (i % 4 == 0) crps1(r); else weight1(r); }
    else return 3;
  }
}
