// Runs the generic search engine (Searcher, SearcherReg, ModelSet) with a recording searcher whose estimations
// follow a seeded table of outcomes, and prints configuration, attempts and everything the search reports.
#include "vjson.h"
#include "searchers.h"
#include "scoring.h"
#include <algorithm>
#include <mutex>
using namespace ldt;

struct Attempt {
  int searcher;
  std::vector<int> endo, exo, cols;
  std::string out; // "ok" or the failure message as counted
  std::vector<std::vector<double>> met, mean, var; // metric x target, item x target (targets in increasing order of the model's targets)
  std::vector<int> targets;
};

struct Profile { // how outcomes are drawn
  double fail = 0.2, nanMetric = 0.1, nanAll = 0.05, ties = 0.3, big = 0.2, negOnly = 0.2;
  int signMode = 0; // 0 mixed, 1 all negative, 2 all positive
  int scaleMode = 0; // 0 unit, 1 large (weights underflow), 2 large negative, 3 huge
  bool nanVar = false;
};

// What a scheduler of the threads needs to know (harness/par_drv.cpp).
struct Gate {
  virtual ~Gate() {}
  virtual void pick(int id) = 0;                 // a model was taken up
  virtual void run(int id) = 0;                  // its estimation begins
  virtual void finish(int id) = 0;               // its outcome is stored
  virtual void torn() = 0;                       // someone else wrote into its work area
  virtual void start(SearchOptions &o) = 0;
  virtual void end() = 0;
  virtual void report(Rec &rec) = 0;
};
static Gate *gate = nullptr;

struct TableReg : public SearcherReg {
  bool entered = false;
  std::string EstimateOne(Tv *work, Ti *workI) override {
    if (!gate) return SearcherReg::EstimateOne(work, workI);
    struct Done { TableReg *t; ~Done() { if (t->entered) gate->finish(t->id); } } done{this};
    entered = false;
    gate->pick(id);
    return SearcherReg::EstimateOne(work, workI);
  }
  struct Mark {
    Tv *w; Ti *wi; int id; Tv v;
    Mark(Tv *w, Ti *wi, int id, uint64_t h) : w(w), wi(wi), id(id), v(id * 1e4 + h % 997) { if (gate) { for (int i = 0; i < 3; i++) w[i] = v + i; wi[0] = wi[1] = (Ti)v; } }
    ~Mark() { if (gate && !(w[0] == v && w[1] == v + 1 && w[2] == v + 2 && wi[0] == (Ti)v && wi[1] == (Ti)v)) gate->torn(); }
  };
  std::vector<Attempt> *log; // appended by this searcher only
  uint64_t seed;
  Profile prof;
  int id;
  TableReg(const SearchData &d, const SearchCombinations &c, SearchOptions &o, const SearchItems &it,
           const SearchMetricOptions &m, const SearchModelChecks &ch, int np, bool innerExo, const std::vector<Ti> &inner,
           std::vector<Attempt> *log, uint64_t seed, Profile p, int id)
      : SearcherReg(d, c, o, it, m, ch, np, innerExo, inner, 1), log(log), seed(seed), prof(p), id(id) {
    WorkSize = 3; WorkSizeI = 2;
  }
  std::string EstimateOneReg(Tv *work, Ti *workI, VMatrix<Tv> &metrics, VMatrix<Tv> &m1, VMatrix<Tv> &v1, VMatrix<Ti> &extra) override {
    Attempt a;
    a.searcher = id;
    a.endo = IsInnerExogenous ? CurrentIndices.Vec : InnerIndices;
    a.exo = IsInnerExogenous ? InnerIndices : CurrentIndices.Vec;
    a.cols = ColIndices;
    a.targets = TargetsPositions;
    uint64_t h = seed;
    auto se = a.endo, sx = a.exo;
    std::sort(se.begin(), se.end()); std::sort(sx.begin(), sx.end());
    for (int e : se) h = h * 1000003 + e + 7;
    h = h * 31 + 5;
    for (int e : sx) h = h * 1000003 + e + 11;
    Rng r(h);
    Mark mark(work, workI, id, h);
    if (gate) { entered = true; gate->run(id); }
    int nT = (int)TargetsPositions.size(), nM = metrics.Mat.RowsCount, n1 = m1.Mat.RowsCount;
    extra.Vec.at(0) = (Ti)(h % 97);
    a.met.assign(nM, std::vector<double>(nT, NAN));
    a.mean.assign(n1, std::vector<double>(nT, NAN));
    a.var = a.mean;
    if (r.chance(prof.fail)) {
      int k = r.range(0, 5);
      static const char *names[] = {"msgA", "msgB", "exA", "strA", "chA", "unknown error occurred"};
      a.out = names[k];
      log->push_back(a);
      switch (k) {
      case 0: return "msgA";
      case 1: return "msgB";
      case 2: throw std::logic_error("exA");
      case 3: throw std::string("strA");
      case 4: throw (const char *)"chA";
      default: throw 42;
      }
    }
    bool all = r.chance(prof.nanAll);
    bool any = false;
    for (int i = 0; i < nM; i++)
      for (int j = 0; j < nT; j++) {
        bool nan = all || r.chance(prof.nanMetric);
        double x = prof.ties > 0 && r.chance(prof.ties) ? r.range(0, 3) / 4.0 : r.unit() * 4;
        bool unit01 = false;
        int mi = i < (int)pMetrics->MetricsIn.size() ? (int)pMetrics->MetricsIn.at(i) : -1;
        int mo = mi >= 0 ? -1 : (int)pMetrics->MetricsOut.at(i - pMetrics->MetricsIn.size());
        if (mi == (int)GoodnessOfFitType::kAuc || mi == (int)GoodnessOfFitType::kFrequencyCost || mo == (int)ScoringType::kAuc ||
            mo == (int)ScoringType::kFrequencyCost || mo == (int)ScoringType::kSign || mo == (int)ScoringType::kDirection)
          unit01 = true;
        if (unit01) x = x / 4;
        else if (prof.scaleMode == 1) x = 2000 + 100 * x;
        else if (prof.scaleMode == 2) x = -500 - 10 * x;
        else if (prof.scaleMode == 3) x = 1e7 * (x - 2);
        else if (prof.scaleMode == 4) x = 1e-9 * x;
        else if (prof.scaleMode == 5) x = 200 + 100 * x; // tiny weights
        else if (prof.scaleMode == 6) x = x < 2 ? x : 3000; // some weights are zero
        if (nan) x = NAN; else any = true;
        a.met[i][j] = x;
        metrics.Mat.Set0(i, j, x);
      }
    for (int c = 0; c < n1; c++)
      for (int j = 0; j < nT; j++) {
        if (r.chance(0.35)) continue; // not in this model
        double m = r.unit() * 4 - 2;
        if (prof.signMode == 1) m = -0.5 - std::fabs(m) * 10;
        if (prof.signMode == 2) m = 0.5 + std::fabs(m) * 10;
        double v = prof.signMode ? 0.001 + 0.01 * r.unit() : 0.05 + r.unit();
        if (r.chance(0.04)) v *= 1e-6;
        a.mean[c][j] = m; a.var[c][j] = v;
        m1.Mat.Set0(c, j, m); v1.Mat.Set0(c, j, v);
      }
    a.out = any ? "ok" : "allnan";
    log->push_back(a);
    return "";
  }
};

static std::vector<std::vector<int>> sorted2(std::vector<std::vector<int>> v) { return v; }

static Raw keep(const EstimationKeep &k) {
  Rec r;
  r("metric", k.Metric)("weight", k.Weight)("mean", k.Mean)("var", k.Variance)("endo", k.Endogenous)("exo", k.Exogenouses)("extra", k.Extra);
  return r.raw();
}
static std::vector<Raw> keeps(const std::vector<std::shared_ptr<EstimationKeep>> &v) {
  std::vector<Raw> r;
  for (auto &k : v) r.push_back(keep(*k));
  return r;
}
inline std::string jv(const std::vector<Raw> &v) {
  std::string r = "[";
  for (size_t i = 0; i < v.size(); i++) { if (i) r += ","; r += v[i].s; }
  return r + "]";
}

static Raw attemptJson(const Attempt &a, bool values) {
  Rec r;
  r("s", a.searcher)("endo", a.endo)("exo", a.exo)("cols", a.cols)("out", a.out)("targets", a.targets);
  if (values) r("met", a.met)("mean", a.mean)("var", a.var);
  return r.raw();
}

struct Config {
  std::vector<std::vector<int>> parts, inner;
  std::vector<int> sizes;
  int fix = 0, T = 1, numEndo = 1, numExo = 1, K = 0, len1 = 0;
  bool innerExo = false, weight = false, all = true, incl = false, mixture = false, parallel = false;
  double mult = 0;
  std::vector<double> points;
  std::vector<GoodnessOfFitType> in;
  std::vector<ScoringType> out;
  std::map<GoodnessOfFitType, std::vector<Tv>> minIn;
  std::map<ScoringType, std::vector<Tv>> minOut;
};

static const std::vector<GoodnessOfFitType> INS = {GoodnessOfFitType::kAic, GoodnessOfFitType::kSic, GoodnessOfFitType::kBrier, GoodnessOfFitType::kAuc, GoodnessOfFitType::kFrequencyCost};
static const std::vector<ScoringType> OUTS = {ScoringType::kSign, ScoringType::kDirection, ScoringType::kMae, ScoringType::kMape, ScoringType::kRmse, ScoringType::kRmspe, ScoringType::kCrps, ScoringType::kAuc, ScoringType::kFrequencyCost, ScoringType::kBrier};

static Config randomConfig(Rng &r, const std::string &mode) {
  Config c;
  c.innerExo = r.chance(0.5);
  c.numEndo = r.size(1, 4, 5, 6);
  c.numExo = r.size(1, 4, 5, 7);
  c.T = r.range(1, c.numEndo);
  c.weight = r.chance(0.25);
  int n = c.innerExo ? c.numEndo : c.numExo; // outer items
  int off = c.innerExo ? 0 : c.numEndo;
  std::vector<int> items;
  for (int i = 0; i < n; i++) items.push_back(off + i);
  if (r.chance(0.4)) r.shuffle(items);
  // cut into partitions
  std::vector<std::vector<int>> parts;
  for (int x : items) {
    if (parts.empty() || r.chance(0.6)) parts.push_back({});
    parts.back().push_back(x);
  }
  if (r.chance(0.2) && parts.size() > 1) parts.pop_back(); // not every variable need be in a partition
  c.parts = parts;
  int np = (int)parts.size();
  std::vector<int> all;
  for (int k = 1; k <= np; k++) if (r.chance(0.6)) all.push_back(k);
  if (all.empty()) all.push_back(r.range(1, np));
  if (r.chance(0.1)) r.shuffle(all);
  c.fix = r.chance(0.5) ? 0 : r.range(0, *std::min_element(all.begin(), all.end()));
  c.sizes = all;
  int ni = c.innerExo ? c.numExo : c.numEndo, ioff = c.innerExo ? c.numEndo : 0;
  int groups = r.range(1, 3);
  for (int g = 0; g < groups; g++) {
    std::vector<int> v;
    for (int i = 0; i < ni; i++) if (r.chance(0.5)) v.push_back(ioff + i);
    if (v.empty() && !(c.innerExo && r.chance(0.5))) v.push_back(ioff + r.range(0, ni - 1));
    if (std::find(c.inner.begin(), c.inner.end(), v) == c.inner.end()) c.inner.push_back(v);
  }
  if (!c.innerExo) { // an inner group with no target is not a search
    std::vector<std::vector<int>> ok;
    for (auto &g : c.inner) if (std::any_of(g.begin(), g.end(), [&](int e) { return e < c.T; })) ok.push_back(g);
    if (ok.empty()) ok.push_back({0});
    c.inner = ok;
  }
  // metrics
  for (auto m : INS) if (r.chance(0.3)) c.in.push_back(m);
  for (auto m : OUTS) if (r.chance(0.15)) c.out.push_back(m);
  if (c.in.empty() && c.out.empty()) c.in.push_back(r.pick(INS));
  if (r.chance(0.3)) r.shuffle(c.in);
  c.len1 = r.chance(0.6) ? r.range(1, 3) : 0;
  c.K = r.chance(0.8) ? r.size(1, 6, 12, 40, 0.08) : 0;
  c.incl = r.chance(0.7);
  c.mixture = r.chance(0.6);
  if (r.chance(0.6)) c.mult = r.range(1, 4) / 2.0;
  if (r.chance(0.6)) for (int i = r.range(1, 3); i > 0; i--) c.points.push_back(r.range(-8, 8) / 4.0);
  for (auto m : INS) if (r.chance(0.7)) { std::vector<Tv> v; for (int t = 0; t < c.T; t++) v.push_back(r.range(-4, 4) / 2.0); c.minIn[m] = v; }
  for (auto m : OUTS) if (r.chance(0.7)) { std::vector<Tv> v; for (int t = 0; t < c.T; t++) v.push_back(r.range(-4, 4) / 2.0); c.minOut[m] = v; }
  return c;
}

static std::string metricName(const Config &c, int i) {
  return i < (int)c.in.size() ? std::string("in:") + ToString(c.in[i], true) : std::string("out:") + ToString(c.out[i - c.in.size()], true);
}

static void runSet(const Config &c, uint64_t seed, const Profile &prof, const std::string &site, bool brief) {
  SearchData data;
  data.NumEndo = c.numEndo; data.NumExo = c.numExo; data.HasIntercept = false; data.HasWeight = c.weight;
  SearchCombinations comb;
  comb.Sizes = c.sizes; comb.Partitions = c.parts; comb.NumFixPartitions = c.fix; comb.NumFixItems = 0; comb.InnerGroups = c.inner; comb.NumTargets = c.T;
  SearchOptions opt; opt.Parallel = c.parallel;
  SearchMetricOptions met; met.MetricsIn = c.in; met.MetricsOut = c.out; met.SimFixSize = 2; met.TrainRatio = 0.5; met.Seed = 1;
  met.MinMetricIn = c.minIn; met.MinMetricOut = c.minOut;
  SearchModelChecks chk;
  SearchItems it; it.KeepModelEvaluations = true; it.KeepAll = c.all; it.KeepInclusionWeights = c.incl; it.KeepBestCount = c.K; it.KeepMixture = c.mixture;
  it.CdfsAt = c.points; it.ExtremeBoundsMultiplier = c.mult; it.Length1 = c.len1; it.LengthTargets = c.T;
  met.Update(true, false); chk.Update(met); it.Update(met, c.T, c.numEndo, c.numExo);
  std::vector<Searcher *> s;
  std::vector<std::unique_ptr<std::vector<Attempt>>> logs;
  Rec rec;
  std::vector<std::string> names; std::vector<bool> pos;
  int nM = (int)(c.in.size() + c.out.size());
  std::vector<std::vector<double>> mins;
  for (int i = 0; i < nM; i++) {
    names.push_back(metricName(c, i));
    std::vector<double> v(c.T, 0.0);
    if (i < (int)c.in.size()) { if (c.minIn.count(c.in[i])) v = c.minIn.at(c.in[i]); }
    else if (c.minOut.count(c.out[i - c.in.size()])) v = c.minOut.at(c.out[i - c.in.size()]);
    mins.push_back(v);
  }
  rec("site", site)("parts", c.parts)("sizes", c.sizes)("fix", c.fix)("inner", c.inner)("T", c.T)("innerExo", c.innerExo)("numEndo", c.numEndo)
     ("numExo", c.numExo)("hasW", c.weight)("K", c.K)("metrics", names)("mins", mins)("len1", c.len1)("incl", c.incl)("mixture", c.mixture)("mult", c.mult)("points", c.points);
  std::string err;
  std::vector<Attempt> tried;
  SearcherModelingInfo info;
  std::vector<Raw> res0, res1;
  std::vector<std::vector<Raw>> fails;
  try {
    int id = 0;
    for (int k : c.sizes)
      for (auto &g : c.inner) {
        logs.emplace_back(new std::vector<Attempt>());
        s.push_back(new TableReg(data, comb, opt, it, met, chk, k, c.innerExo, g, logs.back().get(), seed, prof, id++));
      }
    ModelSet ms(s, data, comb, opt, it, met, chk);
    std::unique_ptr<Tv[]> w(new Tv[ms.WorkSize + 1]);
    std::unique_ptr<Ti[]> wi(new Ti[ms.WorkSizeI + 1]);
    if (gate) gate->start(opt);
    ms.Start(w.get(), wi.get());
    if (gate) gate->end();
    for (auto &l : logs) for (auto &a : *l) tried.push_back(a);
    std::vector<SearcherSummary *> l0, l1, l2;
    ms.CombineInfo(info, l0, l1, l2);
    if (!brief) {
      for (int m = 0; m < nM; m++)
        for (int t = 0; t < c.T; t++) {
          std::vector<std::shared_ptr<EstimationKeep>> all, best;
          ms.CombineAll(m, t, 0, l0, all);
          ms.CombineBests(m, t, 0, l0, best);
          Rec r;
          r("m", m)("t", t)("all", keeps(all))("bests", keeps(best));
          std::vector<std::vector<double>> inc;
          if (c.incl)
            for (int i = 0; i < c.numEndo + c.numExo; i++) {
              RunningMoments<1, true, false, Tv> x;
              ms.CombineInclusionWeights(m, t, i, l0, x);
              inc.push_back({x.GetMean(), (double)x.Count});
            }
          r("incl", inc);
          res0.push_back(r.raw());
          for (int i = 0; i < c.len1; i++) {
            std::vector<std::shared_ptr<EstimationKeep>> best1;
            ms.CombineBests(m, t, i, l1, best1);
            Rec q;
            q("m", m)("t", t)("c", i)("bests", keeps(best1));
            std::vector<std::vector<double>> cdf;
            for (int p = 0; p < (int)c.points.size(); p++) {
              RunningMoments<1, true, true, Tv> x;
              ms.CombineCdfAt(m, t, i, p, l1, x);
              cdf.push_back({x.GetMean(), (double)x.Count, x.SumWeights});
            }
            q("cdf", cdf);
            std::vector<double> b;
            if (c.mult > 0) { double lo, hi; ms.CombineExtremeBounds(m, t, i, l1, lo, hi); b = {lo, hi}; }
            q("bounds", b);
            std::vector<double> mx;
            if (c.mixture) {
              RunningMoments<4, true, true, Tv> x;
              ms.CombineMixture(m, t, i, l1, x);
              mx = {x.GetMean(), x.GetVariance(), x.GetSkewness(), x.GetKurtosis(), (double)x.Count, x.SumWeights};
            }
            q("mix", mx);
            res1.push_back(q.raw());
          }
        }
    }
  } catch (std::exception &e) { err = e.what(); }
  std::vector<Raw> at;
  for (auto &a : tried) at.push_back(attemptJson(a, !brief));
  std::vector<Raw> fl;
  for (auto &f : info.FailsCount) {
    std::string n = f.first.find("all metrics are NaN") != std::string::npos ? "allnan" : f.first;
    Rec r; r("msg", n)("n", f.second); fl.push_back(r.raw());
  }
  rec("error", err)("tried", at)("expected", info.ExpectedCount)("searched", info.SearchedCount)("fails", fl)("res", res0)("res1", res1)("values", !brief);
  if (gate) gate->report(rec);
  rec.out();
  for (auto x : s) delete x;
}

// The plain enumeration of one searcher over an exhaustive family of partition shapes.
struct EnumSearcher : public Searcher {
  std::vector<std::vector<int>> visited;
  using Searcher::Searcher;
  std::string EstimateOne(Tv *, Ti *) override { visited.push_back(CurrentIndices.Vec); return ""; }
};
static void runEnum(const std::vector<std::vector<int>> &parts, int fix, int k, int T, bool check) {
  SearchData data; data.NumEndo = 20; data.NumExo = 20; data.HasIntercept = data.HasWeight = false;
  SearchCombinations comb; comb.Sizes = {k}; comb.Partitions = parts; comb.NumFixPartitions = fix; comb.NumFixItems = 0; comb.NumTargets = T;
  SearchOptions opt; SearchMetricOptions met; met.MetricsIn = {GoodnessOfFitType::kAic}; SearchModelChecks chk; SearchItems it;
  met.Update(true, false); chk.Update(met); it.Update(met, T, 20, 20);
  Rec rec; rec("site", "enum")("parts", parts)("fix", fix)("k", k)("T", T)("check", check);
  std::vector<std::vector<int>> vis; int count = -1, counter = -1; std::string err;
  try {
    EnumSearcher s(data, comb, opt, it, met, chk, k, check);
    count = s.GetCount();
    s.Start(nullptr, nullptr);
    vis = s.visited; counter = s.Counter;
  } catch (std::exception &e) { err = e.what(); }
  rec("visited", vis)("count", count)("counter", counter)("error", err);
  rec.out();
}

#ifndef SEARCH_NO_MAIN
int main(int argc, char **argv) {
  std::string mode = argc > 1 ? argv[1] : "set";
  uint64_t seed = argc > 2 ? strtoull(argv[2], 0, 10) : 1;
  int n = argc > 3 ? atoi(argv[3]) : 50;
  if (mode == "enum") {
    // all shapes with up to 4 partitions of up to 3 items (thorough: 5 partitions), thinned to about n by the seed
    Rng r(seed);
    int maxp = argc > 4 ? atoi(argv[4]) : 4;
    std::vector<std::function<void()>> jobs;
    for (int np = 1; np <= maxp; np++) {
      int shapes = 1; for (int i = 0; i < np; i++) shapes *= 3;
      for (int sh = 0; sh < shapes; sh++) {
        std::vector<int> sz; int x = sh; for (int i = 0; i < np; i++) { sz.push_back(1 + x % 3); x /= 3; }
        int tot = 0; for (int z : sz) tot += z;
        for (int order = 0; order < 2; order++) {
          std::vector<int> items; for (int i = 0; i < tot; i++) items.push_back(i);
          if (order) r.shuffle(items);
          std::vector<std::vector<int>> parts; int p = 0;
          for (int z : sz) { parts.push_back({}); for (int i = 0; i < z; i++) parts.back().push_back(items[p++]); }
          for (int k = 1; k <= np; k++)
            for (int fix = 0; fix <= k; fix++)
              for (int c = 0; c < 2; c++) {
                int T = c ? r.range(1, tot) : tot;
                jobs.push_back([=] { runEnum(parts, fix, k, T, c == 1); });
              }
        }
      }
    }
    double keepp = (double)n / jobs.size();
    for (size_t i = 0; i < jobs.size(); i++) if (r.chance(keepp)) jobs[i]();
    return 0;
  }
  for (int i = 0; i < n; i++) {
    Rng r(seed * 100003 + i);
    Config c = randomConfig(r, mode);
    Profile p;
    p.scaleMode = r.chance(0.4) ? 0 : r.range(0, 4);
    p.signMode = r.range(0, 2);
    if (mode == "count") { p.fail = r.chance(0.3) ? 0 : 0.3; runSet(c, seed * 31 + i, p, "count", true); continue; }
    if (mode == "agg") { p.scaleMode = r.chance(0.6) ? 0 : r.range(4, 6); p.fail = r.chance(0.5) ? 0 : 0.2; }
    if (mode == "best") { if (c.K == 0 && r.chance(0.8)) c.K = r.range(1, 4); p.fail = 0.1; }
    if (mode == "fail") { p.fail = r.unit() * 0.8; p.nanMetric = r.unit() * 0.5; p.nanAll = 0.2; }
    runSet(c, seed * 31 + i, p, mode, false);
  }
  return 0;
}
#endif
