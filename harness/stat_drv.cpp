// Records of clustering, grouping, correlations, distances, ranks and descriptive statistics.
#include "array.h"
#include "clustering.h"
#include "correlation.h"
#include "matrix.h"
#include "matrix_utils.h"
#include "statistics.h"
#include "vjson.h"
#include <cstring>
#include <numeric>
using namespace ldt;
using std::string;
using std::vector;

static const double kMark = -987654.25;
// Storage with a guard zone; every cell starts as a mark.
struct Guarded {
  vector<double> v;
  size_t n;
  Guarded(size_t n) : v(n + 8, kMark), n(n) {}
  double *data() { return v.data(); }
  bool ok() const { for (size_t i = n; i < v.size(); i++) if (v[i] != kMark) return false; return true; }
};
typedef vector<vector<double>> Cols;
static vector<double> flat(const Cols &c) { vector<double> d; for (auto &x : c) d.insert(d.end(), x.begin(), x.end()); return d; }
static bool same(const vector<double> &a, const vector<double> &b) { return a.size() == b.size() && (a.empty() || std::memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0); }
static Cols rowsOf(const Matrix<Tv> &m) {
  Cols r;
  for (Ti i = 0; i < m.RowsCount; i++) { r.push_back({}); for (Ti j = 0; j < m.ColsCount; j++) r.back().push_back(m.Get0(i, j)); }
  return r;
}
static vector<double> vec(const Matrix<Tv> &m) { return vector<double>(m.Data, m.Data + m.length()); }

// values of different kinds: integers with ties, reals, far from zero, large or small scale
static double value(Rng &r, int kind) {
  switch (kind) {
  case 0: return r.range(-3, 3);
  case 1: return r.range(-1000, 1000) / 8.0;
  case 2: return r.normal();
  case 3: return 1e6 + r.range(0, 100);
  default: return r.normal() * 1e-5;
  }
}
static Cols data(Rng &r, int n, int m, double nan, bool related) {
  Cols c;
  for (int j = 0; j < m; j++) {
    c.push_back({});
    int kind = r.range(0, 4);
    int like = related && j > 0 && r.chance(0.5) ? r.range(0, j - 1) : -1;
    double a = r.chance(0.5) ? 1 : -r.range(1, 3), b = r.chance(0.5) ? 0 : r.range(-5, 5), e = r.chance(0.4) ? 0 : (r.chance(0.5) ? 0.01 : 0.5);
    for (int i = 0; i < n; i++) c[j].push_back(like >= 0 ? a * c[like][i] + b + e * r.normal() : value(r, kind));
  }
  for (auto &x : c) for (auto &v : x) if (r.chance(nan)) v = NAN;
  return c;
}

// ---------------------------------------------------------------- clusters
static const HClusterLinkage links[] = {HClusterLinkage::kSingle, HClusterLinkage::kComplete, HClusterLinkage::kAverageU, HClusterLinkage::kAverageW, HClusterLinkage::kWard};
static const char *linkNames[] = {"single", "complete", "upgma", "wpgma", "ward"};

static void oneCluster(int link, int n, const vector<double> &pairs) {
  auto d = pairs; // (0,1), (0,2), ..., (1,2), ...
  int L = n * (n - 1) / 2;
  vector<double> store(L + 4, kMark);
  MatrixSym<false> dist(store.data(), n);
  int q = 0;
  for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) dist.Set0(i, j, d[q++]);
  Rec rec;
  rec("kind", "cluster")("site", string("cluster-") + linkNames[link])("link", linkNames[link])("n", n)("d", d);
  auto c = HClusterBase::GetFromType(links[link], n);
  string err;
  try { c->Calculate(dist); } catch (std::exception &e) { err = e.what(); }
  rec("error", err != "");
  if (err == "") {
    vector<Raw> nodes;
    for (size_t k = n; k < c->Nodes.size(); k++) {
      auto &x = *c->Nodes[k];
      nodes.push_back(Raw{"[" + jv(x.id) + "," + jv(x.idLeft) + "," + jv(x.idRight) + "," + jd(x.leftDistanceRight) + "," + jv(x.nodesWithin) + "]"});
    }
    rec("nodes", nodes);
    vector<vector<vector<int>>> groups;
    for (int k = 1; k <= n; k++) {
      vector<std::unique_ptr<vector<Ti>>> map;
      for (int i = 0; i < k; i++) map.push_back(std::make_unique<vector<Ti>>());
      c->Group(map);
      groups.push_back({});
      for (auto &m : map) groups.back().push_back(*m);
    }
    rec("groups", groups);
    if (n > 1) {
      vector<Ti> md(2 * (n - 1), -99);
      vector<double> hd(n - 1, kMark);
      Matrix<Ti> merge(md.data(), n - 1, 2);
      Matrix<Tv> heights(hd.data(), n - 1);
      vector<Ti> order;
      c->MergeR(merge, heights, order);
      vector<vector<int>> rows;
      for (int i = 0; i < n - 1; i++) rows.push_back({merge.Get0(i, 0), merge.Get0(i, 1)});
      rec("merge", rows)("heights", hd)("order", order);
    }
  }
  bool guard = true;
  for (int i = L; i < L + 4; i++) guard = guard && store[i] == kMark;
  rec("guard", guard).out();
}
static void clusters(uint64_t seed, int N) {
  Rng r(seed * 7 + 1);
  // all the distance matrices with small values: ties of every pattern
  for (int link = 0; link < 5; link++)
    for (int code = 0; code < 27; code++) oneCluster(link, 3, {1.0 + code % 3, 1.0 + (code / 3) % 3, 1.0 + code / 9});
  for (int t = 0; t < N; t++) {
    int n = r.chance(0.03) ? r.range(17, 24) : r.chance(0.8) ? r.range(1, 8) : r.range(9, 14), L = n * (n - 1) / 2;
    vector<double> d;
    int kind = r.range(0, 4);
    double scale = r.chance(0.3) ? 1000 : 1;
    vector<int> perm(L);
    std::iota(perm.begin(), perm.end(), 1);
    r.shuffle(perm);
    vector<double> x, y;
    for (int i = 0; i < n; i++) { x.push_back(kind == 3 ? r.normal() : r.range(0, 4)); y.push_back(kind == 3 ? r.normal() : r.range(0, 2)); }
    for (int i = 0, q = 0; i < n; i++)
      for (int j = i + 1; j < n; j++, q++)
        d.push_back(kind == 0 ? perm[q] : kind == 1 ? r.range(0, 3) : kind == 2 ? r.unit() * scale : std::hypot(x[i] - x[j], y[i] - y[j]) * scale);
    if (L > 0 && r.chance(0.03)) d[r.range(0, L - 1)] = NAN;
    oneCluster(t % 5, n, d);
  }
}

// ---------------------------------------------------------------- distances, groups
struct DistKind { const char *name; DistanceMethod m; CorrelationMethod c; };
static const DistKind dists[] = {
    {"euclidean", DistanceMethod::kEuclidean, CorrelationMethod::kPearson}, {"manhattan", DistanceMethod::kManhattan, CorrelationMethod::kPearson},
    {"maximum", DistanceMethod::kMaximum, CorrelationMethod::kPearson}, {"pearson", DistanceMethod::kCorrelation, CorrelationMethod::kPearson},
    {"abspearson", DistanceMethod::kAbsCorrelation, CorrelationMethod::kPearson}, {"spearman", DistanceMethod::kCorrelation, CorrelationMethod::kSpearman},
    {"absspearman", DistanceMethod::kAbsCorrelation, CorrelationMethod::kSpearman}};
static void oneGroup(Rng &r, int t) {
  int n = r.size(3, 9, 17, 40), m = r.size(1, 8, 9, 20), k = r.range(1, m);
  auto &dk = dists[t % 7];
  int link = r.range(0, 4);
  auto cols = data(r, n, m, r.chance(0.3) ? 0.1 : 0, true);
  if (r.chance(0.2)) for (auto &v : cols[r.range(0, m - 1)]) v = 2; // a constant column
  if (r.chance(0.1)) for (auto &v : cols[r.range(0, m - 1)]) v = NAN;
  double thr = r.pick(vector<double>{0, 0.001, 0.05, 0.3, 1, 5});
  auto d = flat(cols), copy = d;
  Matrix<Tv> mat(d.data(), n, m);
  auto g = GroupDataBase::GetFromType(links[link], dk.m, dk.c, n, m);
  // an earlier use of the same object must not matter
  Guarded work(g->WorkSize);
  if (r.chance(0.4)) {
    auto o = flat(data(r, n, m, 0, true));
    Matrix<Tv> other(o.data(), n, m);
    try { g->Calculate(other, work.data(), r.range(1, m), 1); } catch (std::exception &) {}
  }
  // the distances, by the library (D04 decides whether they are right)
  auto ds = DistanceBase::GetFromType(true, dk.m, dk.c, n, m);
  Guarded st(ds->StorageSize), wk(ds->WorkSize);
  ds->Calculate(mat, st.data(), wk.data());
  vector<double> dd(st.data(), st.data() + ds->StorageSize);
  vector<vector<double>> dist(m, vector<double>(m, 0));
  bool nan = false;
  for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) if (i != j) { double x = ds->Result.Get0(i, j); if (std::isnan(x)) { nan = true; x = 0; } dist[i][j] = x; }
  string err;
  try { g->Calculate(mat, work.data(), k, thr); } catch (std::exception &e) { err = e.what(); }
  Rec rec;
  rec("kind", "group")("site", string("group-") + dk.name)("link", linkNames[link])("m", m)("k", k)("thr", thr)("dist", dist)("nan", nan)("error", err);
  vector<vector<int>> groups;
  for (auto &x : g->Groups) groups.push_back(*x);
  vector<int> removed;
  for (auto &x : g->Removed) removed.push_back((int)x);
  rec("groups", groups)("removed", removed)("nanFound", g->NaNDistanceFound)("guard", work.ok() && st.ok() && wk.ok())("kept", same(d, copy)).out();
}

// ---------------------------------------------------------------- correlations
template <bool nan, CorrelationType ty, CorrelationMethod me>
static void corr(Rec &rec, const Matrix<Tv> &mat, bool adjust, bool lower, int extraRows, int extraCols) {
  Correlation<nan, ty, me> c(mat.RowsCount + extraRows, mat.ColsCount + extraCols, true);
  Guarded st(c.StorageSize), wk(c.WorkSize);
  string err;
  try { c.Calculate(mat, wk.data(), st.data(), adjust, lower); } catch (std::exception &e) { err = e.what(); }
  rec("error", err)("guard", st.ok() && wk.ok());
  if (err != "") return;
  rec("result", rowsOf(c.Result));
  Cols cnt;
  if constexpr (nan)
    for (Ti i = 0; i < mat.ColsCount; i++) { cnt.push_back({}); for (Ti j = 0; j < mat.ColsCount; j++) cnt.back().push_back(c.ResultCounts.Get0(i, j)); }
  rec("counts", cnt);
}
static void oneCorr(Rng &r) {
  int n = r.size(2, 9, 17, 60), m = r.size(1, 5, 6, 10);
  bool nan = r.chance(0.5), cov = r.chance(0.5), spear = r.chance(0.5), adj = r.chance(0.5), lower = r.chance(0.7);
  auto cols = data(r, n, m, nan ? r.pick(vector<double>{0, 0.1, 0.4}) : 0, true);
  if (r.chance(0.15)) for (auto &v : cols[r.range(0, m - 1)]) v = 3;
  auto d = flat(cols), copy = d;
  Matrix<Tv> mat(d.data(), n, m);
  int er = r.chance(0.3) ? 2 : 0, ec = r.chance(0.3) ? 1 : 0;
  Rec rec;
  rec("kind", "corr")("site", string(cov ? "cov" : "cor") + (spear ? "-spearman" : "-pearson") + (nan ? "-nan" : ""))("cols", cols)("nan", nan)("cov", cov)("spearman", spear)("adjust", adj)("lower", lower);
  auto K = CorrelationType::kCorrelation, V = CorrelationType::kCovariance;
  (void)K; (void)V;
#define C(n_, t_, m_) corr<n_, CorrelationType::t_, CorrelationMethod::m_>(rec, mat, adj, lower, er, ec)
  if (nan) { if (cov) { if (spear) C(true, kCovariance, kSpearman); else C(true, kCovariance, kPearson); } else { if (spear) C(true, kCorrelation, kSpearman); else C(true, kCorrelation, kPearson); } }
  else { if (cov) { if (spear) C(false, kCovariance, kSpearman); else C(false, kCovariance, kPearson); } else { if (spear) C(false, kCorrelation, kSpearman); else C(false, kCorrelation, kPearson); } }
  rec("kept", same(d, copy)).out();
}
static void oneDist(Rng &r, int t) {
  int n = r.size(2, 8, 17, 60), m = r.size(2, 5, 6, 10);
  bool nan = r.chance(0.5);
  auto &dk = dists[t % 7];
  auto cols = data(r, n, m, nan ? r.pick(vector<double>{0, 0.1, 0.3}) : 0, true);
  auto d = flat(cols), copy = d;
  Matrix<Tv> mat(d.data(), n, m);
  auto ds = DistanceBase::GetFromType(nan, dk.m, dk.c, n, m);
  Guarded st(ds->StorageSize), wk(ds->WorkSize);
  ds->Calculate(mat, st.data(), wk.data());
  Cols res(m, vector<double>(m, 0));
  for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) if (i != j) res[i][j] = ds->Result.Get0(i, j);
  Rec()("kind", "dist")("site", string("dist-") + dk.name + (nan ? "-nan" : ""))("cols", cols)("nan", nan)("method", dk.name)("result", res)("guard", st.ok() && wk.ok())("kept", same(d, copy)).out();
}
static void oneRank(Rng &r) {
  int n = r.size(1, 9, 17, 80), m = r.range(1, 4);
  auto cols = data(r, n, m, 0, false);
  bool asc = r.chance(0.5);
  auto d = flat(cols), copy = d;
  Matrix<Tv> mat(d.data(), n, m);
  Rank k(n + r.range(0, 2), m + r.range(0, 1));
  Guarded st(k.StorageSize), wk(k.WorkSize);
  k.Calculate(mat, wk.data(), st.data(), asc);
  Cols res;
  for (int j = 0; j < m; j++) { res.push_back({}); for (int i = 0; i < n; i++) res[j].push_back(k.Result.Get0(i, j)); }
  Rec()("kind", "rank")("site", "rank")("cols", cols)("asc", asc)("result", res)("guard", st.ok() && wk.ok())("kept", same(d, copy)).out();
}
// ---------------------------------------------------------------- one vector
static void oneDesc(Rng &r) {
  int n = r.chance(0.9) ? r.size(1, 9, 17, 80) : 0;
  auto x = data(r, n, 1, 0, false)[0];
  auto sorted = x;
  std::sort(sorted.begin(), sorted.end());
  Matrix<Tv> mat(x.data(), n), smat(sorted.data(), n);
  auto copy = x;
  Descriptive d(&mat), sd(&smat);
  bool sample = r.chance(0.5);
  Rec rec;
  rec("kind", "desc")("site", "desc")("x", x)("sample", sample)("min", d.Minimum())("max", d.Maximum())("minSorted", sd.MinimumSorted())("maxSorted", sd.MaximumSorted())("sum", d.Sum());
  auto [mean, var] = d.MeanVariance(sample);
  auto [mean2, var2, skew, kurt] = d.MeanVarianceKurtosisSkewness(sample);
  rec("mean", mean)("variance", var)("mean2", mean2)("variance2", var2)("skew", skew)("kurt", kurt)("ss", d.SumOfSquares(false))("css", d.SumOfSquares(true));
  vector<double> taus, q;
  if (n > 0) for (int i = 0; i < 5; i++) { taus.push_back(i == 0 ? 0 : i == 1 ? 1 : r.range(1, 31) / 32.0); q.push_back(sd.QuantileSorted(taus.back())); }
  rec("taus", taus)("quantiles", q);
  vector<double> tr(2, kMark);
  if (n > 1) d.RegressionTrend(tr.data());
  rec("trend", tr);
  // names of the descriptive statistics of an array
  vector<double> arr;
  for (int i = 0; i <= (int)DescriptiveType::kFirst; i++) {
    double v = kMark;
    if (n > 0 && i != (int)DescriptiveType::kSkewness && i != (int)DescriptiveType::kKurtosis) { vector<double> y = x; Array<Tv>::GetDescriptive<false>(y.data(), n, (DescriptiveType)i, v); }
    arr.push_back(v);
  }
  rec("array", arr);
  // with missing values
  auto z = x;
  for (auto &v : z) if (r.chance(0.25)) v = NAN;
  vector<double> arrNan;
  for (int i = 0; i <= (int)DescriptiveType::kFirst; i++) {
    double v = kMark;
    if (n > 0 && i != (int)DescriptiveType::kSkewness && i != (int)DescriptiveType::kKurtosis) { vector<double> y = z; Array<Tv>::GetDescriptive<true>(y.data(), n, (DescriptiveType)i, v); }
    arrNan.push_back(v);
  }
  rec("z", z)("arrayNan", arrNan)("kept", same(x, copy)).out();
}
static void oneFilter(Rng &r) {
  int n = r.size(3, 12, 17, 40), k = r.range(1, std::min(5, n));
  auto x = data(r, n, 1, 0, false)[0];
  vector<double> c;
  for (int i = 0; i < k; i++) c.push_back(r.range(-8, 8) / 4.0);
  bool centered = r.chance(0.5);
  Matrix<Tv> mat(x.data(), n), cm(c.data(), k);
  Descriptive d(&mat);
  Guarded ar(n), ma(n);
  Matrix<Tv> arm(ar.data(), n), mam(ma.data(), n);
  d.FilterAr(&cm, &arm);
  d.FilterMa(cm, centered, mam);
  Rec()("kind", "filter")("site", "filter")("x", x)("c", c)("centered", centered)("ar", vec(arm))("ma", vec(mam))("guard", ar.ok() && ma.ok()).out();
}
static void oneSeason(Rng &r) {
  int s = r.size(2, 5, 6, 12), n = r.range(2 * s + 1, 4 * s + 3);
  bool mult = r.chance(0.5);
  vector<double> x, c;
  for (int i = 0; i < n; i++) x.push_back(mult ? r.range(8, 80) / 8.0 : r.range(-80, 80) / 8.0);
  if (s % 2 == 0) { for (int i = 0; i <= s; i++) c.push_back((i == 0 || i == s ? 0.5 : 1.0) / s); } else for (int i = 0; i < s; i++) c.push_back(1.0 / s);
  Matrix<Tv> mat(x.data(), n), cm(c.data(), (Ti)c.size());
  Descriptive d(&mat);
  Guarded tr(n), se(n), re(n), me(s);
  Matrix<Tv> t(tr.data(), n), e(se.data(), n), f(re.data(), n), g(me.data(), s);
  d.SeasonalDecompositionMa(t, e, f, g, &cm, s, mult, true, true);
  Rec()("kind", "season")("site", "season")("x", x)("c", c)("s", s)("mult", mult)("trend", vec(t))("seasonal", vec(e))("resid", vec(f))("means", vec(g))("guard", tr.ok() && se.ok() && re.ok() && me.ok()).out();
}
// ---------------------------------------------------------------- a matrix
static void oneMatrix(Rng &r) {
  int n = r.size(1, 7, 17, 60), m = r.size(1, 4, 5, 12);
  bool nan = r.chance(0.5);
  auto cols = data(r, n, m, nan ? 0.2 : 0, true);
  auto d = flat(cols), copy = d;
  Matrix<Tv> mat(d.data(), n, m);
  bool sample = r.chance(0.5);
  Rec rec;
  rec("kind", "matrix")("site", string("matrix") + (nan ? "-nan" : ""))("cols", cols)("nan", nan)("sample", sample);
  vector<double> rmax, rmin, cmax, cmin;
  vector<int> rmaxI, rminI, cmaxI, cminI;
  for (Ti i = 0; i < n; i++) { Ti k = -1, l = -1; rmax.push_back(mat.MaximumInRow(i, k)); rmin.push_back(mat.MinimumInRow(i, l)); rmaxI.push_back(k); rminI.push_back(l); }
  for (Ti j = 0; j < m; j++) { Ti k = -1, l = -1; cmax.push_back(mat.MaximumInColumn(j, k)); cmin.push_back(mat.MinimumInColumn(j, l)); cmaxI.push_back(k); cminI.push_back(l); }
  rec("rmax", rmax)("rmin", rmin)("cmax", cmax)("cmin", cmin)("rmaxI", rmaxI)("rminI", rminI)("cmaxI", cmaxI)("cminI", cminI);
  rec("max", mat.Maximum())("min", mat.Minimum())("mean", mat.Mean(nan));
  double mm = kMark;
  double var = mat.Variance(mm, sample, nan);
  rec("variance", var)("meanV", mm);
  vector<double> cv, cme;
  vector<int> cc;
  for (Ti j = 0; j < m; j++) { double e = kMark; Ti c = -1; cv.push_back(mat.VarianceColumn(j, e, c, sample, nan)); cme.push_back(e); cc.push_back(c); }
  rec("cvar", cv)("cmean", cme)("ccount", cc);
  vector<double> sv(m), smu(m), a(m), b(m), e(m), f(m);
  Matrix<Tv> A(a.data(), m, 1), B(b.data(), m, 1), E(e.data(), m, 1), F(f.data(), m, 1);
  mat.ColumnsMeans(A, nan); mat.ColumnsVariances(B, sample, nan); mat.ColumnsMeansVariances(E, F, sample, nan);
  rec("cmeans", a)("cvars", b)("cmeans2", e)("cvars2", f);
  vector<Ti> ri, ci;
  if (r.chance(0.5)) { for (int i = 0; i < r.range(1, 3); i++) { ri.push_back(r.range(0, n - 1)); ci.push_back(r.range(0, m - 1)); } }
  rec("ri", ri)("ci", ci);
  vector<double> rs(ri.empty() ? n : ri.size()), cs(ci.empty() ? m : ci.size()), cm(cs.size()), cov(cs.size() * cs.size());
  Matrix<Tv> RS(rs.data(), (Ti)rs.size()), CS(cs.data(), (Ti)cs.size()), CM(cm.data(), (Ti)cm.size()), CV(cov.data(), (Ti)cs.size(), (Ti)cs.size());
  auto ri1 = ri, ci1 = ci, ci2 = ci, ci3 = ci;
  mat.RowsSum(RS, ri1); mat.ColumnsSum(CS, ci1); mat.ColumnsMean(CM, ci2); mat.ColumnsVariance(CV, ci3, sample);
  rec("rsum", rs)("csum", cs)("cmeanI", cm)("covI", rowsOf(CV));
  rec("kept", same(d, copy)).out();
}

int main(int c, char **v) {
  string mode = v[1];
  uint64_t seed = std::stoull(v[2]);
  int N = std::stoi(v[3]);
  if (mode == "cluster") clusters(seed, N);
  else if (mode == "group") { Rng r(seed * 7 + 2); for (int t = 0; t < N; t++) oneGroup(r, t); }
  else if (mode == "stat") {
    Rng r(seed * 7 + 3);
    for (int t = 0; t < N; t++) { oneCorr(r); oneDist(r, t); if (t % 2 == 0) { oneRank(r); oneDesc(r); oneFilter(r); oneSeason(r); oneMatrix(r); } }
  }
}
