// Records of the distributions: properties, densities, distribution functions, quantiles and samples of single distributions, of
// mixtures of them and of distributions given by 103 quantiles; and histograms.
#include "distributions.h"
#include "matrix.h"
#include "vjson.h"
#include <algorithm>
#include <cstring>
#include <functional>
using namespace ldt;
using std::string;
using std::vector;

static const double kMark = -987654.25;
static Raw rv(const vector<double> &x) { string s = "["; for (size_t i = 0; i < x.size(); i++) { if (i) s += ","; s += jd(x[i]); } return Raw{s + "]"}; }
static Raw strs(const vector<string> &x) { string s = "["; for (size_t i = 0; i < x.size(); i++) { if (i) s += ","; s += x[i]; } return Raw{s + "]"}; }
static string attempt(const std::function<double()> &f) { try { return jd(f()); } catch (std::exception &) { return "\"threw\""; } }

struct Gen {
  Rng r;
  long i;
  Gen(uint64_t seed, long i) : r(seed), i(i) {}
  double real(double a, double b) { return r.chance(0.5) ? std::round((a + (b - a) * r.unit()) * 8) / 8 : a + (b - a) * r.unit(); }
  double pos(double a, double b) { double x = real(a, b); return x <= 0 ? a : x; }
  double one(vector<double> v) { return v[r.range(0, (int)v.size() - 1)]; }
  char type(const string &from) { return from[r.range(0, (int)from.size() - 1)]; }
  vector<double> params(char t) {
    switch (t) {
    case 'n': return {real(-5, 5), pos(0.1, 5), 0, 0};
    case 'l': return {real(-1, 1), pos(0.2, 1.2), 0, 0};
    case 'u': { double a = real(-6, 6); return {a, a + pos(0.2, 8), 0, 0}; }
    case 'c': return {r.chance(0.15) ? one({1, 2, 400}) : r.chance(0.6) ? r.range(1, 60) : pos(0.4, 30), 0, 0, 0};
    case 't': return {r.chance(0.5) ? r.range(1, 12) : r.chance(0.3) ? one({60, 200, 500}) : pos(0.6, 40), 0, 0, 0};
    case 'e': return {pos(0.1, 5), 0, 0, 0};
    case 'f': return {r.chance(0.8) ? (double)r.range(1, 20) : one({40, 160, 300}), r.chance(0.8) ? (double)r.range(1, 20) : one({40, 160, 300}), 0, 0};
    case 'g': return {r.chance(0.1) ? 200 : r.chance(0.2) ? 1 : pos(0.3, 8), pos(0.2, 4), 0, 0};
    case 'b': return {r.chance(0.2) ? 1 : r.chance(0.05) ? 150 : pos(0.3, 6), r.chance(0.2) ? 1 : r.chance(0.05) ? 150 : pos(0.3, 6), 0, 0};
    case 'k': { double u = r.chance(0.2) ? 0 : real(-0.1, 2.5), v = r.chance(0.2) ? 0 : real(-0.1, 2.5); // the moments lose their digits near zero
                return {real(-3, 3), pos(0.3, 4), std::fabs(u) < 0.05 ? 0 : u, std::fabs(v) < 0.05 ? 0 : v}; }
    case 'o': { double a = r.range(-6, 6); return {a, a + r.range(0, 9), 0, 0}; }
    case 'i': return {r.chance(0.15) ? one({0, 1, 0.5}) : 0.01 + 0.98 * r.unit(), 0, 0, 0};
    case 's': return {r.chance(0.1) ? one({0, 0.02, 90}) : pos(0.1, 8), 0, 0, 0};
    case 'r': return {r.chance(0.1) ? one({1, 0.02}) : 0.3 + 0.65 * r.unit(), 0, 0, 0};
    default: return {r.chance(0.15) ? one({0, 1, 0.5}) : 0.01 + 0.98 * r.unit(), (double)(r.chance(0.1) ? 50 : r.range(1, 18)), 0, 0};
    }
  }
  vector<double> spoiled(char t) { // parameters outside the domain
    auto p = params(t);
    switch (t) {
    case 'n': case 'l': p[1] = -pos(0.1, 3); break;
    case 'u': case 'o': p[1] = p[0] - r.range(1, 3); break;
    case 'c': case 't': case 'e': p[0] = r.chance(0.5) ? 0 : -pos(0.2, 3); break;
    case 'f': case 'g': case 'b': p[r.range(0, 1)] = r.chance(0.5) ? 0 : -pos(0.2, 3); break;
    case 'k': p[1] = r.chance(0.5) ? 0 : -pos(0.2, 3); break;
    case 's': p[0] = -pos(0.1, 3); break;
    case 'i': case 'r': p[0] = r.chance(0.5) ? -0.1 : 1.2; break;
    default: if (r.chance(0.5)) p[1] = -1; else p[0] = r.chance(0.5) ? -0.1 : 1.2;
    }
    return p;
  }
};
static bool discrete(char t) { return strchr("oisra", t) != nullptr; }
static string alltypes = "nluctefgbkoisra";

static void uni(long i, uint64_t seed) {
  Gen g(seed, i);
  Rec rec;
  char t = alltypes[i % alltypes.size()];
  bool legal = !g.r.chance(0.06);
  auto p = legal ? g.params(t) : g.spoiled(t);
  rec("kind", "uni")("i", i)("type", string(1, t))("a", rv(p))("legal", legal);
  std::unique_ptr<DistributionBase> d;
  bool threw = false;
  try { d = DistributionBase::GetDistributionFromType(static_cast<DistributionType>(t), p[0], p[1], p[2], p[3]); } catch (std::exception &) { threw = true; }
  rec("threw", threw);
  if (!threw && legal) {
    using P = DistributionProperty;
    vector<string> direct = {attempt([&] { return d->GetMean(); }), attempt([&] { return d->GetVariance(); }), attempt([&] { return d->GetSandardDeviation(); }),
                             attempt([&] { return d->GetSkewness(); }), attempt([&] { return d->GetKurtosis(); }), attempt([&] { return d->GetMinimum(); }),
                             attempt([&] { return d->GetMaximum(); }), attempt([&] { return d->GetMedian(); }), attempt([&] { return d->GetMode(); })};
    vector<string> asked;
    for (auto k : {P::kMean, P::kVariance, P::kStandardError, P::kSkewness, P::kKurtosis, P::kMinimum, P::kMaximum, P::kMedian, P::kMode})
      asked.push_back(attempt([&] { return d->GetProperty(k); }));
    rec("props", strs(direct))("asked", strs(asked))("discrete", d->IsDiscrete())("given", rv({d->GetParam1(), d->GetParam2(), d->GetParam3(), d->GetParam4()}));
    double ms[4] = {0, 0, 0, 0};
    if (t == 'k') DistributionGld::GetMs(p[2], p[3], ms[0], ms[1], ms[2], ms[3]);
    rec("ms", rv({ms[0], ms[1], ms[2], ms[3]}));
    vector<double> ps = {0, 1, 0.5, g.r.unit(), g.r.unit(), 0.01 + 0.02 * g.r.unit(), 0.97 + 0.02 * g.r.unit(), g.one({0.25, 0.75, 0.05, 0.95, 1e-4, 0.9999}), g.one({0.2, 0.4, 0.6, 0.8})}, qs, dens;
    for (double x : ps) { qs.push_back(d->GetQuantile(x)); dens.push_back(d->GetDensityQuantile(x)); }
    rec("ps", rv(ps))("qs", rv(qs))("density", rv(dens));
    vector<double> xs;
    if (discrete(t)) {
      double lo = t == 'o' ? p[0] : 0, mid = std::floor(t == 's' ? p[0] : t == 'a' ? p[0] * p[1] : lo);
      xs = {lo - 1, lo - 0.5, INFINITY, -INFINITY};
      for (int k = 0; k < 7; k++) xs.push_back(lo + k);
      for (int k = 0; k < 4; k++) { xs.push_back(std::max(lo, mid + g.r.range(-3, 6))); xs.push_back(xs.back() + (g.r.chance(0.5) ? 0.5 : 0.01)); }
      if (t == 'o') { xs.push_back(p[1]); xs.push_back(p[1] + 1); xs.push_back(p[1] + 0.5); }
      if (t == 'a') { xs.push_back(p[1]); xs.push_back(p[1] + 1); xs.push_back(p[1] - 0.5); }
    } else {
      double lo = d->GetMinimum(), hi = d->GetMaximum(), m = t == 'k' ? p[0] : d->GetMedian();
      if (!std::isfinite(m)) m = 1;
      xs = {lo, hi, INFINITY, -INFINITY};
      if (std::isfinite(lo)) xs.push_back(lo - g.pos(0.1, 2));
      if (std::isfinite(hi)) xs.push_back(hi + g.pos(0.1, 2));
      for (size_t k = 2; k < qs.size(); k++) xs.push_back(qs[k]);
      for (int k = 0; k < 4; k++) xs.push_back(m + g.real(-3, 3));
      for (int k = 0; k < 2; k++) xs.push_back(m * g.real(0.1, 3));
    }
    std::sort(xs.begin(), xs.end(), [](double a, double b) { return std::isnan(b) ? !std::isnan(a) : a < b; });
    rec("xs", rv(xs));
    vector<string> cdf, pdf, lpdf;
    for (double x : xs) {
      cdf.push_back(attempt([&] { return d->GetCdf(x); }));
      pdf.push_back(attempt([&] { return d->GetPdfOrPmf(x); }));
      lpdf.push_back(attempt([&] { return d->GetPdfOrPmfLog(x); }));
    }
    rec("cdf", strs(cdf))("pdf", strs(pdf))("lpdf", strs(lpdf));
    vector<double> s1, s2, s3;
    bool none = false;
    if (g.r.chance(0.3)) {
      unsigned seed2 = (unsigned)g.r.range(1, 1 << 20);
      int n = 400;
      s1.assign(n + 2, kMark); s2.assign(n + 2, kMark); s3.assign(n, 0);
      try {
        d->GetSample(&s1[1], n, seed2);
        d->GetSample(&s2[1], n, seed2);
        std::mt19937 eng(seed2);
        for (auto &x : s3) x = d->GetSample1(eng);
      } catch (std::exception &) { none = true; }
      bool ok = s1[0] == kMark && s1[n + 1] == kMark, same = memcmp(s1.data(), s2.data(), s1.size() * 8) == 0;
      s1 = vector<double>(s1.begin() + 1, s1.end() - 1);
      rec("guard", ok)("same", same);
    } else rec("guard", true)("same", true);
    if (none) s1.clear(), s3.clear();
    rec("sample", rv(s1))("single", rv(s3));
    if (discrete(t)) {
      double lo = t == 'o' ? p[0] : 0, a = lo + g.r.range(0, 2), b = a + g.r.range(0, 6);
      if (t == 'o') { a = p[0] + g.r.range(0, (int)(p[1] - p[0])) - (g.r.chance(0.3) ? 20 : 0); b = std::max(a, p[0]) + g.r.range(0, 5); }
      if (t == 'a') { a = g.r.range(0, (int)p[1]) - (g.r.chance(0.3) ? 60 : 0); b = std::max(a, 0.0) + g.r.range(0, 5); }
      if (t == 'i') a = 0, b = 1;
      bool lg = g.r.chance(0.4), plot = g.r.chance(0.4);
      int size = d->GetPmfSupportSize(a, b), n = plot ? 3 * size : size;
      double from = t == 'o' ? std::max(a, p[0]) : t == 'a' ? std::max(a, 0.0) : a;
      rec("lo", a)("hi", b)("size", size)("log", lg)("plot", plot)("step", (int)d->GetPmfSupportIncrement());
      vector<double> x(std::max(n, 0) + 4, kMark), v(std::max(n, 0) + 4, kMark);
      if (n > 0 && n < 200) d->GetPmfSupport(&x[1], &v[1], lg, n, plot, from);
      rec("guard2", n <= 0 || (x[0] == kMark && x[n + 1] == kMark && v[0] == kMark && v[n + 1] == kMark));
      if (n < 0) n = 0;
      rec("supx", rv(vector<double>(x.begin() + 1, x.begin() + 1 + n)))("supv", rv(vector<double>(v.begin() + 1, v.begin() + 1 + n)));
    }
  }
  rec.out();
}

static void mix(long i, uint64_t seed) {
  Gen g(seed, i);
  Rec rec;
  int kind = g.r.range(0, 3); // 0: discrete, 1: continuous, 2: both, 3: normal
  int n = g.r.range(1, 4);
  vector<std::unique_ptr<DistributionBase>> own;
  vector<DistributionBase *> ds;
  vector<double> w;
  string comps = "[";
  for (int k = 0; k < n; k++) {
    char t = kind == 3 ? 'n' : kind == 0 || (kind == 2 && k % 2) ? g.type("oisa") : g.type("nuegc");
    auto p = g.params(t);
    if (t == 's' && p[0] > 10) p[0] = 3;
    if (t == 's' && p[0] == 0) p[0] = 2;
    if ((t == 'i' || t == 'a') && (p[0] < 0.02 || p[0] > 0.98)) p[0] = 0.4;
    if (t == 'o' && p[0] == p[1]) p[1]++;
    if (t == 'c' && p[0] > 60) p[0] = 5;
    if (t == 'g' && p[0] > 8) p[0] = 2;
    if (t == 'o' && g.i % 3 == 0) { p[0] -= 20; p[1] -= 20; }
    own.push_back(DistributionBase::GetDistributionFromType(static_cast<DistributionType>(t), p[0], p[1], p[2], p[3]));
    ds.push_back(own.back().get());
    w.push_back(g.r.chance(0.4) ? g.r.range(1, 4) : g.pos(0.1, 2));
    comps += string(k ? "," : "") + "{\"type\":\"" + string(1, t) + "\",\"a\":" + rv(p).s + "}";
  }
  bool bad = g.r.chance(0.06);
  int how = g.r.range(0, 2);
  if (bad) { if (how == 0) w[g.r.range(0, n - 1)] = g.r.chance(0.5) ? 0 : -1; else if (how == 1) w.push_back(1); else { w.clear(); ds.clear(); } }
  rec("kind", "mix")("i", i)("legal", !bad)("parts", Raw{comps + "]"})("w", rv(w));
  bool threw = false;
  std::unique_ptr<DistributionMixture> m;
  try { m.reset(new DistributionMixture(w, ds)); } catch (std::exception &) { threw = true; }
  rec("threw", threw);
  if (!threw && !bad) {
    double a, b, c, d;
    m->GetMoments(a, b, c, d); rec("moments", rv({a, b, c, d}));
    m->GetMoments(a, b); rec("two", rv({a, b}));
    bool normal = true;
    for (auto x : ds) normal = normal && dynamic_cast<Distribution<DistributionType::kNormal> *>(x);
    rec("normal", normal);
    if (normal) { m->GetMomentsNormal(a, b, c, d); rec("asNormal", rv({a, b, c, d})); }
    rec("min", m->GetMinimum())("max", m->GetMaximum())("type", (int)m->pType);
    vector<double> xs;
    for (int k = 0; k < 8; k++) xs.push_back(g.r.chance(0.5) ? g.r.range(-6, 14) : g.real(-6, 12));
    for (int k = 0; k < 2; k++) xs.push_back(ds[g.r.range(0, (int)ds.size() - 1)]->GetMean());
    vector<string> cdf, pdf, lpdf;
    for (double x : xs) {
      cdf.push_back(attempt([&] { return m->GetCdf(x); }));
      pdf.push_back(attempt([&] { return m->GetPdfOrPmf(x); }));
      lpdf.push_back(attempt([&] { return m->GetPdfOrPmfLog(x); }));
    }
    rec("xs", rv(xs))("cdf", strs(cdf))("pdf", strs(pdf))("lpdf", strs(lpdf));
    vector<double> s1, s2;
    if (g.r.chance(0.3)) {
      unsigned sd = (unsigned)g.r.range(1, 1 << 20);
      s1.assign(402, kMark); s2.assign(402, kMark);
      m->GetSample(&s1[1], 400, sd); m->GetSample(&s2[1], 400, sd);
      rec("guard", s1[0] == kMark && s1[401] == kMark)("same", s1 == s2);
      s1 = vector<double>(s1.begin() + 1, s1.end() - 1);
    } else rec("guard", true)("same", true);
    rec("sample", rv(s1));
    rec("isDiscrete", m->pType == DistributionMixtureType::kDiscrete);
    if (m->pType == DistributionMixtureType::kDiscrete) {
      double top = m->GetMaximum(), lo = m->GetMinimum();
      double x0 = lo + g.r.range(-3, 2), x1 = std::max(x0, lo) + g.r.range(0, 12);
      if (x0 > top) x0 = lo;
      if (std::isinf(top) == false && g.r.chance(0.3)) x1 = top + 3;
      double u = x0, v = x1;
      int size = m->GetPmfSupportSize(u, v);
      bool lg = g.r.chance(0.4), plot = g.r.chance(0.4);
      int k = plot ? 3 * size : size;
      rec("lo", x0)("hi", x1)("lo2", u)("hi2", v)("size", size)("log", lg)("plot", plot);
      vector<double> x(std::max(k, 0) + 4, kMark), y(std::max(k, 0) + 4, kMark);
      if (k > 0 && k < 400) m->GetPmfSupport(&x[1], &y[1], lg, k, plot, x0, x1);
      rec("guard2", k <= 0 || (x[0] == kMark && x[k + 1] == kMark && y[0] == kMark && y[k + 1] == kMark));
      if (k < 0) k = 0;
      rec("supx", rv(vector<double>(x.begin() + 1, x.begin() + 1 + k)))("supv", rv(vector<double>(y.begin() + 1, y.begin() + 1 + k)));
    }
  }
  rec.out();
}

static void hist(long i, uint64_t seed) {
  Gen g(seed, i);
  Rec rec;
  int n = g.r.chance(0.1) ? g.r.range(1, 2) : g.r.range(3, 24);
  int scale = g.r.range(0, 3);
  vector<double> data(n + 8, kMark);
  for (int k = 0; k < n; k++) {
    double x = scale == 0 ? g.r.range(0, 6) : scale == 1 ? g.r.range(-40, 40) / 4.0 : scale == 2 ? g.real(-1000, 5000) : g.real(-2, 2);
    if (g.r.chance(0.05)) x = 10 * x;
    data[4 + k] = g.r.chance(0.04) ? NAN : x;
  }
  if (g.r.chance(0.05)) for (int k = 0; k < n; k++) data[4 + k] = data[4];
  vector<double> before(data.begin() + 4, data.begin() + 4 + n), known;
  for (double x : before) if (!std::isnan(x)) known.push_back(x);
  rec("kind", "hist")("i", i)("data", rv(before));
  Matrix<Tv> dm(data.data() + 4, n, 1);
  bool own = g.r.chance(0.2);
  rec("own", own);
  if (own) { // bins given by their edges
    int k = g.r.range(2, 6);
    vector<double> axis(k);
    for (auto &x : axis) x = known.empty() || g.r.chance(0.5) ? g.real(-5, 20) : known[g.r.range(0, (int)known.size() - 1)];
    std::sort(axis.begin(), axis.end());
    axis.erase(std::unique(axis.begin(), axis.end()), axis.end());
    if (axis.size() == 1) axis.push_back(axis[0] + 1);
    k = (int)axis.size();
    vector<int> count(k + 3, -77);
    Matrix<Tv> am(axis.data(), k, 1);
    Matrix<Ti> cm(&count[1], k + 1, 1);
    bool threw = false;
    int used = 0;
    try { used = Histogram::ComputeV(&dm, &am, &cm, true); } catch (std::exception &) { threw = true; }
    rec("threw", threw)("axis", rv(axis))("count", vector<int>(count.begin() + 1, count.end() - 1))("used", used)("guard", count[0] == -77 && count[k + 2] == -77);
  } else {
    int bins = g.r.chance(0.4) ? 0 : g.r.range(1, 7);
    double lo = NAN, hi = NAN, step = NAN, mult = g.one({0, 0.5, 1, 1.5, 3, 100});
    double center = known.empty() ? 0 : known[0];
    if (g.r.chance(0.3)) lo = g.r.chance(0.5) ? center - g.pos(0.5, 6) : std::floor(center);
    if (g.r.chance(0.3)) hi = (std::isnan(lo) ? center : lo) + (g.r.chance(0.1) ? -1 : g.r.range(1, 8));
    if (bins == 0 && g.r.chance(0.3)) step = g.one({0.5, 1, 2.5, 100}) * (scale == 2 ? 400 : 1);
    rec("bins", bins)("lo", lo)("hi", hi)("step", step)("mult", mult);
    bool threw = false;
    int size = 0, used = 0;
    vector<double> axis;
    vector<int> count;
    bool ok = true;
    try {
      size = Histogram::Compute(true, &dm, nullptr, nullptr, bins, lo, hi, mult, true, step);
      if (size < 1 || size > 5000) throw std::length_error("size");
      axis.assign(size + 2, kMark); count.assign(size + 3, -77);
      Matrix<Tv> am(&axis[1], size, 1);
      Matrix<Ti> cm(&count[1], size + 1, 1);
      used = Histogram::Compute(false, &dm, &am, &cm, bins, lo, hi, mult, false, step);
      ok = axis[0] == kMark && axis[size + 1] == kMark && count[0] == -77 && count[size + 2] == -77;
      axis = vector<double>(axis.begin() + 1, axis.end() - 1);
      count = vector<int>(count.begin() + 1, count.end() - 1);
    } catch (std::exception &) { threw = true; axis.clear(); count.clear(); }
    rec("threw", threw)("size", size)("binsAfter", bins)("loAfter", lo)("hiAfter", hi)("axis", rv(axis))("count", count)("used", used)("guard", ok);
  }
  bool ok2 = true;
  for (int k = 0; k < 4; k++) ok2 = ok2 && data[k] == kMark && data[4 + n + k] == kMark;
  rec("guardData", ok2);
  rec.out();
}

static void emp(long i, uint64_t seed) {
  Gen g(seed, i);
  Rec rec;
  int n = g.r.chance(0.6) ? 1 : g.r.range(2, 3);
  vector<vector<double>> q(n, vector<double>(103));
  string tables = "[";
  for (int k = 0; k < n; k++) {
    double x = g.real(-3, 3), scale = g.one({0.01, 1, 20, 3});
    bool normal = g.r.chance(0.5);
    Distribution<DistributionType::kNormal> z(x, scale);
    for (int j = 0; j < 103; j++) {
      double p = j == 0 ? 0.0001 : j == 1 ? 0.001 : j == 101 ? 0.999 : j == 102 ? 0.9999 : (j - 1) / 100.0;
      if (normal) q[k][j] = z.GetQuantile(p); else { x += scale * (0.01 + 0.1 * g.r.unit()); q[k][j] = x; }
    }
    tables += string(k ? "," : "") + rv(q[k]).s;
  }
  rec("kind", "emp")("i", i)("tables", Raw{tables + "]"});
  DistributionEmpirical103 e(&q[0][0]);
  vector<double> xs, cdf, ps, qs;
  for (int k = 0; k < 10; k++) {
    int j = g.r.range(0, 101);
    xs.push_back(g.r.chance(0.3) ? q[0][j] : q[0][j] + (q[0][j + 1] - q[0][j]) * g.r.unit());
    ps.push_back(g.r.chance(0.5) ? g.r.range(1, 999) / 1000.0 : g.r.unit());
  }
  for (int j : {0, 1, 2, 3, 100, 101}) xs.push_back(q[0][j] + (q[0][j + 1] - q[0][j]) * g.r.unit());
  for (double s : {0.05, 0.1, 0.3, 5.0}) { xs.push_back(q[0][0] - s * (q[0][1] - q[0][0])); xs.push_back(q[0][102] + s * (q[0][102] - q[0][101])); }
  for (double s : {0.00005, 0.0001, 0.0005, 0.001, 0.005, 0.01, 0.0105, 0.29, 0.57, 0.575, 0.58, 0.985, 0.99, 0.995, 0.999, 0.9995, 0.9999, 0.99995}) ps.push_back(s);
  std::sort(xs.begin(), xs.end());
  std::sort(ps.begin(), ps.end());
  for (double x : xs) cdf.push_back(e.GetCDFApprox(x));
  for (double p : ps) qs.push_back(e.GetQuantileApprox(p));
  rec("xs", rv(xs))("cdf", rv(cdf))("ps", rv(ps))("qs", rv(qs));
  rec("ends", rv({e.GetCDFApprox(-INFINITY), e.GetCDFApprox(INFINITY), e.GetQuantileApprox(0), e.GetQuantileApprox(1)}));
  vector<double> w, res(105, kMark);
  bool equal = g.r.chance(0.5);
  double sum = 0;
  for (int k = 0; k < n; k++) { w.push_back(equal ? 1 : g.r.range(1, 5)); sum += w.back(); }
  for (auto &x : w) x /= sum;
  vector<DistributionEmpirical103> ds;
  for (auto &x : q) ds.push_back(DistributionEmpirical103(x.data()));
  DistributionEmpirical103::Combine(ds, equal ? nullptr : w.data(), &res[1]);
  rec("w", rv(w))("guard", res[0] == kMark && res[104] == kMark)("combined", rv(vector<double>(res.begin() + 1, res.end() - 1)));
  bool refused = false;
  try { DistributionEmpirical103::Combine({}, nullptr, &res[1]); } catch (std::exception &) { refused = true; }
  rec("refused", refused);
  rec.out();
}

int main(int argc, char **argv) {
  string mode = argc > 1 ? argv[1] : "uni";
  uint64_t seed = argc > 2 ? strtoull(argv[2], nullptr, 10) : 1;
  long n = argc > 3 ? atol(argv[3]) : 10;
  for (long i = 0; i < n; i++) {
    uint64_t s = seed * 1000003ULL + (uint64_t)i * 7919ULL + 13;
    if (mode == "uni") uni(i, s); else if (mode == "mix") mix(i, s); else if (mode == "hist") hist(i, s); else emp(i, s);
  }
}
