// Records of the helpers of the library: arrays, polynomials, running moments.
#include "array.h"
#include "polynomial.h"
#include "running.h"
#include "vjson.h"
#include <cstring>
using namespace ldt;
using std::vector;
static const double kGuard = -987654321.125;

// ---------------------------------------------------------------- arrays
static vector<double> someData(Rng &r, int n, double na, bool whole = true) {
  vector<double> d;
  for (int i = 0; i < n; i++) d.push_back(r.chance(na) ? NAN : whole ? r.range(-50, 50) : r.normal() * 10);
  return d;
}
static void arrays(Rng &r, int n) {
  for (int it = 0; it < n; it++) {
    switch (it % 4) {
    case 0: {
      auto d = someData(r, r.size(0, 9, 17, 60), r.unit());
      bool missing = r.chance(0.5);
      auto g = Array<Tv>::GetRange(d.data(), (Ti)d.size(), missing);
      auto h = Array<Tv>::GetRange(d.data(), (Ti)d.size());
      Rec()("kind", "range")("data", d)("valid", !g.IsNotValid())("from", g.StartIndex)("to", g.EndIndex)("count", g.Count())
          ("missing", missing)("valid2", !h.IsNotValid())("from2", h.StartIndex)("to2", h.EndIndex).out();
    } break;
    case 1: {
      auto d = someData(r, r.size(0, 12, 17, 60), r.pick(vector<double>{0, 0.3, 0.6, 0.9}), r.chance(0.7));
      auto e = d;
      Ti count = -7;
      auto g = Array<Tv>::Interpolate(e.data(), (Ti)e.size(), count);
      Rec()("kind", "interpolate")("data", d)("out", e)("n", count)("valid", !g.IsNotValid())("from", g.StartIndex)("to", g.EndIndex).out();
    } break;
    case 2: {
      int m = r.size(0, 12, 17, 60);
      vector<double> d;
      for (int i = 0; i < m; i++) d.push_back(i + 1);
      vector<vector<double>> parts{{5}};
      int size = r.size(1, 6, 7, 20);
      bool end = r.chance(0.5);
      Array<Tv>::PartitionEqual(d, parts, size, end);
      Rec()("kind", "parts")("data", d)("size", size)("fromEnd", end)("parts", parts).out();
    } break;
    default: {
      int m = r.size(1, 5, 17, 40);
      vector<double> d;
      for (int i = 0; i < m; i++) d.push_back(std::exp(r.normal() * 1.3));
      double lambda = r.chance(0.15) ? NAN : r.chance(0.2) ? 0 : r.chance(0.2) ? 1 : (r.unit() * 1.95 + 0.05) * (r.chance(0.4) ? -1 : 1);
      auto e = d, e0 = d;
      Array<Tv>::BoxCox(e.data(), m, lambda);
      for (auto &x : e0) Array<Tv>::BoxCox0(x, lambda);
      auto f = e, f0 = e0;
      Array<Tv>::BoxCoxInv(f.data(), m, lambda);
      for (auto &x : f0) Array<Tv>::BoxCoxInv0(x, lambda);
      Rec()("kind", "boxcox")("data", d)("lambda", lambda)("out", e)("out0", e0)("back", f)("back0", f0).out();
    }
    }
  }
}

// ---------------------------------------------------------------- polynomials
template <class T> struct Buf {  // storage of exactly n items between guards
  vector<T> v;
  int n;
  explicit Buf(int n) : v(n + 16, (T)kGuard), n(n) {}
  T *p() { return &v[8]; }
  bool ok() const {
    for (int i = 0; i < 8; i++) if (v[i] != (T)kGuard || v[8 + n + i] != (T)kGuard) return false;
    return true;
  }
};
template <class T> vector<double> coefs(const Matrix<T> &m) { vector<double> r; for (Ti i = 0; i < m.length(); i++) r.push_back((double)m.Data[i]); return r; }
static vector<double> someCoefs(Rng &r, int maxDegree, bool trailing) {
  vector<double> c;
  int d = r.size(0, maxDegree, 9, 20);
  for (int i = 0; i <= d; i++) c.push_back(r.chance(0.25) ? 0 : r.range(-4, 4));
  if (!trailing && c.back() == 0) c.back() = r.range(1, 4);
  return c;
}
template <class T> void scalar(Rng &r) {
  auto a = someCoefs(r, 5, true), b = someCoefs(r, 5, true);
  bool trim = r.chance(0.5);
  vector<T> av(a.begin(), a.end()), bv(b.begin(), b.end());
  Matrix<T> am(av.data(), (Ti)av.size(), 1), bm(bv.data(), (Ti)bv.size(), 1);
  Polynomial<T> pa, pb;
  std::string err;
  try { pa.Data(am, trim); pb.Data(bm, trim); } catch (std::exception &e) { err = e.what(); }
  if (err != "") { Rec()("kind", "trim")("a", a)("b", b)("error", true)("ta", vector<double>{})("tb", vector<double>{}).out(); return; }
  if (trim) Rec()("kind", "trim")("a", a)("b", b)("error", false)("ta", coefs(pa.Coefficients))("tb", coefs(pb.Coefficients)).out();
  int da = pa.GetDegree(), db = pb.GetDegree();
  auto ta = coefs(pa.Coefficients), tb = coefs(pb.Coefficients);
  {
    int len = r.chance(0.5) ? INT_MAX : r.range(1, da + db + 2);
    PolynomialMultiply<T> m(da, db, len);
    Buf<T> st(m.StorageSize);
    for (int rep = 0; rep < 2; rep++) {
      err = "";
      try { m.Calculate(pa, pb, st.p(), len); } catch (std::exception &e) { err = e.what(); }
      Rec()("kind", "mul")("a", ta)("b", tb)("len", len == INT_MAX ? 1000 : len)("out", coefs(m.Result.Coefficients))("inside", st.ok())("error", err).out();
    }
  }
  {
    int power = r.range(0, 4), len = r.chance(0.5) ? INT_MAX : r.range(1, power * da + 2);
    PolynomialPower<T> m(power, da, len);
    Buf<T> st(m.StorageSize), wk(m.WorkSize);
    err = "";
    try { m.Calculate(pa, power, st.p(), wk.p(), len); } catch (std::exception &e) { err = e.what(); }
    Rec()("kind", "pow")("a", ta)("power", power)("len", len == INT_MAX ? 1000 : len)("out", coefs(m.Result.Coefficients))("inside", st.ok() && wk.ok())("error", err).out();
  }
}
typedef vector<vector<double>> Mat;  // rows
static Mat rows(const Matrix<Tv> &m) {
  Mat r;
  for (Ti i = 0; i < m.RowsCount; i++) { r.push_back({}); for (Ti j = 0; j < m.ColsCount; j++) r.back().push_back(m.Get0(i, j)); }
  return r;
}
static vector<Mat> rows(const PolynomialM &p) { vector<Mat> r; for (auto m : p.Coefficients) r.push_back(rows(*m)); return r; }
struct MPoly {
  vector<vector<double>> store;
  vector<std::unique_ptr<Matrix<Tv>>> mats;
  vector<Matrix<Tv> *> ptr;
  MPoly(Rng &r, int size, int degree, bool unit) {
    for (int d = 0; d <= degree; d++) {
      vector<double> c(size * size);
      for (auto &x : c) x = r.chance(0.2) ? 0 : r.range(-3, 3);
      if (unit && d == 0)   // triangular with a diagonal of +-1, +-2
        for (int i = 0; i < size; i++) for (int j = 0; j < size; j++)
          if (i == j) c[j * size + i] = r.pick(vector<double>{1, 1, -1, 2, -2}); else if (i > j) c[j * size + i] = 0;
      store.push_back(c);
    }
    for (auto &c : store) { mats.push_back(std::make_unique<Matrix<Tv>>(c.data(), size, size)); ptr.push_back(mats.back().get()); }
  }
};
static void matrices(Rng &r) {
  int size = r.range(1, 3);
  MPoly a(r, size, r.range(0, 3), true), b(r, size, r.range(0, 3), false);
  PolynomialM pa, pb;
  pa.Data(a.ptr);
  pb.Data(b.ptr);
  int da = pa.GetDegree(), db = pb.GetDegree();
  std::string err;
  {
    int len = r.chance(0.5) ? INT_MAX : r.range(1, da + db + 2);
    PolynomialMMultiply m(size, da, db, len);
    Buf<Tv> st(m.StorageSize);
    for (int rep = 0; rep < 2; rep++) {
      err = "";
      try { m.Calculate(pa, pb, st.p(), len); } catch (std::exception &e) { err = e.what(); }
      Rec()("kind", "mmul")("a", rows(pa))("b", rows(pb))("size", size)("len", len == INT_MAX ? 1000 : len)("out", rows(m.Result))("inside", st.ok())("error", err)("again", rep).out();
    }
  }
  {
    auto c = someCoefs(r, 4, true);
    Matrix<Tv> cm(c.data(), (Ti)c.size(), 1);
    Polynomial<Tv> pc;
    pc.Data(cm, false);
    int len = r.chance(0.5) ? INT_MAX : r.range(1, da + (int)c.size() + 1);
    PolynomialMMultiply m(size, da, pc.GetDegree(), len);
    Buf<Tv> st(m.StorageSize);
    err = "";
    try { m.Calculate(pa, pc, st.p(), len); } catch (std::exception &e) { err = e.what(); }
    Rec()("kind", "smul")("a", rows(pa))("b", c)("size", size)("len", len == INT_MAX ? 1000 : len)("out", rows(m.Result))("inside", st.ok())("error", err).out();
  }
  {
    int len = r.range(1, 7);
    PolynomialMInvert m(size, da, len);
    Buf<Tv> st(m.StorageSize), wk(m.WorkSize);
    for (int rep = 0; rep < 2; rep++) {
      err = "";
      auto before = rows(pa);
      try { m.Calculate(pa, st.p(), wk.p(), len); } catch (std::exception &e) { err = e.what(); }
      Rec()("kind", "minv")("a", before)("size", size)("len", len)("out", rows(m.Result))("inside", st.ok() && wk.ok())("kept", before == rows(pa))("error", err)("again", rep).out();
    }
  }
}

// ---------------------------------------------------------------- running moments
template <Ti M, bool W> void history(Rng &r, int id) {
  const int A = 3;
  RunningMoments<M, true, W> acc[A];
  double off = r.pick(vector<double>{0, 0, 5, -40, 300}), scale = r.pick(vector<double>{1, 1, 0.01, 20});
  double wscale = r.pick(vector<double>{1, 1, 1e-6, 1e5, 1e-180});
  auto weight = [&]() { return r.chance(0.12) ? 0.0 : (r.unit() * 3 + 0.05) * wscale; };
  Rec()("kind", "new")("n", A)("moments", M)("weighted", W).out();
  int steps = r.size(4, 14, 30, 90);
  for (int s = 0; s < steps; s++) {
    int a = r.range(0, A - 1), b = r.range(0, A - 1), u = r.range(0, 9);
    Rec rec;
    rec("kind", "op");
    if (u < 6) {
      double x = r.chance(0.08) ? NAN : r.chance(0.1) ? off : off + scale * r.normal(), w = weight();
      acc[a].PushNew(x, w);
      rec("op", "push")("a", a + 1)("x", x)("w", W ? w : 1.0);
    } else if (u < 8) {
      if (a == b) b = (a + 1) % A;
      acc[a].Combine(acc[b]);
      rec("op", "combine")("a", a + 1)("b", b + 1);
    } else if (u == 8 && W) {
      double m = off + scale * r.normal(), v = scale * scale * (0.1 + r.unit()), sk = r.unit() - 0.5, k = r.unit() * 2, w = weight();
      if (r.chance(0.1)) m = NAN;
      acc[a].Combine(m, v, sk, k, w);
      rec("op", "summary")("a", a + 1)("x", m)("v", v)("s", sk)("k", k)("w", w);
    } else {
      acc[a].Reset();
      rec("op", "reset")("a", a + 1);
    }
    rec("count", acc[a].Count)("sumw", acc[a].SumWeights)("mean", acc[a].GetMean())("var", acc[a].GetVariance())("skew", acc[a].GetSkewness())("kurt", acc[a].GetKurtosis())("scale", scale).out();
  }
}
template <bool W> void batch(Rng &r) {
  int n = r.size(0, 7, 17, 60);
  vector<double> x, w;
  w.reserve(64);
  for (int i = 0; i < n; i++) { x.push_back(r.chance(0.15) ? NAN : r.normal() * 3 + 2); w.push_back(r.chance(0.1) ? 0 : r.unit() + 0.1); }
  double m = 0, v = 0, s = 0, k = 0;
  Array<Tv>::Moments<W, true, 4>(x.data(), n, W ? w.data() : nullptr, m, &v, &s, &k);
  vector<double> one{Array<Tv>::Mean<W, true>(x.data(), n, w.data()), Array<Tv>::Variance<W, true>(x.data(), n, w.data()),
                     Array<Tv>::Skewness<W, true>(x.data(), n, w.data()), Array<Tv>::Kurtosis<W, true>(x.data(), n, w.data())};
  if (!W) w.assign(n, 1.0);
  Rec()("kind", "batch")("data", x)("weights", w)("mean", m)("var", v)("skew", s)("kurt", k)("one", one).out();
}

int main(int argc, char **argv) {
  std::string mode = argv[1];
  Rng r(atoi(argv[2]) * 31 + mode.size());
  int n = atoi(argv[3]);
  if (mode == "array") arrays(r, n);
  else if (mode == "poly") for (int i = 0; i < n; i++) { if (i % 3 == 0) scalar<Tv>(r); else if (i % 3 == 1) scalar<Ti>(r); else matrices(r); }
  else if (mode == "moments")
    for (int i = 0; i < n; i++) {
      switch (r.range(0, 5)) { case 0: history<1, true>(r, i); break; case 1: history<2, true>(r, i); break; case 2: history<3, true>(r, i); break; case 3: history<4, false>(r, i); break; default: history<4, true>(r, i); }
      if (r.chance(0.5)) batch<true>(r); else batch<false>(r);
    }
  else return 3;
}
