// Records of single matrix operations: the operands, the storage before and after, what was returned or refused.
#include "matrix.h"
#include "matrix_utils.h"
#include "vjson.h"
#include <cstring>
#include <functional>
#include <map>
using namespace ldt;
using std::string;
using std::vector;

static const double kMark = -987654.25;
// A matrix with a guard zone after its storage.
struct Mat {
  vector<double> v;
  size_t n;
  Matrix<Tv> m;
  Mat(Ti rows, Ti cols) : v((size_t)rows * cols + 136, kMark), n((size_t)rows * cols), m((Tv *)nullptr, rows, cols) { m.SetData(v.data() + 8, rows, cols); }
  Mat(const Mat &o) : v(o.v), n(o.n), m((Tv *)nullptr, o.m.RowsCount, o.m.ColsCount) { m.SetData(v.data() + 8, o.m.RowsCount, o.m.ColsCount); }
  Mat &operator=(const Mat &) = delete;
  double &at(Ti i, Ti j) { return v[8 + i + (size_t)m.RowsCount * j]; }
  bool ok() const {
    for (size_t i = 0; i < 8; i++) if (v[i] != kMark) return false;
    for (size_t i = n + 8; i < v.size(); i++) if (v[i] != kMark) return false;
    return true;
  }
};
static string jm(const Matrix<Tv> &m) {
  string s = "[";
  for (Ti i = 0; i < m.RowsCount; i++) {
    s += i ? ",[" : "[";
    for (Ti j = 0; j < m.ColsCount; j++) { if (j) s += ","; s += jd(m.Data[i + (size_t)m.RowsCount * j]); }
    s += "]";
  }
  return s + "]";
}
static Raw rm(const Matrix<Tv> &m) { return Raw{jm(m)}; }
static Raw rv(const vector<double> &x) { string s = "["; for (size_t i = 0; i < x.size(); i++) { if (i) s += ","; s += jd(x[i]); } return Raw{s + "]"}; }

struct Gen {
  Rng r;
  long i;
  Gen(uint64_t seed, long i) : r(seed), i(i) {}
  int dim() { return r.chance(0.01) ? r.range(17, 20) : r.chance(0.15) ? 1 : r.chance(0.1) ? r.range(5, 9) : r.range(1, 4); }
  double num(int kind) {
    switch (kind) {
    case 0: return r.range(-4, 4);
    case 1: return r.range(-40, 40) / 8.0;
    default: return r.range(-2, 2);
    }
  }
  void fill(Mat &m, double nan = 0, double inf = 0) {
    int kind = r.range(0, 2);
    for (Ti j = 0; j < m.m.ColsCount; j++) for (Ti i = 0; i < m.m.RowsCount; i++)
      m.at(i, j) = r.chance(nan) ? NAN : r.chance(inf) ? (r.chance(0.5) ? INFINITY : -INFINITY) : num(kind);
  }
  Mat mat(int rows, int cols, double nan = 0, double inf = 0) { Mat m(rows, cols); fill(m, nan, inf); return m; }
  int off(int d, bool &legal, bool wrong) { if (!wrong) return d; int e = d > 1 && r.chance(0.5) ? d - 1 : d + 1; legal = false; return e; }
  double alpha() { return r.chance(0.4) ? 1 : r.range(-3, 3); }
  double beta() { return r.chance(0.5) ? 0 : r.range(-2, 2); }
  vector<Ti> perm(int n) { vector<Ti> p(n); for (int i = 0; i < n; i++) p[i] = i; for (int i = n - 1; i > 0; i--) std::swap(p[i], p[r.range(0, i)]); return p; }
  vector<Ti> subset(int n, bool some = true) { auto p = perm(n); p.resize(r.range(some ? 1 : 0, n)); return p; }
};

// runs f, tells whether it refused
static bool refused(const std::function<void()> &f) {
  try { f(); } catch (std::exception &) { return true; }
  return false;
}

static void products(Gen &g) {
  static const char *ops[] = {"dot", "dottr", "trdot", "trdottr", "dotvec", "tdotvec", "vecvec", "aat", "ata", "atanan", "symdot", "dotsym", "dotdiag", "diagdot", "kron", "kroniden", "idenkron", "trkroniden"};
  int o = g.r.range(0, 17);
  string op = ops[o];
  int n = g.dim(), k = g.dim(), m = g.dim();
  int wrong = g.r.chance(0.2) ? g.r.range(1, 4) : 0;
  bool checked = wrong > 0 || g.r.chance(0.5);
  bool legal = true;
  bool flag = g.r.chance(0.5);
  double alpha = g.alpha(), beta = g.beta();
  auto W = [&](int d, int which) { return g.off(d, legal, wrong == which); };
  int ar = n, ac = k, br = k, bc = m, cr = n, cc = m;
  if (op == "dottr") { br = m; bc = k; }
  if (op == "trdot") { ar = k; ac = n; }
  if (op == "trdottr") { ar = k; ac = n; br = m; bc = k; }
  if (op == "dotvec") { bc = 1; cc = 1; }
  if (op == "tdotvec") { br = n; cr = k; bc = cc = 1; }
  if (op == "vecvec") { ac = 1; br = n; bc = 1; cr = cc = 1; }
  if (op == "aat") { br = bc = 1; cr = cc = n; }
  if (op == "ata" || op == "atanan") { br = bc = 1; cr = cc = k; }
  if (op == "symdot") { ac = n; br = n; }
  if (op == "dotsym") { br = bc = k; cc = k; }
  if (op == "dotdiag") { br = k; bc = 1; cc = k; }
  if (op == "diagdot") { ac = 1; br = n; bc = m; cr = n; cc = m; }
  if (op == "kron") { ar = g.r.range(1, 3); ac = g.r.range(1, 3); br = g.r.range(1, 3); bc = g.r.range(1, 3); cr = ar * br; cc = ac * bc; }
  int h = g.r.range(1, 3);
  if (op == "kroniden" || op == "idenkron") { ar = g.r.range(1, 3); ac = g.r.range(1, 3); br = bc = 1; cr = ar * h; cc = ac * h; }
  if (op == "trkroniden") { ar = g.r.range(1, 3); ac = g.r.range(1, 3); br = bc = 1; cr = ac * h; cc = ar * h; }
  // which dimensions matter to the operation
  bool hasB = !(op == "aat" || op == "ata" || op == "atanan" || op == "kroniden" || op == "idenkron" || op == "trkroniden");
  bool hasC = op != "vecvec";
  bool vecs = op == "dotvec" || op == "tdotvec" || op == "vecvec" || op == "dotdiag";
  if (hasB && op != "kron") br = W(br, 1);
  if (hasB && !vecs && op != "diagdot" && op != "kron") {
    if (wrong == 2) { bc = W(bc, 2); } // the storage no longer fits
  }
  if (hasC) { cr = W(cr, 3); if (op != "dotvec" && op != "tdotvec") cc = W(cc, 4); }
  Mat A = g.mat(ar, ac, op == "atanan" ? 0.3 : 0), B = g.mat(br, bc), C = g.mat(cr, cc);
  if (op == "symdot") for (int i = 0; i < ar; i++) for (int j = 0; j < i; j++) A.at(i, j) = A.at(j, i);
  if (op == "dotsym" && br == bc) for (int i = 0; i < br; i++) for (int j = 0; j < i; j++) B.at(i, j) = B.at(j, i);
  Mat K = g.mat(cr, cc); // counts
  bool scaled = op == "dot" || op == "dottr" || op == "trdot" || op == "trdottr" || op == "dotvec" || op == "tdotvec" || op == "aat" || op == "ata" || op == "symdot" || op == "dotsym";
  if (!scaled) { alpha = 1; beta = 0; }
  if (scaled && beta == 0 && g.r.chance(0.3)) for (int i = 0; i < cr; i++) for (int j = 0; j < cc; j++) C.at(i, j) = NAN; // what beta 0 must not read
  string before = jm(C.m), a0 = jm(A.m), b0 = jm(B.m);
  double out = 0;
  bool threw = refused([&] {
    auto &a = A.m; auto &b = B.m; auto &c = C.m;
    bool z = !checked;
    if (op == "dot") z ? a.Dot0(b, c, alpha, beta) : a.Dot(b, c, alpha, beta);
    else if (op == "dottr") z ? a.DotTr0(b, c, alpha, beta) : a.DotTr(b, c, alpha, beta);
    else if (op == "trdot") z ? a.TrDot0(b, c, alpha, beta) : a.TrDot(b, c, alpha, beta);
    else if (op == "trdottr") z ? a.TrDotTr0(b, c, alpha, beta) : a.TrDotTr(b, c, alpha, beta);
    else if (op == "dotvec") z ? a.DotVector0(b, c, alpha, beta) : a.DotVector(b, c, alpha, beta);
    else if (op == "tdotvec") z ? a.tDotVector0(b, c, alpha, beta) : a.tDotVector(b, c, alpha, beta);
    else if (op == "vecvec") out = z ? a.VectorDotVector0(b) : a.VectorDotVector(b);
    else if (op == "aat") z ? a.Dot_AAt0(c, flag, alpha, beta) : a.Dot_AAt(c, flag, alpha, beta);
    else if (op == "ata") z ? a.Dot_AtA0(c, flag, alpha, beta) : a.Dot_AtA(c, flag, alpha, beta);
    else if (op == "atanan") z ? a.Dot_AtA_nan0(c, K.m, flag) : a.Dot_AtA_nan(c, K.m, flag);
    else if (op == "symdot") z ? a.SymDot0(b, c, flag, alpha, beta) : a.SymDot(b, c, flag, alpha, beta);
    else if (op == "dotsym") z ? a.DotSym0(b, c, flag, alpha, beta) : a.DotSym(b, c, flag, alpha, beta);
    else if (op == "dotdiag") z ? a.DotDiag0(b, c) : a.DotDiag(b, c);
    else if (op == "diagdot") z ? a.DiagDot0(b, c) : a.DiagDot(b, c);
    else if (op == "kron") z ? a.Kron0(b, c) : a.Kron(b, c);
    else if (op == "kroniden") z ? a.KronIden0(h, c) : a.KronIden(h, c);
    else if (op == "idenkron") z ? a.IdenKron0(h, c) : a.IdenKron(h, c);
    else z ? a.TrKronIden0(h, c) : a.TrKronIden(h, c);
  });
  Rec()("kind", "product")("op", op)("a", rm(A.m))("b", rm(B.m))("c", Raw{before})("out", rm(C.m))("counts", rm(K.m))("value", Raw{jd(out)})
      ("alpha", Raw{jd(alpha)})("beta", Raw{jd(beta)})("flag", flag)("h", h)("checked", checked)("legal", legal)("threw", threw)
      ("kept", a0 == jm(A.m) && b0 == jm(B.m))("guard", A.ok() && B.ok() && C.ok() && K.ok()).out();
}

static void elements(Gen &g) {
  static const char *ops[] = {"add", "subtract", "multiply", "divide", "power", "apply"};
  int o = g.r.range(0, 5);
  int n = g.dim(), m = g.dim();
  bool scalar = g.r.chance(0.4), inplace = g.r.chance(0.4) || o == 4;
  if (o == 4) scalar = true;
  if (o == 5) scalar = false;
  int wrong = g.r.chance(0.15) ? g.r.range(1, 2) : 0;
  if (scalar && inplace) wrong = 0;
  if (o == 5 && wrong) wrong = 0;
  bool legal = true, checked = wrong || g.r.chance(0.5);
  int br = n, bc = m, cr = n, cc = m;
  bool onB = !scalar && (inplace || g.r.chance(0.5));
  if (wrong == 1) (onB ? br : cr) = g.off(n, legal, true);
  if (wrong == 2) (onB ? bc : cc) = g.off(m, legal, true);
  double nan = g.r.chance(0.3) ? 0.2 : 0;
  Mat A = g.mat(n, m, nan), B = g.mat(br, bc, nan), C = g.mat(cr, cc);
  double b = g.r.range(-3, 3), beta = o == 2 && !inplace ? g.beta() : 0;
  if (o == 4) b = g.r.range(0, 3);
  string a0 = jm(A.m), b0 = jm(B.m), c0 = jm(C.m);
  std::function<Tv(Tv, Tv)> f2 = [](Tv x, Tv y) { return x * 3 - y; };
  bool threw = refused([&] {
    auto &a = A.m; auto &c = C.m;
    if (inplace) {
      if (scalar) { if (o == 0) a.Add_in(b); else if (o == 1) a.Subtract_in(b); else if (o == 2) a.Multiply_in(b); else if (o == 3) a.Divide_in(b); else a.Power_in(b); }
      else if (o == 0) checked ? a.Add_in(B.m) : a.Add_in0(B.m);
      else if (o == 1) checked ? a.Subtract_in(B.m) : a.Subtract_in0(B.m);
      else if (o == 2) checked ? a.Multiply_in(B.m) : a.Multiply_in0(B.m);
      else if (o == 3) checked ? a.Divide_in(B.m) : a.Divide_in0(B.m);
      else a.Apply_in(B.m, f2);
    } else if (scalar) {
      if (o == 0) checked ? a.Add(b, c) : a.Add0(b, c);
      else if (o == 1) checked ? a.Subtract(b, c) : a.Subtract0(b, c);
      else if (o == 2) checked ? a.Multiply(b, c, beta) : a.Multiply0(b, c, beta);
      else checked ? a.Divide(b, c) : a.Divide0(b, c);
    } else {
      if (o == 0) checked ? a.Add(B.m, c) : a.Add0(B.m, c);
      else if (o == 1) checked ? a.Subtract(B.m, c) : a.Subtract0(B.m, c);
      else if (o == 2) checked ? a.Multiply(B.m, c, beta) : a.Multiply0(B.m, c, beta);
      else if (o == 3) checked ? a.Divide(B.m, c) : a.Divide0(B.m, c);
      else checked ? a.Apply(B.m, f2, c) : a.Apply0(B.m, f2, c);
    }
  });
  Rec()("kind", "element")("op", ops[o])("a", Raw{a0})("b", Raw{b0})("c", Raw{c0})("out", inplace ? rm(A.m) : rm(C.m))("scalar", scalar)("inplace", inplace)
      ("s", Raw{jd(b)})("beta", Raw{jd(beta)})("checked", checked)("legal", legal)("threw", threw)
      ("kept", (inplace || a0 == jm(A.m)) && b0 == jm(B.m))("guard", A.ok() && B.ok() && C.ok()).out();
}

// moving elements about: a is the matrix, b the source, c the storage; x, y, .. are the integer arguments
static void moves(Gen &g) {
  static const char *ops[] = {"transpose", "transposein", "getsub", "setsub", "setsubt", "getsubidx", "getsubtwo", "setsubvec", "getsubvec", "setsubrow", "setrow", "setcol", "getrow", "getcol",
                              "getdiag", "rowfromrow", "colfromrow", "colfromcol", "colfromdiag", "rowfromdiag", "setrowval", "setcolval", "rowplus", "rowminus", "colplus", "colminus",
                              "setvalue", "sequence", "diag", "diagoff", "offdiag", "diagonal", "triangular", "sort", "sortby", "sortrows", "sortcols", "applyrow", "applycol", "copyto", "copyfrom", "plusat", "minusat", "setat"};
  string op = ops[g.r.range(0, (int)(sizeof ops / sizeof *ops) - 1)];
  int n = g.dim(), m = g.dim();
  bool square = op == "getdiag" || op == "diag" || op == "diagoff" || op == "offdiag" || op == "diagonal" || op == "triangular";
  if (square) m = n;
  if (op == "transposein" && n * m < 2) m = 2;
  bool wrong = g.r.chance(0.3), legal = true, checked = wrong || g.r.chance(0.5);
  double nan = g.r.chance(0.3) ? 0.2 : 0;
  bool flag = g.r.chance(0.5), other = g.r.chance(0.5);
  double s = g.r.range(-5, 5), t = g.r.range(-3, 3);
  vector<Ti> u, w;
  int x = 0, y = 0, p = 0, q = 0, rc = 1, cc = 1;
  if (square && wrong) { m = n + 1; legal = false; }
  if (op == "setsubvec" || op == "getsubvec" || op == "sortby") m = 1;
  if (op == "sort" || op == "sortby") nan = 0;
  Mat A = g.mat(n, m, nan);
  int br = 1, bc = 1, cr = 1, cl = 1;
  auto bad = [&](int d) { return g.off(d, legal, wrong); };
  int i = g.r.range(0, n - 1), j = g.r.range(0, m - 1);
  auto index = [&](int d, int size) { if (!wrong) return d; legal = false; return g.r.chance(0.5) ? -1 : size; };
  if (op == "transpose") { cr = m; cl = n; if (wrong) { if (flag) cr = bad(m); else cl = bad(n); } }
  else if (op == "getsub" || op == "setsub" || op == "setsubt") {
    // the block of the matrix: (x, y) with rc rows and cc columns; its place in the other: (p, q)
    x = g.r.range(0, n - 1); y = g.r.range(0, m - 1); rc = g.r.range(0, n - x); cc = g.r.range(0, m - y);
    p = g.r.range(0, 2); q = g.r.range(0, 2);
    int R = p + rc, Q = q + cc;
    if (op == "getsub") {
      cr = R; cl = Q;
      if (wrong) {
        if (other) { if (flag) { rc = n - x + 1; cr = p + rc; } else { cc = m - y + 1; cl = q + cc; } legal = false; }
        else if (flag) cr = bad(std::max(R, 1)); else cl = bad(std::max(Q, 1));
        if (!other && ((flag && R == 0) || (!flag && Q == 0))) { legal = true; cr = R; cl = Q; wrong = false; }
      }
    } else if (op == "setsub") { br = R + g.r.range(0, 1); bc = Q + g.r.range(0, 1); if (wrong) { legal = false; if (flag) { rc = n - x + 1; br = p + rc; } else { bc = Q; cc++; bc = q + cc - 1; } } }
    else { br = p + cc + g.r.range(0, 1); bc = q + rc + g.r.range(0, 1); if (wrong) { legal = false; if (flag) { rc = n - x + 1; bc = q + rc; } else { br = p + cc; cc = m - y + 1; br = p + cc - 1; } } }
  } else if (op == "getsubidx") {
    // flag: rows x .. x+rc-1 and the listed columns; other: the listed ones are excluded
    int f = flag ? n : m, sd = flag ? m : n;
    x = g.r.range(0, f - 1); rc = g.r.range(1, f - x); u = g.subset(sd); p = g.r.range(0, 1); q = g.r.range(0, 1);
    int cnt = other ? sd - (int)u.size() : (int)u.size();
    cr = p + (flag ? rc : cnt); cl = q + (flag ? cnt : rc);
    if (wrong) { if (g.r.chance(0.5)) cr = bad(std::max(cr, 1)), legal = cr == p + (flag ? rc : cnt); else cl = bad(std::max(cl, 1)), legal = cl == q + (flag ? cnt : rc); }
  } else if (op == "getsubtwo") {
    u = g.subset(n); w = g.subset(m); if (flag) u.push_back(u[0]); p = g.r.range(0, 1); q = g.r.range(0, 1);
    cr = p + (int)u.size(); cl = q + (int)w.size();
    if (wrong) { if (other) cr = bad(cr); else cl = bad(cl); }
  } else if (op == "setsubvec") { x = g.r.range(0, n - 1); rc = g.r.range(1, n - x); p = g.r.range(0, 2); br = p + rc + g.r.range(0, 1); if (wrong) { legal = false; rc = n - x + 1; br = p + rc; } }
  else if (op == "getsubvec") { x = g.r.range(0, n - 1); rc = g.r.range(1, n - x); p = g.r.range(0, 2); cr = p + rc; if (wrong) cr = bad(cr); }
  else if (op == "setsubrow") { x = i; y = j; cc = g.r.range(1, m - j); br = cc; x = index(i, n); }
  else if (op == "setrow") { br = m; x = index(i, n); }
  else if (op == "setcol") { br = n; x = index(j, m); }
  else if (op == "getrow") { x = i; cr = m; if (wrong) { if (flag) x = index(i, n); else cr = bad(m); } }
  else if (op == "getcol") { x = j; cr = n; if (wrong) { if (flag) x = index(j, m); else cr = bad(n); } }
  else if (op == "getdiag") cr = n;
  else if (op == "rowfromrow") { br = g.dim(); bc = m; y = g.r.range(0, br - 1); x = index(i, n); }
  else if (op == "colfromrow") { br = g.dim(); bc = n; y = g.r.range(0, br - 1); x = index(j, m); }
  else if (op == "colfromcol") { br = n; bc = g.dim(); y = g.r.range(0, bc - 1); x = index(j, m); }
  else if (op == "colfromdiag") { br = bc = n; x = index(j, m); }
  else if (op == "rowfromdiag") { br = bc = m; x = index(i, n); }
  else if (op == "setrowval" || op == "rowplus" || op == "rowminus") x = index(i, n);
  else if (op == "setcolval" || op == "colplus" || op == "colminus") x = index(j, m);
  else if (op == "triangular") { br = flag ? n * (n + 1) / 2 : n * (n - 1) / 2; x = g.r.range(-1, 1); if (wrong) { if (g.r.chance(0.5)) br = g.off(std::max(br, 1), legal, true); } }
  else if (op == "sort" || op == "sortby" || op == "sortrows" || op == "sortcols") {
    cr = n; cl = m; u = g.perm(op == "sortcols" ? m : n);
    if (wrong) { if (other && op != "sort") { legal = false; if (g.r.chance(0.5)) u.push_back(0); else u[0] = (Ti)u.size(); } else cr = bad(n); }
  } else if (op == "applyrow") x = i; else if (op == "applycol") x = j;
  else if (op == "copyto") { cr = n; cl = m; if (wrong) { if (flag) cr = bad(n); else cl = bad(m); } }
  else if (op == "copyfrom") { br = n; bc = m; if (wrong) { if (flag) br = bad(n); else bc = bad(m); } }
  else if (op == "plusat" || op == "minusat" || op == "setat") { x = i; y = j; if (wrong) { if (flag) x = index(i, n); else y = index(j, m); } }
  if (!square && legal) { wrong = false; }
  if (op == "transposein" || op == "setvalue" || op == "sequence" || op == "applyrow" || op == "applycol") legal = true;
  Mat B = g.mat(br, bc), C = g.mat(cr, cl);
  string a0 = jm(A.m), b0 = jm(B.m), c0 = jm(C.m);
  std::function<Tv(Tv)> f1 = [](Tv z) { return z * 2 + 1; };
  bool toC = false;
  bool threw = refused([&] {
    auto &a = A.m; auto &b = B.m; auto &c = C.m;
    bool z = !checked;
    if (op == "transpose") { toC = true; z ? a.Transpose0(c) : a.Transpose(c); }
    else if (op == "transposein") a.Transpose();
    else if (op == "getsub") { toC = true; z ? a.GetSub0(x, y, rc, cc, c, p, q) : a.GetSub(x, y, rc, cc, c, p, q); }
    else if (op == "setsub") z ? a.SetSub0(x, y, b, p, q, rc, cc) : a.SetSub(x, y, b, p, q, rc, cc);
    else if (op == "setsubt") z ? a.SetSub_t0(x, y, b, p, q, rc, cc) : a.SetSub_t(x, y, b, p, q, rc, cc);
    else if (op == "getsubidx") { toC = true; z ? a.GetSub0(x, rc, u, flag, c, p, q, other) : a.GetSub(x, rc, u, flag, c, p, q, other); }
    else if (op == "getsubtwo") { toC = true; z ? a.GetSub0(u, w, c, p, q) : a.GetSub(u, w, c, p, q); }
    else if (op == "setsubvec") z ? a.SetSubVector0(x, b, p, rc) : a.SetSubVector(x, b, p, rc);
    else if (op == "getsubvec") { toC = true; z ? a.GetSubVector0(x, rc, c, p) : a.GetSubVector(x, rc, c, p); }
    else if (op == "setsubrow") z ? a.SetSubRow0(x, y, b.Data, cc) : a.SetSubRow(x, y, b, cc);
    else if (op == "setrow") z ? a.SetRow0(x, b) : a.SetRow(x, b);
    else if (op == "setcol") z ? a.SetColumn0(x, b) : a.SetColumn(x, b);
    else if (op == "getrow") { toC = true; z ? a.GetRow0(x, c) : a.GetRow(x, c); }
    else if (op == "getcol") { toC = true; z ? a.GetColumn0(x, c) : a.GetColumn(x, c); }
    else if (op == "getdiag") { toC = true; z ? a.GetDiag0(c) : a.GetDiag(c); }
    else if (op == "rowfromrow") z ? a.SetRowFromRow0(x, b, y) : a.SetRowFromRow(x, b, y);
    else if (op == "colfromrow") z ? a.SetColumnFromRow0(x, b, y) : a.SetColumnFromRow(x, b, y);
    else if (op == "colfromcol") z ? a.SetColumnFromColumn0(x, b, y) : a.SetColumnFromColumn(x, b, y);
    else if (op == "colfromdiag") z ? a.SetColumnFromDiag0(x, b) : a.SetColumnFromDiag(x, b);
    else if (op == "rowfromdiag") z ? a.SetRowFromDiag0(x, b) : a.SetRowFromDiag(x, b);
    else if (op == "setrowval") z ? a.SetRow0(x, s) : a.SetRow(x, s);
    else if (op == "setcolval") z ? a.SetColumn0(x, s) : a.SetColumn(x, s);
    else if (op == "rowplus") z ? a.SetRow_plus0(x, s) : a.SetRow_plus(x, s);
    else if (op == "rowminus") z ? a.SetRow_minus0(x, s) : a.SetRow_minus(x, s);
    else if (op == "colplus") z ? a.SetColumn_plus0(x, s) : a.SetColumn_plus(x, s);
    else if (op == "colminus") z ? a.SetColumn_minus0(x, s) : a.SetColumn_minus(x, s);
    else if (op == "setvalue") a.SetValue(s);
    else if (op == "sequence") a.SetSequence(s, t);
    else if (op == "diag") a.SetValueDiag(s);
    else if (op == "diagoff") a.SetValueDiag(s, t);
    else if (op == "offdiag") a.SetValueOffDiag(s);
    else if (op == "diagonal") Matrix<Tv>::Diagonal(a, s, t);
    else if (op == "triangular") z ? Matrix<Tv>::MakeTriangular0(a, b, x, flag, x != -1) : Matrix<Tv>::MakeTriangular(a, b, x, flag, x != -1);
    else if (op == "sort") { toC = true; a.Sort(c, flag); }
    else if (op == "sortby") { toC = true; z ? a.SortByVector0(c, u) : a.SortByVector(c, u); }
    else if (op == "sortrows") { toC = true; z ? a.SortRowsBy0(c, u) : a.SortRowsBy(c, u); }
    else if (op == "sortcols") { toC = true; z ? a.SortColumnsBy0(c, u) : a.SortColumnsBy(c, u); }
    else if (op == "applyrow") a.ApplyRow_in(x, f1);
    else if (op == "applycol") a.ApplyColumn_in(x, f1);
    else if (op == "copyto") { toC = true; z ? a.CopyTo0(c) : a.CopyTo(c); }
    else if (op == "copyfrom") z ? a.CopyFrom0(b) : a.CopyFrom(b);
    else if (op == "plusat") z ? a.Set_Plus0(x, y, s) : a.Set_Plus(x, y, s);
    else if (op == "minusat") z ? a.Set_Minus0(x, y, s) : a.Set_Minus(x, y, s);
    else if (op == "setat") z ? a.Set0(x, y, s) : a.Set(x, y, s);
  });
  Rec()("kind", "move")("op", op)("a", Raw{a0})("b", Raw{b0})("c", Raw{c0})("out", toC ? rm(C.m) : rm(A.m))("x", x)("y", y)("p", p)("q", q)("rc", rc)("cc", cc)("u", u)("w", w)
      ("flag", flag)("other", other)("s", Raw{jd(s)})("t", Raw{jd(t)})("checked", checked)("legal", legal)("threw", threw)
      ("kept", b0 == jm(B.m) && (!toC || a0 == jm(A.m)))("guard", A.ok() && B.ok() && C.ok()).out();
}

// what a matrix says about itself
static void queries(Gen &g) {
  int n = g.dim(), m = g.dim();
  if (g.r.chance(0.3)) m = n;
  double nan = g.r.chance(0.5) ? 0 : g.r.chance(0.5) ? 0.2 : 0.5, inf = g.r.chance(0.15) ? 0.15 : 0;
  Mat A = g.mat(n, m, nan, inf);
  if (g.r.chance(0.2)) for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) A.at(i, j) = g.r.chance(0.9) ? 2 : A.at(i, j);
  if (n == m && g.r.chance(0.5)) for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) A.at(i, j) = A.at(j, i) + (g.r.chance(0.1) ? 0.5 : 0);
  if (n == m && g.r.chance(0.4)) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) A.at(i, j) = (i == j ? 3 : 1) + (g.r.chance(0.05) ? 0.25 : 0);
  Mat B(A);
  if (g.r.chance(0.6)) B.at(g.r.range(0, n - 1), g.r.range(0, m - 1)) += g.r.chance(0.3) ? 0.5 : g.r.chance(0.5) ? -0.25 : 2;
  double eps = g.r.chance(0.5) ? 0 : g.r.chance(0.5) ? 0.25 : 0.5;
  double value = g.r.chance(0.2) ? NAN : g.r.chance(0.5) ? 2 : A.at(g.r.range(0, n - 1), g.r.range(0, m - 1));
  if (std::isinf(value)) value = 2;
  bool nans = g.r.chance(0.5), ignore = g.r.chance(0.5), checkInf = g.r.chance(0.5), sample = g.r.chance(0.5);
  int i = g.r.range(0, n - 1), j = g.r.range(0, m - 1), j2 = g.r.range(0, m - 1);
  auto &a = A.m;
  Rec o;
  o("kind", "query")("op", "all")("a", rm(a))("b", rm(B.m))("eps", Raw{jd(eps)})("value", Raw{jd(value)})("nans", nans)("ignore", ignore)("checkInf", checkInf)("i", i)("j", j)("j2", j2)("sample", sample)("inf", inf > 0);
  o("square", a.IsSquare())("vector", a.IsVector())("length", a.length())("hasNan", a.HasNaN());
  if (n == m) o("symmetric", a.IsSymmetric(eps))("diagonal", Matrix<Tv>::IsDiagonal(a, 3, 1, eps))("trace", Raw{jd(a.Trace())});
  o("equals", a.Equals(B.m, eps, false, nans))("equalsValue", a.EqualsValue(value, eps, nans, ignore))("equalsColumn", a.EqualsValueColumn(j, value, eps, nans, ignore));
  { Mat D = g.mat(n + 1, m); o("equalsOther", a.Equals(D.m, eps, false, nans))("equalsThrows", refused([&] { a.Equals(D.m, eps, true, nans); })); }
  o("any", a.Any(value))("allOf", a.All(value));
  { vector<Ti> v; a.IndicesOfVector(value, v); o("indices", v); }
  bool miss = false;
  auto range = [&](const char *k, IndexRange r) { bool ok = !r.IsNotValid(); o(k, vector<int>{ok ? r.StartIndex : -1, ok ? r.EndIndex : -1}); };
  range("rangeColumn", a.GetRangeColumn(miss, j)); o("missColumn", miss);
  range("rangeRow", a.GetRangeRow(miss, i)); o("missRow", miss);
  range("range", a.GetRange(miss)); o("missAny", miss);
  { vector<Ti> v, c = g.subset(m), w; a.GetAnyNanRow(v, checkInf); a.GetAnyNanRow(w, checkInf, &c); o("fullRows", v)("cols", c)("fullRowsOf", w); }
  { Mat X(A); X.m.RemoveColumnsAnyNan_in(checkInf); o("noNanColumns", rm(X.m))("noNanShape", vector<int>{X.m.RowsCount, X.m.ColsCount})("guard1", X.ok()); }
  { Mat X(A); auto c = g.subset(m, false); X.m.RemoveColumnsIn(c); o("dropped", c)("columnsLeft", rm(X.m))("leftShape", vector<int>{X.m.RowsCount, X.m.ColsCount})("guard2", X.ok()); }
  { Mat X(n * m, 1); std::memcpy(X.m.Data, a.Data, sizeof(double) * n * m); X.m.RemoveNanVector_in(checkInf); vector<double> v(X.m.Data, X.m.Data + X.m.length()); o("noNan", rv(v)); 
    Mat Y(n * m, 1); std::memcpy(Y.m.Data, a.Data, sizeof(double) * n * m); Matrix<Tv> none; Ti cnt = Matrix<Tv>::RemoveNanVector(Y.m, none); o("nonNan", cnt); 
    if (cnt > 0) { Mat S(cnt, 1); Matrix<Tv>::RemoveNanVector(Y.m, S.m); o("noNan2", rv(vector<double>(S.m.Data, S.m.Data + cnt)))("guard3", S.ok()); } }
  if (inf == 0) {
    Mat X(A); Ti cnt = -1; X.m.InterpolateColumn(cnt, j); o("interpColumn", rm(X.m))("interpColumnCount", cnt)("guard4", X.ok());
    Mat Y(A); cnt = -1; Y.m.InterpolateRow(cnt, i); o("interpRow", rm(Y.m))("interpRowCount", cnt)("guard5", Y.ok());
  }
  if (nan == 0) {
    Ti r1 = -1, c1 = -1, r2 = -1, c2 = -1, k1 = -1, k2 = -1, k3 = -1, k4 = -1;
    o("maximum", Raw{jd(a.Maximum())})("minimum", Raw{jd(a.Minimum())})("max", Raw{jd(a.max(r1, c1))})("min", Raw{jd(a.min(r2, c2))});
    o("maxRow", Raw{jd(a.MaximumInRow(i, k1))})("minRow", Raw{jd(a.MinimumInRow(i, k2))})("maxCol", Raw{jd(a.MaximumInColumn(j, k3))})("minCol", Raw{jd(a.MinimumInColumn(j, k4))});
    o("at", vector<int>{r1, c1, r2, c2, k1, k2, k3, k4});
    vector<Ti> up, down; a.SortIndicesVector(up, true); a.SortIndicesVector(down, false); o("up", up)("down", down);
    o("first", Raw{jd(a.First())})("last", Raw{jd(a.Last())});
    o("sum", Raw{jd(a.Sum())});
    { auto rr = g.subset(n, false), ccs = g.subset(m, false), c3 = ccs, r0 = rr, c0 = ccs; Mat S((Ti)(rr.empty() ? n : rr.size()), 1), T((Ti)(ccs.empty() ? m : ccs.size()), 1), U((Ti)(ccs.empty() ? m : ccs.size()), 1);
      a.RowsSum(S.m, rr); a.ColumnsSum(T.m, ccs); a.ColumnsMean(U.m, c3);
      o("ofRows", r0)("ofCols", c0)("rowSums", rv(vector<double>(S.m.Data, S.m.Data + S.n)))("colSums", rv(vector<double>(T.m.Data, T.m.Data + T.n)))("colMeans", rv(vector<double>(U.m.Data, U.m.Data + U.n)))("guard6", S.ok() && T.ok() && U.ok());
      if (n > 1 && inf == 0) { auto c4 = c0; Mat V((Ti)T.n, (Ti)T.n); a.ColumnsVariance(V.m, c4, sample); o("colVariance", rm(V.m)); }
    }
  }
  // element access by position, in and out of range
  { int x = g.r.range(-1, n), y = g.r.range(-1, m), z = g.r.range(-1, n * m); double v = 0, w = 0; bool t1 = refused([&] { v = a.Get(x, y); }), t2 = refused([&] { w = a.Get(z); }); 
    Ti ri, ci; int zz = g.r.range(0, n * m - 1); a.TranslateIndex(zz, ri, ci);
    o("gx", x)("gy", y)("gz", z)("get", Raw{jd(v)})("getThrew", t1)("get1", Raw{jd(w)})("get1Threw", t2)("tz", zz)("tr", ri)("tc", ci); }
  { vector<double> v; for (auto it = a.begin(); it != a.end(); ++it) v.push_back(*it); o("iter", rv(v)); v.clear(); for (auto it = a.ColBegin(j); it != a.ColEnd(j); ++it) v.push_back(*it); o("iterColumn", rv(v)); v.clear(); for (auto it = a.RowBegin(i); it != a.RowEnd(i); ++it) v.push_back(*it); o("iterRow", rv(v)); }
  o("guard", A.ok()).out();
}

static void moments(Gen &g) {
  int n = g.r.chance(0.15) ? 1 : g.r.size(2, 9, 17, 40), m = g.r.range(1, 3);
  bool check = g.r.chance(0.5), sample = g.r.chance(0.5);
  double nan = g.r.chance(0.4) ? 0 : 0.3;
  Mat A = g.mat(n, m, nan);
  double far = g.r.chance(0.2) ? 1e6 : 0;
  for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) A.at(i, j) += far;
  if (g.r.chance(0.15)) for (int i = 0; i < n; i++) A.at(i, 0) = 3;
  auto &a = A.m;
  int j = g.r.range(0, m - 1), j2 = g.r.range(0, m - 1);
  Tv mean = 0, m1 = 0, m2 = 0, v1 = 0, v2 = 0; Ti count = -1, c2 = -1, c3 = -1;
  Rec o;
  o("kind", "moment")("op", "all")("a", rm(a))("check", check)("sample", sample)("j", j)("j2", j2);
  o("mean", Raw{jd(a.Mean(check))});
  { double v = a.Variance(mean, sample, check); o("variance", Raw{jd(v)})("varianceMean", Raw{jd(mean)}); }
  { double v = a.VarianceColumn(j, mean, count, sample, check); o("varColumn", Raw{jd(v)})("varColumnMean", Raw{jd(mean)})("varColumnCount", count); }
  { double v = a.CovarianceColumn(j, j2, m1, m2, c2, sample, check); o("covColumn", Raw{jd(v)})("covMeans", rv({m1, m2}))("covCount", c2); }
  { double v = a.CorrelationColumn(j, j2, m1, m2, v1, v2, c3, sample, check); o("corColumn", Raw{jd(v)})("corMeans", rv({m1, m2}))("corVars", rv({v1, v2}))("corCount", c3); }
  Mat M(m, 1), V(m, 1), M2(m, 1), V2(m, 1);
  a.ColumnsMeans(M.m, check); a.ColumnsVariances(V.m, sample, check); a.ColumnsMeansVariances(M2.m, V2.m, sample, check);
  auto vv = [](Mat &x) { return rv(vector<double>(x.m.Data, x.m.Data + x.n)); };
  o("means", vv(M))("variances", vv(V))("means2", vv(M2))("variances2", vv(V2));
  int mode = g.r.range(0, 2); bool isVar = g.r.chance(0.5);
  Mat ms = g.mat(m, 1), sd(m, 1); for (int k = 0; k < m; k++) sd.at(k, 0) = g.r.chance(0.2) ? 0 : g.r.range(1, 8) / 2.0;
  Mat X(A); X.m.ColumnsStandard(mode == 1 ? nullptr : &ms.m, mode == 2 ? nullptr : &sd.m, isVar);
  o("mode", mode)("isVar", isVar)("byMeans", vv(ms))("bySds", vv(sd))("standard", rm(X.m));
  { Mat bad = g.mat(m + 1, 1); o("standardThrew", refused([&] { Mat Z(A); Z.m.ColumnsStandard(&bad.m, nullptr); }))("meansThrew", refused([&] { a.ColumnsMeans(bad.m, check); }))("covThrew", refused([&] { a.CovarianceColumn(j, m, m1, m2, c2, sample, check); })); }
  o("guard", A.ok() && M.ok() && V.ok() && M2.ok() && V2.ok() && X.ok()).out();
}

static void solves(Gen &g) {
  static const char *ops[] = {"inv", "inv2", "det", "detpd", "chol", "triangle", "positive", "norm", "svd", "svdvalues"};
  string op = ops[g.r.range(0, 9)];
  int n = g.r.range(1, 5), m = g.r.range(1, 3), rows = n, cols = n;
  bool upper = g.r.chance(0.5), tr = g.r.chance(0.5), unit = g.r.chance(0.3), checked = g.r.chance(0.5);
  bool singular = g.r.chance(0.15), wrong = g.r.chance(0.12);
  if (op == "inv2") { n = rows = cols = 2; }
  if (op == "norm" || op == "svd" || op == "svdvalues") { rows = g.dim(); cols = g.dim(); wrong = false; singular = false; }
  if (op == "det" || op == "inv2" || op == "detpd") wrong = false;
  Mat A = g.mat(rows, cols), B = g.mat(n, m), S(n, op == "chol" ? n : n);
  bool pd = op == "detpd" || op == "chol" || op == "positive";
  if (pd) { // L L' + something; or not positive definite
    Mat L = g.mat(n, n);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double s = i == j ? 1 : 0; for (int k = 0; k < n; k++) s += L.at(i, k) * L.at(j, k); A.at(i, j) = s; }
    if (singular) A.at(n - 1, n - 1) = -A.at(n - 1, n - 1);
  } else if (op == "inv" || op == "inv2" || op == "det" || op == "triangle") {
    if (!singular) for (int i = 0; i < n; i++) A.at(i, i) += (A.at(i, i) >= 0 ? 1 : -1) * (op == "triangle" ? 1 : g.r.chance(0.5) ? 20 : 0);
    else for (int i = 0; i < n; i++) { if (op == "triangle") A.at(0, 0) = 0; else A.at(i, 0) = 0; }
  }
  bool legal = true;
  Mat A2(A);
  if (wrong && op == "inv") legal = false;
  if (wrong && op == "chol") { if (n > 1) { A.at(0, 1) += 1; legal = false; } }
  if (wrong && (op == "triangle" || op == "positive")) legal = false;
  if (!legal) checked = true;
  Mat bad = g.mat(n + 1, m), Sbad(n + 1, n);
  Mat X(A), Y(legal ? B : bad);
  int info = -99; double value = 0; char nm = "1FIM"[g.r.range(0, 3)];
  Ti k = std::min(rows, cols);
  Mat U(rows, rows), W(cols, cols), D(k, 1);
  string a0 = jm(A.m);
  Raw out{"[]"};
  bool guard = true;
  bool threw = refused([&] {
    if (op == "inv") { Mat &st = legal ? S : Sbad; if (checked) info = A.m.Inv(st.m); else { info = X.m.Inv0(); std::memcpy(S.m.Data, X.m.Data, sizeof(double) * n * n); } guard = st.ok(); out = rm(st.m); }
    else if (op == "inv2") { info = X.m.Inv2x2(); out = rm(X.m); }
    else if (op == "det") value = X.m.Det();
    else if (op == "detpd") value = X.m.Det_pd0();
    else if (op == "chol") { if (checked) info = A.m.Chol(S.m, upper); else { info = X.m.Chol0(upper); std::memcpy(S.m.Data, X.m.Data, sizeof(double) * n * n); } out = rm(S.m); }
    else if (op == "triangle") { info = checked ? X.m.SolveTrian(Y.m, upper, tr, unit) : X.m.SolveTrian0(Y.m, upper, tr, unit); out = rm(Y.m); }
    else if (op == "positive") { info = checked ? X.m.SolvePos(Y.m, upper) : X.m.SolvePos0(Y.m, upper); out = rm(Y.m); }
    else if (op == "norm") value = A.m.Norm(nm);
    else {
      bool all = op == "svd";
      Ti lwork = 10 * (rows + cols) + 20; vector<double> work(lwork);
      info = Matrix<Tv>::SVD0(X.m.Data, rows, cols, work.data(), lwork, U.m, D.m, W.m, all ? 'A' : 'N', all ? 'A' : 'N');
      if (!all) { for (auto &z : U.v) if (z == kMark) z = z; }
    }
  });
  guard = guard && A.ok() && X.ok() && Y.ok() && S.ok() && U.ok() && D.ok() && W.ok();
  Rec o;
  o("kind", "solve")("op", op)("a", Raw{a0})("b", rm(B.m))("out", out)("value", Raw{jd(value)})("info", info)("upper", upper)("tr", tr)("unit", unit)("norm", string(1, nm))("checked", checked)("legal", legal)("threw", threw)("singular", singular);
  if (op == "svd") o("U", rm(U.m))("V", rm(W.m));
  o("S", op == "svd" || op == "svdvalues" ? rv(vector<double>(D.m.Data, D.m.Data + k)) : rv({}));
  o("kept", a0 == jm(A.m))("guard", guard).out();
}

// symmetric storage: a sequence of writes, then every element
template <bool diag> static void symmetric(Gen &g) {
  int n = g.r.range(diag ? 1 : 2, 6);
  size_t len = diag ? n * (n + 1) / 2 : n * (n - 1) / 2;
  vector<double> v(len + 16, kMark);
  MatrixSym<diag, Tv> s(n);
  s.SetData(7, v.data() + 8, n);
  vector<vector<int>> w;
  string writes = "[";
  int k = g.r.range(0, 2 * n);
  for (int t = 0; t < k; t++) {
    int i = g.r.chance(0.05) ? (g.r.chance(0.5) ? -1 : n) : g.r.range(0, n - 1), j = g.r.range(0, n - 1), x = g.r.range(-9, 9);
    bool threw = refused([&] { s.Set(i, j, x); });
    if (t) writes += ",";
    writes += Rec()("i", i)("j", j)("x", x)("threw", threw).str();
  }
  writes += "]";
  string get = "[";
  for (int i = 0; i < n; i++) { get += i ? ",[" : "["; for (int j = 0; j < n; j++) { if (j) get += ","; double x = 0; bool threw = refused([&] { x = s.Get(i, j); }); get += threw ? "\"refused\"" : jd(x); } get += "]"; }
  get += "]";
  bool ok = true;
  for (size_t i = 0; i < 8; i++) ok = ok && v[i] == kMark && v[len + 8 + i] == kMark;
  int x = g.r.chance(0.5) ? 7 : g.r.range(-9, 9);
  Rec()("kind", "symmetric")("op", diag ? "diag" : "nodiag")("n", n)("writes", Raw{writes})("get", Raw{get})("x", x)("any", s.Any(x))("allOf", s.All(x))("length", s.length_array())("guard", ok).out();
}

// standardizing a data set
static void standards(Gen &g) {
  int n = g.r.range(2, 8), m = g.r.range(1, 4);
  bool center = g.r.chance(0.7), scale = g.r.chance(0.7), drop = g.r.chance(0.5), sample = g.r.chance(0.5), check = g.r.chance(0.5);
  Mat A = g.mat(n, m, check ? 0.15 : 0);
  if (g.r.chance(0.4)) { int j = g.r.range(0, m - 1); for (int i = 0; i < n; i++) A.at(i, j) = 2; }
  Mat mean = g.mat(m, 1), var(m, 1);
  for (int k = 0; k < m; k++) var.at(k, 0) = g.r.chance(0.15) ? 0 : g.r.range(1, 9) / 2.0;
  bool om = g.r.chance(0.3), ov = g.r.chance(0.3);
  MatrixStandardized<Tv> s(n, m, drop, center, scale);
  s.Sample = sample; s.CheckNan = check;
  vector<double> st(s.StorageSize + 16, kMark);
  s.Calculate(A.m, st.data() + 8, om ? &mean.m : nullptr, ov ? &var.m : nullptr);
  bool ok = A.ok() && mean.ok() && var.ok();
  for (int i = 0; i < 8; i++) ok = ok && st[i] == kMark && st[st.size() - 1 - i] == kMark;
  auto vv = [](const Matrix<Tv> &x) { return rv(vector<double>(x.Data, x.Data + x.length())); };
  bool hm = center && !om, hv = scale && !ov;
  Rec()("kind", "standard")("op", "all")("a", rm(A.m))("center", center)("scale", scale)("drop", drop)("sample", sample)("check", check)("ownMean", hm)("ownVar", hv)
      ("byMeans", vv(mean.m))("byVars", vv(var.m))("means", hm ? vv(s.ColumnMeans) : rv({}))("vars", hv ? vv(s.ColumnVars) : rv({}))
      ("removed", s.RemovedZeroVar)("out", rm(s.Result))("shape", vector<int>{s.Result.RowsCount, s.Result.ColsCount})("guard", ok).out();
}
int main(int argc, char **argv) {
  uint64_t seed = argc > 2 ? strtoull(argv[2], 0, 10) : 1;
  long count = argc > 3 ? atol(argv[3]) : 100, from = argc > 4 ? atol(argv[4]) : 0;
  for (long i = from; i < from + count; i++) {
    Gen g(seed * 1000003ull + i, i);
    switch (i % 12) {
    case 0: case 1: case 2: products(g); break;
    case 3: elements(g); break;
    case 4: case 5: case 6: case 7: moves(g); break;
    case 8: queries(g); break;
    case 9: moments(g); break;
    case 10: solves(g); break;
    default: if (g.r.chance(0.5)) standards(g); else if (g.r.chance(0.5)) symmetric<true>(g); else symmetric<false>(g);
    }
  }
  return 0;
}
