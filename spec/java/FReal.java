import tlc2.value.impl.*;
import java.math.BigDecimal;
import java.util.Arrays;

/** Real arithmetic for FReal.tla: a real number is an integer or the decimal text of an IEEE double. */
public class FReal {
  static double d(Value v) {
    if (v instanceof IntValue) return ((IntValue) v).val;
    if (!(v instanceof StringValue)) throw new RuntimeException("not a real: " + v);
    String s = ((StringValue) v).val.toString();
    switch (s) {
      case "nan": return Double.NaN;
      case "inf": return Double.POSITIVE_INFINITY;
      case "-inf": return Double.NEGATIVE_INFINITY;
      default: return Double.parseDouble(s);
    }
  }
  static Value s(double x) {
    if (Double.isNaN(x)) return new StringValue("nan");
    if (Double.isInfinite(x)) return new StringValue(x > 0 ? "inf" : "-inf");
    if (x == Math.rint(x) && Math.abs(x) < 1e9) return IntValue.gen((int) x);
    return new StringValue(Double.toString(x));
  }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static double[] seq(Value v) {
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("not a sequence: " + v);
    Value[] e = ((TupleValue) t).elems;
    double[] r = new double[e.length];
    for (int i = 0; i < e.length; i++) r[i] = d(e[i]);
    return r;
  }
  static Value tup(double[] x) {
    Value[] e = new Value[x.length];
    for (int i = 0; i < x.length; i++) e[i] = s(x[i]);
    return new TupleValue(e);
  }
  public static Value RAdd(Value a, Value b) { return s(d(a) + d(b)); }
  public static Value RSub(Value a, Value b) { return s(d(a) - d(b)); }
  public static Value RMul(Value a, Value b) { return s(d(a) * d(b)); }
  public static Value RDiv(Value a, Value b) { return s(d(a) / d(b)); }
  public static Value RNeg(Value a) { return s(-d(a)); }
  public static Value RAbs(Value a) { return s(Math.abs(d(a))); }
  public static Value RSqrt(Value a) { return s(Math.sqrt(d(a))); }
  public static Value RExp(Value a) { return s(Math.exp(d(a))); }
  public static Value RLog(Value a) { return s(Math.log(d(a))); }
  public static Value RPow(Value a, Value b) { return s(Math.pow(d(a), d(b))); }
  public static Value RMin(Value a, Value b) { return s(Math.min(d(a), d(b))); }
  public static Value RMax(Value a, Value b) { return s(Math.max(d(a), d(b))); }
  public static Value RFloor(Value a) { return s(Math.floor(d(a))); }
  public static Value RSum(Value v) { double r = 0; for (double x : seq(v)) r += x; return s(r); }
  public static Value RDot(Value v, Value w) {
    double[] a = seq(v), c = seq(w);
    if (a.length != c.length) throw new RuntimeException("RDot: lengths differ");
    double r = 0; for (int i = 0; i < a.length; i++) r += a[i] * c[i]; return s(r);
  }
  public static Value RLt(Value a, Value c) { return b(d(a) < d(c)); }
  public static Value RLe(Value a, Value c) { return b(d(a) <= d(c)); }
  public static Value RSame(Value a, Value c) {
    double x = d(a), y = d(c); return b(x == y || (Double.isNaN(x) && Double.isNaN(y)));
  }
  /** equal up to a relative (and, below 1, absolute) tolerance; NaN and infinities only equal themselves */
  public static Value RClose(Value a, Value c, Value tol) { return b(close(d(a), d(c), d(tol))); }
  static boolean close(double x, double y, double t) {
    if (Double.isNaN(x) || Double.isNaN(y)) return Double.isNaN(x) && Double.isNaN(y);
    if (Double.isInfinite(x) || Double.isInfinite(y)) return x == y;
    return Math.abs(x - y) <= t * Math.max(1.0, Math.max(Math.abs(x), Math.abs(y)));
  }
  public static Value RCloseSeq(Value a, Value c, Value tol) {
    double[] x = seq(a), y = seq(c); double t = d(tol);
    if (x.length != y.length) return b(false);
    for (int i = 0; i < x.length; i++) if (!close(x[i], y[i], t)) return b(false);
    return b(true);
  }
  public static Value RIsNaN(Value a) { return b(Double.isNaN(d(a))); }
  public static Value RIsInf(Value a) { return b(Double.isInfinite(d(a))); }
  public static Value RIsFinite(Value a) { double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
  /** ascending; NaN not allowed */
  public static Value RSort(Value v) { double[] a = seq(v); Arrays.sort(a); return tup(a); }
  /** standard normal distribution function, by the complementary error function (Cody-like, 1e-15 relative) */
  public static Value RNormCdf(Value v) { return s(normCdf(d(v))); }
  static double normCdf(double x) {
    if (Double.isNaN(x)) return x;
    if (x == Double.POSITIVE_INFINITY) return 1; if (x == Double.NEGATIVE_INFINITY) return 0;
    double z = Math.abs(x), p;
    if (z > 38) p = 0;
    else if (z < 6) { // series sum x^(2k+1)/(1*3*5...)
      double t = z, sum = z; for (int k = 1; k < 400; k++) { t *= z * z / (2 * k + 1); sum += t; if (t < 1e-18 * sum) break; }
      p = 0.5 - sum * Math.exp(-z * z / 2) / Math.sqrt(2 * Math.PI);
      if (p < 0) p = 0;
    } else { // continued fraction for the tail
      double f = 0; for (int k = 100; k > 0; k--) f = k / (z + f);
      p = Math.exp(-z * z / 2) / Math.sqrt(2 * Math.PI) / (z + f);
    }
    return x > 0 ? 1 - p : p;
  }
  // matrices: sequences of rows
  static double[][] mat(Value v) {
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("not a matrix: " + v);
    Value[] e = ((TupleValue) t).elems;
    double[][] r = new double[e.length][];
    for (int i = 0; i < e.length; i++) r[i] = seq(e[i]);
    return r;
  }
  static Value rows(double[][] a) {
    Value[] e = new Value[a.length];
    for (int i = 0; i < a.length; i++) e[i] = tup(a[i]);
    return new TupleValue(e);
  }
  public static Value RMMul(Value v, Value w) {
    double[][] a = mat(v), c = mat(w);
    int n = a.length, k = c.length, m = k == 0 ? 0 : c[0].length;
    double[][] r = new double[n][m];
    for (int i = 0; i < n; i++) {
      if (a[i].length != k) throw new RuntimeException("RMMul: dimensions");
      for (int j = 0; j < m; j++) { double x = 0; for (int q = 0; q < k; q++) x += a[i][q] * c[q][j]; r[i][j] = x; }
    }
    return rows(r);
  }
  /** inverse by Gauss-Jordan elimination; NaN everywhere if singular */
  public static Value RMInv(Value v) {
    double[][] a = mat(v); int n = a.length;
    double[][] m = new double[n][2 * n];
    for (int i = 0; i < n; i++) { if (a[i].length != n) throw new RuntimeException("RMInv: not square"); for (int j = 0; j < n; j++) m[i][j] = a[i][j]; m[i][n + i] = 1; }
    for (int c = 0; c < n; c++) {
      int p = c; for (int i = c + 1; i < n; i++) if (Math.abs(m[i][c]) > Math.abs(m[p][c])) p = i;
      double[] t = m[c]; m[c] = m[p]; m[p] = t;
      double d = m[c][c];
      for (int j = 0; j < 2 * n; j++) m[c][j] = d == 0 ? Double.NaN : m[c][j] / d;
      for (int i = 0; i < n; i++) if (i != c) { double f = m[i][c]; if (f != 0) for (int j = 0; j < 2 * n; j++) m[i][j] -= f * m[c][j]; }
    }
    double[][] r = new double[n][n];
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r[i][j] = m[i][n + j];
    return rows(r);
  }
  public static Value RMDet(Value v) {
    double[][] m = mat(v); int n = m.length; double det = 1;
    for (int c = 0; c < n; c++) {
      int p = c; for (int i = c + 1; i < n; i++) if (Math.abs(m[i][c]) > Math.abs(m[p][c])) p = i;
      if (p != c) { double[] t = m[c]; m[c] = m[p]; m[p] = t; det = -det; }
      if (m[c][c] == 0) return s(0);
      det *= m[c][c];
      for (int i = c + 1; i < n; i++) { double f = m[i][c] / m[c][c]; for (int j = c; j < n; j++) m[i][j] -= f * m[c][j]; }
    }
    return s(det);
  }
  public static Value RMKron(Value v, Value w) {
    double[][] a = mat(v), c = mat(w);
    int ca = a[0].length, cb = c[0].length;
    double[][] r = new double[a.length * c.length][ca * cb];
    for (int i = 0; i < a.length; i++) for (int j = 0; j < ca; j++) for (int k = 0; k < c.length; k++) for (int l = 0; l < cb; l++)
      r[i * c.length + k][j * cb + l] = a[i][j] * c[k][l];
    return rows(r);
  }
  public static Value RMTr(Value v) {
    double[][] a = mat(v); int m = a.length == 0 ? 0 : a[0].length;
    double[][] r = new double[m][a.length];
    for (int i = 0; i < a.length; i++) for (int j = 0; j < m; j++) r[j][i] = a[i][j];
    return rows(r);
  }
  public static Value RMAdd(Value v, Value w) {
    double[][] a = mat(v), c = mat(w);
    for (int i = 0; i < a.length; i++) for (int j = 0; j < a[i].length; j++) a[i][j] += c[i][j];
    return rows(a);
  }
  public static Value RMScale(Value x, Value w) {
    double[][] a = mat(w); double f = d(x);
    for (int i = 0; i < a.length; i++) for (int j = 0; j < a[i].length; j++) a[i][j] *= f;
    return rows(a);
  }
  /** largest absolute element */
  public static Value RMMax(Value w) {
    double[][] a = mat(w); double r = 0;
    for (double[] q : a) for (double x : q) r = Double.isNaN(x) ? Double.NaN : Math.max(r, Math.abs(x));
    return s(r);
  }
  /** the same shape and every pair of elements within tol of each other, relative to size */
  public static Value RMNear(Value v, Value w, Value tol, Value size) {
    double[][] a = mat(v), c = mat(w); double t = d(tol) * Math.max(d(size), 1e-280);
    if (a.length != c.length) return b(false);
    for (int i = 0; i < a.length; i++) {
      if (a[i].length != c[i].length) return b(false);
      for (int j = 0; j < a[i].length; j++) {
        double x = a[i][j], y = c[i][j];
        if (Double.isNaN(x) || Double.isNaN(y)) { if (Double.isNaN(x) != Double.isNaN(y)) return b(false); }
        else if (Double.isInfinite(x) || Double.isInfinite(y)) { if (x != y) return b(false); }
        else if (!(Math.abs(x - y) <= t)) return b(false);
      }
    }
    return b(true);
  }
  // log of the gamma function (Lanczos)
  static final double[] LG = {0.99999999999980993, 676.5203681218851, -1259.1392167224028, 771.32342877765313, -176.61502916214059, 12.507343278686905, -0.13857109526572012, 9.9843695780195716e-6, 1.5056327351493116e-7};
  static double lgam(double x) {
    if (x < 0.5) return Math.log(Math.PI / Math.abs(Math.sin(Math.PI * x))) - lgam(1 - x);
    x -= 1; double a = LG[0], t = x + 7.5;
    for (int i = 1; i < 9; i++) a += LG[i] / (x + i);
    return 0.5 * Math.log(2 * Math.PI) + (x + 0.5) * Math.log(t) - t + Math.log(a);
  }
  // regularized incomplete beta function (continued fraction)
  static double ibeta(double a, double bb, double x) {
    if (x <= 0) return 0; if (x >= 1) return 1;
    if (x > (a + 1) / (a + bb + 2)) return 1 - ibeta(bb, a, 1 - x);
    double front = Math.exp(lgam(a + bb) - lgam(a) - lgam(bb) + a * Math.log(x) + bb * Math.log1p(-x)) / a;
    double f = 1, c = 1, dd = 0, tiny = 1e-300;
    for (int i = 0; i <= 500; i++) {
      int m = i / 2; double num;
      if (i == 0) num = 1; else if (i % 2 == 0) num = m * (bb - m) * x / ((a + 2 * m - 1) * (a + 2 * m)); else num = -(a + m) * (a + bb + m) * x / ((a + 2 * m) * (a + 2 * m + 1));
      dd = 1 + num * dd; if (Math.abs(dd) < tiny) dd = tiny; dd = 1 / dd;
      c = 1 + num / c; if (Math.abs(c) < tiny) c = tiny;
      f *= c * dd; if (Math.abs(1 - c * dd) < 1e-16) break;
    }
    return front * (f - 1);
  }
  /** distribution function of Student's t with n degrees of freedom */
  public static Value RTCdf(Value x, Value n) {
    double t = d(x), v = d(n); if (Double.isNaN(t)) return s(t);
    double p = 0.5 * ibeta(v / 2, 0.5, v / (v + t * t));
    return s(t > 0 ? 1 - p : p);
  }
  /** distribution function of F with n, m degrees of freedom */
  public static Value RFCdf(Value x, Value n, Value m) {
    double f = d(x), u = d(n), v = d(m); if (Double.isNaN(f)) return s(f); if (f <= 0) return s(0);
    return s(ibeta(u / 2, v / 2, u * f / (u * f + v)));
  }
  /** log of the gamma function */
  public static Value RLGamma(Value x) { return s(lgam(d(x))); }
  /** regularized incomplete beta function */
  public static Value RBetaCdf(Value x, Value a, Value c) { return s(ibeta(d(a), d(c), d(x))); }
  /** regularized lower incomplete gamma function with shape a */
  public static Value RGammaCdf(Value v, Value w) {
    double x = d(v), a = d(w); if (!(x > 0)) return s(Double.isNaN(x) ? x : 0); if (Double.isInfinite(x)) return s(1);
    double front = Math.exp(a * Math.log(x) - x - lgam(a));
    if (x < a + 1) { // series
      double t = 1 / a, r = t;
      for (int k = 1; k < 10000; k++) { t *= x / (a + k); r += t; if (t < r * 1e-17) break; }
      return s(front * r);
    }
    double tiny = 1e-300, q = x + 1 - a, c = 1 / tiny, dd = 1 / q, h = dd; // continued fraction
    for (int k = 1; k < 10000; k++) {
      double an = -k * (k - a); q += 2; dd = an * dd + q; if (Math.abs(dd) < tiny) dd = tiny;
      c = q + an / c; if (Math.abs(c) < tiny) c = tiny;
      dd = 1 / dd; h *= dd * c; if (Math.abs(dd * c - 1) < 1e-16) break;
    }
    return s(1 - front * h);
  }
}
