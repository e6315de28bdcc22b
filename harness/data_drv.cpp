// Records of the preparation of data: splits into training and test parts, selection of usable observations.
#include "data_split.h"
#include "matrix.h"
#include "matrix_utils.h"
#include "vjson.h"
#include <cstring>
#include <limits>
using namespace ldt;
using std::vector;

typedef vector<vector<double>> Rows;
static Rows rowsOf(const Matrix<Tv> &m) {
  Rows r;
  for (Ti i = 0; i < m.RowsCount; i++) {
    r.push_back({});
    for (Ti j = 0; j < m.ColsCount; j++) r.back().push_back(m.Get0(i, j));
  }
  return r;
}
static vector<double> columns(const Rows &r, int cols) { // column-major
  vector<double> d;
  for (int j = 0; j < cols; j++) for (auto &x : r) d.push_back(x[j]);
  return d;
}

// ---------------------------------------------------------------- splits
static void oneSplit(Rng &r, bool discrete, const vector<int> &counts, int num, int den, int fix, bool shuffleRows, const char *site) {
  Rows rows;
  int id = 0, cols = 2 + r.range(0, 2);
  for (size_t c = 0; c < counts.size(); c++)
    for (int i = 0; i < counts[c]; i++) rows.push_back({(double)c});
  if (shuffleRows) r.shuffle(rows);
  for (auto &x : rows) {
    x.push_back(100 + id++);
    while ((int)x.size() < cols) x.push_back(r.chance(0.1) ? NAN : r.range(-1000, 1000) / 8.0);
  }
  auto data = columns(rows, cols);
  int n = (int)rows.size(), K = (int)counts.size();
  Matrix<Tv> mat(data.data(), n, cols);
  double ratio = (double)num / den;
  uint32_t seed = (uint32_t)r.range(1, 1000000);
  std::string err;
  bool guard = true, rejected = false;
  vector<Rows> trains, tests;
  vector<int> tested(n, 0); // how often each row was in the test part in further splits
  const int more = 400;
  auto attempt = [&](int shuffles, uint32_t sd) {
    std::mt19937 eng(sd);
    if (discrete) {
      DataSplitDiscrete s(n, cols, K);
      vector<double> st(s.StorageSize + 4, -987.5);
      vector<Ti> w(s.WorkSizeI + 4, -77);
      s.Calculate(mat, st.data(), ratio, fix);
      for (int k = 0; k < shuffles; k++) {
        s.Shuffle(mat, w.data(), eng);
        trains.push_back(rowsOf(s.Sample0)); tests.push_back(rowsOf(s.Sample1));
      }
      for (int k = 0; k < more && n <= 12; k++) {
        s.Shuffle(mat, w.data(), eng);
        for (Ti i = 0; i < s.Sample1.RowsCount; i++) { int at = (int)s.Sample1.Get0(i, 1) - 100; if (at >= 0 && at < n) tested[at]++; }
      }
      for (int i = 0; i < 4; i++) guard = guard && st[s.StorageSize + i] == -987.5 && w[s.WorkSizeI + i] == -77;
    } else {
      DataSplit s(n, cols);
      vector<double> st(s.StorageSize + 4, -987.5);
      vector<Ti> w(s.WorkSizeI + 4, -77);
      s.Calculate(mat, st.data(), ratio, fix);
      for (int k = 0; k < shuffles; k++) {
        s.Shuffle(mat, w.data(), eng);
        trains.push_back(rowsOf(s.Sample0)); tests.push_back(rowsOf(s.Sample1));
      }
      for (int k = 0; k < more && n <= 12; k++) {
        s.Shuffle(mat, w.data(), eng);
        for (Ti i = 0; i < s.Sample1.RowsCount; i++) { int at = (int)s.Sample1.Get0(i, 1) - 100; if (at >= 0 && at < n) tested[at]++; }
      }
      for (int i = 0; i < 4; i++) guard = guard && st[s.StorageSize + i] == -987.5 && w[s.WorkSizeI + i] == -77;
    }
  };
  try {
    attempt(2, seed);
    auto before = tested;
    attempt(2, seed); // the same seed
    tested = before;
  } catch (std::exception &e) { err = e.what(); }
  bool kept = true;
  auto again = columns(rows, cols);
  for (size_t i = 0; i < data.size(); i++) kept = kept && (data[i] == again[i] || (std::isnan(data[i]) && std::isnan(again[i])));
  Rec()("site", site)("kind", "split")("discrete", discrete)("rows", rows)("counts", counts)("num", num)("den", den)("fix", fix)
      ("error", err != "")("msg", err)("train", trains)("test", tests)("tested", tested)("more", n <= 12 ? more : 0)("guard", guard)("kept", kept).out();
}
static void splits(Rng &r, int n) {
  // exhaustive small domain: up to 3 classes
  for (int a = 0; a <= 3; a++) for (int b = 0; b <= 3; b++) for (int c = -1; c <= 3; c++) {
    vector<int> counts = {a, b};
    if (c >= 0) counts.push_back(c);
    int N = a + b + std::max(c, 0);
    if (N == 0) continue;
    int v = r.range(0, 2);
    for (int num : {1, 4, 7}) if (v-- == 0 || r.chance(0.4)) oneSplit(r, true, counts, num, 8, 0, true, "discrete");
    oneSplit(r, true, counts, 0, 8, r.range(1, N + 2), true, "discrete-fix");
  }
  for (int it = 0; it < n; it++) {
    bool d = it % 3 != 0;
    int K = d ? r.range(2, 5) : 1;
    vector<int> counts;
    for (int k = 0; k < K; k++) counts.push_back(r.chance(0.15) ? r.range(0, 1) : r.size(1, d ? 12 : 30, 31, 60));
    if (counts[0] == 0) counts[0] = 1;
    int N = 0; for (int x : counts) N += x;
    int den = r.pick(vector<int>{8, 10, 20, 100}), num = r.range(0, den);
    bool fix = r.chance(0.3);
    oneSplit(r, d, counts, fix && r.chance(0.6) ? 0 : num, den, fix ? r.range(1, N + 3) : 0, r.chance(0.8), d ? (fix ? "discrete-fix" : "discrete") : (fix ? "plain-fix" : "plain"));
  }
}

// ---------------------------------------------------------------- usable observations
static Rows someRows(Rng &r, int n, int m, double na, bool inf) {
  Rows d;
  int k = 1;
  for (int i = 0; i < n; i++) {
    d.push_back({});
    for (int j = 0; j < m; j++) d.back().push_back(r.chance(na) ? NAN : inf && r.chance(0.05) ? (r.chance(0.5) ? INFINITY : -INFINITY) : k++);
  }
  return d;
}
static void datasets(Rng &r, int n) {
  for (int it = 0; it < n; it++) {
    int N = r.size(1, 9, 17, 60), M = r.size(1, 5, 6, 12);
    double na = r.pick(vector<double>{0, 0.1, 0.3, 0.6});
    auto rows = someRows(r, N, M, na, r.chance(0.2));
    auto data = columns(rows, M);
    Matrix<Tv> mat(data.data(), N, M);
    bool hasNan = r.chance(0.7), sel = r.chance(0.7);
    vector<Ti> cols;
    for (int j = 0; j < M; j++) if (r.chance(0.6)) cols.push_back(j);
    if (cols.empty()) cols.push_back(r.range(0, M - 1));
    if (r.chance(0.4)) r.shuffle(cols);
    Dataset<Tv> ds(N, sel ? (Ti)cols.size() : M, hasNan, sel);
    vector<double> st(ds.StorageSize + 4, -987.5);
    std::string err;
    Rows out;
    int outN = -1, outM = -1;
    // the same object is used again, first with other columns
    bool again = sel && r.chance(0.3);
    try {
      if (again) { auto c2 = cols; for (auto &c : c2) c = (c + 1) % M; ds.Calculate(mat, &c2, st.data()); }
      ds.Calculate(mat, sel ? &cols : nullptr, st.data());
      out = rowsOf(ds.Result); outN = ds.Result.RowsCount; outM = ds.Result.ColsCount;
    } catch (std::exception &e) { err = e.what(); }
    bool guard = true;
    for (int i = 0; i < 4; i++) guard = guard && st[ds.StorageSize + i] == -987.5;
    bool kept = true; auto orig = columns(rows, M);
    for (size_t i = 0; i < data.size(); i++) kept = kept && (data[i] == orig[i] || (std::isnan(data[i]) && std::isnan(orig[i])));
    Rec()("site", "dataset")("kind", "dataset")("rows", rows)("hasNan", hasNan)("select", sel)("cols", cols)("error", err)("out", out)("n", outN)("m", outM)("guard", guard)("kept", kept).out();
  }
}
static vector<int> rangeJ(const IndexRange &g) { return g.IsNotValid() ? vector<int>{} : vector<int>{g.StartIndex, g.EndIndex}; }

// One DatasetTs object used for a history of data sets and selections.
template <bool byRow> static void series(Rng &r) {
  int T = r.size(1, 10, 17, 60), V = r.range(1, 4);
  int histories = r.range(1, 3);
  bool hasNan = r.chance(0.8), sel = r.chance(0.7);
  DatasetTs<byRow> ds(byRow ? V : T, byRow ? T : V, hasNan, sel);
  for (int h = 0; h < histories; h++) {
    double na = r.pick(vector<double>{0, 0.1, 0.3});
    Rows vars; // one row per variable here
    int k = 1;
    for (int v = 0; v < V; v++) {
      vars.push_back({});
      int lead = r.chance(0.4) ? r.range(0, T) : 0, trail = r.chance(0.4) ? r.range(0, T) : 0;
      for (int t = 0; t < T; t++) vars.back().push_back(t < lead || t >= T - trail || r.chance(na) ? NAN : k++);
    }
    vector<double> data;
    if (byRow) data = columns(vars, T);
    else for (auto &v : vars) for (double x : v) data.push_back(x);
    auto orig = data;
    Matrix<Tv> mat(data.data(), byRow ? V : T, byRow ? T : V);
    std::string err;
    vector<vector<int>> ranges;
    vector<int> withMissing;
    bool hasMissing = false;
    try { ds.Data(mat); } catch (std::exception &e) { err = e.what(); }
    if (err == "") {
      for (auto &g : ds.Ranges) ranges.push_back(rangeJ(g));
      for (auto &g : ds.WithMissingIndexes) withMissing.push_back(std::get<0>(g));
      hasMissing = ds.HasMissingData;
    }
    Rec rec;
    rec("site", byRow ? "series-rows" : "series-columns")("kind", "series")("vars", vars)("T", T)("hasNan", hasNan)("select", sel)("dataError", err)("ranges", ranges)("withMissing", withMissing)("hasMissing", hasMissing)("step", h);
    if (err != "") { rec("cols", vector<int>{})("error", "")("from", 0)("to", 0)("out", Rows())("guard", true)("kept", true)("shape", vector<int>{}).out(); continue; }
    vector<Ti> cols;
    for (int j = 0; j < V; j++) if (r.chance(0.6)) cols.push_back(j);
    if (cols.empty()) cols.push_back(r.range(0, V - 1));
    if (r.chance(0.4)) r.shuffle(cols);
    vector<double> st(ds.StorageSize + 4, -987.5);
    Rows out;
    std::string err2;
    int from = 0, to = -1;
    vector<int> shape;
    try {
      ds.Update(sel ? &cols : nullptr, st.data());
      from = ds.Start; to = ds.End;
      shape = {ds.Result.RowsCount, ds.Result.ColsCount};
      if (to >= from) {
        auto x = rowsOf(ds.Result);
        if (byRow) out = x;
        else { // one row per variable
          out.assign(ds.Result.ColsCount, {});
          for (auto &row : x) for (size_t j = 0; j < row.size(); j++) out[j].push_back(row[j]);
        }
      }
    } catch (std::exception &e) { err2 = e.what(); }
    bool guard = true, kept = true;
    for (int i = 0; i < 4; i++) guard = guard && st[ds.StorageSize + i] == -987.5;
    for (size_t i = 0; i < data.size(); i++) kept = kept && (data[i] == orig[i] || (std::isnan(data[i]) && std::isnan(orig[i])));
    rec("cols", cols)("error", err2)("from", from)("to", to)("out", out)("guard", guard)("kept", kept)("shape", shape).out();
  }
}

int main(int argc, char **argv) {
  std::string mode = argv[1];
  Rng r(strtoull(argv[2], 0, 10));
  int n = atoi(argv[3]);
  if (mode == "split") splits(r, n);
  else if (mode == "data") {
    datasets(r, n);
    for (int i = 0; i < n; i++) { if (i % 2) series<true>(r); else series<false>(r); }
  } else return 3;
}
