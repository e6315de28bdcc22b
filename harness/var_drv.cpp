// Variables: text, trimming, tables and conversions of frequency.
#include "freq_gen.h"
#include "variable.h"

static std::vector<double> randData(Rng &g, int n, int mode) {
  std::vector<double> d(n);
  for (auto &x : d) {
    x = g.chance(0.3) ? g.range(-9, 9) : g.normal() * std::pow(10.0, g.chance(0.5) ? 0 : g.range(-12, 12));
    if (g.chance(mode == 0 ? 0 : 0.3)) x = NAN;
    if (mode == 3 && g.chance(0.03)) x = g.chance(0.5) ? INFINITY : -INFINITY;
  }
  if (mode == 2) { for (int i = 0; i < n && g.chance(0.6); i++) d[i] = NAN; for (int i = n - 1; i >= 0 && g.chance(0.6); i--) d[i] = NAN; }
  return d;
}
int main(int argc, char **argv) {
  std::string mode = argv[1];
  Rng g(atoll(argv[2]) * 104729 + mode.size() * 31 + mode[0]);
  int n = atoi(argv[3]);
  for (int it = 0; it < n; it++) {
    Rec r;
    if (mode == "text" || mode == "trim") {
      Rec asked;
      auto m = any(g, asked);
      Variable<double> v;
      int len = g.range(1, 8);
      v.Data = randData(g, len, mode == "text" ? 3 : g.range(0, 2));
      v.Name = g.chance(0.2) ? "" : g.chance(0.5) ? "V1" : "a name; with 'signs'";
      v.StartFrequency = m->f->Clone();
      int nf = g.range(0, 3);
      for (int j = 0; j < nf; j++) v.Fields.insert({std::string("key") + char('a' + g.range(0, 5)), g.chance(0.2) ? "" : g.chance(0.3) ? "a;b" : "x y"});
      auto fields = [](const Variable<double> &w) { std::vector<std::vector<std::string>> f; for (auto &p : w.Fields) f.push_back({p.first, p.second}); return f; };
      r("site", mode)("kind", mode)("start", dump(v.StartFrequency.get(), *m).raw())("data", v.Data);
      if (mode == "text") {
        r("name", v.Name)("fields", fields(v));
        std::string error;
        Variable<double> w;
        if (g.chance(0.3)) { w.Data = {1, 2, 3}; w.Name = "old"; w.Fields.insert({"old", "x"}); } // an object in use
        std::vector<std::string> ls; std::vector<date> ld;
        Raw start2{"{}"};
        bool eq = false;
        try {
          Variable<double>::Parse(v.ToString(), w, ls, ld);
          start2 = dump(w.StartFrequency.get(), *m).raw();
          bool nan = false;
          for (auto x : v.Data) nan |= std::isnan(x) || std::isinf(x);
          eq = w.IsEqualTo(v) || nan;
        } catch (std::exception &e) { error = e.what(); }
        r("error", error)("name2", w.Name)("data2", w.Data)("start2", start2)("fields2", fields(w))("equal", eq).out();
      } else {
        bool gaps = false;
        auto range0 = v.GetRange(gaps);
        auto range = v.Trim();
        bool ok = !range.IsNotValid() && range.StartIndex == range0.StartIndex && range.EndIndex == range0.EndIndex;
        r("ok", ok)("range", std::vector<int>{range.StartIndex, range.EndIndex})("gaps", gaps)("data2", v.Data)("start2", dump(v.StartFrequency.get(), *m).raw()).out();
      }
    } else if (mode == "table") {
      Rec asked;
      auto m = any(g, asked);
      int nv = g.range(1, 4);
      bool list = asked.s.find("\"list\"") != std::string::npos;
      std::vector<Variable<double>> vs(nv);
      std::vector<Variable<double> *> ps;
      std::vector<Raw> vr;
      for (int j = 0; j < nv; j++) {
        auto &v = vs[j];
        v.Name = std::string("v") + std::to_string(j);
        v.StartFrequency = m->f->Clone();
        v.StartFrequency->Next(g.chance(0.3) ? 0 : g.range(list ? -2 : -9, list ? 3 : 9));
        v.Data = randData(g, g.range(1, 8), g.range(0, 2));
        Rec q;
        q("name", v.Name)("start", dump(v.StartFrequency.get(), *m).raw())("data", v.Data);
        vr.push_back(q.raw());
        ps.push_back(&v);
      }
      r("site", "table")("kind", "table")("vars", vr);
      std::string error;
      try {
        Variables<double> t(ps);
        std::vector<std::vector<double>> cols;
        std::vector<std::vector<int>> ranges;
        std::vector<bool> gaps;
        for (int j = 0; j < nv; j++) {
          cols.emplace_back(t.Data.begin() + j * t.NumObs, t.Data.begin() + (j + 1) * t.NumObs);
          bool h = false;
          auto q = t.GetRange(j, h);
          ranges.push_back({std::get<0>(q), std::get<1>(q)});
          gaps.push_back(h);
        }
        r("error", "")("start", dump(t.StartFrequency.get(), *m).raw())("n", t.NumObs)("names", t.Names)("cols", cols)("ranges", ranges)("gaps", gaps).out();
      } catch (std::exception &e) { r("error", e.what()).out(); }
    } else if (mode == "conv") {
      Made m;
      Variable<double> v, w;
      v.Name = "V";
      date d = randDate(g);
      v.StartFrequency = FrequencyWeekBased::Daily(d);
      int kind = g.range(0, 3), arg = 0;
      bool fe = false;
      std::string to;
      std::vector<std::vector<double>> groups;
      std::function<double(const std::vector<double> &)> f = [&](const std::vector<double> &x) { groups.push_back(x); return 1000.0 + groups.size(); };
      int len = kind <= 1 ? g.range(1, 40) : g.chance(0.6) ? g.range(1, 120) : g.range(100, 420);
      v.Data.resize(len);
      for (int j = 0; j < len; j++) v.Data[j] = g.chance(0.1) ? NAN : j;
      if (kind == 0) to = "week", arg = g.range(0, 6);
      else if (kind == 1) to = "multi", arg = g.range(1, 9), fe = g.chance(0.5);
      else if (kind == 2) to = "month", arg = g.pick(std::vector<int>{1, 2, 3, 4, 6, 12, 24});
      else to = "part", arg = g.chance(0.3) ? g.range(1, 365) : g.pick(std::vector<int>{1, 2, 3, 5, 6, 7, 13, 52, 61, 73, 122, 183, 365});
      r("site", "conv:" + to)("kind", "conv")("to", to)("arg", arg)("fromEnd", fe)("name", "V")("start", dump(v.StartFrequency.get(), m).raw())("data", v.Data);
      if (g.chance(0.3)) w.Data = {1, 2, 3}; // an object in use
      try {
        if (kind == 0) v.ConvertTo_Weekly(w, (DayOfWeek)arg, &f);
        else if (kind == 1) v.ConvertTo_MultiDaily(w, arg, &f, fe);
        else if (kind == 3) v.ConvertTo_XxYear(w, arg, &f);
        else switch (arg) {
          case 1: v.ConvertTo_XxYear_month_based<1>(w, &f); break;
          case 2: v.ConvertTo_XxYear_month_based<2>(w, &f); break;
          case 3: v.ConvertTo_XxYear_month_based<3>(w, &f); break;
          case 4: v.ConvertTo_XxYear_month_based<4>(w, &f); break;
          case 6: v.ConvertTo_XxYear_month_based<6>(w, &f); break;
          case 12: v.ConvertTo_XxYear_month_based<12>(w, &f); break;
          case 24: v.ConvertTo_XxYear_month_based<24>(w, &f); break;
          }
        r("error", "")("groups", groups)("out", w.Data)("start2", dump(w.StartFrequency.get(), m).raw())("name2", w.Name).out();
      } catch (std::exception &e) { r("error", e.what()).out(); }
    } else { // daily
      Made m;
      Variable<double> v, w;
      v.Name = g.pick(std::vector<std::string>{"V", "", "a name"});
      bool list = g.chance(0.5), mid = false;
      int len = g.range(1, 30), k;
      std::vector<std::vector<int>> days;
      if (list) {
        len = g.range(1, 7);
        date d = randDate(g);
        for (int j = 0; j < len; j++) { m.dates.push_back(d); d += boost::gregorian::days(g.chance(0.5) ? 1 : g.range(1, 40)); }
        g.shuffle(m.dates);
        for (auto &x : m.dates) days.push_back(ymd(x));
        v.StartFrequency = std::make_unique<FrequencyList<date>>(m.dates[0], &m.dates);
      } else {
        int s = g.range(0, 6), e = g.range(0, 6);
        date d = randDate(g);
        v.StartFrequency = FrequencyWeekBased::DailyInWeek(d, DayOfWeekRange((DayOfWeek)s, (DayOfWeek)e), true);
        if (g.chance(0.7)) while ((int)dynamic_cast<FrequencyWeekBased &>(*v.StartFrequency).mDay.day_of_week() != s) v.StartFrequency->Next(1);
        mid = (int)dynamic_cast<FrequencyWeekBased &>(*v.StartFrequency).mDay.day_of_week() != s;
      }
      v.Data.resize(len);
      for (int j = 0; j < len; j++) v.Data[j] = g.chance(0.1) ? NAN : j;
      int L = list ? 0 : dynamic_cast<FrequencyWeekBased &>(*v.StartFrequency).mRange.GetLength();
      r("site", list ? "daily:list" : mid && L < 7 ? "daily:inweek-midweek-start" : "daily:inweek")("kind", "daily")("days", days)("name", v.Name)("start", dump(v.StartFrequency.get(), m).raw())("data", v.Data);
      if (g.chance(0.3)) w.Data = {1, 2, 3};
      try {
        v.ConvertTo_Daily(w, nullptr);
        r("error", "")("name2", w.Name)("data2", w.Data)("start2", dump(w.StartFrequency.get(), m).raw()).out();
      } catch (std::exception &e) { r("error", e.what()).out(); }
    }
  }
}
