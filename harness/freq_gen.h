// Random dates of every frequency, and their description in the terms of spec/Calendar.tla.
#pragma once
#include "vjson.h"
#include "frequency.h"
#include <cstring>
using namespace ldt;
using boost::gregorian::date;

struct Made {
  std::unique_ptr<Frequency> f;
  bool forward = true;
  std::vector<std::string> strs; std::vector<date> dates; // items of a list
  std::vector<std::string> texts;
};
static std::vector<int> ymd(const date &d) { return {(int)d.year(), (int)d.month(), (int)d.day()}; }
static Rec weekRec(const FrequencyWeekBased &w, const std::vector<int> *day = nullptr) {
  Rec r;
  r("k", "week");
  std::string c;
  switch (w.mClass) {
  case FrequencyClass::kWeekly: case FrequencyClass::kMultiWeekly: c = "w"; break;
  case FrequencyClass::kDaily: case FrequencyClass::kMultiDaily: c = "d"; break;
  case FrequencyClass::kDailyInWeek: c = "i"; break;
  default: c = "?";
  }
  if ((c == "w" && (w.mMulti == 1) != (w.mClass == FrequencyClass::kWeekly)) || (c == "d" && (w.mMulti == 1) != (w.mClass == FrequencyClass::kDaily))) c = "class?";
  bool in = c == "i";
  r("w", c)("d", day ? *day : ymd(w.mDay))("m", w.mMulti)("s", in ? (int)w.mRange.mStart : 0)("e", in ? (int)w.mRange.mEnd : 0);
  return r;
}
static Rec dump(Frequency *f, const Made &m) {
  Rec r;
  if (auto c = dynamic_cast<FrequencyCrossSection *>(f)) r("k", "cs")("p", c->mPosition);
  else if (auto y = dynamic_cast<FrequencyYearBased *>(f)) {
    FrequencyClass want = y->mYearMulti == 1 ? (y->mPartitionCount == 1 ? FrequencyClass::kYearly : y->mPartitionCount == 4 ? FrequencyClass::kQuarterly : y->mPartitionCount == 12 ? FrequencyClass::kMonthly : FrequencyClass::kXTimesAYear)
                                             : (y->mPartitionCount == 1 ? FrequencyClass::kMultiYear : FrequencyClass::kXTimesZYears);
    r("k", y->mClass == want ? "year" : "class?")("y", y->mYear)("z", y->mYearMulti)("n", y->mPartitionCount)("p", y->mPosition);
  } else if (auto w = dynamic_cast<FrequencyWeekBased *>(f)) r = weekRec(*w);
  else if (auto d = dynamic_cast<FrequencyDayBased *>(f)) {
    FrequencyClass want = d->mPartitionCount == 24 ? FrequencyClass::kHourly : d->mPartitionCount == 1440 ? FrequencyClass::kMinutely : d->mPartitionCount == 86400 ? FrequencyClass::kSecondly : FrequencyClass::kXTimesADay;
    r("k", d->mClass == want ? "day" : "class?")("b", weekRec(d->mDay).raw())("n", d->mPartitionCount)("p", d->mPosition);
  } else if (auto s = dynamic_cast<FrequencyList<std::string> *>(f)) {
    int n = s->pItems ? (int)s->pItems->size() : 0;
    r("k", "list")("items", s->pItems ? *s->pItems : std::vector<std::string>())("i", s->OutIndex == 0 ? s->GetIndex() : s->OutIndex > 0 ? n + s->OutIndex - 1 : s->OutIndex)("dates", false);
  } else if (auto s = dynamic_cast<FrequencyList<date> *>(f)) {
    int n = s->pItems ? (int)s->pItems->size() : 0;
    std::vector<std::string> t;
    if (s->pItems) for (auto &d : *s->pItems) t.push_back(boost::gregorian::to_iso_string(d));
    r("k", "list")("items", t)("i", s->OutIndex == 0 ? s->GetIndex() : s->OutIndex > 0 ? n + s->OutIndex - 1 : s->OutIndex)("dates", true);
  }
  return r;
}
static date randDate(Rng &g) {
  static const int special[][3] = {{1999, 12, 31}, {2000, 2, 28}, {2000, 2, 29}, {2000, 3, 1}, {1900, 2, 28}, {1900, 3, 1}, {2023, 12, 31}, {2024, 1, 1}, {2024, 2, 29}, {2100, 2, 28}, {1970, 1, 1}};
  if (g.chance(0.4)) { auto &s = special[g.range(0, 10)]; return date(s[0], s[1], s[2]); }
  int y = g.chance(0.5) ? g.range(1990, 2030) : g.range(1700, 2400), m = g.range(1, 12);
  return date(y, m, g.range(1, boost::gregorian::gregorian_calendar::end_of_month_day(y, m)));
}
// f: what was asked for (before any snap to the range of days)
static Made make(Rng &g, Rec &asked) {
  Made m;
  int kind = g.range(0, 9);
  if (kind == 0) {
    int p = g.range(-50, 50);
    m.f = std::make_unique<FrequencyCrossSection>(p);
    asked("k", "cs")("p", p);
  } else if (kind <= 2) {
    int y = g.chance(0.1) ? g.range(-20, 20) : g.range(1900, 2050), z = g.chance(0.5) ? 1 : g.range(2, 7), n = g.pick(std::vector<int>{1, 2, 3, 4, 5, 6, 12, 24, 13, 52});
    int p = g.range(1, n);
    if (z == 1 && n == 1 && g.chance(0.5)) m.f = FrequencyYearBased::Yearly(y);
    else if (z == 1 && n == 4 && g.chance(0.5)) m.f = FrequencyYearBased::Quarterly(y, p);
    else if (z == 1 && n == 12 && g.chance(0.5)) m.f = FrequencyYearBased::Monthly(y, p);
    else if (z == 1 && g.chance(0.5)) m.f = FrequencyYearBased::XTimesAYear(y, n, p);
    else if (n == 1 && g.chance(0.5)) m.f = FrequencyYearBased::MultiYearly(y, z);
    else m.f = FrequencyYearBased::XTimesZYear(y, n, p, z);
    asked("k", "year")("y", y)("z", z)("n", n)("p", p);
  } else if (kind <= 7) {
    date d = randDate(g);
    int w = g.range(0, 2), mu = w == 2 || g.chance(0.4) ? 1 : g.range(2, 9), s = g.range(0, 6), e = g.range(0, 6);
    std::unique_ptr<FrequencyWeekBased> wb;
    if (w == 0) wb = mu == 1 && g.chance(0.7) ? FrequencyWeekBased::Weekly(d) : FrequencyWeekBased::MultiWeekly(d, mu);
    else if (w == 1) wb = mu == 1 && g.chance(0.7) ? FrequencyWeekBased::Daily(d) : FrequencyWeekBased::MultiDaily(d, mu);
    else {
      m.forward = g.chance(0.5);
      wb = FrequencyWeekBased::DailyInWeek(d, DayOfWeekRange((DayOfWeek)s, (DayOfWeek)e), m.forward);
    }
    auto day = ymd(d);
    Rec wr = weekRec(*wb, &day);
    if (kind <= 5) { asked = wr; m.f = std::move(wb); }
    else {
      int n = g.pick(std::vector<int>{1, 2, 8, 12, 24, 1440, 86400}), p = g.chance(0.3) ? n : g.chance(0.3) ? 1 : g.range(1, n);
      if (n == 24 && g.chance(0.5)) m.f = FrequencyDayBased::Hourly(*wb, p);
      else if (n == 1440 && g.chance(0.5)) m.f = FrequencyDayBased::Minutely(*wb, p);
      else if (n == 86400 && g.chance(0.5)) m.f = FrequencyDayBased::Secondly(*wb, p);
      else m.f = FrequencyDayBased::XTimesADay(*wb, n, p);
      asked("k", "day")("b", wr.raw())("n", n)("p", p);
    }
  }
  return m;
}
static void makeList(Rng &g, Rec &asked, Made &m) {
  int n = g.range(1, 7), i = g.range(0, n - 1);
  bool dates = g.chance(0.5);
  std::vector<std::string> t;
  if (dates) {
    date d = randDate(g);
    for (int j = 0; j < n; j++) { m.dates.push_back(d); t.push_back(boost::gregorian::to_iso_string(d)); d += boost::gregorian::days(g.range(1, 400)); }
    if (g.chance(0.3)) for (int j = n - 1; j > 0; j--) { int q = g.range(0, j); std::swap(m.dates[j], m.dates[q]); std::swap(t[j], t[q]); }
    m.f = std::make_unique<FrequencyList<date>>(m.dates[i], &m.dates);
  } else {
    for (int j = 0; j < n; j++) { std::string s = g.chance(0.3) ? "item " : g.chance(0.3) ? "x:" : ""; m.strs.push_back(s + std::string(1, (char)('z' - j)) + (g.chance(0.3) ? "_1" : "")); }
    t = m.strs;
    m.f = std::make_unique<FrequencyList<std::string>>(m.strs[i], &m.strs);
  }
  asked("k", "list")("items", t)("i", i)("dates", dates);
}
static std::unique_ptr<Made> any(Rng &g, Rec &asked) {
  auto m = std::make_unique<Made>();
  if (g.chance(0.15)) makeList(g, asked, *m);
  else { *m = make(g, asked); if (!m->f) makeList(g, asked, *m); }
  return m;
}
