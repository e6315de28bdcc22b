// Dates of every frequency: moves, differences, comparisons, text and parsing.
#include "freq_gen.h"
int main(int argc, char **argv) {
  std::string mode = argv[1];
  Rng g(atoll(argv[2]) * 7919 + mode.size());
  int n = atoi(argv[3]);
  if (mode == "weeks") { // every range of days of a week
    for (int a = 0; a < 7; a++) for (int b = 0; b < 7; b++) {
      DayOfWeekRange q((DayOfWeek)a, (DayOfWeek)b);
      std::vector<bool> in, outf, outb; std::vector<int> f, bk;
      for (int v = 0; v < 7; v++) {
        int s = 99; in.push_back(q.IsInRange((DayOfWeek)v)); outf.push_back(q.IsOutsideRange((DayOfWeek)v, true, s)); f.push_back(s);
        s = 99; outb.push_back(q.IsOutsideRange((DayOfWeek)v, false, s)); bk.push_back(s);
      }
      Rec()("site", "week")("s", a)("e", b)("length", q.GetLength())("in", in)("out", outf)("out2", outb)("forward", f)("back", bk)
        ("to", DayOfWeekRange::Distance((DayOfWeek)a, (DayOfWeek)b, true))("from", DayOfWeekRange::Distance((DayOfWeek)a, (DayOfWeek)b, false))
        ("next", (int)DayOfWeekRange::NextDayOfWeek((DayOfWeek)a))("previous", (int)DayOfWeekRange::PreviousDayOfWeek((DayOfWeek)a)).out();
    }
    return 0;
  }
  for (int it = 0; it < n; it++) {
    if (mode == "moves") {
      Rec asked, r;
      auto m = any(g, asked);
      r("site", "moves")("f", asked.raw())("forward", m->forward);
      int len = g.range(1, 6);
      std::vector<int> moves;
      bool list = asked.s.find("\"list\"") != std::string::npos, big = !list && asked.s.find("\"year\"") == std::string::npos && asked.s.find("\"m\":1,") != std::string::npos;
      for (int j = 0; j < len; j++) {
        int q = g.range(0, 9), span = list ? 4 : q < 5 ? 3 : q < 8 ? 40 : big ? 1500 : 100;
        if (!list && asked.s.find("\"day\"") != std::string::npos && asked.s.find("\"n\":1,") == std::string::npos && asked.s.find("\"n\":2,") == std::string::npos && asked.s.find("\"n\":8,") == std::string::npos && asked.s.find("\"n\":12,") == std::string::npos && q > 6) span = asked.s.find("\"n\":24,") == std::string::npos ? 200000 : 5000;
        moves.push_back(j > 0 && g.chance(0.1) ? -moves.back() : g.range(-span, span));
      }
      std::vector<Raw> seen;
      std::vector<std::string> text;
      std::vector<std::vector<int>> mi, cm;
      std::string error;
      try {
        std::vector<std::unique_ptr<Frequency>> all;
        all.push_back(m->f->Clone());
        seen.push_back(dump(all[0].get(), *m).raw());
        for (int h : moves) {
          auto c = all.back()->Clone();
          c->Next(h);
          seen.push_back(dump(c.get(), *m).raw());
          all.push_back(std::move(c));
        }
        for (auto &a : all) {
          text.push_back(a->ToString());
          mi.emplace_back(); cm.emplace_back();
          for (auto &b : all) {
            mi.back().push_back(a->Minus(*b));
            int c = a->CompareTo(*b);
            bool ok = a->IsEqualTo(*b) == (c == 0) && a->IsNewerThan(*b) == (c > 0) && a->IsOlderThan(*b) == (c < 0) && a->IsEqualOrNewerThan(*b) == (c >= 0) && a->IsEqualOrOlderThan(*b) == (c <= 0);
            cm.back().push_back(ok ? c : 99);
          }
        }
      } catch (std::exception &e) { error = e.what(); }
      r("moves", moves)("error", error)("seen", seen)("text", text)("minus", mi)("cmp", cm).out();
    } else if (mode == "mixed") {
      Rec a, b, r;
      auto x = any(g, a), y = any(g, b);
      if (a.s.find("\"list\"") != std::string::npos && b.s.find("\"list\"") != std::string::npos) { it--; continue; }
      std::string c = "ok", d = "ok";
      try { x->f->CompareTo(*y->f); } catch (std::exception &) { c = "error"; }
      try { x->f->Minus(*y->f); } catch (std::exception &) { d = "error"; }
      r("site", "mixed")("a", a.raw())("b", b.raw())("cmp", c)("minus", d).out();
    } else { // text
      Rec asked, r;
      auto m = any(g, asked);
      bool ls = dynamic_cast<FrequencyList<std::string> *>(m->f.get()), ld = dynamic_cast<FrequencyList<date> *>(m->f.get());
      Ti steps = 0; // dates that were moved, out of the list too
      if (mode == "round" && g.chance(0.4)) { steps = g.range(-5, 5); m->f->Next(steps); }
      std::string t = m->f->ToString(), c = m->f->ToClassString(true);
      auto parse = [&](const std::string &t, const std::string &c, Made &k) -> std::unique_ptr<Frequency> {
        FrequencyClass fc;
        std::unique_ptr<Frequency> f;
        if (Frequency::GetClass(c) == FrequencyClass::kListString) f = FrequencyList<std::string>::ParseList(t, c, fc, k.strs);
        else if (Frequency::GetClass(c) == FrequencyClass::kListDate) f = FrequencyList<date>::ParseList(t, c, fc, k.dates);
        else f = Frequency::Parse(t, c, fc);
        if (fc != f->mClass) throw std::logic_error("class of the parsed frequency");
        return f;
      };
      if (mode == "round") {
        r("site", "round")("f", asked.raw())("forward", m->forward)("steps", steps)("text", t)("class", c);
        std::string error, t2, c2;
        Raw back{"{\"k\":\"none\"}"};
        bool eq = false;
        try {
          Made k;
          auto f = parse(t, c, k);
          back = dump(f.get(), k).raw();
          eq = f->CompareTo(*m->f) == 0 && f->mClass == m->f->mClass && f->Minus(*m->f) == 0;
          t2 = f->ToString(); c2 = f->ToClassString(true);
        } catch (std::exception &e) { error = e.what(); }
        r("error", error)("back", back)("equal", eq)("text2", t2)("class2", c2).out();
      } else {
        for (int q = 0; q < g.range(1, 3); q++) {
          static const char al[] = "0123456789QMqm:-zwdihxy|;. a";
          std::string &s = g.chance(0.7) ? t : c;
          int op = g.range(0, 2);
          size_t at = s.empty() ? 0 : g.next() % s.size();
          if (op == 0 && !s.empty()) s.erase(at, 1);
          else if (op == 1) s.insert(at, 1, al[g.range(0, 27)]);
          else if (!s.empty()) s[at] = al[g.range(0, 27)];
        }
        bool rej = false;
        std::string t2, c2, t3, c3;
        Made k1, k2;
        std::unique_ptr<Frequency> f;
        try { f = parse(t, c, k1); } catch (std::exception &e) { rej = true; }
        if (!rej) try {
          t2 = f->ToString(); c2 = f->ToClassString(true);
          auto f2 = parse(t2, c2, k2);
          t3 = f2->ToString(); c3 = f2->ToClassString(true);
        } catch (std::exception &e) { t3 = std::string("error ") + e.what(); }
        r("site", "garbage")("t", t)("c", c)("rejected", rej)("text2", t2)("text3", t3)("class2", c2)("class3", c3).out();
      }
    }
  }
}
