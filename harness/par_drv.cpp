// The search engine of search_drv with its threads under control: every model waits when it is taken up and again
// inside its estimation, and the scheduler lets one thread go on at a time - in the order of a given schedule or a random one.
#define SEARCH_NO_MAIN
#include "search_drv.cpp"
#include <atomic>
#include <condition_variable>
#include <dirent.h>
#include <fstream>
#include <omp.h>
#include <set>
#include <sys/syscall.h>
#include <thread>
#include <unistd.h>

// are all threads but me asleep?
static bool asleep() {
  long me = syscall(SYS_gettid);
  DIR *d = opendir("/proc/self/task");
  if (!d) { fprintf(stderr, "no /proc\n"); exit(3); }
  bool all = true;
  while (auto *e = readdir(d)) {
    if (e->d_name[0] == '.' || atol(e->d_name) == me) continue;
    char path[64], b[512];
    snprintf(path, sizeof path, "/proc/self/task/%s/stat", e->d_name);
    FILE *f = fopen(path, "r");
    if (!f) continue;
    size_t n = fread(b, 1, sizeof b - 1, f); b[n] = 0; fclose(f);
    char *p = strrchr(b, ')');
    if (!p || p[2] != 'S') { all = false; break; }
  }
  closedir(d);
  return all;
}

struct Scheduler : public Gate {
  std::mutex m; std::condition_variable cv;
  std::vector<std::pair<std::string, int>> events;
  std::map<int, int> waiting; // searcher -> number of its ticket
  std::set<int> let; int tickets = 0, arrivals = 0;
  std::atomic<bool> over{false};
  bool broken = false, cancelled = false, free = false, stuck = false;
  std::vector<int> steps; size_t at = 0; // given schedule: group numbers from 1, 0 is a cancel
  Rng *rng = nullptr; double cancelp = 0; bool early = false;
  SearchOptions *opt = nullptr; std::thread th;
  void log(const char *n, int id) { events.push_back({n, id + 1}); }
  void wait(int id, std::unique_lock<std::mutex> &l) {
    if (free) return;
    int t = ++tickets; waiting[id] = t; arrivals++;
    cv.wait(l, [&] { return let.count(t) > 0; });
    let.erase(t);
  }
  void pick(int id) override { std::unique_lock<std::mutex> l(m); log("pick", id); wait(id, l); }
  void run(int id) override { std::unique_lock<std::mutex> l(m); log("run", id); wait(id, l); }
  void finish(int id) override { std::unique_lock<std::mutex> l(m); log("finish", id); }
  void torn() override { std::unique_lock<std::mutex> l(m); broken = true; }
  void cancel() { opt->RequestCancel = true; cancelled = true; events.push_back({"cancel", 0}); }
  void start(SearchOptions &o) override {
    opt = &o;
    if (early) cancel();
    if (!free) th = std::thread([this] { control(); });
  }
  void control() {
    auto t0 = std::chrono::steady_clock::now();
    while (!over) {
      int before; { std::unique_lock<std::mutex> l(m); before = arrivals; }
      bool quiet = asleep() && asleep();
      std::unique_lock<std::mutex> l(m);
      if (!quiet || before != arrivals || waiting.empty()) {
        l.unlock();
        if (std::chrono::steady_clock::now() - t0 > std::chrono::seconds(60)) { fprintf(stderr, "the threads do not come to rest\n"); _exit(4); }
        sched_yield();
        continue;
      }
      t0 = std::chrono::steady_clock::now();
      int choice = -1;
      if (at < steps.size()) {
        int g = steps[at++];
        if (g == 0) { if (!cancelled) cancel(); continue; }
        if (waiting.count(g - 1)) choice = g - 1;
      } else if (rng && !cancelled && rng->chance(cancelp)) { cancel(); continue; }
      if (choice < 0) { auto it = waiting.begin(); if (rng) std::advance(it, rng->range(0, (int)waiting.size() - 1)); choice = it->first; }
      let.insert(waiting[choice]); waiting.erase(choice);
      cv.notify_all();
      // wait until it has left, so that it is not taken for asleep
      int t = (int)let.size(); (void)t;
      while (!let.empty()) { l.unlock(); sched_yield(); l.lock(); }
    }
  }
  void end() override { over = true; if (th.joinable()) th.join(); }
  void report(Rec &rec) override {
    std::vector<Raw> ev;
    for (auto &e : events) ev.push_back(Raw{"[\"" + e.first + "\"," + std::to_string(e.second) + "]"});
    rec("events", ev)("torn", broken)("cancelled", cancelled)("threads", omp_get_max_threads());
  }
};

int main(int argc, char **argv) {
  const char *pol = getenv("OMP_WAIT_POLICY");
  if (!pol || std::string(pol) != "passive") { setenv("OMP_WAIT_POLICY", "passive", 1); setenv("OMP_DYNAMIC", "false", 1); execv("/proc/self/exe", argv); return 3; }
  std::string mode = argv[1];
  uint64_t seed = strtoull(argv[2], 0, 10);
  int n = atoi(argv[3]);
  if (mode == "replay") { // lines: partitions sizes,.. inner step,..
    std::ifstream in(argv[4]);
    int p, k; std::string sz, st; int line = 0;
    auto nums = [](const std::string &s) { std::vector<int> v; std::stringstream q(s); std::string x; while (std::getline(q, x, ',')) if (!x.empty()) v.push_back(atoi(x.c_str())); return v; };
    while (in >> p >> sz >> k >> st) {
      Rng r(seed * 7919 + line++);
      Config c; c.innerExo = r.chance(0.5); c.parallel = true; c.sizes = nums(sz);
      c.numEndo = c.innerExo ? p : k; c.numExo = c.innerExo ? k : p; c.T = c.numEndo;
      for (int i = 0; i < p; i++) c.parts.push_back({(c.innerExo ? 0 : c.numEndo) + i});
      for (int i = 0; i < k; i++) c.inner.push_back({(c.innerExo ? c.numEndo : 0) + i});
      c.K = r.range(1, 3); c.incl = true; c.mixture = r.chance(0.5); c.len1 = r.range(0, 2); c.mult = r.chance(0.5) ? 1.5 : 0; if (r.chance(0.5)) c.points = {0.25};
      c.in = {GoodnessOfFitType::kAic}; if (r.chance(0.5)) c.out = {ScoringType::kSign};
      Profile pr; pr.fail = 0.15; pr.nanMetric = 0.1; pr.scaleMode = 0;
      omp_set_num_threads(std::min<int>(8, (int)c.sizes.size() * k));
      Scheduler s; s.steps = nums(st); gate = &s;
      runSet(c, seed * 31 + line, pr, "par", false);
    }
    return 0;
  }
  for (int i = 0; i < n; i++) {
    Rng r(seed * 100003 + i);
    Config c = randomConfig(r, mode);
    Profile p; p.scaleMode = r.chance(0.6) ? 0 : r.range(4, 6); p.signMode = r.range(0, 2); p.fail = r.chance(0.3) ? 0 : 0.25;
    Scheduler s; gate = &s;
    c.parallel = mode != "seq";
    omp_set_num_threads(r.range(1, 6));
    s.rng = &r; s.free = mode == "free"; s.cancelp = mode == "free" || r.chance(0.5) ? 0 : r.pick(std::vector<double>{0.02, 0.1, 0.3}); s.early = mode != "free" && r.chance(0.04);
    runSet(c, seed * 31 + i, p, "par", false);
  }
}
