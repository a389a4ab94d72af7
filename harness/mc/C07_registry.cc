// The statistics and timing registries used by several threads: every operation is atomic, no sample is lost,
// equal tags share a handle, different tags never do, nothing races or deadlocks.
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include <aslam/common/statistics/statistics.h>
#include <aslam/common/timer.h>

#include "lin.h"
#include "mcx.h"

typedef statistics::Statistics S;
typedef timing::Timing T;

struct Stats {
  static const char* name() { return "statistics"; }
  static size_t handle(const std::string& t) { return S::GetHandle(t); }
  static std::string tag(size_t h) { return S::GetTag(h); }
  static void add(size_t h, double v) { statistics::StatsCollectorImpl(h).AddSample(v); }
  static double add_by_tag(const std::string& t, double v, size_t* h) {
    statistics::StatsCollectorImpl c(t);
    *h = c.GetHandle();
    c.AddSample(v);
    return v;
  }
  static size_t n(size_t h) { return S::GetNumSamples(h); }
  static double sum(size_t h) { return S::GetTotal(h); }
  static double mn(size_t h) { return S::GetMin(h); }
  static double mx(size_t h) { return S::GetMax(h); }
  static double mean(size_t h) { return S::GetMean(h); }
  static size_t n(const std::string& t) { return S::GetNumSamples(t); }
  static void print() { std::ostringstream o; S::Print(o); }
  static void yaml() { S::WriteToYamlFile("/dev/null"); }
  static void reset() { S::Reset(); }
  static void others(size_t h) {
    S::GetLastValue(h); S::GetVariance(h); S::GetHz(h); S::GetMeanDeltaTime(h); S::GetMaxDeltaTime(h);
    S::GetMinDeltaTime(h); S::GetLastDeltaTime(h); S::GetVarianceDeltaTime(h);
  }
};
struct Times {
  static const char* name() { return "timing"; }
  static size_t handle(const std::string& t) { return T::GetHandle(t); }
  static std::string tag(size_t h) { return T::GetTag(h); }
  // A timer measures the virtual clock, which the harness sets: the sample is exactly v seconds.
  static double add_by_tag(const std::string& t, double, size_t* h) {
    timing::TimerImpl c(t, true);
    *h = c.GetHandle();
    c.Start();
    return c.Stop();
  }
  static size_t n(size_t h) { return T::GetNumSamples(h); }
  static double sum(size_t h) { return T::GetTotalSeconds(h); }
  static double mn(size_t h) { return T::GetMinSeconds(h); }
  static double mx(size_t h) { return T::GetMaxSeconds(h); }
  static double mean(size_t h) { return T::GetMeanSeconds(h); }
  static size_t n(const std::string& t) { return T::GetNumSamples(t); }
  static void print() { std::ostringstream o; T::Print(o); }
  static void yaml() { T::WriteToYamlFile("/dev/null"); }
  static void reset() { T::Reset(); }
  static void others(size_t h) { T::GetVarianceSeconds(h); T::GetHz(h); }
};

struct State {
  std::map<std::string, size_t> tags;
  std::map<size_t, std::vector<double>> samples;
};
typedef lin::History<State> Hist;
static bool near(double a, double b) { return a - b < 1e-9 && b - a < 1e-9; }

static bool model_handle(State& m, const std::string& t, size_t h) {
  auto it = m.tags.find(t);
  if (it != m.tags.end()) return it->second == h;
  if (m.samples.count(h)) return false;  // a new tag gets a handle nobody has had
  m.tags[t] = h;
  m.samples[h];
  return true;
}

template <class R>
struct Sys {
  Hist hist;
  size_t shared_handle;
  static std::string own(int t) { return std::string("t") + char('0' + t); }
  void handle(const std::string& t, size_t* out = nullptr) {
    hist.run("handle " + t, [&] {
      const size_t h = R::handle(t);
      if (out) *out = h;
      return [t, h](State& m) { return model_handle(m, t, h); };
    });
  }
  void op(int t, int k) {
    const size_t sh = shared_handle;
    switch (k) {
      case 0: {  // a sample on a tag that both threads may create
        size_t h = 0;
        double d = 0;
        // Two atomic steps: look the tag up (creating it), add the sample.
        hist.run("sample x", [&] {
          d = R::add_by_tag("x", 1.0 + t, &h);
          const size_t hh = h;
          return [hh, d](State& m) {
            if (!model_handle(m, "x", hh)) return false;
            m.samples[hh].push_back(d);
            return true;
          };
        });
        break;
      }
      case 1:  // a new own tag: grows the registry
        handle(own(t));
        break;
      case 2:
        hist.run("count s", [&] {
          const size_t n = R::n(sh);
          return [sh, n](State& m) { return m.samples[sh].size() == n; };
        });
        break;
      case 3:
        hist.run("sum s", [&] {
          const double d = R::sum(sh);
          return [sh, d](State& m) {
            double s = 0;
            for (double x : m.samples[sh]) s += x;
            return near(s, d);
          };
        });
        break;
      case 4: {  // a sample on the shared tag
        hist.run("sample s", [&] {
          size_t h;
          const double d = R::add_by_tag("s", 3.0 + t, &h);
          return [h, d](State& m) {
            if (!model_handle(m, "s", h)) return false;
            m.samples[h].push_back(d);
            return true;
          };
        });
        break;
      }
      case 5:
        hist.run("tag s", [&] {
          const std::string g = R::tag(sh);
          return [sh, g](State& m) {
            for (auto& kv : m.tags) if (kv.second == sh) return kv.first == g;
            return g.empty();
          };
        });
        break;
      case 6: {
        const std::string o = own(1 - (t & 1));
        hist.run("count " + o, [&] {
          const size_t n = R::n(o);
          return [o, n](State& m) { return !m.tags.count(o) ? n == 0 : m.samples[m.tags[o]].size() == n; };
        });
        break;
      }
      case 7:
        hist.run("max s", [&] {
          const double d = R::mx(sh);
          return [sh, d](State& m) {
            double s = -1e300;
            for (double x : m.samples[sh]) s = x > s ? x : s;
            return m.samples[sh].empty() || near(s, d);
          };
        });
        break;
    }
  }
};

// The per-operation choice sets; programs are all tuples over them.
template <class R>
void programs(int threads, int len, std::vector<int> ops) {
  Sys<R> s;
  s.shared_handle = R::handle("s");
  State init;
  init.tags["s"] = s.shared_handle;
  init.samples[s.shared_handle];
  std::vector<std::vector<int>> prog(threads);
  for (auto& p : prog) for (int i = 0; i < len; ++i) p.push_back(ops[mcx::choose((int)ops.size(), "operation")]);
  std::vector<std::thread> th;
  for (int t = 0; t < threads; ++t) th.emplace_back([&s, &prog, t] { for (int k : prog[t]) s.op(t, k); });
  for (auto& t : th) t.join();
  s.hist.run("final s", [&] {
    const size_t n = R::n(s.shared_handle);
    const size_t h = s.shared_handle;
    return [h, n](State& m) { return m.samples[h].size() == n; };
  });
  s.hist.run("final x", [&] {
    const size_t hx = R::handle("x");
    const size_t n = R::n(hx);
    const double d = R::sum(hx);
    return [hx, n, d](State& m) {
      if (!model_handle(m, "x", hx)) return false;
      double q = 0;
      for (double v : m.samples[hx]) q += v;
      return m.samples[hx].size() == n && near(q, d);
    };
  });
  s.hist.check(init);
}

// Printing and writing while other threads add tags and samples.
template <class R>
void reporting(int what) {
  const size_t h = R::handle("s");
  std::thread a([&] {
    size_t k;
    R::add_by_tag("s", 1.0, &k);
    MCX_CHECK(k == h, "a tag changed its handle");
    R::add_by_tag("a longer tag", 2.0, &k);
    MCX_CHECK(k != h, "two tags share a handle");
  });
  if (what == 0) R::print();
  if (what == 1) R::yaml();
  if (what == 2) { R::others(h); R::mn(h); R::mean(h); }
  a.join();
  MCX_CHECK(R::n(h) == 1 && R::n("a longer tag") == 1, "a sample was lost");
}
// Reset() forgets tags; handles handed out before stay usable and are not handed out again.
template <class R>
void resetting() {
  const size_t h = R::handle("s");
  size_t k = h, k2 = h;
  std::thread a([&] {
    R::add_by_tag("y", 2.0, &k);
    MCX_CHECK(k != h, "a new tag got the handle of another one");
    MCX_CHECK(R::n(k) >= 1, "a sample was lost");
  });
  R::reset();
  R::add_by_tag("z", 5.0, &k2);
  MCX_CHECK(k2 != h, "a tag created after Reset() got the handle of a forgotten one");
  a.join();
  MCX_CHECK(k != k2, "two tags created around Reset() share a handle");
  MCX_CHECK(R::n(k2) == 1 && R::n(k) == 1 && R::n(h) == 0, "a sample went to another handle");
}
// First use of the registry by two threads at once.
template <class R>
void first_use() {
  size_t a = 0, b = 0;
  const bool same = mcx::choose(2, "same tag") == 0;
  std::thread t([&] { R::add_by_tag("p", 1.0, &a); });
  R::add_by_tag(same ? "p" : "q", 1.0, &b);
  t.join();
  MCX_CHECK((a == b) == same, "tags and handles do not correspond");
  MCX_CHECK(R::n(b) == (same ? 2u : 1u), "a sample was lost");
}

int main(int argc, char** argv) {
  std::vector<mcx::Scenario> s;
  auto B = [](int p) { mcx::Bounds b; b.preemptions = p; return b; };
  const std::vector<int> all = {0, 1, 2, 3, 4, 5, 6, 7};
  const std::vector<int> some = {0, 1, 3, 4};
#define BOTH(NAME, WHAT, CALL, Q, TH) \
  s.push_back({std::string("stat-") + NAME, WHAT " (Statistics)", [=] { typedef Stats R; CALL; }, Q, TH}); \
  s.push_back({std::string("time-") + NAME, WHAT " (Timing)", [=] { typedef Times R; CALL; }, Q, TH});
  BOTH("2x1", "2 threads, every pair of operations", programs<R>(2, 1, all), B(-1), B(-1))
  BOTH("2x2", "2 threads, every pair of 2-operation programs", programs<R>(2, 2, all), B(1), B(3))
  BOTH("3x1", "3 threads, one operation each", programs<R>(3, 1, some), B(1), B(3))
  BOTH("print", "Print() against new tags and samples", reporting<R>(0), B(2), B(4))
  BOTH("yaml", "WriteToYamlFile() against new tags and samples", reporting<R>(1), B(2), B(4))
  BOTH("getters", "every other getter against new tags and samples", reporting<R>(2), B(2), B(-1))
  BOTH("reset", "Reset() against new tags and samples", resetting<R>(), B(3), B(-1))
  BOTH("first", "first use by two threads at once", first_use<R>(), B(-1), B(-1))
  return mcx::run_main(argc, argv, "C07", s);
}
