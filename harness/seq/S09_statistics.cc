// Accumulators, the statistics and timing registries and timers against direct evaluation of all samples.
#define SEQX_MAIN
#include "seqx.h"

#include <chrono>
#include <cmath>
#include <limits>
#include <map>
#include <sstream>
#include <unistd.h>

#include <glog/logging.h>
#include <yaml-cpp/yaml.h>
#include <aslam/common/statistics/accumulator.h>
#include <aslam/common/statistics/statistics.h>
#include <aslam/common/timer.h>

using seqx::Ctx;
typedef statistics::Statistics S;
typedef timing::Timing T;

// The clock is the harness'.
static int64_t g_now = 1000000000ll;
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration(g_now)); }
}}}

static bool near(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b)); }
struct Ref {
  std::vector<double> all;
  double sum() const { double s = 0; for (double x : all) s += x; return s; }
  double mean() const { return all.empty() ? 0 : sum() / all.size(); }
  double mn() const { double m = all[0]; for (double x : all) m = std::min(m, x); return m; }
  double mx() const { double m = all[0]; for (double x : all) m = std::max(m, x); return m; }
  Ref window(size_t w) const { Ref r; r.all.assign(all.size() > w ? all.end() - w : all.begin(), all.end()); return r; }
  double var() const {
    if (all.size() < 2) return 0;
    double v = 0;
    for (double x : all) v += (x - mean()) * (x - mean());
    return v / (all.size() - 1);
  }
};
template <class Sample, class Sum, int W>
static void verify(Ctx& c, const statistics::Accumulator<Sample, Sum, W>& a, const Ref& r) {
  const Ref w = r.window(W);
  c.check(a.total_samples() == (int)r.all.size(), "count", "%d samples instead of %zu", a.total_samples(), r.all.size());
  c.check(near(a.sum(), r.sum()), "sum", "sum %g instead of %g", (double)a.sum(), r.sum());
  c.check(near(a.Mean(), r.mean()), "mean", "mean %g instead of %g", (double)a.Mean(), r.mean());
  c.check(near(a.RollingMean(), w.mean()), "rolling-mean", "rolling mean %g instead of %g", (double)a.RollingMean(), w.mean());
  c.check(near(a.LazyVariance(), w.var()), "variance", "variance %g instead of %g", (double)a.LazyVariance(), w.var());
  c.check(near(a.StandardDeviation(), std::sqrt(w.var())), "stddev", "standard deviation %g instead of %g", (double)a.StandardDeviation(), std::sqrt(w.var()));
  if (!r.all.empty()) {
    c.check(near(a.min(), r.mn()) && near(a.max(), r.mx()), "min-max", "[%g, %g] instead of [%g, %g]", (double)a.min(), (double)a.max(), r.mn(), r.mx());
    c.check(near(a.GetMostRecent(), r.all.back()), "recent", "most recent %g instead of %g", (double)a.GetMostRecent(), r.all.back());
  }
  std::vector<double> s(a.GetSamples().begin(), a.GetSamples().end()), t = w.all;
  std::sort(s.begin(), s.end());
  std::sort(t.begin(), t.end());
  c.check(s == t, "samples", "the samples kept are not the last %d", W);
}
template <class Sample, class Sum, int W>
static void accumulate(Ctx& c, int depth) {
  statistics::Accumulator<Sample, Sum, W> a;
  Ref r;
  verify(c, a, r);
  const double scale = std::numeric_limits<Sample>::is_integer ? 1 : 0.5;
  for (int i = 0; i < depth; ++i) {
    const double v = c.pick({0.0, -3.0, 7.0, 4.0, -9.0}, "sample") * scale;
    a.Add((Sample)v);
    r.all.push_back(v);
    verify(c, a, r);
  }
}
static void accumulator(Ctx& c) {
  const int n = c.thorough ? 8 : 7;
  switch (c.choose(7, "type")) {
    case 0: accumulate<double, double, statistics::kInfiniteWindowSize>(c, n); break;
    case 1: accumulate<double, double, 1>(c, n); break;
    case 2: accumulate<double, double, 2>(c, n); break;
    case 3: accumulate<double, double, 3>(c, n); break;
    case 4: accumulate<float, double, 2>(c, n); break;
    case 5: accumulate<int, double, 3>(c, n); break;
    default: accumulate<double, double, 4>(c, n); break;
  }
}
// Windows of the size the registries use, around one and two full turns.
static void accumulator_long(Ctx& c) {
  const int n = c.range(90, 320, "samples"), pattern = c.choose(4, "pattern");
  statistics::Accumulator<double, double, 100> a;
  Ref r;
  for (int i = 0; i < n; ++i) {
    const double v = pattern == 0 ? i : pattern == 1 ? -i : pattern == 2 ? (i * 7919) % 101 : (i % 100 == 3 ? 1000 : 1);
    a.Add(v);
    r.all.push_back(v);
  }
  verify(c, a, r);
}
// Registries: every sequence of operations on two tags, with a clock that advances by chosen steps.
struct Entry { size_t handle; Ref values, deltas; int64_t last = -1; };
static std::string file_name() { return seqx::fmt("stat-%d.yaml", (int)getpid()); }
static bool near6(double a, double b) { return std::fabs(a - b) <= 2e-5 * (1e-9 + std::fabs(a) + std::fabs(b)); }  // six digits

static void stats_entry(Ctx& c, const std::string& t, const Entry& e) {
  c.check(S::HasHandle(t), "has", "tag '%s' is unknown", t.c_str());
  c.check(S::GetHandle(t) == e.handle && S::GetTag(e.handle) == t, "handle", "handle of '%s'", t.c_str());
  const Ref w = e.values.window(100), dw = e.deltas.window(100);
  for (int by = 0; by < 2; ++by) {
    const size_t h = e.handle;
    c.check((by ? S::GetNumSamples(t) : S::GetNumSamples(h)) == e.values.all.size(), "reg-count", "number of samples of '%s'", t.c_str());
    c.check(near(by ? S::GetTotal(t) : S::GetTotal(h), e.values.sum()), "reg-total", "total of '%s'", t.c_str());
    c.check(near(by ? S::GetMean(t) : S::GetMean(h), e.values.mean()), "reg-mean", "mean of '%s'", t.c_str());
    c.check(near(by ? S::GetVariance(t) : S::GetVariance(h), w.var()), "reg-variance", "variance of '%s'", t.c_str());
    c.check(near(by ? S::GetLastValue(t) : S::GetLastValue(h), e.values.all.empty() ? 0 : e.values.all.back()), "reg-last", "last value of '%s'", t.c_str());
    if (!e.values.all.empty()) c.check(near(by ? S::GetMin(t) : S::GetMin(h), e.values.mn()) && near(by ? S::GetMax(t) : S::GetMax(h), e.values.mx()), "reg-min-max", "range of '%s'", t.c_str());
    c.check(near(by ? S::GetMeanDeltaTime(t) : S::GetMeanDeltaTime(h), e.deltas.mean()), "delta-mean", "mean time between samples of '%s' is %g instead of %g", t.c_str(), S::GetMeanDeltaTime(h), e.deltas.mean());
    c.check(near(by ? S::GetVarianceDeltaTime(t) : S::GetVarianceDeltaTime(h), dw.var()), "delta-variance", "variance of the time between samples of '%s'", t.c_str());
    c.check(near(by ? S::GetLastDeltaTime(t) : S::GetLastDeltaTime(h), e.deltas.all.empty() ? 0 : e.deltas.all.back()), "delta-last", "last time between samples of '%s'", t.c_str());
    if (!e.deltas.all.empty()) c.check(near(by ? S::GetMinDeltaTime(t) : S::GetMinDeltaTime(h), e.deltas.mn()) && near(by ? S::GetMaxDeltaTime(t) : S::GetMaxDeltaTime(h), e.deltas.mx()), "delta-range", "range of the time between samples of '%s'", t.c_str());
    c.check(near(by ? S::GetHz(t) : S::GetHz(h), e.deltas.mean() > 0 ? 1 / e.deltas.mean() : -1), "hz", "rate of '%s' is %g", t.c_str(), S::GetHz(h));
  }
}
template <class F>
static void yaml(Ctx& c, const std::map<std::string, Entry>& m, F write, const char* count, bool total) {
  const std::string f = file_name();
  unlink(f.c_str());
  write(f);
  if (m.empty()) { c.check(access(f.c_str(), F_OK) != 0, "yaml-empty", "a file without content was written"); return; }
  YAML::Node n = YAML::LoadFile(f);
  size_t entries = 0;
  for (auto& kv : m) {
    if (kv.second.values.all.empty()) continue;
    ++entries;
    std::string label = kv.first;
    for (auto& ch : label) if (ch == ':' || ch == '#') ch = '_';
    const YAML::Node e = n[label];
    const Ref& v = kv.second.values;
    c.check(e.IsMap(), "yaml-entry", "no entry '%s'", label.c_str());
    c.check(e[count].as<size_t>() == v.all.size(), "yaml-count", "count of '%s'", label.c_str());
    c.check(near6(e["mean"].as<double>(), v.mean()) && near6(e["min"].as<double>(), v.mn()) && near6(e["max"].as<double>(), v.mx()), "yaml-values", "mean, min or max of '%s'", label.c_str());
    c.check(near6(e[total ? "std_dev" : "stddev"].as<double>(), std::sqrt(v.window(100).var())), "yaml-stddev", "standard deviation of '%s'", label.c_str());
    if (total) c.check(near6(e["total"].as<double>(), v.sum()), "yaml-total", "total of '%s'", label.c_str());
  }
  c.check(n.size() == entries, "yaml-size", "%zu entries instead of %zu", n.size(), entries);
  unlink(f.c_str());
}
static void print(Ctx& c, const std::string& text, const std::map<std::string, Entry>& m) {
  std::istringstream is(text);
  std::string l;
  std::map<std::string, std::string> lines;
  while (std::getline(is, l)) for (auto& kv : m) if (l.compare(0, kv.first.size(), kv.first) == 0 && (l[kv.first.size()] == ' ' || l[kv.first.size()] == '\t')) lines[kv.first] = l;
  c.check(m.empty() ? text.empty() : lines.size() == m.size(), "print", "%zu of %zu tags were printed", lines.size(), m.size());
  for (auto& kv : m) {
    const std::string rest = lines[kv.first].substr(kv.first.size());
    c.check((size_t)atol(rest.c_str()) == kv.second.values.all.size(), "print-count", "'%s'", lines[kv.first].c_str());
  }
}
static void statistics_ops(Ctx& c) {
  g_now = 1000000000ll;
  S::Reset();
  std::map<std::string, Entry> m;
  std::set<size_t> used;
  static const char* const tags[] = {"a:b#c", "longer tag"};
  const int depth = c.thorough ? 5 : 4;
  std::string key;
  for (int d = 0; d < depth; ++d) {
    const int op = c.choose(5, "op");
    if (op < 2 || op == 3) {
      const std::string t = tags[c.choose(2, "tag")];
      const bool known = m.count(t);
      c.check(S::HasHandle(t) == known, "has-before", "HasHandle('%s')", t.c_str());
      statistics::StatsCollectorImpl s(t);
      if (!known) {
        c.check(used.insert(s.GetHandle()).second, "reuse", "a new tag gets the handle of another one");
        m[t].handle = s.GetHandle();
      }
      Entry& e = m[t];
      c.check(s.GetHandle() == e.handle, "same", "two handles for '%s'", t.c_str());
      if (op < 2) {
        const double v = op == 0 ? c.pick({-2.5, 0.25, 1e6}, "value") : 1;
        g_now += c.pick({0ll, 1500000000ll}, "dt");
        if (op == 0) s.AddSample(v); else s.IncrementOne();
        e.values.all.push_back(v);
        if (e.last >= 0) e.deltas.all.push_back((g_now - e.last) * 1e-9);
        e.last = g_now;
      }
    } else if (op == 2) {
      S::Reset();
      m.clear();
    } else {
      statistics::StatsCollectorImpl by_handle(S::GetHandle(tags[0]));
      if (!m.count(tags[0])) { c.check(used.insert(by_handle.GetHandle()).second, "reuse", "a new tag gets the handle of another one"); m[tags[0]].handle = by_handle.GetHandle(); }
      statistics::DummyStatsCollector dummy(tags[0]);
      dummy.AddSample(77);
      dummy.IncrementOne();
    }
    for (auto t : tags) if (!m.count(t)) c.check(!S::HasHandle(t), "unknown", "'%s' is known", t);
    for (auto& kv : m) stats_entry(c, kv.first, kv.second);
    c.check(S::GetStatsCollectors().size() == m.size(), "tags", "%zu tags instead of %zu", S::GetStatsCollectors().size(), m.size());
  }
  c.check(S::GetTag(1u << 30).empty(), "no-tag", "the tag of an unknown handle");
  std::ostringstream os;
  S::Print(os);
  print(c, os.str(), m);
  c.check(os.str() == S::Print(), "print-same", "the two Print() differ");
  yaml(c, m, [](const std::string& f) { S::WriteToYamlFile(f); }, "samples", false);
}
static double parse_time(const std::string& s, bool* ok) {
  int h = 0, mi = 0, n = 0;
  double sec = 0;
  *ok = sscanf(s.c_str(), "%d:%d:%lf%n", &h, &mi, &sec, &n) == 3 && n == (int)s.size() && mi < 60 && h >= 0 && mi >= 0;
  return h * 3600.0 + mi * 60 + sec;
}
static void timer_ops(Ctx& c) {
  g_now = 1000000000ll;
  T::Reset();
  std::map<std::string, Entry> m;
  std::set<size_t> used;
  static const char* const tags[] = {"t:1", "timer two"};
  std::unique_ptr<timing::TimerImpl> timers[2];
  int tag_of[2] = {0, 0};
  int64_t started[2] = {-1, -1};
  auto add = [&](int i, int64_t from) { m[tags[tag_of[i]]].values.all.push_back((g_now - from) * 1e-9); };
  const int depth = c.thorough ? 5 : 4;
  for (int d = 0; d < depth; ++d) {
    const int i = c.choose(2, "timer");
    g_now += c.pick({0ll, 1ll, 2000000000ll}, "dt");
    if (!timers[i]) {
      tag_of[i] = c.choose(2, "tag");
      const std::string t = tags[tag_of[i]];
      const bool stopped = c.flag("stopped");
      timers[i].reset(new timing::TimerImpl(t, stopped));
      if (!m.count(t)) { c.check(used.insert(timers[i]->GetHandle()).second, "timer-reuse", "a new tag gets the handle of another one"); m[t].handle = timers[i]->GetHandle(); }
      started[i] = stopped ? -1 : g_now;
    } else {
      const int op = c.choose(4, "op");
      if (op == 0) { timers[i]->Start(); started[i] = g_now; }
      else if (op == 1) {
        const double dt = timers[i]->Stop();
        c.check(near(dt, started[i] < 0 ? 0 : (g_now - started[i]) * 1e-9), "stop", "Stop() returned %g", dt);
        if (started[i] >= 0) add(i, started[i]);
        started[i] = -1;
      } else if (op == 2) { timers[i]->Discard(); started[i] = -1; }
      else { timers[i].reset(); if (started[i] >= 0) add(i, started[i]); started[i] = -1; }
    }
    if (timers[i]) {
      c.check(timers[i]->IsTiming() == (started[i] >= 0), "is-timing", "IsTiming()");
      c.check(timers[i]->GetHandle() == m[tags[tag_of[i]]].handle, "timer-handle", "handle of the timer");
    }
    c.check(T::GetTimerImpls().size() == m.size(), "timer-tags", "%zu tags instead of %zu", T::GetTimerImpls().size(), m.size());
    for (auto& kv : m) {
      const Entry& e = kv.second;
      const std::string& t = kv.first;
      const size_t h = e.handle;
      c.check(T::GetHandle(t) == h && T::GetTag(h) == t, "timer-lookup", "handle of '%s'", t.c_str());
      for (int by = 0; by < 2; ++by) {
        c.check((by ? T::GetNumSamples(t) : T::GetNumSamples(h)) == e.values.all.size(), "timer-count", "%zu samples of '%s' instead of %zu", T::GetNumSamples(h), t.c_str(), e.values.all.size());
        c.check(near(by ? T::GetTotalSeconds(t) : T::GetTotalSeconds(h), e.values.sum()) && near(by ? T::GetMeanSeconds(t) : T::GetMeanSeconds(h), e.values.mean()) &&
                near(by ? T::GetVarianceSeconds(t) : T::GetVarianceSeconds(h), e.values.var()), "timer-values", "values of '%s'", t.c_str());
        if (!e.values.all.empty()) c.check(near(by ? T::GetMinSeconds(t) : T::GetMinSeconds(h), e.values.mn()) && near(by ? T::GetMaxSeconds(t) : T::GetMaxSeconds(h), e.values.mx()), "timer-range", "range of '%s'", t.c_str());
        if (e.values.mean() > 0) c.check(near(by ? T::GetHz(t) : T::GetHz(h), 1 / e.values.mean()), "timer-hz", "rate of '%s'", t.c_str());
      }
    }
  }
  std::ostringstream os;
  T::Print(os);
  print(c, os.str(), m);
  c.check(os.str() == T::Print(), "timer-print-same", "the two Print() differ");
  yaml(c, m, [](const std::string& f) { T::WriteToYamlFile(f); }, "num_samples", true);
  for (auto& t : timers) if (t) t->Discard();
}
static void time_strings(Ctx& c) {
  static const std::vector<double> whole = {0, 1, 9, 10, 59, 60, 61, 119, 3599, 3600, 3601, 7199, 86399, 86400, 359999, 3600000};
  const double s = c.pick(whole, "seconds") + c.pick({0.0, 1e-6, 0.000999, 0.1, 0.5, 0.999999}, "fraction");
  bool ok;
  const double v = parse_time(T::SecondsToTimeString(s), &ok);
  c.check(ok && std::fabs(v - s) < 1e-6, "time-string", "SecondsToTimeString(%.7f) = '%s'", s, T::SecondsToTimeString(s).c_str());
  // This one prints seconds only.
  const std::string t = S::SecondsToTimeString(s);
  char* e;
  const double w = strtod(t.c_str(), &e);
  c.check(!*e && std::fabs(w - s) < 1e-6, "seconds-string", "Statistics::SecondsToTimeString(%.7f) = '%s'", s, t.c_str());
}
int main(int argc, char** argv) {
  return seqx::run_main(argc, argv, "S09", {
    {"accumulator", "every sequence of 7 samples over 5 values, 7 combinations of types and window sizes", accumulator, 7},
    {"accumulator-long", "90 to 320 samples of 4 patterns in a window of 100", accumulator_long, 4},
    {"statistics", "every sequence of 4 operations on the statistics registry", statistics_ops, 5},
    {"timer", "every sequence of 4 operations on two timers", timer_ops, 2},
    {"time-strings", "times around every carry", time_strings, 1},
  });
}
