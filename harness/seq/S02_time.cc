// Time conversions and time strings.
#define SEQX_MAIN
#include <cmath>
#include <limits>
#include <string>
#include "seqx.h"

#include <aslam/common/time.h>

using seqx::Ctx;
namespace tm_ = aslam::time;

static std::vector<int64_t> values() {
  std::set<int64_t> s;
  auto add = [&](__int128 v) {
    if (v <= std::numeric_limits<int64_t>::max() && v >= std::numeric_limits<int64_t>::min()) s.insert((int64_t)v);
  };
  for (int sg = -1; sg <= 1; sg += 2) {
    for (int k = 0; k < 64; ++k) for (int d = -2; d <= 2; ++d) add(sg * (((__int128)1 << k) + d));
    __int128 p = 1;
    for (int k = 0; k <= 19; ++k, p *= 10)
      for (int m = 1; m <= 9; ++m) for (int d = -2; d <= 2; ++d) add(sg * (p * m + d));
    // around every digit count, with leading zeros in the fraction
    for (int64_t sec : {0ll, 1ll, 9ll, 10ll, 59ll, 123456789ll, 1700000000ll, 9223372035ll})
      for (int64_t ns : {0ll, 1ll, 9ll, 10ll, 99ll, 1000ll, 999999ll, 1000000ll, 99999999ll, 100000000ll, 999999999ll})
        add(sg * ((__int128)sec * 1000000000 + ns));
  }
  return std::vector<int64_t>(s.begin(), s.end());
}
static const std::vector<int64_t>& vals() { static const std::vector<int64_t> v = values(); return v; }

static bool all_digits(const std::string& s) {
  if (s.empty()) return false;
  for (char c : s) if (c < '0' || c > '9') return false;
  return true;
}
// Reads "[-]<ns>ns" or "[-]<sec>s <9 digits>ns" back; false if it has another shape.
static bool parse(std::string s, __int128* out) {
  bool neg = false;
  if (!s.empty() && s[0] == '-') { neg = true; s = s.substr(1); }
  if (s.size() < 3 || s.substr(s.size() - 2) != "ns") return false;
  s = s.substr(0, s.size() - 2);
  const size_t p = s.find("s ");
  __int128 v = 0;
  auto num = [](const std::string& d) { __int128 n = 0; for (char c : d) n = n * 10 + (c - '0'); return n; };
  if (p == std::string::npos) {
    if (!all_digits(s) || s.size() > 9) return false;
    v = num(s);
  } else {
    const std::string a = s.substr(0, p), b = s.substr(p + 2);
    if (!all_digits(a) || !all_digits(b) || b.size() != 9) return false;
    v = num(a) * 1000000000 + num(b);
  }
  *out = neg ? -v : v;
  return true;
}
static void text(Ctx& c, int64_t t) {
  const std::string s = tm_::timeNanosecondsToString(t);
  __int128 v;
  c.check(parse(s, &v) && v == t, "text", "timeNanosecondsToString(%lld) = '%s'", (long long)t, s.c_str());
}
static void text_all(Ctx& c) { text(c, c.pick(vals(), "t")); }
static void text_dense(Ctx& c) {
  // every count of nanoseconds around the places where a digit is added
  static const int64_t base[] = {0, 100000000, 1000000000, 10000000000ll};
  const int64_t b = base[c.choose(4, "base")];
  const int64_t t = b + c.choose(4001, "offset") - 2000;
  text(c, t);
  text(c, -t);
}
template <class F>
static void exact(Ctx& c, F f, int64_t unit, const char* name) {
  const int64_t v = c.pick(vals(), "value");
  const __int128 r = (__int128)v * unit;
  if (r > std::numeric_limits<int64_t>::max() || r < std::numeric_limits<int64_t>::min()) return;
  c.check(f(v) == (int64_t)r, std::string("unit-") + name, "%s(%lld) = %lld", name, (long long)v, (long long)f(v));
}
static void units(Ctx& c) {
  switch (c.choose(4, "unit")) {
    case 0: exact(c, tm_::seconds, 1000000000, "seconds"); break;
    case 1: exact(c, tm_::milliseconds, 1000000, "milliseconds"); break;
    case 2: exact(c, tm_::microseconds, 1000, "microseconds"); break;
    default: exact(c, tm_::nanoseconds, 1, "nanoseconds"); break;
  }
}
template <class To, class From>
static void there_and_back(Ctx& c, To to, From from, int64_t unit, const char* name) {
  const int64_t t = c.pick(vals(), "t");
  const double d = to(t);
  // Correctly rounded: no double is closer to the exact quotient.  Both factors of the division are exact for |t| <= 2^53,
  // beyond that the conversion of t itself may round as well.
  const bool whole = t <= (1ll << 53) && t >= -(1ll << 53);
  const long double ideal = (long double)t / unit;  // 64 bits: off by at most 2^-64 of the value
  const long double err = std::fabs((long double)d - ideal), up = std::fabs((long double)std::nextafter(d, INFINITY) - ideal),
                    down = std::fabs((long double)std::nextafter(d, -INFINITY) - ideal), eps = std::fabs(ideal) * 1.1e-19L;
  c.check(whole ? err <= up + eps && err <= down + eps : err <= std::fabs(ideal) * 2.3e-16L, std::string("to-") + name,
          "to_%s(%lld) = %.17g", name, (long long)t, d);
  if (t > 9000000000000000000ll || t < -9000000000000000000ll) return;  // the product may leave the range
  const int64_t b = from(d);
  const __int128 diff = (__int128)b - t, lim = 1 + ((__int128)(t < 0 ? -t : t) >> 51);
  c.check(diff <= lim && diff >= -lim, std::string("back-") + name, "from_%s(to_%s(%lld)) = %lld", name, name, (long long)t, (long long)b);
  // whole units come back exactly while they are exactly representable
  if (t < 4000000 && t > -4000000) {
    c.check(from((double)t) == t * unit, std::string("whole-") + name, "from_%s(%lld) = %lld", name, (long long)t, (long long)from((double)t));
    c.check(from(t + (t < 0 ? -0.5 : 0.5)) == t * unit + (t < 0 ? -unit / 2 : unit / 2), std::string("half-") + name,
            "from_%s(%lld.5)", name, (long long)t);
  }
}
static void runtime(Ctx& c) {
  switch (c.choose(4, "unit")) {
    case 0: there_and_back(c, tm_::to_seconds, tm_::from_seconds, 1000000000, "seconds"); break;
    case 1: there_and_back(c, tm_::to_milliseconds, tm_::from_milliseconds, 1000000, "milliseconds"); break;
    case 2: there_and_back(c, tm_::to_microseconds, tm_::from_microseconds, 1000, "microseconds"); break;
    default: there_and_back(c, tm_::nanoSecondsToSeconds, tm_::secondsToNanoSeconds, 1000000000, "seconds-old-names"); break;
  }
}
static void monotone(Ctx& c) {
  const size_t i = c.choose(vals().size() - 1, "i");
  const int64_t a = vals()[i], b = vals()[i + 1];
  c.check(tm_::to_seconds(a) <= tm_::to_seconds(b) && tm_::to_milliseconds(a) <= tm_::to_milliseconds(b) &&
              tm_::to_microseconds(a) <= tm_::to_microseconds(b), "monotone", "conversion is not monotone at %lld, %lld", (long long)a, (long long)b);
}
static void validity(Ctx& c) {
  const int64_t t = c.pick(vals(), "t");
  c.check(tm_::isValidTime(t) == (t != tm_::getInvalidTime()), "valid", "isValidTime(%lld)", (long long)t);
  c.check(tm_::getInvalidTime() == std::numeric_limits<int64_t>::min(), "invalid-value", "getInvalidTime()");
  c.check(tm_::isValidTime(tm_::nanoSecondsSinceEpoch()), "now", "the current time is invalid");
  const int64_t n1 = tm_::nanoSecondsSinceEpoch();
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  const int64_t ref = ts.tv_sec * 1000000000ll + ts.tv_nsec;
  c.check(ref - n1 < 60000000000ll && n1 - ref < 60000000000ll, "now-value", "nanoSecondsSinceEpoch() = %lld, clock %lld", (long long)n1, (long long)ref);
}
int main(int argc, char** argv) {
  return seqx::run_main(argc, argv, "S02", {
    {"text", "time strings of all boundary values", text_all, 1},
    {"text-dense", "time strings of every value around a new digit", text_dense, 2},
    {"units", "compile-time unit conversions of all boundary values", units, 1},
    {"runtime", "run-time conversions there and back of all boundary values", runtime, 2},
    {"monotone", "conversions of neighbouring boundary values", monotone, 1},
    {"validity", "validity of all boundary values", validity, 1},
  });
}
