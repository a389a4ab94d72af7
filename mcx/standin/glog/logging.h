// Harness-only stand-in for glog: messages are discarded, a failed CHECK or LOG(FATAL) ends the execution
// with mcx::fail-like behaviour (model-checking harnesses) or throws mcx_check_failed (sequential harnesses).
#ifndef MCX_STANDIN_GLOG_H_
#define MCX_STANDIN_GLOG_H_
#include <cassert>
#include <cerrno>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <iosfwd>
#include <ostream>
#include <sstream>
#include <string>
#include <vector>

extern "C" [[noreturn]] void mcx_check_failed(const char* file, int line, const char* what);

namespace google {
typedef int LogSeverity;
const int INFO = 0, WARNING = 1, ERROR = 2, FATAL = 3;
inline void InitGoogleLogging(const char*) {}
inline void InstallFailureSignalHandler() {}
struct NullBuf : std::streambuf { int overflow(int c) override { return c; } };
struct NullStream {
  template <class T> NullStream& operator<<(const T&) { return *this; }
  NullStream& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
};
struct Fatal {
  const char* f; int l; const char* w;
  Fatal(const char* f_, int l_, const char* w_) : f(f_), l(l_), w(w_) {}
  [[noreturn]] ~Fatal() noexcept(false) { mcx_check_failed(f, l, w); }
  template <class T> Fatal& operator<<(const T&) { return *this; }
  Fatal& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
};
struct Voidify { void operator&(const NullStream&) {} void operator&(const Fatal&) {} };
template <class T> T CheckNotNull(const char* f, int l, const char* w, T&& t) {
  if (t == nullptr) mcx_check_failed(f, l, w);
  return std::forward<T>(t);
}
template <class A, class B> inline bool eq_(const A& a, const B& b) { return a == b; }
template <class A, class B> inline bool ne_(const A& a, const B& b) { return a != b; }
template <class A, class B> inline bool le_(const A& a, const B& b) { return a <= b; }
template <class A, class B> inline bool lt_(const A& a, const B& b) { return a < b; }
template <class A, class B> inline bool ge_(const A& a, const B& b) { return a >= b; }
template <class A, class B> inline bool gt_(const A& a, const B& b) { return a > b; }
inline bool streq_(const char* a, const char* b) { return a == b || (a && b && !strcmp(a, b)); }
}  // namespace google
namespace fLI { static int FLAGS_v __attribute__((unused)) = 0; }
namespace fLB { static bool FLAGS_logtostderr __attribute__((unused)) = true; static bool FLAGS_alsologtostderr __attribute__((unused)) = true; static bool FLAGS_colorlogtostderr __attribute__((unused)) = true; }
using fLI::FLAGS_v;
using fLB::FLAGS_logtostderr;
using fLB::FLAGS_alsologtostderr;
using fLB::FLAGS_colorlogtostderr;

#define MCX_NULLS ::google::NullStream()
#define MCX_LOG_INFO MCX_NULLS
#define MCX_LOG_WARNING MCX_NULLS
#define MCX_LOG_ERROR MCX_NULLS
#define MCX_LOG_FATAL ::google::Fatal(__FILE__, __LINE__, "LOG(FATAL)")
#define MCX_LOG_DFATAL MCX_LOG_FATAL
#define LOG(s) MCX_LOG_##s
#define LOG_IF(s, c) !(c) ? (void)0 : ::google::Voidify() & LOG(s)
#define LOG_EVERY_N(s, n) LOG(s)
#define LOG_FIRST_N(s, n) LOG(s)
#define LOG_IF_EVERY_N(s, c, n) LOG_IF(s, c)
#define VLOG(n) MCX_NULLS
#define VLOG_IS_ON(n) false
#define VLOG_IF(n, c) MCX_NULLS
#define VLOG_EVERY_N(n, k) MCX_NULLS
#define DLOG(s) LOG(s)
#define DVLOG(n) MCX_NULLS
#define CHECK(c) (c) ? (void)0 : ::google::Voidify() & ::google::Fatal(__FILE__, __LINE__, "CHECK(" #c ")")
#define MCX_CHECK_OP(n, a, b) (::google::n##_((a), (b))) ? (void)0 : ::google::Voidify() & ::google::Fatal(__FILE__, __LINE__, "CHECK_" #n "(" #a ", " #b ")")
#define CHECK_EQ(a, b) MCX_CHECK_OP(eq, a, b)
#define CHECK_NE(a, b) MCX_CHECK_OP(ne, a, b)
#define CHECK_LE(a, b) MCX_CHECK_OP(le, a, b)
#define CHECK_LT(a, b) MCX_CHECK_OP(lt, a, b)
#define CHECK_GE(a, b) MCX_CHECK_OP(ge, a, b)
#define CHECK_GT(a, b) MCX_CHECK_OP(gt, a, b)
#define CHECK_STREQ(a, b) CHECK(::google::streq_(a, b))
#define CHECK_STRNE(a, b) CHECK(!::google::streq_(a, b))
#define CHECK_NEAR(a, b, m) CHECK(!((a) - (b) > (m)) && !((b) - (a) > (m)))
#define CHECK_DOUBLE_EQ(a, b) CHECK_NEAR(a, b, 1e-15)
#define CHECK_NOTNULL(p) ::google::CheckNotNull(__FILE__, __LINE__, "CHECK_NOTNULL(" #p ")", (p))
#define PCHECK(c) CHECK(c)
#define DCHECK(c) CHECK(c)
#define DCHECK_EQ(a, b) CHECK_EQ(a, b)
#define DCHECK_NE(a, b) CHECK_NE(a, b)
#define DCHECK_LE(a, b) CHECK_LE(a, b)
#define DCHECK_LT(a, b) CHECK_LT(a, b)
#define DCHECK_GE(a, b) CHECK_GE(a, b)
#define DCHECK_GT(a, b) CHECK_GT(a, b)
#define DCHECK_NOTNULL(p) CHECK_NOTNULL(p)
#endif
