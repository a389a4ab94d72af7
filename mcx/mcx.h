// mcx: a stateless model checker for C++11-thread code.
//
// The code under test is compiled with -fsanitize=thread instrumentation, but linked against libmcx.so
// (mcx.cc) instead of the ThreadSanitizer runtime.  libmcx runs every std::thread as a fiber, owns every
// scheduling decision (mutexes, condition variables, rwlocks, futures, call_once, static-init guards,
// atomics, thread start/exit/join), enumerates all of them depth-first and checks each execution with a
// vector-clock race detector, a use-after-free / out-of-bounds shadow, deadlock and livelock detection and
// the harness's own oracle.
#ifndef MCX_H_
#define MCX_H_
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace mcx {

struct Bounds {
  int preemptions = 2;   // -1: unbounded
  int spurious = 0;      // spurious condition-variable wake-ups per execution
  int timeouts = 1;      // timed waits that may expire early per execution
  int max_steps = 20000; // horizon per execution (a fair scheduler reaching it means livelock)
};

struct Scenario {
  std::string name;
  std::string what;            // one line: what the harness drives
  std::function<void()> body;  // runs as thread 0 of every explored execution
  Bounds quick;
  Bounds thorough;
};

// Harness API (callable from fibers only).
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// A visible operation on monitor object `obj`: a scheduling point, ordered with all other visible()
// operations on the same object (so that oracles that look at their order are explored in every order).
void visible(const void* obj, const char* label);
// A scheduling point that touches nothing.
void point(const char* label);
// Nondeterministic environment choice in [0, n).
int choose(int n, const char* label);
// Record the outcome of this execution (distinct outcomes are counted and reported).
void outcome(const std::string& text);
// Number of threads blocked (not enabled) right now, and whether thread `tid` is.
bool thread_blocked(int tid);
int self();
int num_threads();
// Virtual clock, nanoseconds.
void set_clock_ns(int64_t ns);
// Blocks until the number of threads that can run (other than the caller) is zero: quiescence.
void wait_quiescent();

// Plain monitor memory that race detection ignores (harness bookkeeping).
struct Ignore { Ignore(); ~Ignore(); };

// While one exists in a thread, a CHECK that fails in that thread throws Refused: the code under test refuses what
// was asked, and the harness decides whether that is right.
struct Refused {};
struct ExpectRefusal { ExpectRefusal(); ~ExpectRefusal(); };

int run_main(int argc, char** argv, const char* property, std::vector<Scenario> scenarios);
}  // namespace mcx

#define MCX_CHECK(cond, ...) do { if (!(cond)) ::mcx::fail(__VA_ARGS__); } while (0)
#endif
