// ThreadPool scenarios and oracle shared by C01, C02 and C03.
#ifndef POOL_COMMON_H_
#define POOL_COMMON_H_
#include <condition_variable>
#include <future>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

#include <aslam/common/thread-pool.h>

#include "mcx.h"

namespace pool {

constexpr size_t kNone = aslam::ThreadPool::kGroupdIdNonExclusiveTask;
// The two exclusivity groups: every group id but kNone is a group, and the full width of the id counts.
constexpr size_t kA = 0;
constexpr size_t kB = static_cast<size_t>(1) << 32;

// Everything the oracle remembers.  Only ever touched between two scheduling points, so it needs no locking;
// Ignore keeps it out of race detection.
struct Monitor {
  struct Task { size_t group; int started = 0, finished = 0; int enqueued_at = -1; bool rejected = false; };
  std::vector<Task> tasks;
  int running = 0, max_running = 0;
  int order = 0;
  int workers;
  // Plain, race-checked data that only tasks of one group touch: exclusivity must also order memory accesses.
  int group_data[2] = {0};
  bool check_groups = true, check_fifo = true;
  explicit Monitor(int w) : workers(w) { tasks.reserve(16); }

  int add(size_t group) {
    mcx::Ignore ig;
    tasks.push_back(Task());
    tasks.back().group = group;
    return static_cast<int>(tasks.size()) - 1;
  }
  void enter(int i) {
    mcx::Ignore ig;
    Task& t = tasks[i];
    MCX_CHECK(t.started == 0, "task %d was started twice", i);
    ++t.started;
    ++running;
    if (running > max_running) max_running = running;
    MCX_CHECK(running <= workers, "%d tasks run at once on %d workers", running, workers);
    if (t.group != kNone) {
      for (size_t k = 0; k < tasks.size(); ++k) {
        if (static_cast<int>(k) == i || tasks[k].group != t.group) continue;
        MCX_CHECK(!(tasks[k].started && !tasks[k].finished),
                  "tasks %zu and %d of exclusivity group %zu run at the same time", k, i, t.group);
        if (tasks[k].enqueued_at >= 0 && t.enqueued_at >= 0 && tasks[k].enqueued_at < t.enqueued_at && !tasks[k].rejected)
          MCX_CHECK(tasks[k].finished, "task %d of group %zu started before the earlier enqueued task %zu finished", i,
                    t.group, k);
      }
    }
    if (workers == 1) {
      for (size_t k = 0; k < tasks.size(); ++k) {
        if (tasks[k].enqueued_at >= 0 && t.enqueued_at >= 0 && tasks[k].enqueued_at < t.enqueued_at && !tasks[k].rejected)
          MCX_CHECK(tasks[k].finished, "single worker: task %d started before the earlier enqueued task %zu", i, k);
      }
    }
  }
  void leave(int i) {
    mcx::Ignore ig;
    Task& t = tasks[i];
    MCX_CHECK(t.started == 1 && t.finished == 0, "task %d finished in a wrong state", i);
    ++t.finished;
    --running;
  }
  // A task body: enters, lets everybody else run, touches its group's data, leaves.
  int body(int i) {
    enter(i);
    mcx::visible(this, "in task");
    size_t g;
    { mcx::Ignore ig; g = tasks[i].group; }
    if (g != kNone) ++group_data[g == kA ? 0 : 1];
    leave(i);
    return 100 + i;
  }
  void all_done(const char* where) {
    mcx::Ignore ig;
    for (size_t k = 0; k < tasks.size(); ++k) {
      if (tasks[k].rejected) {
        MCX_CHECK(tasks[k].started == 0, "%s: task %zu ran although enqueue() returned an invalid future", where, k);
      } else {
        MCX_CHECK(tasks[k].started == 1 && tasks[k].finished == 1, "%s: task %zu was started %d and finished %d times",
                  where, k, tasks[k].started, tasks[k].finished);
      }
    }
  }
};

// Enqueues monitored task `i` the way a user does.
inline std::future<int> put(aslam::ThreadPool& p, Monitor& m, size_t group) {
  const int i = m.add(group);
  { mcx::Ignore ig; m.tasks[i].enqueued_at = m.order++; }
  std::future<int> f = group == kNone ? p.enqueue([&m](int k) { return m.body(k); }, i)
                                      : p.enqueueOrdered(group, [&m](int k) { return m.body(k); }, i);
  mcx::Ignore ig;
  if (!f.valid()) m.tasks[i].rejected = true;
  return f;
}
// From a second enqueuing thread: order relative to other threads' tasks is not known.
inline std::future<int> put_unordered(aslam::ThreadPool& p, Monitor& m, size_t group) {
  const int i = m.add(group);
  std::future<int> f = group == kNone ? p.enqueue([&m](int k) { return m.body(k); }, i)
                                      : p.enqueueOrdered(group, [&m](int k) { return m.body(k); }, i);
  mcx::Ignore ig;
  if (!f.valid()) m.tasks[i].rejected = true;
  return f;
}

struct Gate {
  std::mutex m;
  std::condition_variable cv;
  bool open = false;
  void wait() { std::unique_lock<std::mutex> l(m); while (!open) cv.wait(l); }
  void set() { std::unique_lock<std::mutex> l(m); open = true; cv.notify_all(); }
};

inline mcx::Bounds B(int pre, int spur = 0) {
  mcx::Bounds b;
  b.preemptions = pre;
  b.spurious = spur;
  b.timeouts = 0;
  return b;
}

inline size_t pick_group(const char* l) {
  int g = mcx::choose(3, l);
  return g == 0 ? kNone : g == 1 ? kA : kB;
}

inline void results(std::vector<std::future<int>>& f) {
  for (size_t i = 0; i < f.size(); ++i) {
    MCX_CHECK(f[i].valid(), "enqueue() on a running pool returned an invalid future for task %zu", i);
    MCX_CHECK(f[i].get() == 100 + static_cast<int>(i), "future %zu holds the result of another task", i);
  }
}

// ---- scenarios -------------------------------------------------------------------------------------
// N tasks of every combination of groups, W workers, one enqueuer; get() every result, then destroy.
inline void mix(int workers, int ntasks) {
  std::vector<size_t> g;
  for (int i = 0; i < ntasks; ++i) g.push_back(pick_group("group"));
  Monitor m(workers);
  {
    aslam::ThreadPool p(workers);
    std::vector<std::future<int>> f;
    for (size_t x : g) f.push_back(put(p, m, x));
    results(f);
    m.all_done("after the futures");
    MCX_CHECK(p.numActiveThreads() <= static_cast<size_t>(workers), "numActiveThreads() exceeds the pool size");
  }
  m.all_done("after the destructor");
}

// Destruction right after enqueueing: every accepted task must have run when the destructor returns.
inline void destroy(int workers, int ntasks) {
  std::vector<size_t> g;
  for (int i = 0; i < ntasks; ++i) g.push_back(pick_group("group"));
  Monitor m(workers);
  std::vector<std::future<int>> f;
  {
    aslam::ThreadPool p(workers);
    for (size_t x : g) f.push_back(put(p, m, x));
  }
  m.all_done("after the destructor");
  for (size_t i = 0; i < f.size(); ++i)
    MCX_CHECK(f[i].wait_for(std::chrono::seconds(0)) == std::future_status::ready, "future %zu is not ready", i);
  results(f);
}

// Two threads enqueue.
inline void two_enqueuers(int workers, int each) {
  Monitor m(workers);
  const size_t ga = pick_group("group of thread 0"), gb = pick_group("group of thread 1");
  {
    aslam::ThreadPool p(workers);
    std::vector<std::future<int>> f;
    std::thread t([&] {
      for (int i = 0; i < each; ++i) {
        std::future<int> h = put_unordered(p, m, gb);
        MCX_CHECK(h.valid(), "enqueue() on a running pool returned an invalid future");
        h.get();
      }
    });
    std::vector<std::future<int>> mine;
    for (int i = 0; i < each; ++i) mine.push_back(put_unordered(p, m, ga));
    for (auto& h : mine) h.get();
    t.join();
    m.all_done("after the futures");
  }
  m.all_done("after the destructor");
}

// A throwing task: the exception reaches its future, the group is released, later tasks still run.
inline void exception(int workers) {
  const size_t g = pick_group("group");
  Monitor m(workers);
  aslam::ThreadPool p(workers);
  const int i = m.add(g);
  { mcx::Ignore ig; m.tasks[i].enqueued_at = m.order++; }
  auto thrower = [&m, i]() -> int {
    m.enter(i);
    m.leave(i);
    throw std::runtime_error("task failed");
  };
  std::future<int> e = g == kNone ? p.enqueue(thrower) : p.enqueueOrdered(g, thrower);
  std::future<int> f = put(p, m, g);
  bool thrown = false;
  try {
    e.get();
  } catch (const std::runtime_error& x) {
    thrown = std::string(x.what()) == "task failed";
  }
  MCX_CHECK(thrown, "the exception of a task did not reach its future");
  MCX_CHECK(f.get() == 101, "a task enqueued after a throwing one returned a wrong result");
  p.waitForEmptyQueue();
  MCX_CHECK(p.numActiveThreads() == 0u, "a worker stays active after a task threw");
  m.all_done("after a throwing task");
}

// stop() races with enqueue(): accepted tasks run without waiting for the destructor, rejected ones never.
inline void stop_race(int workers, int before, bool groups) {
  const size_t g = groups ? kA : kNone;
  Monitor m(workers);
  {
    aslam::ThreadPool p(workers);
    std::vector<std::future<int>> f;
    for (int i = 0; i < before; ++i) f.push_back(put(p, m, g));
    std::thread t([&] { p.stop(); });
    f.push_back(put(p, m, g));
    f.push_back(put(p, m, g));
    for (int i = 0; i < before; ++i) MCX_CHECK(f[i].valid(), "a task enqueued before stop() was rejected");
    bool rejected = false;
    for (size_t i = 0; i < f.size(); ++i) {
      if (!f[i].valid()) { rejected = true; continue; }
      MCX_CHECK(!rejected, "a task was accepted after another one had been rejected");
      MCX_CHECK(f[i].get() == 100 + static_cast<int>(i), "an accepted task returned a wrong result");
    }
    t.join();
    std::future<int> late = put(p, m, g);
    MCX_CHECK(!late.valid(), "enqueue() after stop() returned a valid future");
    p.waitForEmptyQueue();
    m.all_done("after waitForEmptyQueue() on a stopped pool");
  }
  m.all_done("after the destructor");
}

// waitForEmptyQueue() returns only when every task enqueued before it has finished, for every waiter.
inline void wait_empty(int workers, int ntasks) {
  Monitor m(workers);
  aslam::ThreadPool p(workers);
  const size_t g = pick_group("group");
  for (int i = 0; i < ntasks; ++i) put(p, m, g);
  std::thread t([&] {
    p.waitForEmptyQueue();
    m.all_done("after waitForEmptyQueue() in a second thread");
  });
  p.waitForEmptyQueue();
  m.all_done("after waitForEmptyQueue()");
  MCX_CHECK(p.numActiveThreads() == 0u, "numActiveThreads() is not 0 when the pool is idle");
  t.join();
}

// Task 0 blocks until task 1 has run: with a second worker that must always work, also while somebody waits
// for the queue to drain and while the group of task 0 has more work queued.
inline void work_conserving(int workers, bool waiter, bool grouped, bool blocked_peer) {
  Monitor m(workers);
  Gate gate;
  std::unique_ptr<aslam::ThreadPool> p(new aslam::ThreadPool(workers));
  const int a = m.add(grouped ? kA : kNone);
  auto blocker = [&m, &gate, a] { m.enter(a); gate.wait(); m.leave(a); };
  std::future<void> fa = grouped ? p->enqueueOrdered(kA, blocker) : p->enqueue(blocker);
  std::future<int> peer;
  if (blocked_peer) peer = put_unordered(*p, m, kA);
  std::thread t;
  if (waiter) {
    t = std::thread([&] {
      p->waitForEmptyQueue();
      mcx::Ignore ig;
      MCX_CHECK(m.tasks[a].finished, "waitForEmptyQueue() returned while a task enqueued before was running");
    });
  }
  const int b = m.add(grouped ? kB : kNone);
  auto opener = [&m, &gate, b] { m.enter(b); gate.set(); m.leave(b); };
  std::future<void> fb = grouped ? p->enqueueOrdered(kB, opener) : p->enqueue(opener);
  fb.get();
  fa.get();
  if (blocked_peer) peer.get();
  if (waiter) t.join();
  p.reset();
  m.all_done("after the destructor");
}

// At quiescence no worker idles while a task that may run is queued.
inline void quiescent(int workers) {
  Monitor m(workers);
  Gate gate;
  aslam::ThreadPool p(workers);
  const int a = m.add(kA);
  std::future<void> fa = p.enqueueOrdered(kA, [&m, &gate, a] { m.enter(a); gate.wait(); m.leave(a); });
  std::future<int> fb = put_unordered(p, m, kA);
  std::future<int> fc = put_unordered(p, m, kB);
  std::future<int> fd = put_unordered(p, m, kNone);
  mcx::wait_quiescent();
  {
    mcx::Ignore ig;
    MCX_CHECK(m.tasks[a].started && !m.tasks[a].finished, "the blocking task is not running");
    MCX_CHECK(!m.tasks[1].started, "a task ran while its exclusivity group was busy");
    MCX_CHECK(m.tasks[2].finished, "an idle worker left a runnable task of a free group in the queue");
    MCX_CHECK(m.tasks[3].finished, "an idle worker left a runnable non-exclusive task in the queue");
  }
  MCX_CHECK(p.numActiveThreads() == 1u, "numActiveThreads() counts %zu instead of 1 active thread", p.numActiveThreads());
  gate.set();
  fa.get(); fb.get(); fc.get(); fd.get();
  p.waitForEmptyQueue();
  m.all_done("after waitForEmptyQueue()");
}

// A task that enqueues another one (and does not wait for it).
inline void nested(int workers) {
  const size_t ga = pick_group("outer group"), gb = pick_group("inner group");
  Monitor m(workers);
  std::future<int> inner;
  {
    aslam::ThreadPool p(workers);
    const int a = m.add(ga);
    auto outer = [&, a] {
      m.enter(a);
      inner = put_unordered(p, m, gb);
      m.leave(a);
    };
    std::future<void> f = ga == kNone ? p.enqueue(outer) : p.enqueueOrdered(ga, outer);
    f.get();
    MCX_CHECK(inner.valid(), "enqueue() from a task returned an invalid future");
    MCX_CHECK(inner.get() == 101, "the inner task returned a wrong result");
  }
  m.all_done("after the destructor");
}

// waitForEmptyQueue() also waits for what the tasks it waits for enqueue (each before it ends): it returns only when
// nothing is queued or executing.
inline void nested_wait(int workers, int depth) {
  const size_t ga = pick_group("outer group"), gb = depth > 1 ? kNone : pick_group("inner group");
  Monitor m(workers);
  aslam::ThreadPool p(workers);
  std::function<void(int, int)> task = [&](int i, int left) {
    m.enter(i);
    if (left > 0) {
      const int k = m.add(gb);
      if (gb == kNone) p.enqueue([&task, k, left] { task(k, left - 1); });
      else p.enqueueOrdered(gb, [&task, k, left] { task(k, left - 1); });
      mcx::visible(&m, "in task, successor enqueued");
    }
    m.leave(i);
  };
  const int a = m.add(ga);
  if (ga == kNone) p.enqueue([&task, a, depth] { task(a, depth); });
  else p.enqueueOrdered(ga, [&task, a, depth] { task(a, depth); });
  p.waitForEmptyQueue();
  {
    mcx::Ignore ig;
    MCX_CHECK(m.tasks.size() == static_cast<size_t>(depth) + 1, "waitForEmptyQueue() returned before a task had enqueued its successor");
  }
  m.all_done("after waitForEmptyQueue()");
  MCX_CHECK(p.numActiveThreads() == 0u, "numActiveThreads() is not 0 when the pool is idle");
  p.waitForEmptyQueue();
}

// Any id but kGroupdIdNonExclusiveTask is a group of its own: ids that agree in some of their bits.
inline void group_ids(int workers) {
  static const size_t ids[] = {0u, 1u, 0xffffffffu, 0x100000000u, 0x80000000u, 0x7fffffffffffffffu, kNone - 1u};
  const int a = mcx::choose(7, "group 1"), b = mcx::choose(7, "group 2");
  Monitor m(workers);
  Gate gate;
  aslam::ThreadPool p(workers);
  const int i = m.add(ids[a]);
  std::future<void> f = p.enqueueOrdered(ids[a], [&m, &gate, i] { m.enter(i); gate.wait(); m.leave(i); });
  const int k = m.add(ids[b]);
  std::future<void> g = p.enqueueOrdered(ids[b], [&m, k] { m.enter(k); mcx::visible(&m, "in task"); m.leave(k); });
  mcx::wait_quiescent();
  {
    mcx::Ignore ig;
    MCX_CHECK(m.tasks[i].started && !m.tasks[i].finished, "the blocking task is not running");
    if (a == b) MCX_CHECK(!m.tasks[k].started, "two tasks of group %zu run at the same time", ids[a]);
    else MCX_CHECK(m.tasks[k].finished, "a task of group %zu waits for one of group %zu", ids[b], ids[a]);
  }
  gate.set();
  f.get();
  g.get();
  p.waitForEmptyQueue();
  m.all_done("after waitForEmptyQueue()");
}

// waitForEmptyQueue() of an idle pool returns, before and after any work, on a stopped pool and without workers.
inline void idle() {
  Monitor m(1);
  const int workers = mcx::choose(2, "workers"), stop = mcx::choose(2, "stopped");
  aslam::ThreadPool p(workers);
  p.waitForEmptyQueue();
  if (stop) p.stop();
  p.waitForEmptyQueue();
  MCX_CHECK(p.numActiveThreads() == 0u, "an idle pool has active threads");
  if (workers && !stop) { put(p, m, kNone); p.waitForEmptyQueue(); m.all_done("after waitForEmptyQueue()"); p.waitForEmptyQueue(); }
}

// stop() called by a task: it and everything accepted before is executed.
inline void stop_inside(int workers) {
  const size_t g = pick_group("group");
  Monitor m(workers);
  aslam::ThreadPool p(workers);
  const int a = m.add(g);
  auto stopper = [&m, &p, a] { m.enter(a); p.stop(); m.leave(a); };
  std::future<void> f = g == kNone ? p.enqueue(stopper) : p.enqueueOrdered(g, stopper);
  std::future<int> h = put_unordered(p, m, g);
  f.get();
  if (h.valid()) MCX_CHECK(h.get() == 101, "an accepted task returned a wrong result");
  std::future<int> late = put_unordered(p, m, g);
  MCX_CHECK(!late.valid(), "enqueue() after stop() returned a valid future");
  p.waitForEmptyQueue();
  m.all_done("after stop() by a task");
}

inline std::vector<mcx::Scenario> scenarios() {
  std::vector<mcx::Scenario> s;
  auto add = [&](const char* n, const char* w, std::function<void()> f, mcx::Bounds q, mcx::Bounds t) {
    s.push_back({n, w, f, q, t});
  };
  add("mix-1w-3t", "1 worker, 3 tasks over all assignments to {no group, A, B}", [] { mix(1, 3); }, B(2), B(-1));
  add("mix-2w-2t", "2 workers, 2 tasks over all group assignments", [] { mix(2, 2); }, B(2), B(4, 1));
  add("mix-2w-3t", "2 workers, 3 tasks over all group assignments", [] { mix(2, 3); }, B(1), B(2));
  add("mix-3w-3t", "3 workers, 3 tasks over all group assignments", [] { mix(3, 3); }, B(0), B(1));
  add("destroy-2w-3t", "destructor right after enqueueing 3 tasks on 2 workers", [] { destroy(2, 3); }, B(1), B(2));
  add("destroy-1w-2t", "destructor right after enqueueing 2 tasks on 1 worker", [] { destroy(1, 2); }, B(-1), B(-1, 1));
  add("two-enqueuers", "two threads enqueue one task each on 2 workers", [] { two_enqueuers(2, 1); }, B(1), B(2));
  add("two-enqueuers-2", "two threads enqueue two tasks each on 1 worker", [] { two_enqueuers(1, 2); }, B(1), B(2));
  add("exception-1w", "a task throws (1 worker)", [] { exception(1); }, B(2), B(-1));
  add("exception-2w", "a task throws (2 workers)", [] { exception(2); }, B(2), B(3));
  add("stop-race-1w", "stop() concurrent with enqueue(), 1 worker", [] { stop_race(1, 0, false); }, B(3), B(-1));
  add("stop-race-1w-g", "stop() concurrent with enqueueOrdered(), 1 worker", [] { stop_race(1, 1, true); }, B(2), B(4));
  add("stop-race-2w", "stop() concurrent with enqueue(), 2 workers", [] { stop_race(2, 1, false); }, B(1), B(2));
  add("wait-empty-1w", "two waitForEmptyQueue() callers, 1 worker", [] { wait_empty(1, 2); }, B(2), B(4));
  add("wait-empty-2w", "two waitForEmptyQueue() callers, 2 workers", [] { wait_empty(2, 2); }, B(1), B(2));
  add("conserve", "task 1 unblocks task 0", [] { work_conserving(2, false, false, false); }, B(2), B(4));
  add("conserve-wait", "task 1 unblocks task 0 while a thread waits for the empty queue",
      [] { work_conserving(2, true, false, false); }, B(1), B(3));
  add("conserve-group-wait", "as before with exclusivity groups", [] { work_conserving(2, true, true, false); }, B(1), B(2));
  add("conserve-group-peer", "as before with a queued task of the busy group",
      [] { work_conserving(2, false, true, true); }, B(2), B(3));
  add("conserve-group-peer-wait", "as before with a queued task of the busy group and a waiter",
      [] { work_conserving(2, true, true, true); }, B(1), B(2));
  add("quiescent-2w", "a blocked task of group 1; its queue, another group and a free task (2 workers)", [] { quiescent(2); },
      B(1), B(2));
  add("quiescent-3w", "as quiescent-2w with 3 workers", [] { quiescent(3); }, B(1), B(1));
  add("nested-1w", "a task enqueues a task (1 worker)", [] { nested(1); }, B(2), B(-1));
  add("nested-2w", "a task enqueues a task (2 workers)", [] { nested(2); }, B(2), B(3));
  add("nested-wait-1w", "waitForEmptyQueue() while a task enqueues a task (1 worker)", [] { nested_wait(1, 1); }, B(3), B(-1));
  add("nested-wait-2w", "waitForEmptyQueue() while a task enqueues a task (2 workers)", [] { nested_wait(2, 1); }, B(2), B(3));
  add("nested-wait-chain", "waitForEmptyQueue() while a task enqueues a task that enqueues a task", [] { nested_wait(1, 2); }, B(3), B(-1));
  add("group-ids", "all pairs of 7 group ids that agree in some bits (2 workers)", [] { group_ids(2); }, B(0), B(1));
  add("idle", "waitForEmptyQueue() and destructor of an idle pool", [] { idle(); }, B(-1), B(-1));
  add("stop-inside", "a task stops the pool", [] { stop_inside(2); }, B(1), B(2));
  return s;
}
}  // namespace pool
#endif
