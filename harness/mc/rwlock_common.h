// Reader/writer lock programs and oracle shared by C04 and C05.
#ifndef RWLOCK_COMMON_H_
#define RWLOCK_COMMON_H_
#include <condition_variable>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>

#include <aslam/common/reader-first-reader-writer-lock.h>
#include <aslam/common/reader-writer-lock.h>

#include "mcx.h"

namespace rw {

enum State { IDLE, WAIT_R, IN_R, REL_R, WAIT_W, IN_W, REL_W, WAIT_U };

// Ghost state; only touched between scheduling points, ignored by race detection.
struct Monitor {
  int readers = 0, writers = 0, upgrading = 0;
  unsigned version = 0;   // number of completed writes
  State st[12];
  bool overlap[12] = {false};  // another upgrade attempt overlapped this thread's
  int data = 0;           // plain data protected by the lock under test: race-checked
  Monitor() { for (auto& s : st) s = IDLE; }
  void set(State s) { mcx::Ignore ig; st[mcx::self()] = s; }
};

struct Sys {
  std::unique_ptr<aslam::ReaderWriterMutex> l;
  Monitor m;
  bool reader_first;
  explicit Sys(bool rf) : reader_first(rf) {
    if (rf) l.reset(new aslam::ReaderFirstReaderWriterMutex); else l.reset(new aslam::ReaderWriterMutex);
  }
  void enter_read() {
    mcx::Ignore ig;
    m.st[mcx::self()] = IN_R;
    MCX_CHECK(m.writers == 0, "a reader is admitted while a writer holds the lock");
    ++m.readers;
  }
  void leave_read() { mcx::Ignore ig; --m.readers; m.st[mcx::self()] = REL_R; }
  void enter_write() {
    mcx::Ignore ig;
    m.st[mcx::self()] = IN_W;
    MCX_CHECK(m.writers == 0, "two writers hold the lock");
    MCX_CHECK(m.readers == 0, "a writer is admitted while %d reader(s) hold the lock", m.readers);
    ++m.writers;
  }
  void leave_write() { mcx::Ignore ig; --m.writers; ++m.version; m.st[mcx::self()] = REL_W; }

  void read() {
    m.set(WAIT_R);
    l->acquireReadLock();
    enter_read();
    const int a = m.data;
    mcx::visible(&m, "reading");
    MCX_CHECK(m.data == a, "data changed while it was read-locked");
    leave_read();
    l->releaseReadLock();
    m.set(IDLE);
  }
  void scoped_read() {
    m.set(WAIT_R);
    aslam::ScopedReadLock s(l.get());
    enter_read();
    aslam::ScopedReadLock s2(std::move(s));
    const int a = m.data;
    mcx::visible(&m, "reading");
    MCX_CHECK(m.data == a, "data changed while it was read-locked");
    leave_read();
  }
  void write() {
    m.set(WAIT_W);
    l->acquireWriteLock();
    enter_write();
    const int a = m.data;
    m.data = a + 1;
    mcx::visible(&m, "writing");
    MCX_CHECK(m.data == a + 1, "data changed by somebody else while it was write-locked");
    leave_write();
    l->releaseWriteLock();
    m.set(IDLE);
  }
  void scoped_write() {
    m.set(WAIT_W);
    aslam::ScopedWriteLock s(l.get());
    enter_write();
    aslam::ScopedWriteLock s2(std::move(s));
    ++m.data;
    mcx::visible(&m, "writing");
    leave_write();
  }
  void begin_upgrade() {
    mcx::Ignore ig;
    const int me = mcx::self();
    m.overlap[me] = m.upgrading > 0;
    for (int i = 0; i < 12; ++i) if (m.st[i] == WAIT_U) m.overlap[i] = true;
    m.st[me] = WAIT_U;
    ++m.upgrading;
  }
  void upgrade() {
    m.set(WAIT_R);
    l->acquireReadLock();
    enter_read();
    const int a = m.data;
    unsigned v;
    { mcx::Ignore ig; v = m.version; }
    mcx::visible(&m, "reading before upgrade");
    begin_upgrade();
    const bool ok = l->upgradeToWriteLock();
    {
      mcx::Ignore ig;
      --m.readers;
      --m.upgrading;
      if (!ok) {
        // The read lock has been given up; another thread must be the one that upgrades.
        MCX_CHECK(m.overlap[mcx::self()], "an upgrade failed although nobody else tried to upgrade");
        m.st[mcx::self()] = IDLE;
        return;
      }
      MCX_CHECK(m.version == v, "a writer got in between the read lock and its successful upgrade");
    }
    enter_write();
    MCX_CHECK(m.data == a, "data changed between the read lock and its successful upgrade");
    m.data = a + 1;
    mcx::visible(&m, "writing after upgrade");
    leave_write();
    l->releaseWriteLock();
    m.set(IDLE);
  }
  void op(int k) {
    switch (k) {
      case 0: read(); break;
      case 1: write(); break;
      case 2: upgrade(); break;
      case 3: scoped_read(); break;
      case 4: scoped_write(); break;
    }
  }
  void end() {
    mcx::Ignore ig;
    MCX_CHECK(m.readers == 0 && m.writers == 0, "locks are still held at the end");
    MCX_CHECK(static_cast<unsigned>(m.data) == m.version, "lost update: %d of %u writes survived", m.data, m.version);
    MCX_CHECK(!l->isInUse(), "isInUse() is true although nobody uses the lock");
  }
};

inline mcx::Bounds B(int pre, int spur = 0) { mcx::Bounds b; b.preemptions = pre; b.spurious = spur; b.timeouts = 0; return b; }

// Every multiset of programs of `len` operations out of `nops` for `n` threads (non-decreasing: symmetry).
inline void programs(bool rf, int n, int len, int nops) {
  std::vector<int> prog(n);
  int space = 1;
  for (int i = 0; i < len; ++i) space *= nops;
  int lo = 0;
  for (int i = 0; i < n; ++i) lo = prog[i] = lo + mcx::choose(space - lo, "program");
  Sys s(rf);
  std::vector<std::thread> t;
  auto run = [&s, len, nops](int p) { for (int i = 0; i < len; ++i) { s.op(p % nops); p /= nops; } };
  for (int i = 1; i < n; ++i) t.emplace_back(run, prog[i]);
  run(prog[0]);
  for (auto& x : t) x.join();
  s.end();
}

// At most one of several simultaneous upgrades of the same read phase succeeds, and at least one does.
inline void upgrade_race(bool rf, int n) {
  Sys s(rf);
  int won = 0, lost = 0;
  std::vector<std::thread> t;
  // All n threads hold the read lock before anybody upgrades.
  for (int i = 0; i < n; ++i) s.l->acquireReadLock();
  { mcx::Ignore ig; s.m.readers = n; }
  auto up = [&] {
    { mcx::Ignore ig; s.m.st[mcx::self()] = WAIT_U; }
    const bool ok = s.l->upgradeToWriteLock();
    { mcx::Ignore ig; --s.m.readers; ++(ok ? won : lost); }
    if (ok) {
      s.enter_write();
      ++s.m.data;
      mcx::visible(&s.m, "writing after upgrade");
      s.leave_write();
      s.l->releaseWriteLock();
    }
  };
  for (int i = 1; i < n; ++i) t.emplace_back(up);
  up();
  for (auto& x : t) x.join();
  mcx::Ignore ig;
  MCX_CHECK(won == 1, "%d of %d simultaneous upgrades of one read phase succeeded", won, n);
  s.end();
}

struct Gate {
  std::mutex m;
  std::condition_variable cv;
  bool open = false;
  void wait() { std::unique_lock<std::mutex> l(m); while (!open) cv.wait(l); }
  void set() { std::unique_lock<std::mutex> l(m); open = true; cv.notify_all(); }
};

// A holder (reader or writer) sits in its critical section; waiters queue behind it.  At quiescence the set of
// admitted threads is exactly what the lock's policy says and isInUse() is true.  Then the holder leaves and
// another thread polls isInUse(): it may only become false once every waiter has started to release.
inline void in_use(bool rf, int holder_kind, int nwait) {
  std::vector<int> kind;
  for (int i = 0; i < nwait; ++i) kind.push_back(mcx::choose(2, "waiter: 0 reader, 1 writer"));
  Sys s(rf);
  Gate g;
  int done = 0;
  if (holder_kind == 0) { s.l->acquireReadLock(); s.enter_read(); } else { s.l->acquireWriteLock(); s.enter_write(); }
  std::vector<std::thread> t;
  bool first_writer_waits = false;
  for (int i = 0; i < nwait; ++i) {
    const int k = kind[i];
    t.emplace_back([&, k] {
      if (k == 0) {
        s.m.set(WAIT_R);
        s.l->acquireReadLock();
        s.enter_read();
        g.wait();
        s.leave_read();
        { mcx::Ignore ig; ++done; }
        s.l->releaseReadLock();
      } else {
        s.m.set(WAIT_W);
        s.l->acquireWriteLock();
        s.enter_write();
        g.wait();
        s.leave_write();
        { mcx::Ignore ig; ++done; }
        s.l->releaseWriteLock();
      }
    });
    mcx::wait_quiescent();  // thread i is waiting or in its critical section
    mcx::Ignore ig;
    const State st = s.m.st[i + 1];
    if (k == 1) {
      MCX_CHECK(st == WAIT_W, "a writer was admitted next to the holder");
      first_writer_waits = true;
    } else if (holder_kind == 1) {
      MCX_CHECK(st == WAIT_R, "a reader was admitted next to a writer");
    } else if (rf || !first_writer_waits) {
      MCX_CHECK(st == IN_R, "a reader was not admitted although only readers hold the lock%s",
                first_writer_waits ? " and readers have priority" : "");
    } else {
      MCX_CHECK(st == WAIT_R, "a reader overtook a waiting writer");
    }
  }
  MCX_CHECK(s.l->isInUse(), "isInUse() is false although the lock is held and awaited");
  g.set();
  std::thread poll([&] {
    const bool in_use = s.l->isInUse();
    mcx::Ignore ig;
    if (!in_use) {
      MCX_CHECK(done == nwait, "isInUse() is false while %d thread(s) still wait for or hold the lock", nwait - done);
    }
    mcx::outcome(in_use ? "in use" : "free");
  });
  if (holder_kind == 0) { s.leave_read(); s.l->releaseReadLock(); } else { s.leave_write(); s.l->releaseWriteLock(); }
  for (auto& x : t) x.join();
  poll.join();
  MCX_CHECK(!s.l->isInUse(), "isInUse() is true although nobody uses the lock");
}

// Readers hold the lock, one of them upgrades: it waits for the others (and is in use meanwhile), further readers
// and writers are handled by policy, and everything ends.
inline void upgrade_waits(bool rf) {
  const int late = mcx::choose(3, "latecomer: 0 none, 1 reader, 2 writer");
  Sys s(rf);
  s.l->acquireReadLock();
  s.enter_read();
  bool got = false;
  std::thread u([&] {
    s.l->acquireReadLock();
    s.enter_read();
    { mcx::Ignore ig; s.m.st[mcx::self()] = WAIT_U; }
    const bool ok = s.l->upgradeToWriteLock();
    MCX_CHECK(ok, "an upgrade without competitor failed");
    { mcx::Ignore ig; --s.m.readers; got = true; }
    s.enter_write();
    ++s.m.data;
    mcx::visible(&s.m, "writing after upgrade");
    s.leave_write();
    s.l->releaseWriteLock();
  });
  mcx::wait_quiescent();
  {
    mcx::Ignore ig;
    MCX_CHECK(!got, "an upgrade succeeded while another reader holds the lock");
  }
  std::thread x;
  if (late) {
    x = std::thread([&, late] { if (late == 1) s.read(); else s.write(); });
    mcx::wait_quiescent();
    mcx::Ignore ig;
    if (late == 2) MCX_CHECK(s.m.st[2] == WAIT_W, "a writer was admitted during an upgrade");
    else if (rf) MCX_CHECK(s.m.st[2] == IDLE, "a reader was not admitted although readers have priority");
    else MCX_CHECK(s.m.st[2] == WAIT_R, "a reader overtook a waiting upgrade");
  }
  MCX_CHECK(s.l->isInUse(), "isInUse() is false although the lock is held");
  s.leave_read();
  s.l->releaseReadLock();
  u.join();
  if (late) x.join();
  s.end();
}

inline std::vector<mcx::Scenario> scenarios() {
  std::vector<mcx::Scenario> s;
  for (int rf = 0; rf < 2; ++rf) {
    const bool f = rf == 1;
    const std::string p = f ? "readerfirst-" : "fair-";
    const std::string w = f ? " (reader-first lock)" : " (reader-writer lock)";
    auto add = [&](const char* n, const char* what, std::function<void()> b, mcx::Bounds q, mcx::Bounds t) {
      s.push_back({p + n, what + w, b, q, t});
    };
    add("2x2", "2 threads, every pair of 2-operation programs over {read, write, upgrade}", [f] { programs(f, 2, 2, 3); },
        B(-1), B(-1, 1));
    add("2x3", "2 threads, every pair of 3-operation programs", [f] { programs(f, 2, 3, 3); }, B(2), B(-1));
    add("3x1", "3 threads, every 1-operation program", [f] { programs(f, 3, 1, 3); }, B(-1), B(-1, 1));
    add("3x1-scoped", "3 threads, every 1-operation program including scoped locks", [f] { programs(f, 3, 1, 5); }, B(2), B(-1));
    add("4x1", "4 threads, every 1-operation program", [f] { programs(f, 4, 1, 3); }, B(1), B(3));
    add("3x2", "3 threads, every 2-operation program", [f] { programs(f, 3, 2, 3); }, B(1), B(2));
    add("upgrade2", "2 readers upgrade at once", [f] { upgrade_race(f, 2); }, B(-1, 1), B(-1, 2));
    add("upgrade3", "3 readers upgrade at once", [f] { upgrade_race(f, 3); }, B(-1), B(-1, 1));
    add("upgrade-waits", "an upgrade behind another reader, with a late reader or writer", [f] { upgrade_waits(f); }, B(2, 1), B(-1, 1));
    add("inuse-r1", "a read holder, one waiter of each kind, isInUse polling", [f] { in_use(f, 0, 1); }, B(-1), B(-1, 1));
    add("inuse-w1", "a write holder, one waiter of each kind, isInUse polling", [f] { in_use(f, 1, 1); }, B(-1), B(-1, 1));
    add("inuse-r2", "a read holder, two waiters, isInUse polling", [f] { in_use(f, 0, 2); }, B(2), B(4));
    add("inuse-w2", "a write holder, two waiters, isInUse polling", [f] { in_use(f, 1, 2); }, B(2), B(4));
    add("inuse-r3", "a read holder, three waiters, isInUse polling", [f] { in_use(f, 0, 3); }, B(0), B(1));
  }
  return s;
}
}  // namespace rw
#endif
