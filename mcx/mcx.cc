// See mcx.h.  Compiled WITHOUT -fsanitize=thread into libmcx.so.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "mcx.h"

#include <cxxabi.h>
#include <dlfcn.h>
#include <elf.h>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/single_threaded.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <exception>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
extern char __data_start, _end, __bss_start;
}

typedef uintptr_t uptr;
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint16_t u16;
typedef uint8_t u8;

namespace {

// ------------------------------------------------------------------------------------------ constants
constexpr int kMaxThreads = 12;
constexpr size_t kStackSize = 256 << 10;
constexpr size_t kHeapSize = 1 << 20;
constexpr size_t kThreadRegion = kStackSize + kHeapSize;
constexpr uptr kArena = 0x6b0000000000ull;
constexpr size_t kArenaSize = kThreadRegion * kMaxThreads;

enum OpKind {
  OP_NONE, OP_START, OP_LOCK, OP_TRYLOCK, OP_UNLOCK, OP_COND_WAIT, OP_COND_BLOCKED, OP_SIGNAL, OP_BROADCAST,
  OP_RDLOCK, OP_WRLOCK, OP_RWUNLOCK, OP_ATOMIC_LOAD, OP_ATOMIC_RMW, OP_JOIN, OP_CREATE, OP_EXIT, OP_ONCE,
  OP_ONCE_DONE, OP_FUTEX_WAIT, OP_FUTEX_BLOCKED, OP_FUTEX_WAKE, OP_YIELD, OP_SLEEP, OP_VISIBLE, OP_POINT,
  OP_QUIESCE, OP_CHOOSE, OP_CLOCK
};
const char* const kOpNames[] = {
  "none", "start", "lock", "trylock", "unlock", "cond_wait", "cond_blocked", "notify_one", "notify_all",
  "rdlock", "wrlock", "rwunlock", "atomic_load", "atomic_rmw", "join", "create", "exit", "once",
  "once_done", "futex_wait", "futex_blocked", "futex_wake", "yield", "sleep", "visible", "point",
  "quiesce", "choose", "clock"};

enum Status { ST_OK = 0, ST_PRUNED = 1, ST_FAIL = 2, ST_INTERNAL = 3 };

struct VC {
  u16 c[kMaxThreads];
  void clear() { memset(c, 0, sizeof c); }
  void join(const VC& o) { for (int i = 0; i < kMaxThreads; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

struct Pending {
  OpKind op = OP_NONE;
  uptr obj = 0;
  uptr aux = 0;
  int want = 0;
  const char* label = nullptr;
};

struct Block { uptr addr; size_t size; bool freed; };

struct Fiber {
  bool exists, finished, joined, detached;
  void* sp;
  uptr fsbase;
  void* (*fn)(void*);
  void* arg;
  void* ret;
  Pending pend;
  bool timed;          // blocked in a timed wait
  int64_t deadline;    // virtual ns
  bool woken_timeout;  // result of the last timed wait
  bool yielded;
  int refusals;        // a failed CHECK is thrown as mcx::Refused instead of ending the execution
  VC vc, relfence, acqpend;
  u64 hash;
  uptr heap_next;
  std::vector<Block>* blocks;
  std::vector<std::pair<void (*)(void*), void*>>* tls_dtors;
  int pcn;
  uptr pcs[256];
  u64 nchild;
};

enum ObjKind { OBJ_PLAIN, OBJ_MUTEX, OBJ_COND, OBJ_RW, OBJ_ONCE };
struct Obj {
  int owner = -1;       // mutex owner / rw writer
  int count = 0;        // recursion / rw readers
  int once = 0;         // 0 not run, 1 running, 2 done
  bool guard = false;   // a static-init guard whose initialisation has completed
  u32 readers = 0;      // rw reader bitmask
  VC vc;                // release clock
  VC rvc;               // rwlock: readers' release clock
  u64 whash = 0, rhash = 0;
  Obj() { vc.clear(); rvc.clear(); }
};

struct ShadowWord {
  u32 gen;
  u8 mode;   // 0 uniform, 1 split
  u8 mask;   // bytes covered (uniform)
  u8 flags;  // 1 allocated, 2 freed
  u8 valid;  // heap: number of valid bytes in the word
  u16 wc; u8 wt; u8 has_w;
  u16 rd[kMaxThreads];
};
struct ShadowByte { u16 wc; u8 wt; u8 has_w; u16 rd[kMaxThreads]; };

struct Frame {
  u16 n, chosen;
  u16 base;     // first allowed alternative index
  u64 key;
  // cost of each option is recomputed on replay
};

struct CtxMain { void* sp; uptr fs; };

struct Engine {
  bool active = false;      // an execution is running
  int in_engine = 1;        // >0: allocations go to libc, accesses are not checked
  int cur = -1;
  int nthreads = 0;
  Fiber f[kMaxThreads];
  CtxMain main;
  Status status = ST_OK;
  std::string msg, kind;
  std::function<void()>* body = nullptr;
  mcx::Bounds b;
  // choice recording
  std::vector<Frame> frames;   // of the current path
  size_t depth = 0;            // index of the next choice
  size_t replay_len = 0;
  bool replay_only = false;
  int used_pre = 0, used_spur = 0, used_to = 0;
  int same_run = 0;
  int64_t vclock = 1600000000000000000ll;
  u64 steps = 0, total_steps = 0, state_hash = 0, events = 0;
  std::unordered_map<uptr, Obj> objs;
  u32 gen = 0;
  bool saw_trylock = false, unlock_points = false;
  bool trace = false;
  std::string trace_text;
  std::set<std::string> outcomes;
  u64 executions = 0, pruned = 0, max_depth = 0, choice_points = 0, max_threads = 0;
  // data/bss
  uptr dlo = 0, dhi = 0;
  char* dsnap = nullptr;
  // tls
  size_t tls_off = 0, tls_size = 0, tls_file = 0;
  const char* tls_init = nullptr;
  uptr pool_fs[kMaxThreads];
  // shadow
  ShadowWord* sh_arena = nullptr;
  ShadowByte* sb_arena = nullptr;
  ShadowWord* sh_data = nullptr;
  ShadowByte* sb_data = nullptr;
  int ignore = 0;
};
Engine* G;

struct EngineScope {
  EngineScope() { ++G->in_engine; }
  ~EngineScope() { --G->in_engine; }
};

inline u64 mix(u64 a, u64 b) {
  u64 x = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C159E3779B9ull + (a << 6) + (a >> 3));
  x ^= x >> 31; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 29; x *= 0x94D049BB133111EBull; x ^= x >> 32;
  return x;
}

// ------------------------------------------------------------------------------------- context switch
extern "C" void mcx_switch(void** save_sp, void* new_sp, uptr new_fs);
asm(R"(
.text
.globl mcx_switch
.hidden mcx_switch
.type mcx_switch,@function
mcx_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8, %rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  wrfsbase %rdx
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size mcx_switch,.-mcx_switch
)");
inline uptr rdfs() { uptr v; asm volatile("rdfsbase %0" : "=r"(v)); return v; }

inline uptr stack_lo(int t) { return kArena + kThreadRegion * t; }
inline uptr heap_lo(int t) { return kArena + kThreadRegion * t + kStackSize; }
inline bool in_arena(uptr a) { return a - kArena < kArenaSize; }
inline bool modelled(uptr a) { return in_arena(a) || (a >= G->dlo && a < G->dhi); }

// -------------------------------------------------------------------------------------------- tracing
void trace_ev(OpKind op, uptr obj, const char* label, const char* extra = "") {
  if (!G->trace) return;
  EngineScope es;
  char buf[256];
  char where[64] = "";
  if (obj) {
    if (in_arena(obj)) {
      int t = (obj - kArena) / kThreadRegion;
      bool heap = obj >= heap_lo(t);
      snprintf(where, sizeof where, "T%d-%s+0x%zx", t, heap ? "heap" : "stack",
               heap ? obj - heap_lo(t) : obj - stack_lo(t));
    } else {
      snprintf(where, sizeof where, "0x%zx", obj);
    }
  }
  snprintf(buf, sizeof buf, "T%d %s %s %s %s\n", G->cur, kOpNames[op], where, label ? label : "", extra);
  G->trace_text += buf;
  Fiber& f = G->f[G->cur];
  if (f.pcn > 0) {
    G->trace_text += "      pcs:";
    for (int i = std::min(f.pcn, 256) - 1, k = 0; i >= 0 && k < 6; --i, ++k) {
      snprintf(buf, sizeof buf, " 0x%zx", f.pcs[i]);
      G->trace_text += buf;
    }
    G->trace_text += "\n";
  }
}

[[noreturn]] void finish(Status st) {
  G->status = st;
  ++G->in_engine;
  void* dummy;
  mcx_switch(&dummy, G->main.sp, G->main.fs);
  __builtin_unreachable();
}

[[noreturn]] void do_fail(const char* kind, const std::string& msg) {
  ++G->in_engine;
  G->kind = kind;
  G->msg = msg;
  if (G->trace) {
    --G->in_engine;
    trace_ev(OP_NONE, 0, kind, msg.c_str());
    ++G->in_engine;
  }
  finish(ST_FAIL);
}

void internal_error(const char* m) {
  fprintf(stderr, "mcx: internal error: %s\n", m);
  _exit(3);
}

std::string fmt(const char* f, ...) {
  char buf[1024];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}

// ------------------------------------------------------------------------------------- HB event hashes
inline Obj& obj(uptr a) { EngineScope es; return G->objs[a]; }

inline void add_state(u64 tag, u64 old_h, u64 new_h) {
  if (old_h) G->state_hash -= mix(tag, old_h);
  if (new_h) G->state_hash += mix(tag, new_h);
}
inline void set_thr_hash(int t, u64 h) {
  add_state(0x1000 + t, G->f[t].hash, h);
  G->f[t].hash = h;
}
void ev_write(OpKind op, uptr a, u64 extra = 0) {
  ++G->events;
  Obj& o = obj(a);
  Fiber& f = G->f[G->cur];
  u64 h = mix(mix(f.hash, op), mix(mix(a, extra), mix(o.whash, o.rhash)));
  set_thr_hash(G->cur, h);
  u64 old = mix(o.whash, o.rhash), nw = mix(h, 77);
  if (!o.whash && !o.rhash) old = 0;
  o.whash = nw;
  o.rhash = 0;
  add_state(a, old, mix(o.whash, o.rhash));
}
void ev_read(OpKind op, uptr a, u64 extra = 0) {
  ++G->events;
  Obj& o = obj(a);
  Fiber& f = G->f[G->cur];
  u64 h = mix(mix(f.hash, op), mix(mix(a, extra), o.whash));
  set_thr_hash(G->cur, h);
  u64 old = mix(o.whash, o.rhash);
  if (!o.whash && !o.rhash) old = 0;
  o.rhash += mix(h, 99);
  add_state(a, old, mix(o.whash, o.rhash));
}
void ev_local(OpKind op, u64 extra) {
  ++G->events;
  Fiber& f = G->f[G->cur];
  set_thr_hash(G->cur, mix(mix(f.hash, op), extra));
}
// an event of the current thread that is ordered with thread t's chain
void ev_thread(OpKind op, int t, u64 extra) {
  ++G->events;
  Fiber& f = G->f[G->cur];
  u64 h = mix(mix(f.hash, op), mix(extra, G->f[t].hash));
  set_thr_hash(G->cur, h);
  set_thr_hash(t, mix(h, 55));
}

// ------------------------------------------------------------------------------------- visited states
struct Visited {
  std::vector<u64> k;
  std::vector<u8> v;
  size_t n = 0;
  void init(size_t cap) { k.assign(cap, 0); v.assign(cap, 0); n = 0; }
  // true if the state was already visited with at most `used` preemptions; otherwise records it.
  bool check(u64 key, u8 used) {
    if (!key) key = 1;
    if ((n + 1) * 3 > k.size() * 2) grow();
    size_t m = k.size() - 1, i = mix(key, 5) & m;
    while (k[i] && k[i] != key) i = (i + 1) & m;
    if (k[i] == key) {
      if (v[i] <= used) return true;
      v[i] = used;
      return false;
    }
    k[i] = key; v[i] = used; ++n;
    return false;
  }
  void grow() {
    std::vector<u64> ok; std::vector<u8> ov;
    ok.swap(k); ov.swap(v);
    k.assign(ok.size() * 2, 0); v.assign(ok.size() * 2, 0);
    size_t m = k.size() - 1;
    for (size_t j = 0; j < ok.size(); ++j) if (ok[j]) {
      size_t i = mix(ok[j], 5) & m;
      while (k[i]) i = (i + 1) & m;
      k[i] = ok[j]; v[i] = ov[j];
    }
  }
};
Visited* VIS;

// ------------------------------------------------------------------------------------------ scheduling
bool enabled(int t);

bool enabled(int t) {
  Fiber& f = G->f[t];
  if (!f.exists || f.finished) return false;
  const Pending& p = f.pend;
  switch (p.op) {
    case OP_LOCK: {
      auto it = G->objs.find(p.obj);
      if (it == G->objs.end()) return true;
      return it->second.owner < 0 || (it->second.owner == t && p.want == 1);
    }
    case OP_RDLOCK: {
      auto it = G->objs.find(p.obj);
      return it == G->objs.end() || it->second.owner < 0;
    }
    case OP_WRLOCK: {
      auto it = G->objs.find(p.obj);
      return it == G->objs.end() || (it->second.owner < 0 && it->second.readers == 0);
    }
    case OP_COND_BLOCKED: case OP_FUTEX_BLOCKED: case OP_SLEEP: return false;
    case OP_JOIN: return G->f[p.want].finished;
    case OP_ONCE: {
      auto it = G->objs.find(p.obj);
      return it == G->objs.end() || it->second.once != 1;
    }
    case OP_QUIESCE: {
      for (int i = 0; i < G->nthreads; ++i) {
        if (i == t) continue;
        Fiber& g = G->f[i];
        if (!g.exists || g.finished) continue;
        if (g.pend.op == OP_QUIESCE) continue;
        if (enabled(i)) return false;
        if (g.pend.op == OP_SLEEP || ((g.pend.op == OP_COND_BLOCKED || g.pend.op == OP_FUTEX_BLOCKED) && g.timed))
          return false;
      }
      return true;
    }
    default: return true;
  }
}

std::string describe_threads() {
  std::string s;
  for (int i = 0; i < G->nthreads; ++i) {
    Fiber& f = G->f[i];
    if (!f.exists) continue;
    s += fmt(" T%d:%s", i, f.finished ? "finished" : kOpNames[f.pend.op]);
    if (!f.finished && f.pend.op == OP_LOCK) s += fmt("(held by T%d)", obj(f.pend.obj).owner);
    if (!f.finished && f.pend.op == OP_JOIN) s += fmt("(T%d)", f.pend.want);
  }
  return s;
}

void switch_to(int t) {
  int me = G->cur;
  if (t == me) return;
  G->cur = t;
  mcx_switch(&G->f[me].sp, G->f[t].sp, G->f[t].fsbase);
}

void wake_timeout(int t) {
  Fiber& f = G->f[t];
  if (f.pend.op == OP_SLEEP) {
    f.pend.op = OP_POINT;
    f.pend.obj = 0;
  } else if (f.pend.op == OP_COND_BLOCKED) {
    f.woken_timeout = true;
    f.pend.op = OP_LOCK;
    f.pend.obj = f.pend.aux;
    f.pend.want = 0;
  } else if (f.pend.op == OP_FUTEX_BLOCKED) {
    f.woken_timeout = true;
    f.pend.op = OP_POINT;
    f.pend.obj = 0;
  }
  if (f.deadline > G->vclock) G->vclock = f.deadline;
  f.timed = false;
  set_thr_hash(t, mix(f.hash, 0x71));
}

// One n-ary choice point; cost is 0 for every option (environment choice).
int take_choice(int n, u64 key, int base_limit) {
  // base_limit: number of options allowed within the bounds (options are ordered, the first ones are free).
  if (base_limit <= 1) return 0;
  ++G->choice_points;
  if (G->depth < G->replay_len) {
    Frame& fr = G->frames[G->depth];
    if (G->replay_only) {
      if (fr.chosen >= base_limit) internal_error("replay: recorded choice is not available");
    } else if (fr.n != base_limit) {
      internal_error("divergence while replaying a prefix (number of options differs)");
    }
    if (fr.key != key && fr.key != 0) {
      internal_error("divergence while replaying a prefix (state differs)");
    }
    fr.key = key;
    ++G->depth;
    return fr.chosen;
  }
  if (G->replay_only) { ++G->depth; return 0; }
  Frame fr;
  fr.n = base_limit;
  fr.chosen = 0;
  fr.base = 0;
  fr.key = key;
  G->frames.push_back(fr);
  ++G->depth;
  if (G->depth > G->max_depth) G->max_depth = G->depth;
  return 0;
}

u64 state_key() {
  u64 k = mix(G->state_hash, G->used_spur * 16 + G->used_to);
  if (G->b.preemptions >= 0) k = mix(k, G->cur + 1);
  for (int i = 0; i < G->nthreads; ++i) {
    Fiber& f = G->f[i];
    k = mix(k, (u64)f.pend.op * 64 + f.yielded * 2 + f.finished);
  }
  return mix(k, (u64)G->vclock);
}

// Called with G->cur's pending operation set.  Picks the thread to run next and switches to it; returns when
// the current thread has been picked and its pending operation is enabled.
void schedule() {
  EngineScope es;
  int me = G->cur;
  for (;;) {
    ++G->steps;
    if (G->steps > (u64)G->b.max_steps) {
      do_fail("livelock", fmt("no termination within %d steps under a fair scheduler:%s", G->b.max_steps,
                              describe_threads().c_str()));
    }
    struct Opt { int kind; int t; };  // kind 0 run, 1 spurious, 2 timeout
    Opt opts[kMaxThreads * 3];
    int n = 0, nfree = 0;
    bool me_en = enabled(me);
    bool forced = false;
    if (me_en && G->same_run > 300) { G->f[me].yielded = true; forced = true; }
    bool me_first = me_en && !G->f[me].yielded;
    if (me_first) opts[n++] = {0, me};
    bool others = false;
    for (int i = 0; i < G->nthreads; ++i) {
      if (i == me || !enabled(i) || G->f[i].yielded) continue;
      opts[n++] = {0, i};
      others = true;
    }
    if (n == 0) {
      // only yielded threads (or nobody) can run
      bool any = false;
      for (int i = 0; i < G->nthreads; ++i) if (G->f[i].yielded && enabled(i)) {
        G->f[i].yielded = false;
        any = true;
      }
      if (any) { G->same_run = 0; continue; }
      // nobody enabled: let the earliest timed wait expire
      int best = -1;
      for (int i = 0; i < G->nthreads; ++i) {
        Fiber& f = G->f[i];
        if (f.exists && !f.finished && f.timed && (best < 0 || f.deadline < G->f[best].deadline)) best = i;
      }
      if (best >= 0) { wake_timeout(best); continue; }
      do_fail("deadlock", "no thread can run:" + describe_threads());
    }
    (void)forced; (void)others;
    bool preempt_ok = G->b.preemptions < 0 || G->used_pre < G->b.preemptions;
    if (me_first) nfree = preempt_ok ? n : 1; else nfree = n;
    int limit = nfree;
    if (limit == n) {
      if (G->used_spur < G->b.spurious) {
        for (int i = 0; i < G->nthreads; ++i) {
          Fiber& f = G->f[i];
          if (f.exists && !f.finished && f.pend.op == OP_COND_BLOCKED) opts[n++] = {1, i};
        }
      }
      if (G->used_to < G->b.timeouts) {
        for (int i = 0; i < G->nthreads; ++i) {
          Fiber& f = G->f[i];
          if (f.exists && !f.finished && f.timed) opts[n++] = {2, i};
        }
      }
      limit = n;
    }
    u64 key = state_key();
    if (G->depth >= G->replay_len && !G->replay_only) {
      ++G->total_steps;
      u8 used = G->b.preemptions >= 0 ? G->used_pre : 0;
      if (VIS->check(key, used)) finish(ST_PRUNED);
    }
    int c = take_choice(n, key, limit);
    Opt o = opts[c];
    if (o.kind == 1) {
      ++G->used_spur;
      Fiber& f = G->f[o.t];
      f.pend.op = OP_LOCK; f.pend.obj = f.pend.aux; f.pend.want = 0;
      f.timed = false; f.woken_timeout = false;
      set_thr_hash(o.t, mix(f.hash, 0x72));
      continue;
    }
    if (o.kind == 2) { ++G->used_to; wake_timeout(o.t); continue; }
    if (me_first && o.t != me) ++G->used_pre;
    if (o.t == me) ++G->same_run; else G->same_run = 0;
    // every other thread that had yielded may run again once somebody else made a step
    for (int i = 0; i < G->nthreads; ++i) if (i != o.t) { if (G->f[i].yielded && o.t != i) G->f[i].yielded = false; }
    G->f[o.t].yielded = false;
    if (o.t != me) switch_to(o.t);
    return;
  }
}

void point_op(OpKind op, uptr o, const char* label = nullptr, int want = 0) {
  Fiber& f = G->f[G->cur];
  f.pend.op = op; f.pend.obj = o; f.pend.aux = 0; f.pend.want = want; f.pend.label = label;
  schedule();
  trace_ev(op, o, label);
}

// the current thread blocks until somebody changes its pending op to an enabled one and it is scheduled
void block() { schedule(); }

inline bool on_fiber() { return G && G->active && G->in_engine == 0 && G->cur >= 0; }

inline void tick() { Fiber& f = G->f[G->cur]; if (++f.vc.c[G->cur] == 0) internal_error("clock overflow"); }
inline void acquire(const VC& v) { G->f[G->cur].vc.join(v); }
inline void release_join(VC& v) { v.join(G->f[G->cur].vc); tick(); }
inline void release_set(VC& v) { v = G->f[G->cur].vc; tick(); }

// ------------------------------------------------------------------------------------------- shadow
inline bool shadow_of(uptr a, ShadowWord** w, ShadowByte** b, bool* heap) {
  if (in_arena(a)) {
    uptr off = a - kArena;
    *w = &G->sh_arena[off >> 3];
    *b = &G->sb_arena[off & ~7ull];
    *heap = (off % kThreadRegion) >= kStackSize;
    return true;
  }
  if (a >= G->dlo && a < G->dhi) {
    uptr off = a - (G->dlo & ~7ull);
    *w = &G->sh_data[off >> 3];
    *b = &G->sb_data[off & ~7ull];
    *heap = false;
    return true;
  }
  return false;
}

std::string addr_desc(uptr a) {
  if (in_arena(a)) {
    int t = (a - kArena) / kThreadRegion;
    if (a >= heap_lo(t)) return fmt("heap object allocated by T%d (+0x%zx)", t, a - heap_lo(t));
    return fmt("stack of T%d (+0x%zx)", t, a - stack_lo(t));
  }
  return fmt("global 0x%zx", a);
}
std::string pcs_desc() {
  Fiber& f = G->f[G->cur];
  std::string s = " pcs:";
  for (int i = std::min(f.pcn, 256) - 1, k = 0; i >= 0 && k < 8; --i, ++k) s += fmt(" 0x%zx", f.pcs[i]);
  return s;
}

[[noreturn]] void race(uptr a, bool is_write, int other, bool other_write) {
  EngineScope es;
  do_fail("data-race", fmt("%s by T%d races with earlier %s by T%d on %s;", is_write ? "write" : "read", G->cur,
                           other_write ? "write" : "read", other, addr_desc(a).c_str()) + pcs_desc());
}

inline void check_cell(u16& wc, u8& wt, u8& has_w, u16* rd, uptr a, bool is_write) {
  Fiber& f = G->f[G->cur];
  if (has_w && wt != G->cur && f.vc.c[wt] < wc) race(a, is_write, wt, true);
  if (is_write) {
    for (int i = 0; i < G->nthreads; ++i)
      if (i != G->cur && rd[i] > f.vc.c[i]) race(a, true, i, false);
    has_w = 1; wt = G->cur; wc = f.vc.c[G->cur];
    memset(rd, 0, sizeof(u16) * kMaxThreads);
  } else {
    rd[G->cur] = f.vc.c[G->cur];
  }
}

void access_word(uptr a, unsigned off, unsigned len, bool is_write) {
  ShadowWord* w; ShadowByte* b; bool heap;
  if (!shadow_of(a, &w, &b, &heap)) return;
  u8 mask = (u8)(((1u << len) - 1) << off);
  if (w->gen != G->gen) {
    if (heap) {
      EngineScope es;
      do_fail("bad-access", fmt("%s of unallocated memory: %s;", is_write ? "write" : "read",
                                addr_desc(a + off).c_str()) + pcs_desc());
    }
    memset(w, 0, sizeof *w);
    w->gen = G->gen;
  } else if (heap) {
    if (w->flags & 2) {
      EngineScope es;
      do_fail("use-after-free", fmt("%s of freed memory: %s;", is_write ? "write" : "read",
                                    addr_desc(a + off).c_str()) + pcs_desc());
    }
    if (off + len > w->valid) {
      EngineScope es;
      do_fail("bad-access", fmt("%s beyond the end of a heap block: %s;", is_write ? "write" : "read",
                                addr_desc(a + off).c_str()) + pcs_desc());
    }
  }
  if (G->ignore) return;
  if (w->mode == 0) {
    if (w->mask == 0) w->mask = mask;
    if (w->mask == mask) {
      check_cell(w->wc, w->wt, w->has_w, w->rd, a + off, is_write);
      return;
    }
    // split
    for (int i = 0; i < 8; ++i) {
      if (w->mask & (1 << i)) {
        b[i].wc = w->wc; b[i].wt = w->wt; b[i].has_w = w->has_w;
        memcpy(b[i].rd, w->rd, sizeof w->rd);
      } else {
        memset(&b[i], 0, sizeof b[i]);
      }
    }
    w->mode = 1;
  }
  for (unsigned i = off; i < off + len; ++i) check_cell(b[i].wc, b[i].wt, b[i].has_w, b[i].rd, a + i, is_write);
}

inline void access(uptr a, size_t n, bool is_write) {
  if (!on_fiber()) return;
  while (n) {
    unsigned off = a & 7;
    unsigned len = std::min<size_t>(8 - off, n);
    access_word(a - off, off, len, is_write);
    a += len;
    n -= len;
  }
}

// ------------------------------------------------------------------------------------------- heap
void* arena_alloc(size_t n, size_t align) {
  Fiber& f = G->f[G->cur];
  if (align < 16) align = 16;
  uptr a = (f.heap_next + align - 1) & ~(uptr)(align - 1);
  size_t rn = (n + 15) & ~15ull;
  if (a + rn + 32 > heap_lo(G->cur) + kHeapSize) internal_error("arena exhausted");
  f.heap_next = a + rn + 16;
  EngineScope es;
  f.blocks->push_back({a, n, false});
  ShadowWord* w = &G->sh_arena[(a - kArena) >> 3];
  size_t words = (n + 7) / 8;
  for (size_t i = 0; i < words; ++i) {
    memset(&w[i], 0, sizeof w[i]);
    w[i].gen = G->gen;
    w[i].flags = 1;
    w[i].valid = (i + 1) * 8 <= n ? 8 : n - i * 8;
  }
  memset((void*)a, 0xCD, rn);
  return (void*)a;
}
Block* find_block(uptr a) {
  int t = (a - kArena) / kThreadRegion;
  std::vector<Block>& v = *G->f[t].blocks;
  size_t lo = 0, hi = v.size();
  while (lo < hi) {
    size_t m = (lo + hi) / 2;
    if (v[m].addr <= a) lo = m + 1; else hi = m;
  }
  if (!lo) return nullptr;
  return &v[lo - 1];
}
void arena_free(void* p) {
  if (!G->active || G->cur < 0) return;
  uptr a = (uptr)p;
  EngineScope es;
  Block* b = find_block(a);
  if (!b || b->addr != a) { do_fail("bad-free", "free of a pointer that was not allocated: " + addr_desc(a)); }
  if (b->freed) do_fail("double-free", "double free: " + addr_desc(a) + pcs_desc());
  // A free conflicts with every earlier access that does not happen before it.
  if (!G->ignore) {
    --G->in_engine;
    access(a, b->size, true);
    ++G->in_engine;
  }
  for (auto& kv : G->objs) {
    if (kv.first >= a && kv.first < a + b->size) {
      if (kv.second.owner >= 0 || kv.second.readers)
        do_fail("destroyed-in-use", "a locked mutex was freed: " + addr_desc(kv.first) + pcs_desc());
    }
  }
  for (int i = 0; i < G->nthreads; ++i) {
    Fiber& f = G->f[i];
    if (f.exists && !f.finished && i != G->cur && (f.pend.op == OP_COND_BLOCKED || f.pend.op == OP_FUTEX_BLOCKED ||
        f.pend.op == OP_LOCK) && f.pend.obj >= a && f.pend.obj < a + b->size)
      do_fail("destroyed-in-use", fmt("freed while T%d waits on it: ", i) + addr_desc(f.pend.obj) + pcs_desc());
  }
  b->freed = true;
  ShadowWord* w = &G->sh_arena[(a - kArena) >> 3];
  size_t words = (b->size + 7) / 8;
  for (size_t i = 0; i < words; ++i) w[i].flags |= 2;
}

// --------------------------------------------------------------------------------------- thread entry
void run_tls_dtors(Fiber& f) {
  while (f.tls_dtors && !f.tls_dtors->empty()) {
    auto d = f.tls_dtors->back();
    f.tls_dtors->pop_back();
    d.first(d.second);
  }
}

void thread_finish() {
  Fiber& f = G->f[G->cur];
  run_tls_dtors(f);
  trace_ev(OP_EXIT, 0, nullptr);
  ev_local(OP_EXIT, 0);
  tick();
  f.finished = true;
  if (G->cur == 0) finish(ST_OK);
  // pick somebody else
  {
    EngineScope es;
    G->same_run = 0;
  }
  schedule();
  internal_error("finished thread resumed");
}

void fiber_main() {
  // first instruction of a fiber: engine depth was left raised by whoever switched here
  int saved = G->in_engine;
  G->in_engine = 0;
  (void)saved;
  Fiber& f = G->f[G->cur];
  memset(abi::__cxa_get_globals(), 0, 16);
  trace_ev(OP_START, 0, nullptr);
  try {
    if (G->cur == 0) {
      (*G->body)();
    } else {
      f.ret = f.fn(f.arg);
    }
  } catch (const std::exception& e) {
    do_fail("uncaught-exception", std::string("exception left a thread: ") + e.what());
  } catch (...) {
    do_fail("uncaught-exception", "exception left a thread");
  }
  thread_finish();
}

void reset_tls(int t) {
  if (!G->tls_size) return;
  char* blk = (char*)(G->pool_fs[t] - G->tls_off);
  memcpy(blk, G->tls_init, G->tls_file);
  memset(blk + G->tls_file, 0, G->tls_size - G->tls_file);
}

void init_fiber(int t) {
  Fiber& f = G->f[t];
  std::vector<Block>* bl = f.blocks ? f.blocks : new std::vector<Block>;
  auto* td = f.tls_dtors ? f.tls_dtors : new std::vector<std::pair<void (*)(void*), void*>>;
  bl->clear();
  td->clear();
  memset((void*)&f, 0, sizeof(int) * 0 + offsetof(Fiber, pcs));
  f.blocks = bl;
  f.tls_dtors = td;
  f.nchild = 0;
  f.exists = true;
  f.fsbase = G->pool_fs[t];
  f.heap_next = heap_lo(t) + 64;
  f.vc.clear();
  f.vc.c[t] = 1;
  f.pend = Pending();
  f.pend.op = OP_START;
  uptr top = stack_lo(t) + kStackSize - 64;
  memset((void*)(top - 8192), 0, 8192);
  uptr* sp = (uptr*)top;
  *--sp = 0;                       // fake return address of fiber_main
  *--sp = (uptr)&fiber_main;       // ret target
  for (int i = 0; i < 6; ++i) *--sp = 0;
  --sp;
  ((u32*)sp)[0] = 0x1f80;
  ((u32*)sp)[1] = 0x037f;
  f.sp = sp;
  reset_tls(t);
  if (t >= (int)G->max_threads) G->max_threads = t + 1;
}

// ------------------------------------------------------------------------------------------ execution
void run_once() {
  memcpy((void*)G->dlo, G->dsnap, G->dhi - G->dlo);
  G->objs.clear();
  ++G->gen;
  G->nthreads = 1;
  for (int i = 0; i < kMaxThreads; ++i) G->f[i].exists = false;
  G->depth = 0;
  G->used_pre = G->used_spur = G->used_to = 0;
  G->same_run = 0;
  G->steps = 0;
  G->state_hash = 0;
  G->vclock = 1600000000000000000ll;
  G->ignore = 0;
  G->status = ST_OK;
  G->trace_text.clear();
  init_fiber(0);
  set_thr_hash(0, 12345);
  G->cur = 0;
  G->main.fs = rdfs();
  G->active = true;
  mcx_switch(&G->main.sp, G->f[0].sp, G->f[0].fsbase);
  G->active = false;
  G->in_engine = 1;
  G->cur = -1;
  ++G->executions;
}

int parked_futex;
void* parker(void* p) {
  *(uptr*)p = rdfs();
  __atomic_thread_fence(__ATOMIC_SEQ_CST);
  __atomic_add_fetch(&parked_futex, 1, __ATOMIC_SEQ_CST);
  for (;;) pause();
}

int phdr_cb(struct dl_phdr_info* info, size_t, void*) {
  for (int i = 0; i < info->dlpi_phnum; ++i) {
    if (info->dlpi_phdr[i].p_type == PT_TLS) {
      G->tls_size = info->dlpi_phdr[i].p_memsz;
      G->tls_file = info->dlpi_phdr[i].p_filesz;
      G->tls_init = (const char*)(info->dlpi_addr + info->dlpi_phdr[i].p_vaddr);
      if (info->dlpi_tls_data) G->tls_off = rdfs() - (uptr)info->dlpi_tls_data;
      else G->tls_size = 0;
    }
  }
  return 1;  // main executable only
}

typedef int (*pthread_create_t)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
template <class F> F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }

const char* g_crash_path = nullptr;
void crash_handler(int sig) {
  // The process is in an arbitrary state; record the choices with raw writes and leave.
  if (G && G->active && g_crash_path) {
    int fd = open(g_crash_path, O_CREAT | O_TRUNC | O_WRONLY, 0644);
    char buf[64];
    int n = snprintf(buf, sizeof buf, "signal %d\n", sig);
    if (write(fd, buf, n)) {}
    for (size_t i = 0; i < G->frames.size() && i < G->depth; ++i) {
      n = snprintf(buf, sizeof buf, "%d ", (int)G->frames[i].chosen);
      if (write(fd, buf, n)) {}
    }
    close(fd);
    _exit(4);
  }
  signal(sig, SIG_DFL);
  raise(sig);
}

void on_terminate() {
  if (on_fiber()) do_fail("terminate", "std::terminate called");
  abort();
}

void engine_process_init() {
  static bool done = false;
  if (done) return;
  done = true;
  dl_iterate_phdr(phdr_cb, nullptr);
  pthread_create_t rc = real<pthread_create_t>("pthread_create");
  for (int i = 0; i < kMaxThreads; ++i) {
    pthread_t th;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 64 << 10);
    if (rc(&th, &at, parker, &G->pool_fs[i]) != 0) internal_error("pthread_create");
  }
  while (__atomic_load_n(&parked_futex, __ATOMIC_SEQ_CST) < kMaxThreads) usleep(100);
  __libc_single_threaded = 0;
  void* p = mmap((void*)kArena, kArenaSize, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
  if (p != (void*)kArena) internal_error("mmap arena");
  auto mm = [](size_t n) {
    void* q = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (q == MAP_FAILED) internal_error("mmap shadow");
    return q;
  };
  G->sh_arena = (ShadowWord*)mm(kArenaSize / 8 * sizeof(ShadowWord));
  G->sb_arena = (ShadowByte*)mm(kArenaSize * sizeof(ShadowByte));
  G->dlo = (uptr)&__data_start;
  G->dhi = (uptr)&_end;
  size_t dn = G->dhi - (G->dlo & ~7ull) + 8;
  G->sh_data = (ShadowWord*)mm(dn / 8 * sizeof(ShadowWord) + sizeof(ShadowWord));
  G->sb_data = (ShadowByte*)mm((dn + 8) * sizeof(ShadowByte));
  G->dsnap = (char*)mm(G->dhi - G->dlo);
  memcpy(G->dsnap, (void*)G->dlo, G->dhi - G->dlo);
  stack_t ss;
  ss.ss_sp = mm(65536);
  ss.ss_size = 65536;
  ss.ss_flags = 0;
  sigaltstack(&ss, nullptr);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = crash_handler;
  sa.sa_flags = SA_ONSTACK;
  sigaction(SIGSEGV, &sa, nullptr);
  sigaction(SIGBUS, &sa, nullptr);
  sigaction(SIGFPE, &sa, nullptr);
  sigaction(SIGABRT, &sa, nullptr);
  sigaction(SIGILL, &sa, nullptr);
  std::set_terminate(on_terminate);
  VIS = new Visited;
}

struct ScenarioResult {
  std::string status = "ok";  // ok, violation, capped, error
  std::string kind, msg, trace;
  std::vector<int> choices;
};

std::string json_escape(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 0x20) o += fmt("\\u%04x", c);
    else o += c;
  }
  return o;
}

double now_s() {
  struct timespec ts;
  static auto rc = real<int (*)(clockid_t, struct timespec*)>("clock_gettime");
  rc(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}


}  // namespace

// ============================================================================================ public API
namespace mcx {

void fail(const char* f, ...) {
  char buf[1024];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  do_fail("property", buf);
}
void visible(const void* o, const char* label) {
  point_op(OP_VISIBLE, (uptr)o, label);
  ev_write(OP_VISIBLE, (uptr)o);
}
void point(const char* label) {
  point_op(OP_POINT, 0, label);
}
int choose(int n, const char* label) {
  EngineScope es;
  int c = take_choice(n, mix(state_key(), 0xC0), n);
  ev_local(OP_CHOOSE, c + 1);
  if (G->trace) G->trace_text += fmt("T%d choose %s = %d\n", G->cur, label, c);
  return c;
}
void outcome(const std::string& t) {
  EngineScope es;
  G->outcomes.insert(std::string(t.c_str(), t.size()));
}
bool thread_blocked(int t) {
  EngineScope es;
  return t < G->nthreads && G->f[t].exists && !G->f[t].finished && !enabled(t);
}
int self() { return G->cur; }
int num_threads() { return G->nthreads; }
void set_clock_ns(int64_t ns) { G->vclock = ns; }
void wait_quiescent() {
  point_op(OP_QUIESCE, 0);
  // ordered after everything that happened so far
  u64 h = G->state_hash;
  ev_local(OP_QUIESCE, h);
}
Ignore::Ignore() { ++G->ignore; }
Ignore::~Ignore() { --G->ignore; }

namespace {

// Depth-first enumeration of one scenario.
void explore(Scenario& sc, const Bounds& b, double cap_s, ScenarioResult* r) {
  G->b = b;
  G->body = &sc.body;
  double t0 = now_s();
restart:
  VIS->init(1 << 16);
  G->frames.clear();
  G->replay_len = 0;
  G->replay_only = false;
  G->trace = false;
  G->executions = G->pruned = G->total_steps = G->max_depth = G->choice_points = G->events = 0;
  G->outcomes.clear();
  bool had_try = G->unlock_points;
  for (;;) {
    run_once();
    if (G->saw_trylock && !had_try) { G->unlock_points = true; goto restart; }
    if (G->status == ST_FAIL) {
      r->status = "violation";
      r->kind = G->kind;
      r->msg = G->msg;
      r->choices.clear();
      for (size_t i = 0; i < G->depth && i < G->frames.size(); ++i) r->choices.push_back(G->frames[i].chosen);
      // replay twice, the second time with a trace
      for (int k = 0; k < 2; ++k) {
        for (auto& f : G->frames) f.key = 0;
        G->replay_len = G->frames.size();
        G->replay_only = true;
        G->trace = k == 1;
        run_once();
        if (G->status != ST_FAIL || G->kind != r->kind) {
          r->status = "error";
          r->msg = "violation did not replay: " + r->msg;
          return;
        }
      }
      r->trace = G->trace_text;
      G->trace = false;
      return;
    }
    if (G->status == ST_PRUNED) ++G->pruned;
    // backtrack
    while (!G->frames.empty() && G->frames.back().chosen + 1 >= G->frames.back().n) G->frames.pop_back();
    if (G->frames.empty()) return;
    ++G->frames.back().chosen;
    G->replay_len = G->frames.size();
    if ((G->executions & 255) == 0 && now_s() - t0 > cap_s) {
      r->status = "capped";
      return;
    }
  }
}

std::string result_json(Scenario& sc, const Bounds& b, const ScenarioResult& r, double wall) {
  std::string s = "{";
  s += fmt("\"scenario\":\"%s\",\"status\":\"%s\",", json_escape(sc.name).c_str(), r.status.c_str());
  s += "\"what\":\"" + json_escape(sc.what) + "\",";
  s += "\"kind\":\"" + json_escape(r.kind) + "\",\"msg\":\"" + json_escape(r.msg) + "\",";
  s += "\"trace\":\"" + json_escape(r.trace) + "\",\"choices\":[";
  for (size_t i = 0; i < r.choices.size(); ++i) s += fmt(i ? ",%d" : "%d", r.choices[i]);
  s += fmt("],\"preemptions\":%d,\"spurious\":%d,\"timeouts\":%d,\"unlock_points\":%d,", b.preemptions, b.spurious,
           b.timeouts, (int)G->unlock_points);
  s += fmt("\"schedules\":%llu,\"pruned\":%llu,\"states\":%llu,\"transitions\":%llu,\"max_choice_depth\":%llu,"
           "\"threads\":%llu,\"wall_s\":%.3f,\"outcomes\":[",
           (unsigned long long)G->executions, (unsigned long long)G->pruned, (unsigned long long)VIS->n,
           (unsigned long long)G->total_steps, (unsigned long long)G->max_depth, (unsigned long long)G->max_threads,
           wall);
  int k = 0;
  for (auto& o : G->outcomes) {
    if (k == 40) break;
    s += (k++ ? ",\"" : "\"") + json_escape(o) + "\"";
  }
  s += fmt("],\"distinct_outcomes\":%zu}", G->outcomes.size());
  return s;
}

void write_file(const std::string& path, const std::string& text) {
  FILE* f = fopen(path.c_str(), "w");
  if (!f) { perror(path.c_str()); _exit(3); }
  fwrite(text.data(), 1, text.size(), f);
  fclose(f);
}
std::string read_file(const std::string& path) {
  FILE* f = fopen(path.c_str(), "r");
  if (!f) return "";
  std::string s;
  char buf[65536];
  size_t n;
  while ((n = fread(buf, 1, sizeof buf, f)) > 0) s.append(buf, n);
  fclose(f);
  return s;
}
}  // namespace

int run_main(int argc, char** argv, const char* property, std::vector<Scenario> scenarios) {
  std::string tier = "quick", out, dir = "/tmp", only, replay_choices;
  int jobs = 8, pre = -2, spur = -1, up = 0;
  double cap = 600;
  bool do_replay = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&]() { return std::string(argv[++i]); };
    if (a == "--tier") tier = next();
    else if (a == "--out") out = next();
    else if (a == "--dir") dir = next();
    else if (a == "--only") only = next();
    else if (a == "--jobs") jobs = atoi(next().c_str());
    else if (a == "--cap") cap = atof(next().c_str());
    else if (a == "--preemptions") pre = atoi(next().c_str());
    else if (a == "--spurious") spur = atoi(next().c_str());
    else if (a == "--unlock-points") up = atoi(next().c_str());
    else if (a == "--choices") { replay_choices = next(); do_replay = true; }
    else if (a == "--list") { for (auto& s : scenarios) printf("%s: %s\n", s.name.c_str(), s.what.c_str()); return 0; }
    else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 3; }
  }
  if (do_replay) {
    for (auto& s : scenarios) if (s.name == only) {
      engine_process_init();
      Bounds b = tier == "quick" ? s.quick : s.thorough;
      if (pre != -2) b.preemptions = pre;
      if (spur >= 0) b.spurious = spur;
      G->b = b;
      G->unlock_points = up;
      G->body = &s.body;
      const char* p = replay_choices.c_str();
      while (*p) {
        char* e;
        long v = strtol(p, &e, 10);
        if (e == p) break;
        Frame f; f.n = 0; f.chosen = v; f.base = 0; f.key = 0;
        G->frames.push_back(f);
        p = e;
        while (*p == ',' || *p == ' ') ++p;
      }
      G->replay_len = G->frames.size();
      G->replay_only = true;
      G->trace = true;
      VIS->init(1 << 10);
      run_once();
      printf("%s", G->trace_text.c_str());
      if (G->status == ST_FAIL) {
        printf("REPLAY %s: %s: %s\n", s.name.c_str(), G->kind.c_str(), G->msg.c_str());
        return 1;
      }
      printf("REPLAY %s: no violation\n", s.name.c_str());
      return 0;
    }
    fprintf(stderr, "no such scenario\n");
    return 3;
  }
  struct Job { size_t sc; pid_t pid; double t0; };
  std::vector<Job> running;
  std::vector<std::string> results(scenarios.size());
  size_t nexts = 0;
  int bad = 0;
  auto path = [&](size_t i) { return dir + "/" + property + "-" + scenarios[i].name + ".res"; };
  auto crash = [&](size_t i) { return dir + "/" + property + "-" + scenarios[i].name + ".crash"; };
  fflush(stdout);
  while (nexts < scenarios.size() || !running.empty()) {
    while ((int)running.size() < jobs && nexts < scenarios.size()) {
      size_t i = nexts++;
      if (!only.empty() && scenarios[i].name != only) continue;
      unlink(path(i).c_str());
      unlink(crash(i).c_str());
      pid_t p = fork();
      if (p == 0) {
        std::string cp = crash(i);
        g_crash_path = strdup(cp.c_str());
        engine_process_init();
        Scenario& s = scenarios[i];
        Bounds b = tier == "quick" ? s.quick : s.thorough;
        if (pre != -2) b.preemptions = pre;
        if (spur >= 0) b.spurious = spur;
        ScenarioResult r;
        double t0 = now_s();
        explore(s, b, cap, &r);
        write_file(path(i), result_json(s, b, r, now_s() - t0));
        _exit(0);
      }
      running.push_back({i, p, now_s()});
    }
    if (running.empty()) break;
    int st;
    pid_t p = waitpid(-1, &st, 0);
    for (size_t k = 0; k < running.size(); ++k) if (running[k].pid == p) {
      size_t i = running[k].sc;
      running.erase(running.begin() + k);
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
        results[i] = read_file(path(i));
      } else if (WIFEXITED(st) && WEXITSTATUS(st) == 4) {
        std::string c = read_file(crash(i));
        std::string line = c.substr(0, c.find('\n'));
        std::string ch = c.substr(c.find('\n') + 1);
        for (auto& x : ch) if (x == ' ') x = ',';
        while (!ch.empty() && ch.back() == ',') ch.pop_back();
        results[i] = "{\"scenario\":\"" + scenarios[i].name + "\",\"what\":\"" + json_escape(scenarios[i].what) +
                     "\",\"status\":\"crash\",\"kind\":\"crash\",\"msg\":\"" + line + "\",\"trace\":\"\",\"choices\":[" + ch +
                     "],\"states\":1,\"transitions\":1,\"schedules\":1,\"pruned\":0,\"outcomes\":[],\"distinct_outcomes\":0,\"preemptions\":" +
                     std::to_string(pre != -2 ? pre : (tier == "quick" ? scenarios[i].quick : scenarios[i].thorough).preemptions) +
                     ",\"unlock_points\":0,\"wall_s\":0}";
      } else {
        results[i] = "{\"scenario\":\"" + scenarios[i].name + "\",\"status\":\"error\",\"msg\":\"process ended with status " +
                     std::to_string(st) + "\"}";
        bad = 1;
      }
      unlink(path(i).c_str());
      unlink(crash(i).c_str());
      break;
    }
  }
  std::string all = fmt("{\"property\":\"%s\",\"tier\":\"%s\",\"scenarios\":[\n", property, tier.c_str());
  bool first = true;
  for (auto& r : results) {
    if (r.empty()) continue;
    if (!first) all += ",\n";
    first = false;
    all += r;
  }
  all += "\n]}\n";
  if (out.empty()) printf("%s", all.c_str()); else write_file(out, all);
  return bad ? 3 : 0;
}
}  // namespace mcx

// ============================================================================================ interposers
namespace {
__attribute__((constructor(101))) void ctor() {
  if (!G) {
    void* m = __libc_calloc(1, sizeof(Engine));
    Engine* e = new (m) Engine();
    G = e;
  }
}
inline bool use_model(const void* o) { return on_fiber() && modelled((uptr)o); }
inline bool is_recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }

void mutex_lock_effect(uptr m, bool rec) {
  EngineScope es;
  Obj& o = obj(m);
  if (rec && o.owner == G->cur) { ++o.count; return; }
  if (o.owner >= 0) internal_error("lock effect on a held mutex");
  o.owner = G->cur;
  o.count = 1;
  acquire(o.vc);
  ev_write(OP_LOCK, m);
}
void check_live(uptr a) {
  // synchronisation on freed or unallocated heap memory
  if (in_arena(a)) {
    ShadowWord* w; ShadowByte* b; bool heap;
    shadow_of(a & ~7ull, &w, &b, &heap);
    if (heap && (w->gen != G->gen || (w->flags & 2))) {
      EngineScope es;
      do_fail("use-after-free", "synchronisation on freed memory: " + addr_desc(a) + pcs_desc());
    }
  }
}
int mutex_unlock_effect(uptr m) {
  EngineScope es;
  Obj& o = obj(m);
  if (o.owner != G->cur) do_fail("bad-unlock", fmt("T%d unlocks a mutex it does not hold (owner T%d)", G->cur, o.owner) + pcs_desc());
  if (--o.count > 0) return 0;
  o.owner = -1;
  release_set(o.vc);
  ev_write(OP_UNLOCK, m);
  return 0;
}
int64_t ts_ns(const struct timespec* ts) { return ts->tv_sec * 1000000000ll + ts->tv_nsec; }

int cond_wait_impl(uptr c, uptr m, bool timed, int64_t deadline) {
  check_live(c);
  {
    point_op(OP_COND_WAIT, c);
    check_live(c);
    {
      EngineScope es;
      Obj& o = obj(m);
      if (o.owner != G->cur) do_fail("bad-wait", "condition wait without holding the mutex");
      o.owner = -1;
      release_set(o.vc);
      ev_write(OP_UNLOCK, m);
      ev_write(OP_COND_WAIT, c);
    }
    Fiber& f = G->f[G->cur];
    f.pend.op = OP_COND_BLOCKED;
    f.pend.obj = c;
    f.pend.aux = m;
    f.pend.want = 0;
    f.timed = timed;
    f.deadline = deadline;
    f.woken_timeout = false;
    block();
    f.timed = false;
    mutex_lock_effect(m, false);
    trace_ev(OP_LOCK, m, "re-acquired after wait");
    return f.woken_timeout ? ETIMEDOUT : 0;
  }
}
int cond_signal_impl(uptr c, bool all) {
  check_live(c);
  point_op(all ? OP_BROADCAST : OP_SIGNAL, c);
  check_live(c);
  EngineScope es;
  int w[kMaxThreads], n = 0;
  for (int i = 0; i < G->nthreads; ++i) {
    Fiber& f = G->f[i];
    if (f.exists && !f.finished && f.pend.op == OP_COND_BLOCKED && f.pend.obj == c) w[n++] = i;
  }
  ev_write(all ? OP_BROADCAST : OP_SIGNAL, c);
  if (!n) return 0;
  int lo = 0, hi = n;
  if (!all) {
    lo = take_choice(n, mix(state_key(), 0xC1), n);
    hi = lo + 1;
    if (G->trace) G->trace_text += fmt("   wakes T%d of %d waiting\n", w[lo], n);
  }
  for (int i = lo; i < hi; ++i) {
    Fiber& f = G->f[w[i]];
    f.pend.op = OP_LOCK;
    f.pend.obj = f.pend.aux;
    f.pend.want = 0;
    f.timed = false;
    ev_thread(OP_SIGNAL, w[i], c);
  }
  return 0;
}
}  // namespace

#define EXPORT extern "C" __attribute__((visibility("default")))
#define REAL(name, type) static auto r = real<type>(#name)

EXPORT int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!use_model(m)) {
    if (G && G->active) return 0;  // library-internal lock: a single OS thread runs everything
    REAL(pthread_mutex_lock, int (*)(pthread_mutex_t*));
    return r(m);
  }
  check_live((uptr)m);
  bool rec = is_recursive(m);
  if (!rec && G->objs.count((uptr)m) && obj((uptr)m).owner == G->cur) {
    EngineScope es;
    do_fail("deadlock", fmt("T%d locks a mutex it already holds", G->cur) + pcs_desc());
  }
  point_op(OP_LOCK, (uptr)m, nullptr, rec);
  check_live((uptr)m);
  mutex_lock_effect((uptr)m, rec);
  return 0;
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!use_model(m)) {
    if (G && G->active) return 0;
    REAL(pthread_mutex_trylock, int (*)(pthread_mutex_t*));
    return r(m);
  }
  check_live((uptr)m);
  G->saw_trylock = true;
  point_op(OP_TRYLOCK, (uptr)m);
  bool rec = is_recursive(m);
  Obj& o = obj((uptr)m);
  if (o.owner >= 0 && !(rec && o.owner == G->cur)) {
    ev_write(OP_TRYLOCK, (uptr)m, 1);
    return EBUSY;
  }
  mutex_lock_effect((uptr)m, rec);
  return 0;
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!use_model(m)) {
    if (G && G->active) return 0;
    REAL(pthread_mutex_unlock, int (*)(pthread_mutex_t*));
    return r(m);
  }
  check_live((uptr)m);
  if (G->unlock_points) point_op(OP_UNLOCK, (uptr)m);
  else trace_ev(OP_UNLOCK, (uptr)m, nullptr);
  return mutex_unlock_effect((uptr)m);
}
EXPORT int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) {
  // modelled as: succeeds, or (a bounded number of times) expires when it would have to wait
  if (!use_model(m)) return 0;
  G->saw_trylock = true;
  if (G->objs.count((uptr)m) && obj((uptr)m).owner >= 0) {
    if (mcx::choose(2, "timedlock expires")) return ETIMEDOUT;
  }
  return pthread_mutex_lock(m);
}
EXPORT int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec* ts) {
  return pthread_mutex_timedlock(m, ts);
}
EXPORT int pthread_mutex_destroy(pthread_mutex_t* m) {
  if (use_model(m)) {
    EngineScope es;
    auto it = G->objs.find((uptr)m);
    if (it != G->objs.end() && it->second.owner >= 0) do_fail("destroyed-in-use", "mutex destroyed while locked");
  }
  return 0;
}
EXPORT int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!use_model(c)) {
    if (G && G->active) internal_error("library condition wait inside a fiber");
    REAL(pthread_cond_wait, int (*)(pthread_cond_t*, pthread_mutex_t*));
    return r(c, m);
  }
  return cond_wait_impl((uptr)c, (uptr)m, false, 0);
}
EXPORT int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  if (!use_model(c)) {
    REAL(pthread_cond_timedwait, int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*));
    return r(c, m, ts);
  }
  return cond_wait_impl((uptr)c, (uptr)m, true, ts_ns(ts));
}
EXPORT int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) {
  if (!use_model(c)) {
    REAL(pthread_cond_clockwait, int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*));
    return r(c, m, k, ts);
  }
  return cond_wait_impl((uptr)c, (uptr)m, true, ts_ns(ts));
}
EXPORT int pthread_cond_signal(pthread_cond_t* c) {
  if (!use_model(c)) {
    REAL(pthread_cond_signal, int (*)(pthread_cond_t*));
    return r(c);
  }
  return cond_signal_impl((uptr)c, false);
}
EXPORT int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!use_model(c)) {
    REAL(pthread_cond_broadcast, int (*)(pthread_cond_t*));
    return r(c);
  }
  return cond_signal_impl((uptr)c, true);
}
EXPORT int pthread_cond_destroy(pthread_cond_t* c) {
  if (use_model(c)) {
    EngineScope es;
    for (int i = 0; i < G->nthreads; ++i) {
      Fiber& f = G->f[i];
      if (f.exists && !f.finished && f.pend.op == OP_COND_BLOCKED && f.pend.obj == (uptr)c)
        do_fail("destroyed-in-use", fmt("condition variable destroyed while T%d waits on it", i) + pcs_desc());
    }
  }
  return 0;
}
EXPORT int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); return 0; }

EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
  if (!use_model(l)) {
    if (G && G->active) return 0;
    REAL(pthread_rwlock_rdlock, int (*)(pthread_rwlock_t*));
    return r(l);
  }
  check_live((uptr)l);
  point_op(OP_RDLOCK, (uptr)l);
  EngineScope es;
  Obj& o = obj((uptr)l);
  o.readers |= 1u << G->cur;
  ++o.count;
  acquire(o.vc);
  ev_write(OP_RDLOCK, (uptr)l);
  return 0;
}
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
  if (!use_model(l)) {
    if (G && G->active) return 0;
    REAL(pthread_rwlock_wrlock, int (*)(pthread_rwlock_t*));
    return r(l);
  }
  check_live((uptr)l);
  point_op(OP_WRLOCK, (uptr)l);
  EngineScope es;
  Obj& o = obj((uptr)l);
  o.owner = G->cur;
  acquire(o.vc);
  acquire(o.rvc);
  ev_write(OP_WRLOCK, (uptr)l);
  return 0;
}
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
  if (!use_model(l)) return 0;
  G->saw_trylock = true;
  point_op(OP_TRYLOCK, (uptr)l);
  Obj& o = obj((uptr)l);
  if (o.owner >= 0) { ev_write(OP_TRYLOCK, (uptr)l, 1); return EBUSY; }
  EngineScope es;
  o.readers |= 1u << G->cur;
  ++o.count;
  acquire(o.vc);
  ev_write(OP_RDLOCK, (uptr)l);
  return 0;
}
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
  if (!use_model(l)) return 0;
  G->saw_trylock = true;
  point_op(OP_TRYLOCK, (uptr)l);
  Obj& o = obj((uptr)l);
  if (o.owner >= 0 || o.readers) { ev_write(OP_TRYLOCK, (uptr)l, 1); return EBUSY; }
  EngineScope es;
  o.owner = G->cur;
  acquire(o.vc);
  acquire(o.rvc);
  ev_write(OP_WRLOCK, (uptr)l);
  return 0;
}
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  if (!use_model(l)) {
    if (G && G->active) return 0;
    REAL(pthread_rwlock_unlock, int (*)(pthread_rwlock_t*));
    return r(l);
  }
  if (G->unlock_points) point_op(OP_RWUNLOCK, (uptr)l);
  EngineScope es;
  Obj& o = obj((uptr)l);
  if (o.owner == G->cur) {
    o.owner = -1;
    release_set(o.vc);
  } else if (o.readers & (1u << G->cur)) {
    if (--o.count == 0 || true) o.readers &= ~(1u << G->cur);
    release_join(o.rvc);
  } else {
    do_fail("bad-unlock", "rwlock released by a thread that does not hold it");
  }
  ev_write(OP_RWUNLOCK, (uptr)l);
  return 0;
}
EXPORT int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }

EXPORT int pthread_create(pthread_t* th, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
  if (!on_fiber()) {
    REAL(pthread_create, pthread_create_t);
    return r(th, at, fn, arg);
  }
  trace_ev(OP_CREATE, 0, nullptr);
  EngineScope es;
  if (G->nthreads >= kMaxThreads) internal_error("too many threads");
  int t = G->nthreads;
  Fiber& me = G->f[G->cur];
  init_fiber(t);
  ++G->nthreads;
  Fiber& f = G->f[t];
  f.fn = fn;
  f.arg = arg;
  VC mine = me.vc;
  f.vc.join(mine);
  tick();
  set_thr_hash(t, mix(me.hash, 0xABC0 + me.nchild++));
  ev_local(OP_CREATE, t);
  *th = (pthread_t)(t + 1);
  return 0;
}
EXPORT int pthread_join(pthread_t th, void** ret) {
  if (!on_fiber()) {
    REAL(pthread_join, int (*)(pthread_t, void**));
    return r(th, ret);
  }
  int t = (int)th - 1;
  if (t < 0 || t >= G->nthreads) return ESRCH;
  if (t == G->cur) { EngineScope es; do_fail("deadlock", "a thread joins itself" + pcs_desc()); }
  point_op(OP_JOIN, 0, nullptr, t);
  EngineScope es;
  acquire(G->f[t].vc);
  G->f[t].joined = true;
  ev_thread(OP_JOIN, t, t);
  if (ret) *ret = G->f[t].ret;
  return 0;
}
EXPORT int pthread_detach(pthread_t th) {
  if (!on_fiber()) {
    REAL(pthread_detach, int (*)(pthread_t));
    return r(th);
  }
  return 0;
}
EXPORT pthread_t pthread_self(void) noexcept {
  if (G && G->active && G->cur >= 0) return (pthread_t)(G->cur + 1);
  REAL(pthread_self, pthread_t(*)(void));
  return r();
}
EXPORT int pthread_setname_np(pthread_t, const char*) noexcept { return 0; }
EXPORT int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  if (!use_model(o)) {
    REAL(pthread_once, int (*)(pthread_once_t*, void (*)(void)));
    return r(o, fn);
  }
  check_live((uptr)o);
  point_op(OP_ONCE, (uptr)o);
  Obj* ob = &obj((uptr)o);
  if (ob->once == 2) {
    acquire(ob->vc);
    ev_read(OP_ONCE, (uptr)o);
    return 0;
  }
  ob->once = 1;
  ev_write(OP_ONCE, (uptr)o);
  try {
    fn();
  } catch (...) {
    ob = &obj((uptr)o);
    ob->once = 0;
    ev_write(OP_ONCE_DONE, (uptr)o, 1);
    throw;
  }
  ob = &obj((uptr)o);
  ob->once = 2;
  release_join(ob->vc);
  ev_write(OP_ONCE_DONE, (uptr)o);
  return 0;
}
// ---- function-local statics
EXPORT int mcx_guard_acquire(void* g) asm("__cxa_guard_acquire");
EXPORT int mcx_guard_acquire(void* g) {
  if (!use_model(g)) {
    REAL(__cxa_guard_acquire, int (*)(void*));
    return r(g);
  }
  point_op(OP_ONCE, (uptr)g, "static init guard");
  Obj& o = obj((uptr)g);
  if (*(volatile u8*)g) {
    acquire(o.vc);
    ev_read(OP_ONCE, (uptr)g);
    return 0;
  }
  o.once = 1;
  ev_write(OP_ONCE, (uptr)g);
  return 1;
}
EXPORT void mcx_guard_release(void* g) asm("__cxa_guard_release");
EXPORT void mcx_guard_release(void* g) {
  if (!use_model(g)) {
    REAL(__cxa_guard_release, void (*)(void*));
    return r(g);
  }
  Obj& o = obj((uptr)g);
  *(volatile u8*)g = 1;
  o.once = 0;
  o.guard = true;
  release_join(o.vc);
  ev_write(OP_ONCE_DONE, (uptr)g);
}
EXPORT void mcx_guard_abort(void* g) asm("__cxa_guard_abort");
EXPORT void mcx_guard_abort(void* g) {
  if (!use_model(g)) {
    REAL(__cxa_guard_abort, void (*)(void*));
    return r(g);
  }
  Obj& o = obj((uptr)g);
  o.once = 0;
  ev_write(OP_ONCE_DONE, (uptr)g, 1);
}
EXPORT int __cxa_thread_atexit(void (*fn)(void*), void* o, void* dso) noexcept {
  if (!on_fiber()) {
    REAL(__cxa_thread_atexit, int (*)(void (*)(void*), void*, void*));
    return r(fn, o, dso);
  }
  EngineScope es;
  G->f[G->cur].tls_dtors->push_back({fn, o});
  return 0;
}
EXPORT int __cxa_atexit(void (*fn)(void*), void* o, void* dso) {
  // destructors of function-local statics created inside an execution are dropped with the execution
  if (on_fiber()) return 0;
  typedef int (*T)(void (*)(void*), void*, void*);
  static T r = real<T>("__cxa_atexit");
  return r(fn, o, dso);
}
// ---- exception objects are reference counted inside libstdc++, where no access is instrumented: order the
// reference-count operations of all exception objects (one clock).
namespace {
void exception_refcount() {
  if (!on_fiber()) return;
  EngineScope es;
  Obj& o = G->objs[8];
  acquire(o.vc);
  release_join(o.vc);
}
}  // namespace
EXPORT void mcx_end_catch(void) asm("__cxa_end_catch");
EXPORT void mcx_end_catch(void) {
  REAL(__cxa_end_catch, void (*)(void));
  exception_refcount();
  r();
}
EXPORT void mcx_exc_addref(void* p) asm("_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv");
EXPORT void mcx_exc_addref(void* p) {
  REAL(_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv, void (*)(void*));
  exception_refcount();
  r(p);
}
EXPORT void mcx_exc_release(void* p) asm("_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv");
EXPORT void mcx_exc_release(void* p) {
  REAL(_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv, void (*)(void*));
  exception_refcount();
  r(p);
}
// ---- std::future's futex
namespace std {
struct __atomic_futex_unsigned_base {
  bool _M_futex_wait_until(unsigned*, unsigned, bool, chrono::seconds, chrono::nanoseconds);
  bool _M_futex_wait_until_steady(unsigned*, unsigned, bool, chrono::seconds, chrono::nanoseconds);
  static void _M_futex_notify_all(unsigned*);
};
__attribute__((visibility("default"))) bool __atomic_futex_unsigned_base::_M_futex_wait_until(
    unsigned* a, unsigned v, bool has_to, chrono::seconds s, chrono::nanoseconds ns) {
  if (!on_fiber()) internal_error("future wait outside a fiber");
  point_op(OP_FUTEX_WAIT, (uptr)a);
  {
    EngineScope es;
    ev_write(OP_FUTEX_WAIT, (uptr)a);
    if (*(volatile unsigned*)a != v) return true;
    Fiber& f = G->f[G->cur];
    f.pend.op = OP_FUTEX_BLOCKED;
    f.pend.obj = (uptr)a;
    f.timed = has_to;
    f.deadline = s.count() * 1000000000ll + ns.count();
    f.woken_timeout = false;
  }
  block();
  G->f[G->cur].timed = false;
  return !G->f[G->cur].woken_timeout;
}
__attribute__((visibility("default"))) bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(
    unsigned* a, unsigned v, bool has_to, chrono::seconds s, chrono::nanoseconds ns) {
  return _M_futex_wait_until(a, v, has_to, s, ns);
}
__attribute__((visibility("default"))) void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* a) {
  if (!on_fiber()) return;
  // no scheduling point: the notification follows the store it belongs to
  EngineScope es;
  ev_write(OP_FUTEX_WAKE, (uptr)a);
  for (int i = 0; i < G->nthreads; ++i) {
    Fiber& f = G->f[i];
    if (f.exists && !f.finished && f.pend.op == OP_FUTEX_BLOCKED && f.pend.obj == (uptr)a) {
      f.pend.op = OP_POINT;
      f.pend.obj = 0;
      f.timed = false;
      ev_thread(OP_FUTEX_WAKE, i, (uptr)a);
    }
  }
}
}  // namespace std

// ---- time
EXPORT int clock_gettime(clockid_t k, struct timespec* ts) noexcept {
  if (!on_fiber()) {
    REAL(clock_gettime, int (*)(clockid_t, struct timespec*));
    return r(k, ts);
  }
  ts->tv_sec = G->vclock / 1000000000ll;
  ts->tv_nsec = G->vclock % 1000000000ll;
  return 0;
}
EXPORT int gettimeofday(struct timeval* tv, void* tz) noexcept {
  if (!on_fiber()) {
    REAL(gettimeofday, int (*)(struct timeval*, void*));
    return r(tv, tz);
  }
  tv->tv_sec = G->vclock / 1000000000ll;
  tv->tv_usec = G->vclock % 1000000000ll / 1000;
  return 0;
}
EXPORT time_t time(time_t* t) noexcept {
  if (!on_fiber()) {
    REAL(time, time_t(*)(time_t*));
    return r(t);
  }
  time_t v = G->vclock / 1000000000ll;
  if (t) *t = v;
  return v;
}
static int vsleep(int64_t ns) {
  Fiber& f = G->f[G->cur];
  point_op(OP_YIELD, 0);
  {
    EngineScope es;
    ev_local(OP_SLEEP, 0);
    f.pend.op = OP_SLEEP;
    f.pend.obj = 0;
    f.timed = true;
    f.deadline = G->vclock + ns;
  }
  block();
  f.timed = false;
  return 0;
}
EXPORT int usleep(useconds_t us) {
  if (!on_fiber()) { struct timespec ts = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000}; return syscall(35, &ts, nullptr); }
  return vsleep(us * 1000ll);
}
EXPORT int nanosleep(const struct timespec* ts, struct timespec* rem) {
  if (!on_fiber()) return syscall(35, ts, rem);
  return vsleep(ts_ns(ts));
}
EXPORT int clock_nanosleep(clockid_t k, int fl, const struct timespec* ts, struct timespec* rem) {
  if (!on_fiber()) {
    REAL(clock_nanosleep, int (*)(clockid_t, int, const struct timespec*, struct timespec*));
    return r(k, fl, ts, rem);
  }
  return vsleep((fl & TIMER_ABSTIME) ? std::max<int64_t>(0, ts_ns(ts) - G->vclock) : ts_ns(ts));
}
EXPORT unsigned sleep(unsigned s) {
  if (!on_fiber()) { struct timespec ts = {(time_t)s, 0}; syscall(35, &ts, nullptr); return 0; }
  vsleep(s * 1000000000ll);
  return 0;
}
EXPORT int sched_yield(void) noexcept {
  if (!on_fiber()) return syscall(24);
  Fiber& f = G->f[G->cur];
  f.yielded = true;
  point_op(OP_YIELD, 0);
  return 0;
}
EXPORT void abort(void) noexcept {
  if (on_fiber()) do_fail("abort", "abort() called" + pcs_desc());
  signal(SIGABRT, SIG_DFL);
  raise(SIGABRT);
  _exit(134);
}

extern "C" __attribute__((visibility("default"))) [[noreturn]] void mcx_check_failed(const char* file, int line, const char* what) {
  const char* b = strrchr(file, '/');
  if (on_fiber() && G->f[G->cur].refusals) throw mcx::Refused();
  if (on_fiber()) do_fail("check-failed", fmt("%s:%d: %s", b ? b + 1 : file, line, what) + pcs_desc());
  fprintf(stderr, "%s:%d: %s\n", file, line, what);
  _exit(5);
}
namespace mcx {
__attribute__((visibility("default"))) ExpectRefusal::ExpectRefusal() { if (on_fiber()) ++G->f[G->cur].refusals; }
__attribute__((visibility("default"))) ExpectRefusal::~ExpectRefusal() { if (on_fiber()) --G->f[G->cur].refusals; }
}  // namespace mcx
// ---- memory
EXPORT void* malloc(size_t n) {
  if (on_fiber()) return arena_alloc(n, 16);
  return __libc_malloc(n);
}
EXPORT void free(void* p) {
  if (!p) return;
  if (in_arena((uptr)p)) { if (on_fiber()) arena_free(p); return; }
  if (on_fiber()) return;  // memory from before the execution: keep it for the next execution
  __libc_free(p);
}
EXPORT void* calloc(size_t a, size_t b) {
  if (on_fiber()) {
    void* p = arena_alloc(a * b, 16);
    memset(p, 0, a * b);
    return p;
  }
  return __libc_calloc(a, b);
}
EXPORT size_t malloc_usable_size(void* p) noexcept;
EXPORT void* realloc(void* p, size_t n) {
  if (p && in_arena((uptr)p)) {
    if (!on_fiber()) internal_error("realloc of arena memory outside a fiber");
    Block* b = find_block((uptr)p);
    void* q = arena_alloc(n, 16);
    memcpy(q, p, std::min(n, b->size));
    arena_free(p);
    return q;
  }
  if (on_fiber()) {
    void* q = arena_alloc(n, 16);
    if (p) { EngineScope es; memcpy(q, p, std::min(n, malloc_usable_size(p))); }
    return q;
  }
  return __libc_realloc(p, n);
}
EXPORT void* memalign(size_t al, size_t n) {
  if (on_fiber()) return arena_alloc(n, al);
  return __libc_memalign(al, n);
}
EXPORT void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
EXPORT int posix_memalign(void** p, size_t al, size_t n) {
  *p = memalign(al, n);
  return *p ? 0 : ENOMEM;
}
EXPORT size_t malloc_usable_size(void* p) noexcept {
  if (in_arena((uptr)p)) { Block* b = find_block((uptr)p); return b ? b->size : 0; }
  REAL(malloc_usable_size, size_t (*)(void*));
  return r(p);
}

// ---- range accesses of instrumented code (objcopy redirects its calls here)
EXPORT void* mcx_memcpy(void* d, const void* s, size_t n) {
  access((uptr)s, n, false); access((uptr)d, n, true);
  return memcpy(d, s, n);
}
EXPORT void* mcx_memmove(void* d, const void* s, size_t n) {
  access((uptr)s, n, false); access((uptr)d, n, true);
  return memmove(d, s, n);
}
EXPORT void* mcx_memset(void* d, int c, size_t n) {
  access((uptr)d, n, true);
  return memset(d, c, n);
}
EXPORT int mcx_memcmp(const void* a, const void* b, size_t n) {
  access((uptr)a, n, false); access((uptr)b, n, false);
  return memcmp(a, b, n);
}

// ---- libstdc++ tree and list internals write nodes from uninstrumented code
namespace std {
struct _Rb_tree_node_base;
__attribute__((visibility("default"))) void _Rb_tree_insert_and_rebalance(bool l, _Rb_tree_node_base* x, _Rb_tree_node_base* p,
                                                                        _Rb_tree_node_base& h) noexcept {
  typedef void (*T)(bool, _Rb_tree_node_base*, _Rb_tree_node_base*, _Rb_tree_node_base&);
  static T r = real<T>("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
  access((uptr)x, 32, true); access((uptr)p, 32, true); access((uptr)&h, 32, true);
  r(l, x, p, h);
}
__attribute__((visibility("default"))) _Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* z,
                                                                                      _Rb_tree_node_base& h) noexcept {
  typedef _Rb_tree_node_base* (*T)(_Rb_tree_node_base*, _Rb_tree_node_base&);
  static T r = real<T>("_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_");
  access((uptr)z, 32, true); access((uptr)&h, 32, true);
  return r(z, h);
}
__attribute__((visibility("default"))) _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept {
  typedef _Rb_tree_node_base* (*T)(_Rb_tree_node_base*);
  static T r = real<T>("_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base");
  access((uptr)x, 32, false);
  return r(x);
}
__attribute__((visibility("default"))) const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept {
  typedef const _Rb_tree_node_base* (*T)(const _Rb_tree_node_base*);
  static T r = real<T>("_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base");
  access((uptr)x, 32, false);
  return r(x);
}
namespace __detail {
struct _List_node_base {
  _List_node_base* n; _List_node_base* p;
  void _M_hook(_List_node_base*) noexcept;
  void _M_unhook() noexcept;
};
__attribute__((visibility("default"))) void _List_node_base::_M_hook(_List_node_base* pos) noexcept {
  access((uptr)pos, 16, true); access((uptr)this, 16, true); access((uptr)pos->p, 8, true);
  n = pos; p = pos->p; pos->p->n = this; pos->p = this;
}
__attribute__((visibility("default"))) void _List_node_base::_M_unhook() noexcept {
  access((uptr)this, 16, false); access((uptr)n, 16, true); access((uptr)p, 8, true);
  n->p = p; p->n = n;
}
}  // namespace __detail
}  // namespace std

// ============================================================================================ tsan ABI
#define TS EXPORT
TS void __tsan_init() {}
TS void __tsan_func_entry(void*) {
  if (!on_fiber()) return;
  Fiber& f = G->f[G->cur];
  if (f.pcn < 256) f.pcs[f.pcn] = (uptr)__builtin_return_address(0);
  ++f.pcn;
}
TS void __tsan_func_exit() {
  if (!on_fiber()) return;
  Fiber& f = G->f[G->cur];
  if (f.pcn > 0) --f.pcn;
}
#define RW(n)                                                                     \
  TS void __tsan_read##n(void* a) { access((uptr)a, n, false); }                  \
  TS void __tsan_write##n(void* a) { access((uptr)a, n, true); }                  \
  TS void __tsan_unaligned_read##n(void* a) { access((uptr)a, n, false); }        \
  TS void __tsan_unaligned_write##n(void* a) { access((uptr)a, n, true); }        \
  TS void __tsan_volatile_read##n(void* a) { access((uptr)a, n, false); }         \
  TS void __tsan_volatile_write##n(void* a) { access((uptr)a, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
TS void __tsan_read_range(void* a, size_t n) { access((uptr)a, n, false); }
TS void __tsan_write_range(void* a, size_t n) { access((uptr)a, n, true); }
TS void __tsan_vptr_update(void** a, void* v) { if (*a != v) access((uptr)a, 8, true); }
TS void __tsan_vptr_read(void** a) { access((uptr)a, 8, false); }

namespace {
inline bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
inline bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
// reference counts of shared_ptr control blocks ({vptr, use, weak}) are tracked but are not scheduling points
inline bool is_refcount(uptr a, int size) {
  if (size != 4 || !in_arena(a)) return false;
  Block* b = find_block(a);
  if (!b) return false;
  uptr off = a - b->addr;
  if (off != 8 && off != 12) return false;
  // the first word must look like a vtable pointer of the executable or a library
  uptr v = *(uptr*)b->addr;
  return v > 0x10000 && !in_arena(v) && (v & 7) == 0 && v < 0x800000000000ull;
}
inline bool is_done_guard(uptr a, int size) {
  if (size != 1) return false;
  auto it = G->objs.find(a);
  return it != G->objs.end() && it->second.guard;
}

void atomic_pre(uptr a, int size, bool load_only) {
  check_live(a);
  if (!is_refcount(a, size) && !is_done_guard(a, size)) point_op(load_only ? OP_ATOMIC_LOAD : OP_ATOMIC_RMW, a);
  check_live(a);
}
void atomic_load_effect(uptr a, int mo) {
  EngineScope es;
  Obj& o = obj(a);
  Fiber& f = G->f[G->cur];
  if (is_acq(mo)) f.vc.join(o.vc); else f.acqpend.join(o.vc);
  ev_read(OP_ATOMIC_LOAD, a);
}
void atomic_store_effect(uptr a, int mo, bool rmw) {
  EngineScope es;
  Obj& o = obj(a);
  Fiber& f = G->f[G->cur];
  if (rmw) {
    if (is_acq(mo)) f.vc.join(o.vc); else f.acqpend.join(o.vc);
    if (is_rel(mo)) release_join(o.vc); else o.vc.join(f.relfence);
  } else {
    if (is_rel(mo)) release_set(o.vc); else o.vc = f.relfence;
  }
  ev_write(OP_ATOMIC_RMW, a);
}
}  // namespace

#define ATOMIC(bits, T)                                                                                             \
  TS T __tsan_atomic##bits##_load(const volatile T* a, int mo) {                                                    \
    if (!use_model((const void*)a)) return *a;                                                                      \
    atomic_pre((uptr)a, sizeof(T), true);                                                                           \
    atomic_load_effect((uptr)a, mo);                                                                                \
    return *a;                                                                                                      \
  }                                                                                                                 \
  TS void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) {                                                 \
    if (use_model((const void*)a)) {                                                                                \
      atomic_pre((uptr)a, sizeof(T), false);                                                                        \
      atomic_store_effect((uptr)a, mo, false);                                                                      \
    }                                                                                                               \
    *a = v;                                                                                                         \
  }                                                                                                                 \
  TS T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) {                                                 \
    if (use_model((const void*)a)) {                                                                                \
      atomic_pre((uptr)a, sizeof(T), false);                                                                        \
      atomic_store_effect((uptr)a, mo, true);                                                                       \
    }                                                                                                               \
    T o = *a; *a = v; return o;                                                                                     \
  }                                                                                                                 \
  RMW(bits, T, add, o + v) RMW(bits, T, sub, o - v) RMW(bits, T, and, o & v) RMW(bits, T, or, o | v)                \
  RMW(bits, T, xor, o ^ v) RMW(bits, T, nand, ~(o & v))                                                             \
  TS int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) {                 \
    bool m = use_model((const void*)a);                                                                             \
    if (m) atomic_pre((uptr)a, sizeof(T), false);                                                                   \
    if (*a == *c) { if (m) atomic_store_effect((uptr)a, mo, true); *a = v; return 1; }                              \
    if (m) atomic_load_effect((uptr)a, fmo);                                                                        \
    *c = *a;                                                                                                        \
    return 0;                                                                                                       \
  }                                                                                                                 \
  TS int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) {                   \
    return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo);                                         \
  }                                                                                                                 \
  TS T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) {                       \
    __tsan_atomic##bits##_compare_exchange_strong(a, &c, v, mo, fmo);                                               \
    return c;                                                                                                       \
  }
#define RMW(bits, T, name, expr)                                                  \
  TS T __tsan_atomic##bits##_fetch_##name(volatile T* a, T v, int mo) {           \
    if (use_model((const void*)a)) {                                              \
      atomic_pre((uptr)a, sizeof(T), false);                                      \
      atomic_store_effect((uptr)a, mo, true);                                     \
    }                                                                             \
    T o = *a; *a = (T)(expr); return o;                                           \
  }
ATOMIC(8, u8) ATOMIC(16, u16) ATOMIC(32, u32) ATOMIC(64, u64) ATOMIC(128, unsigned __int128)
TS void __tsan_atomic_thread_fence(int mo) {
  if (!on_fiber()) return;
  Fiber& f = G->f[G->cur];
  if (is_acq(mo)) f.vc.join(f.acqpend);
  if (is_rel(mo)) { f.relfence = f.vc; tick(); }
}
TS void __tsan_atomic_signal_fence(int) {}
