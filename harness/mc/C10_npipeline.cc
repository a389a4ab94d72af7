// VisualNPipeline: every blocking call returns when it can, and at the latest when the pipeline is shut down.
#include "npipe_common.h"

using namespace np;

namespace {
// A consumer's blocking call; true if it delivered.
bool get_blocking(Sys& s, bool latest, Set* out = nullptr) {
  bool ok = false;
  s.hist.run(latest ? "getLatestAndClearBlocking" : "getNextBlocking", [&] {
    std::shared_ptr<aslam::VisualNFrame> f;
    ok = latest ? s.p->getLatestAndClearBlocking(&f) : s.p->getNextBlocking(&f);
    const bool o = ok;
    if (ok) MCX_CHECK(f != nullptr, "a blocking call reports success without an nframe");
    Set r = s.look(f);
    mcx::Ignore ig;
    if (out) *out = r;
    return [o, r, latest](Model& m) { return !o || (!r.empty() && (latest ? m.latest(r) : m.next(r))); };
  });
  return ok;
}
bool put_blocking(Sys& s, size_t cam, int64_t t, size_t max) {
  bool ok = false;
  s.hist.run("processImageBlockingIfFull", [&] {
    ok = s.p->processImageBlockingIfFull(cam, s.image(), t, max);
    { mcx::Ignore ig; s.accepted += ok; }
    const bool o = ok;
    return [o, max](Model& m) { return !o || m.completed.size() < max; };
  });
  return ok;
}
void quiet(Sys& s) {
  s.p->waitForAllWorkToComplete();
  MCX_CHECK(s.processed == s.accepted, "%d images were accepted and %d processed", s.accepted, s.processed);
  s.all_inserted();
  s.counts(true);
  s.hist.check(s.initial());
}
void set(Sys& s, int k) {
  s.p->processImage(0, s.image(), 100 * k);
  s.p->processImage(1, s.image(), 100 * k);
  mcx::Ignore ig;
  s.accepted += 2;
}

// Blocking consumers get everything that is fed.
void consume(size_t workers, int consumers, bool latest) {
  Sys s(2, workers);
  std::vector<std::thread> t;
  int got = 0;
  for (int i = 0; i < consumers; ++i)
    t.push_back(std::thread([&] {
      MCX_CHECK(get_blocking(s, latest), "a blocking call gave up although the pipeline was not shut down");
      mcx::Ignore ig;
      ++got;
    }));
  for (int i = 0; i < consumers; ++i) set(s, i + 1);
  for (auto& x : t) x.join();
  MCX_CHECK(got == consumers, "a consumer did not return");
  quiet(s);
}

// shutdown() releases everybody who waits.
void shutdown_consumers(size_t workers, int consumers, int sets) {
  const bool latest = mcx::choose(2, "latest") != 0;
  Sys s(2, workers);
  for (int k = 1; k <= sets; ++k) set(s, k);
  std::vector<std::thread> t;
  for (int i = 0; i < consumers; ++i)
    t.push_back(std::thread([&] {
      const bool ok = get_blocking(s, latest);
      mcx::Ignore ig;
      mcx::outcome(ok ? "delivered" : "released");
    }));
  s.p->shutdown();
  for (auto& x : t) x.join();
  std::shared_ptr<aslam::VisualNFrame> f;
  MCX_CHECK(!s.p->getNextBlocking(&f) && !s.p->getLatestAndClearBlocking(&f), "a blocking call succeeds after shutdown()");
  quiet(s);
}

// A producer that waits for room, a consumer that makes it.
void produce(size_t workers, int images, int how) {
  Sys s(2, workers);
  std::thread t([&] {
    for (int i = 0; i < images; ++i)
      MCX_CHECK(put_blocking(s, i % 2, 100 * (i / 2 + 1), 1), "processImageBlockingIfFull() gave up although the pipeline was not shut down");
  });
  if (how == 0) {
    for (int k = 0; k < images / 2; ++k) MCX_CHECK(get_blocking(s, false), "getNextBlocking() gave up");
  } else {
    // the non-blocking ways to make room: one nframe is taken, then the producer must get on by itself
    MCX_CHECK(get_blocking(s, how == 1), "a blocking call gave up");
  }
  t.join();
  quiet(s);
}
// The producer's next image only fits once the first nframe is gone, which a non-blocking call takes.
void make_room(size_t workers, int how) {
  Sys s(2, workers);
  set(s, 1);
  s.p->waitForAllWorkToComplete();
  s.all_inserted();
  std::thread t([&] {
    MCX_CHECK(put_blocking(s, 0, 200, 1), "processImageBlockingIfFull() gave up although the pipeline was not shut down");
  });
  if (how == 0) s.get_next();
  if (how == 1) s.get_latest();
  if (how == 2) {
    s.hist.run("drop if full", [&] {
      const bool d = s.p->processImageNonBlockingDroppingOldestNFrameIfFull(1, s.image(), 200, 1);
      { mcx::Ignore ig; ++s.accepted; }
      return [d](Model& m) {
        const bool full = !m.completed.empty();
        if (full) m.completed.erase(m.completed.begin());
        return d == full;
      };
    });
  }
  if (how == 3) MCX_CHECK(get_blocking(s, false), "getNextBlocking() gave up");
  if (how == 4) MCX_CHECK(get_blocking(s, true), "getLatestAndClearBlocking() gave up");
  t.join();
  quiet(s);
}

// shutdown() releases a producer that waits; whatever was accepted is processed, whatever was refused is not.
void shutdown_producer(size_t workers, bool full) {
  Sys s(2, workers);
  if (full) {
    set(s, 1);
    s.p->waitForAllWorkToComplete();
    s.all_inserted();
  }
  std::thread t([&] {
    const bool a = put_blocking(s, 0, 200, 1), b = put_blocking(s, 1, 200, 1);
    MCX_CHECK(!b || a, "an image was accepted after shutdown()");
    mcx::Ignore ig;
    mcx::outcome(std::string(a ? "accepted" : "refused") + (b ? " accepted" : " refused"));
  });
  s.p->shutdown();
  const bool late = put_blocking(s, 0, 300, 1);
  MCX_CHECK(!late, "an image was accepted after shutdown() returned");
  t.join();
  quiet(s);
}

// The destructor waits for the images that were accepted and touches nothing afterwards.
void destroy(size_t workers) {
  Sys s(2, workers);
  set(s, 1);
  if (mcx::choose(2, "more")) s.p->processImage(0, s.image(), 200), ++s.accepted;
  s.p.reset();
  mcx::Ignore ig;
  MCX_CHECK(s.processed == s.accepted, "%d images were accepted and %d processed when the destructor returned", s.accepted, s.processed);
}
}  // namespace

int main(int argc, char** argv) {
  std::vector<mcx::Scenario> v;
  v.push_back({"consume-1", "a blocking consumer, 1 nframe, 1 worker", [] { consume(1, 1, false); }, B(2, 1), B(-1, 1)});
  v.push_back({"consume-latest-1", "a consumer of the latest, 1 nframe, 1 worker", [] { consume(1, 1, true); }, B(2, 1), B(-1, 1)});
  v.push_back({"consume-2", "two blocking consumers, 2 nframes, 1 worker", [] { consume(1, 2, false); }, B(2), B(2, 1)});
  v.push_back({"consume-2-2w", "two blocking consumers, 2 nframes, 2 workers", [] { consume(2, 2, false); }, B(1), B(2)});
  v.push_back({"shutdown-waiting", "shutdown() against a blocked consumer", [] { shutdown_consumers(1, 1, 0); }, B(-1, 1), B(-1, 2)});
  v.push_back({"shutdown-waiting-2", "shutdown() against two blocked consumers", [] { shutdown_consumers(1, 2, 0); }, B(2), B(3, 1)});
  v.push_back({"shutdown-busy", "shutdown() against a consumer while an nframe is completed", [] { shutdown_consumers(1, 1, 1); }, B(2), B(3)});
  v.push_back({"shutdown-busy-2w", "shutdown() against a consumer while an nframe is completed, 2 workers", [] { shutdown_consumers(2, 1, 1); }, B(1), B(2)});
  v.push_back({"produce", "a blocked producer and a consumer, queue of 1, 3 nframes", [] { produce(1, 6, 0); }, B(1), B(2)});
  v.push_back({"produce-2w", "a blocked producer and a consumer, queue of 1, 2 nframes, 2 workers", [] { produce(2, 4, 0); }, B(1), B(2)});
  const char* const hows[] = {"getNext", "getLatestAndClear", "drop-if-full", "getNextBlocking", "getLatestAndClearBlocking"};
  for (int h = 0; h < 5; ++h)
    v.push_back({std::string("room-") + hows[h], std::string("a blocked producer gets on after ") + hows[h], [h] { make_room(1, h); }, B(2, 1), B(3, 1)});
  v.push_back({"shutdown-producer", "shutdown() against a producer", [] { shutdown_producer(1, false); }, B(2), B(3)});
  v.push_back({"shutdown-producer-full", "shutdown() against a producer that waits for room", [] { shutdown_producer(1, true); }, B(2, 1), B(3, 1)});
  v.push_back({"shutdown-producer-2w", "shutdown() against a producer, 2 workers", [] { shutdown_producer(2, false); }, B(1), B(2)});
  v.push_back({"destroy", "destruction with images queued, 1 worker", [] { destroy(1); }, B(2), B(-1)});
  v.push_back({"destroy-2w", "destruction with images queued, 2 workers", [] { destroy(2); }, B(1), B(2)});
  return mcx::run_main(argc, argv, "C10", v);
}
