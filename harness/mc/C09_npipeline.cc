// VisualNPipeline used by several threads: what comes out is what one image after the other would give.
#include "npipe_common.h"

using namespace np;

namespace {
typedef std::vector<std::pair<size_t, int64_t>> Feed;  // camera, time

void feed(Sys& s, const Feed& f) {
  for (const auto& i : f) s.p->processImage(i.first, s.image(), i.second);
}
void finish(Sys& s, size_t images, bool drain_latest) {
  s.p->waitForAllWorkToComplete();
  MCX_CHECK(s.processed == (int)images, "%d of %zu images were processed when waitForAllWorkToComplete() returned", s.processed, images);
  s.all_inserted();
  s.counts(true);
  std::string out;
  for (;;) {
    const Set r = drain_latest ? s.get_latest() : s.get_next();
    mcx::Ignore ig;
    if (r.empty()) break;
    out += Sys::text(r) + " ";
  }
  s.counts(true);
  s.hist.check(s.initial());
  mcx::outcome(out);
}

// Two image sets in every order of arrival, with the second camera's clock off by `off`.
void drain(size_t workers, size_t sets) {
  const int64_t off = mcx::choose(2, "offset") ? kTol + 1 : kTol;
  Feed f;
  const int order = mcx::choose(3, "order");
  for (size_t k = 0; k < sets; ++k) {
    const int64_t t = 100 * (k + 1);
    if (order == 0) { f.push_back({0, t}); f.push_back({1, t + off}); }
    if (order == 1) { f.push_back({1, t - off}); f.push_back({0, t}); }
  }
  if (order == 2) {
    for (size_t k = 0; k < sets; ++k) f.push_back({0, 100 * (int64_t)(k + 1)});
    for (size_t k = sets; k-- > 0;) f.push_back({1, 100 * (int64_t)(k + 1) + off});
  }
  const bool latest = mcx::choose(2, "drain") != 0;
  Sys s(2, workers);
  feed(s, f);
  finish(s, f.size(), latest);
}

// One thread per camera, as in a real driver.
void producers(size_t sets) {
  Sys s(2, 2);
  {
    std::thread t([&] { for (size_t k = 0; k < sets; ++k) s.p->processImage(1, s.image(), 100 * (k + 1) + 3); });
    for (size_t k = 0; k < sets; ++k) s.p->processImage(0, s.image(), 100 * (k + 1));
    t.join();
  }
  finish(s, 2 * sets, false);
}

// A consumer looks while images arrive.
void consumer(size_t workers, int kind) {
  const Feed f = {{0, 100}, {1, 103}, {1, 203}, {0, 200}};
  Sys s(2, workers);
  std::thread t([&] {
    for (int i = 0; i < 2; ++i) {
      if (kind == 0) s.get_next();
      else if (kind == 1) s.get_latest();
      else s.counts(true);
    }
  });
  feed(s, f);
  t.join();
  finish(s, f.size(), false);
}

// The output queue is kept at `max` nframes by dropping the oldest.
void dropping(size_t workers, size_t max) {
  const Feed f = {{0, 100}, {1, 100}, {0, 200}, {1, 200}};
  Sys s(2, workers);
  for (const auto& i : f) {
    const std::string nm = "drop if full";
    s.hist.run(nm, [&] {
      const bool d = s.p->processImageNonBlockingDroppingOldestNFrameIfFull(i.first, s.image(), i.second, max);
      return [d, max](Model& m) {
        const bool full = m.completed.size() >= max;
        if (full) m.completed.erase(m.completed.begin());
        return d == full;
      };
    });
  }
  finish(s, f.size(), false);
}

// A camera that lost an image: its nframe is given up once two later ones are complete.
void lost(size_t workers) {
  const Feed f = {{0, 100}, {0, 200}, {0, 300}, {0, 400}, {1, 300}, {1, 400}};
  Sys s(2, workers);
  feed(s, f);
  finish(s, f.size(), false);
}
}  // namespace

int main(int argc, char** argv) {
  std::vector<mcx::Scenario> v;
  v.push_back({"drain-1w", "1 worker, 2 image sets, every order of arrival, offset at and above the tolerance; then drained", [] { drain(1, 2); }, B(2), B(-1)});
  v.push_back({"drain-2w", "2 workers, 2 image sets, every order of arrival, offset at and above the tolerance; then drained", [] { drain(2, 2); }, B(1), B(2)});
  v.push_back({"drain-3w", "3 workers, 1 image set twice as fast", [] { drain(3, 1); }, B(1), B(2)});
  v.push_back({"producers-1", "one producing thread per camera, 1 image each, 2 workers", [] { producers(1); }, B(2), B(3)});
  v.push_back({"producers-2", "one producing thread per camera, 2 images each, 2 workers", [] { producers(2); }, B(1), B(2)});
  v.push_back({"consumer-next", "getNext() while images arrive", [] { consumer(1, 0); }, B(2), B(3)});
  v.push_back({"consumer-latest", "getLatestAndClear() while images arrive", [] { consumer(1, 1); }, B(2), B(3)});
  v.push_back({"consumer-counts", "the counters while images arrive", [] { consumer(1, 2); }, B(1), B(2)});
  v.push_back({"consumer-next-2w", "getNext() while images arrive, 2 workers", [] { consumer(2, 0); }, B(1), B(2)});
  v.push_back({"consumer-latest-2w", "getLatestAndClear() while images arrive, 2 workers", [] { consumer(2, 1); }, B(1), B(2)});
  v.push_back({"dropping", "processImageNonBlockingDroppingOldestNFrameIfFull() with a queue of 1, 1 worker", [] { dropping(1, 1); }, B(2), B(3)});
  v.push_back({"dropping-2w", "processImageNonBlockingDroppingOldestNFrameIfFull() with a queue of 1, 2 workers", [] { dropping(2, 1); }, B(1), B(2)});
  v.push_back({"lost-image", "4 sets, the first two incomplete, 2 workers", [] { lost(2); }, B(1), B(1)});
  return mcx::run_main(argc, argv, "C09", v);
}
