// Track identifiers are unique although several trackers take them at the same time.
#include <memory>
#include <set>
#include <string>
#include <thread>
#include <vector>

#include <aslam/common/memory.h>
#include <aslam/frames/visual-frame.h>
#include <aslam/matcher/match.h>
#include <aslam/tracker/track-manager.h>

#include "mcx.h"

using namespace aslam;
namespace {
void provider(int threads, int each, size_t initial) {
  ThreadSafeIdProvider<size_t> p(initial);
  std::vector<std::vector<size_t>> out(threads);
  std::vector<std::thread> th;
  for (int t = 0; t < threads; ++t) th.emplace_back([&, t] { for (int i = 0; i < each; ++i) out[t].push_back(p.getNewId()); });
  for (auto& t : th) t.join();
  mcx::Ignore ig;
  std::set<size_t> seen;
  for (auto& v : out) for (size_t i = 0; i < v.size(); ++i) {
    MCX_CHECK(v[i] >= initial && v[i] < initial + threads * each, "identifier %zu of %d", v[i], threads * each);
    MCX_CHECK(seen.insert(v[i]).second, "identifier %zu twice", v[i]);
    MCX_CHECK(i == 0 || v[i] > v[i - 1], "a thread's identifiers do not increase");
  }
}
// Every thread tracks its own camera: a chain of frames, and some keypoints already on a track.
void trackers(int threads, int keypoints, int frames) {
  TrackManager::resetIdProvider();
  std::vector<std::vector<std::unique_ptr<VisualFrame>>> f(threads);
  FrameToFrameMatches all;
  {
    mcx::Ignore ig;
    for (int t = 0; t < threads; ++t) for (int i = 0; i < frames; ++i) {
      f[t].emplace_back(new VisualFrame);
      f[t].back()->setKeypointMeasurements(Eigen::Matrix2Xd::Zero(2, keypoints));
    }
    for (int k = 0; k < keypoints; ++k) all.emplace_back(k, keypoints - 1 - k);
  }
  std::vector<std::thread> th;
  for (int t = 0; t < threads; ++t)
    th.emplace_back([&, t] {
      SimpleTrackManager m;
      for (int i = 0; i + 1 < frames; ++i) m.applyMatchesToFrames(all, f[t][i].get(), f[t][i + 1].get());
    });
  for (auto& t : th) t.join();
  mcx::Ignore ig;
  std::set<int> seen;
  for (int t = 0; t < threads; ++t) {
    for (int k = 0; k < keypoints; ++k) {
      const int id = f[t][0]->getTrackIds()(k);
      MCX_CHECK(id >= 0 && seen.insert(id).second, "track id %d is not unique", id);
    }
    for (int i = 0; i + 1 < frames; ++i)
      for (int k = 0; k < keypoints; ++k)
        MCX_CHECK(f[t][i]->getTrackIds()(k) == f[t][i + 1]->getTrackIds()(keypoints - 1 - k), "a track changes its identifier");
  }
}
}  // namespace

int main(int argc, char** argv) {
  std::vector<mcx::Scenario> s;
  auto B = [](int p) { mcx::Bounds b; b.preemptions = p; return b; };
  s.push_back({"provider-2x3", "getNewId(), 2 threads, 3 ids each", [] { provider(2, 3, 0); }, B(-1), B(-1)});
  s.push_back({"provider-3x2", "getNewId(), 3 threads, 2 ids each", [] { provider(3, 2, 5); }, B(-1), B(-1)});
  s.push_back({"trackers-2x2", "2 trackers, 2 new tracks each", [] { trackers(2, 2, 2); }, B(-1), B(-1)});
  s.push_back({"trackers-3x1", "3 trackers, 1 new track over 3 frames each", [] { trackers(3, 1, 3); }, B(3), B(-1)});
  s.push_back({"trackers-2x2x3", "2 trackers, 2 new tracks over 3 frames each", [] { trackers(2, 2, 3); }, B(-1), B(-1)});
  return mcx::run_main(argc, argv, "C11", s);
}
