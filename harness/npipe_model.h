// The documented behaviour of VisualNPipeline, one image at a time.
#ifndef NPIPE_MODEL_H_
#define NPIPE_MODEL_H_
#include <cstdint>
#include <cstdlib>
#include <iterator>
#include <map>
#include <vector>
namespace np {
constexpr int64_t kTol = 10;
typedef std::vector<int64_t> Set;  // the time of each camera's frame; kUnset if there is none
constexpr int64_t kUnset = -1;

struct Model {
  size_t cams = 2;
  std::map<int64_t, Set> processing, completed;

  static bool complete(const Set& s) {
    for (int64_t t : s) if (t == kUnset) return false;
    return true;
  }
  // `what` is what the nframe is to hold: the time if nothing else is given.
  void image(size_t cam, int64_t t) { image(cam, t, t); }
  void image(size_t cam, int64_t t, int64_t what) {
    // the nearest nframe that is being assembled, if it is near enough
    auto best = processing.end();
    for (auto it = processing.begin(); it != processing.end(); ++it) {
      const int64_t d = std::abs(it->first - t);
      if (d <= kTol && (best == processing.end() || d < std::abs(best->first - t))) best = it;
    }
    if (best == processing.end()) best = processing.emplace(t, Set(cams, kUnset)).first;
    best->second[cam] = what;
    // with more than three of them, everything before two complete ones in a row is given up
    if (processing.size() > 3) {
      for (auto a = processing.begin(), b = std::next(a); b != processing.end(); ++a, ++b) {
        if (complete(a->second) && complete(b->second)) {
          processing.erase(processing.begin(), a);
          break;
        }
      }
    }
    while (!processing.empty() && complete(processing.begin()->second)) {
      completed.insert(*processing.begin());
      processing.erase(processing.begin());
    }
  }
  bool next(const Set& r) {
    if (completed.empty()) return r.empty();
    if (r != completed.begin()->second) return false;
    completed.erase(completed.begin());
    return true;
  }
  bool latest(const Set& r) {
    if (completed.empty()) return r.empty();
    if (r != completed.rbegin()->second) return false;
    const int64_t t = completed.rbegin()->first;
    completed.clear();
    processing.erase(processing.begin(), processing.upper_bound(t));
    return true;
  }
};
}  // namespace np
#endif
