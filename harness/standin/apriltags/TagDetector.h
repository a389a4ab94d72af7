// Harness-only stand-in for the apriltags detector: it "detects" what the harness put into next().
#ifndef STANDIN_APRILTAGS_TAG_DETECTOR_H_
#define STANDIN_APRILTAGS_TAG_DETECTOR_H_
#include <cstddef>
#include <utility>
#include <vector>

#include <opencv2/core/core.hpp>

namespace AprilTags {
struct TagCodes {
  int bits = 36;
};
struct TagDetection {
  bool good = false;
  int id = 0;
  std::pair<float, float> p[4];  // corners, counter-clockwise from the lower left one
  static bool sortByIdCompare(const TagDetection& a, const TagDetection& b) { return a.id < b.id; }
  void draw(cv::Mat&) const {}
};
class TagDetector {
 public:
  explicit TagDetector(const TagCodes&, size_t black_border = 2) { last_border() = black_border; }
  std::vector<TagDetection> extractTags(const cv::Mat&) { return next(); }
  static std::vector<TagDetection>& next() { static std::vector<TagDetection> v; return v; }
  static size_t& last_border() { static size_t b; return b; }
};
}  // namespace AprilTags
#endif
