// A cv::Feature2D whose answers are chosen by the harness. Stand-in for the
// detectors and extractors of brisk and of opencv_xfeatures2d, which are not
// installed here.
#pragma once
#include <string>
#include <vector>

#include <opencv2/core/core.hpp>
#include <opencv2/features2d.hpp>

namespace featurestandin {
struct Call { bool detect; std::string made_as; cv::Mat image; std::vector<cv::KeyPoint> before; };
struct Stage {
  std::vector<cv::KeyPoint> found;      // what the detector answers
  std::vector<bool> kept;               // which of them the extractor keeps
  bool turns = false;                   // the extractor sets orientations
  int bytes = 4;                        // of a descriptor
  cv::Mat descriptors;                  // filled in by the extractor
  std::vector<Call> calls;
  int alive = 0;
};
extern Stage* stage;
inline uchar byteOf(int keypoint, int byte) { return uchar(keypoint * 37 + byte * 11 + 5); }

class Scripted : public cv::Feature2D {
 public:
  explicit Scripted(const std::string& made_as) : made_as_(made_as) { ++stage->alive; }
  ~Scripted() override { --stage->alive; }
  void detect(cv::InputArray image, std::vector<cv::KeyPoint>& keypoints, cv::InputArray mask = cv::noArray()) override {
    CV_Assert(mask.empty());
    stage->calls.push_back({true, made_as_, image.getMat(), keypoints});
    keypoints = stage->found;
  }
  void compute(cv::InputArray image, std::vector<cv::KeyPoint>& keypoints, cv::OutputArray descriptors) override {
    stage->calls.push_back({false, made_as_, image.getMat(), keypoints});
    std::vector<cv::KeyPoint> left;
    std::vector<int> which;
    for (size_t i = 0; i < keypoints.size(); ++i) {
      if (i < stage->kept.size() && !stage->kept[i]) continue;
      left.push_back(keypoints[i]);
      if (stage->turns) left.back().angle = 200 + i;
      which.push_back(i);
    }
    keypoints = left;
    descriptors.create(int(left.size()), stage->bytes, CV_8UC1);
    cv::Mat d = descriptors.getMat();
    for (int i = 0; i < d.rows; ++i) for (int b = 0; b < d.cols; ++b) d.at<uchar>(i, b) = byteOf(which[i], b);
  }
 private:
  std::string made_as_;
};
inline std::string fmt(const char* f, double a = 0, double b = 0, double c = 0, double d = 0) {
  char s[200];
  snprintf(s, sizeof s, f, a, b, c, d);
  return s;
}
}  // namespace featurestandin
