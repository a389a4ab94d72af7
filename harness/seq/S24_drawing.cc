// Drawing keypoints and matches: the image of the frame with marks at the keypoints of the type asked for, and nowhere else.
#define SEQX_MAIN
#include "seqx.h"

#include <cmath>
#include <memory>
#include <vector>

#include <opencv2/core/core.hpp>

#include <aslam/cameras/camera-pinhole.h>
#include <aslam/frames/visual-frame.h>
#include <aslam/matcher/match.h>
#include <aslam/visualization/basic-visualization.h>

using seqx::Ctx;
using namespace aslam;
namespace {
const int kW = 48, kH = 36;
std::shared_ptr<VisualFrame> makeFrame(const std::vector<std::pair<Eigen::Vector2d, int>>& keypoints, const cv::Mat& image) {
  auto frame = std::make_shared<VisualFrame>();
  frame->setId(aslam::createRandomId<aslam::FrameId>());
  frame->setTimestampNanoseconds(5);
  frame->setRawImage(image);
  bool first = true;
  for (int type = 0; type < 3; ++type) {
    std::vector<Eigen::Vector2d> of_type;
    for (auto& k : keypoints) if (k.second == type) of_type.push_back(k.first);
    Eigen::Matrix2Xd m(2, of_type.size());
    for (size_t i = 0; i < of_type.size(); ++i) m.col(i) = of_type[i];
    VisualFrame::DescriptorsT d = VisualFrame::DescriptorsT::Constant(16, of_type.size(), 7);
    if (first) { frame->setKeypointMeasurements(m); frame->setDescriptors(d, type); }
    else { frame->extendKeypointMeasurements(m); frame->extendDescriptors(d, type); }
    first = false;
  }
  return frame;
}
cv::Mat background(int kind) {
  cv::Mat whole(kH + 6, kW + 8, CV_8UC1);
  for (int y = 0; y < whole.rows; ++y) for (int x = 0; x < whole.cols; ++x)
    whole.at<unsigned char>(y, x) = kind == 0 ? 0 : kind == 1 ? 40 + (7 * x + 13 * y) % 150 : (x / 4 + y / 4) % 2 ? 200 : 60;
  if (kind == 2) return whole(cv::Rect(3, 2, kW, kH));  // part of a larger image
  return whole(cv::Rect(0, 0, kW, kH)).clone();
}
cv::Mat output(int kind) {
  if (kind == 0) return cv::Mat();
  if (kind == 1) return cv::Mat(7, 5, CV_32FC1, cv::Scalar(3));
  return cv::Mat(kH, kW, CV_8UC3, cv::Scalar(1, 2, 3));
}
double toSegment(double x, double y, const Eigen::Vector2d& a, const Eigen::Vector2d& b) {
  const Eigen::Vector2d p(x, y), d = b - a;
  double t = d.squaredNorm() == 0 ? 0 : (p - a).dot(d) / d.squaredNorm();
  t = std::min(1., std::max(0., t));
  return (a + t * d - p).norm();
}
bool isGray(const cv::Mat& image, const cv::Mat& gray, int x, int y) {
  const cv::Vec3b& p = image.at<cv::Vec3b>(y, x);
  const unsigned char g = gray.at<unsigned char>(y, x);
  return p[0] == g && p[1] == g && p[2] == g;
}
bool inImage(double x, double y) { return x >= 0 && y >= 0 && x <= kW - 1 && y <= kH - 1; }
bool markedNear(const cv::Mat& image, const cv::Mat& gray, double x, double y, double distance) {
  for (int v = 0; v < kH; ++v) for (int u = 0; u < kW; ++u)
    if (std::hypot(u - x, v - y) <= distance && !isGray(image, gray, u, v)) return true;
  return false;
}
struct Saved {
  cv::Mat data;
  Eigen::Matrix2Xd keypoints;
  const void* at;
  explicit Saved(const VisualFrame& f) : data(f.getRawImage().clone()), keypoints(f.getKeypointMeasurements()), at(f.getRawImage().data) {}
  void check(Ctx& c, const VisualFrame& f, const char* which) {
    const cv::Mat& now = f.getRawImage();
    c.check(now.data == at && now.type() == data.type() && now.size() == data.size() && cv::countNonZero(now != data) == 0, "unchanged", "the raw image of frame %s was changed", which);
    c.check(f.getKeypointMeasurements() == keypoints, "unchanged", "the keypoints of frame %s were changed", which);
  }
};
const Eigen::Vector2d kPlaces[] = {{10, 9}, {30.7, 20.3}, {0, 0}, {47, 35}, {47.4, 3}, {-20, 15}, {11, 10}, {20, 80}, {24.5, 17.5}};
const int kPlacesUsed = sizeof kPlaces / sizeof kPlaces[0];

void keypoints(Ctx& c) {
  std::vector<std::pair<Eigen::Vector2d, int>> k;
  const int n = c.choose(4, "keypoints");
  for (int i = 0, from = 0; i < n; ++i) {
    const int p = from + c.choose(kPlacesUsed - from, "place");
    from = c.thorough ? 0 : std::min(p, kPlacesUsed - 1);
    k.push_back({kPlaces[p], c.choose(2, "type")});
  }
  const int asked = c.choose(2, "type asked for");
  const cv::Mat gray = background(c.choose(3, "background"));
  const int out = c.choose(4, "output");
  auto frame = makeFrame(k, gray);
  cv::Mat image = out == 3 ? frame->getRawImage() : output(out);  // a header of the raw image itself
  Saved saved(*frame);
  aslam_cv_visualization::drawKeypoints(*frame, &image, asked);
  saved.check(c, *frame, "k");
  c.check(image.rows == kH && image.cols == kW && image.type() == CV_8UC3, "image", "the image is %dx%d of type %d", image.cols, image.rows, image.type());
  for (int y = 0; y < kH; ++y) for (int x = 0; x < kW; ++x) {
    double nearest = 1e9;
    for (auto& p : k) if (p.second == asked) nearest = std::min(nearest, std::hypot(p.first.x() - x, p.first.y() - y));
    if (nearest > 6) c.check(isGray(image, saved.data, x, y), "background", "pixel (%d, %d), %g pixels from the next keypoint, is not the one of the image", x, y, nearest);
  }
  for (auto& p : k) if (p.second == asked && inImage(p.first.x(), p.first.y()))
    c.check(markedNear(image, saved.data, p.first.x(), p.first.y(), 3), "mark", "keypoint (%g, %g) is not marked", p.first.x(), p.first.y());
}

void matches(Ctx& c) {
  // Frame k+1 has up to 3 keypoints of the type, frame k up to 3, and one of another type each.
  const int asked = c.choose(2, "type asked for");
  std::vector<std::pair<Eigen::Vector2d, int>> kk, kp;
  const int nk = c.choose(4, "keypoints of k"), np = c.choose(4, "keypoints of k+1");
  const Eigen::Vector2d at_k[] = {{8, 5}, {40, 30.5}, {-10, 18}}, at_kp1[] = {{12.5, 25}, {40, 30.5}, {60, 4}};
  kk.push_back({{24, 33}, 1 - asked});
  kp.push_back({{24, 2}, 1 - asked});
  for (int i = 0; i < nk; ++i) kk.push_back({at_k[i], asked});
  for (int i = 0; i < np; ++i) kp.push_back({at_kp1[i], asked});
  const cv::Mat gray = background(c.choose(3, "background"));
  cv::Mat other(kH, kW, CV_8UC1, cv::Scalar(123));
  auto frame_k = makeFrame(kk, other), frame_kp1 = makeFrame(kp, gray);
  FrameToFrameMatches list;
  bool valid = true;
  const int n = c.choose(c.thorough ? 4 : 3, "matches");
  for (int i = 0; i < n; ++i) {
    FrameToFrameMatch m;
    m.first = c.choose(5, "index k+1") - 1;
    m.second = c.choose(5, "index k") - 1;
    valid = valid && m.first >= 0 && m.second >= 0 && m.first < np && m.second < nk;
    list.push_back(m);
  }
  const int out = c.choose(4, "output");
  cv::Mat image = out == 3 ? frame_kp1->getRawImage() : output(out);
  Saved saved_k(*frame_k), saved_kp1(*frame_kp1);
  if (!valid) {
    c.check(c.aborts([&] { aslam_cv_visualization::drawKeypointMatches(*frame_kp1, *frame_k, list, asked, &image); }), "refused", "a match with keypoints that do not exist was drawn");
    return;
  }
  aslam_cv_visualization::drawKeypointMatches(*frame_kp1, *frame_k, list, asked, &image);
  saved_k.check(c, *frame_k, "k");
  saved_kp1.check(c, *frame_kp1, "k+1");
  c.check(image.rows == kH && image.cols == kW && image.type() == CV_8UC3, "image", "the image is %dx%d of type %d", image.cols, image.rows, image.type());
  for (int y = 0; y < kH; ++y) for (int x = 0; x < kW; ++x) {
    double circle = 1e9, line = 1e9;
    for (auto& m : list) {
      circle = std::min(circle, std::hypot(at_kp1[m.first].x() - x, at_kp1[m.first].y() - y));
      line = std::min(line, toSegment(x, y, at_k[m.second], at_kp1[m.first]));
    }
    if (circle > 8 && line > 4) c.check(isGray(image, saved_kp1.data, x, y), "background", "pixel (%d, %d) away from all matches is not the one of frame k+1", x, y);
  }
  for (auto& m : list) {
    const Eigen::Vector2d a = at_k[m.second], b = at_kp1[m.first];
    for (int s = 0; s <= 20; ++s) {
      const Eigen::Vector2d p = a + (b - a) * s / 20.;
      if (inImage(p.x(), p.y())) c.check(markedNear(image, saved_kp1.data, p.x(), p.y(), a == b ? 6 : 2.5), "mark", "nothing is drawn at (%g, %g) of a match", p.x(), p.y());
    }
    bool found = !inImage(b.x(), b.y());  // the keypoint itself: something off the line
    for (int y = 0; y < kH && !found; ++y) for (int x = 0; x < kW && !found; ++x)
      found = std::hypot(x - b.x(), y - b.y()) < 7 && toSegment(x, y, a, b) > 1.5 && !isGray(image, saved_kp1.data, x, y);
    c.check(found, "mark", "keypoint (%g, %g) of frame k+1 is not marked", b.x(), b.y());
  }
}
}  // namespace

int main(int argc, char** argv) {
  std::vector<seqx::Scenario> v;
  v.push_back({"keypoints", "drawKeypoints for all sets of keypoints of two types", keypoints, 8});
  v.push_back({"matches", "drawKeypointMatches for all lists of matches, valid or not", matches, 8});
  return seqx::run_main(argc, argv, "S24", v);
}
