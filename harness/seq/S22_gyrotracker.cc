// GyroTracker: descriptor matches first, then the documented keypoints - and only those - by optical flow.
#define SEQX_MAIN
#include "seqx.h"

#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include <gflags/gflags.h>
#include <opencv2/core/core.hpp>
#include <opencv2/video/tracking.hpp>

#include <aslam/cameras/camera-pinhole.h>
#include <aslam/cameras/camera-unified-projection.h>
#include <aslam/common/memory.h>
#include <aslam/frames/visual-frame.h>
#include <aslam/matcher/gyro-two-frame-matcher.h>
#include <aslam/tracker/feature-tracker-gyro.h>
#include <aslam/tracker/track-manager.h>

DECLARE_int32(gyro_matcher_small_search_distance_px);
DECLARE_int32(gyro_matcher_large_search_distance_px);
DECLARE_double(gyro_lk_candidate_ratio);
DECLARE_uint64(gyro_lk_max_status_track_length);
DECLARE_uint64(gyro_lk_track_detected_threshold);
DECLARE_int32(gyro_lk_window_size);
DECLARE_int32(gyro_lk_max_pyramid_levels);

using seqx::Ctx;
using namespace aslam;
namespace {
typedef VisualFrame::DescriptorsT D;
const int kBytes = 16;
enum Flow { kLost, kFound, kOutsideLeft, kOnTheBorder, kOutsideRight, kOutsideTop, kOutsideBottom, kFlows };
// What the explorer has the optical flow and the extractor do, and what they were asked.
struct Stage {
  std::map<int, Flow> flow;   // point -> what becomes of it
  int extract = 0;            // 0: all stay, 1: the first is dropped, 2: the last is dropped, 3: reversed, 4: none stays
  int margin = 0;
  cv::Mat image_k, image_kp1;
  std::vector<std::pair<int, cv::Point2f>> known;  // keypoints of frame k: index and place
  std::vector<cv::Point2f> at_k, at_kp1;           // as given to the optical flow
  std::vector<int> points;                         // and which of the keypoints they are
  std::vector<int> point_of;                       // keypoint of k -> point
  std::map<int, cv::Point2f> found;                // point -> where the optical flow found it
  int flows = 0, extracts = 0;
  bool wrong_images = false, wrong_parameters = false;
};
Stage* stage = nullptr;
bool same(const cv::Mat& a, const cv::Mat& b) { return a.data == b.data && a.rows == b.rows && a.cols == b.cols && a.type() == b.type(); }
void describe(int point, bool lk, unsigned char* d) {  // 40 bits of its own for every point, two more for tracked ones
  std::fill(d, d + kBytes, 0);
  for (int b = 0; b < 5; ++b) d[(5 * point + b) % kBytes] ^= 0xff;
  if (point >= 3) d[point % kBytes] ^= 0xf0;
  if (lk) d[15] ^= 3;
}
}  // namespace
namespace cv {
void calcOpticalFlowPyrLK(InputArray prev, InputArray next, InputArray prev_pts, InputOutputArray next_pts, OutputArray status, OutputArray err,
                          Size window, int levels, TermCriteria, int flags, double) {
  Stage& s = *stage;
  ++s.flows;
  if (!same(prev.getMat(), s.image_k) || !same(next.getMat(), s.image_kp1)) s.wrong_images = true;
  if (window != Size(FLAGS_gyro_lk_window_size, FLAGS_gyro_lk_window_size) || levels != FLAGS_gyro_lk_max_pyramid_levels || flags != OPTFLOW_USE_INITIAL_FLOW)
    s.wrong_parameters = true;
  Mat a = prev_pts.getMat(), b = next_pts.getMat();
  const int n = a.checkVector(2, CV_32F);
  std::vector<unsigned char> ok;
  for (int i = 0; i < n; ++i) {
    const Point2f pa = a.at<Point2f>(i);
    Point2f& pb = b.at<Point2f>(i);
    s.at_k.push_back(pa);
    s.at_kp1.push_back(pb);
    int which = -1;
    for (auto& x : s.known) if (std::abs(x.second.x - pa.x) + std::abs(x.second.y - pa.y) < 1e-3) which = x.first;
    s.points.push_back(which);
    const int point = which < 0 ? -1 : s.point_of[which];
    const Flow f = point < 0 ? kLost : s.flow.count(point) ? s.flow[point] : kFound;
    ok.push_back(f != kLost);
    pb.x += .25f;
    pb.y -= .25f;
    if (f == kOutsideLeft) pb.x = s.margin - .25f;
    if (f == kOnTheBorder) { pb.x = s.margin; pb.y += 3 * point; }
    if (f == kOutsideRight) pb.x = next.cols() - s.margin;
    if (f == kOutsideTop) pb.y = s.margin - .25f;
    if (f == kOutsideBottom) pb.y = next.rows() - s.margin;
    s.found[point] = pb;
  }
  Mat(ok, true).copyTo(status);
  Mat(std::vector<float>(n, 0.f), true).copyTo(err);
}
}  // namespace cv
namespace {
class Extractor : public cv::Feature2D {
 public:
  void compute(cv::InputArray image, std::vector<cv::KeyPoint>& k, cv::OutputArray out) override {
    Stage& s = *stage;
    ++s.extracts;
    if (!same(image.getMat(), s.image_kp1)) s.wrong_images = true;
    if (s.extract == 1 && !k.empty()) k.erase(k.begin());
    if (s.extract == 2 && !k.empty()) k.pop_back();
    if (s.extract == 3) std::reverse(k.begin(), k.end());
    if (s.extract == 4) k.clear();
    if (k.empty()) { out.release(); return; }
    out.create(k.size(), kBytes, CV_8UC1);
    cv::Mat m = out.getMat();
    for (size_t i = 0; i < k.size(); ++i) {
      int point = -1;
      for (auto& f : s.found) if (f.second == k[i].pt) point = f.first;
      describe(std::max(point, 0), true, m.ptr(i));
    }
  }
};
struct Kp {
  int point;
  double u, v, scale, orientation, score, uncertainty;
  bool lk;          // by optical flow
  int length;       // of the track since its status changed
};
struct Frame {
  VisualFrame::Ptr frame;
  std::vector<Kp> kp;
};
struct World {
  Camera::Ptr camera;
  Quaternion q = Quaternion(1, 0, 0, 0), total = Quaternion(1, 0, 0, 0);
  int time = 0;
  int type = 0;
  std::vector<Eigen::Vector2d> base;
  World() : camera(new PinholeCamera(100, 100, 50, 40, 100, 80)) {
    for (int i = 0; i < 8; ++i) base.push_back(Eigen::Vector2d(14 + 20 * (i % 4), i < 4 ? 25 : 55));
  }
  bool place(int point, Eigen::Vector2d* p) const { return rotated(base[point], total, p); }
  bool rotated(const Eigen::Vector2d& from, const Quaternion& by, Eigen::Vector2d* p) const {
    Eigen::Vector3d ray;
    camera->backProject3(from, &ray);
    return camera->project3(by.rotate(ray), p).isKeypointVisible();
  }
  cv::Mat image() const { return cv::Mat(80, 100, CV_8UC1, cv::Scalar(7)); }
  // a frame with the points detected, as a pipeline gives it
  Frame detect(const std::vector<int>& points) {
    Frame f;
    f.frame.reset(new VisualFrame);
    f.frame->setTimestampNanoseconds(1000 * ++time);
    f.frame->setCameraGeometry(camera);
    f.frame->setRawImage(image());
    for (int p : points) {
      Eigen::Vector2d at;
      if (!place(p, &at)) continue;
      const double n = time * 10 + p;
      f.kp.push_back({p, at(0), at(1), 1 + n / 64, n / 4, 100 + n, .5, false, 0});
    }
    fill(&f, type);
    return f;
  }
  static void fill(Frame* f, int type) {
    const int n = f->kp.size();
    Eigen::Matrix2Xd m(2, n);
    Eigen::VectorXd scale(n), orientation(n), score(n), uncertainty(n);
    D d(kBytes, n);
    for (int i = 0; i < n; ++i) {
      const Kp& k = f->kp[i];
      m.col(i) << k.u, k.v;
      scale(i) = k.scale; orientation(i) = k.orientation; score(i) = k.score; uncertainty(i) = k.uncertainty;
      describe(k.point, k.lk, d.data() + kBytes * i);
    }
    f->frame->setKeypointMeasurements(m);
    f->frame->setKeypointScales(scale);
    f->frame->setKeypointOrientations(orientation);
    f->frame->setKeypointScores(score);
    f->frame->setKeypointMeasurementUncertainties(uncertainty);
    f->frame->setTrackIds(Eigen::VectorXi::Constant(n, -1));
    f->frame->setDescriptors(d, 0, type);
  }
};
std::string show(const Frame& f) {
  std::string s;
  for (auto& k : f.kp) s += seqx::fmt(" %c%d%s", 'a' + k.point, k.length, k.lk ? "~" : "");
  return s;
}
struct Limits { double ratio = 1; size_t longest = 10, threshold = 1; };
struct Tracker {
  World& w;
  Limits l;
  int margin;
  cv::Ptr<cv::Feature2D> extractor;
  std::unique_ptr<GyroTracker> t;
  SimpleTrackManager manager;
  bool ids_at_once;  // every keypoint has a track id from the start
  int next_id = 1000000;
  Tracker(World& world, const Limits& limits, int border, bool ids) : w(world), l(limits), margin(border), extractor(new Extractor), ids_at_once(ids) {
    FLAGS_gyro_matcher_small_search_distance_px = 4;
    FLAGS_gyro_matcher_large_search_distance_px = 6;
    FLAGS_gyro_lk_candidate_ratio = l.ratio;
    FLAGS_gyro_lk_max_status_track_length = l.longest;
    FLAGS_gyro_lk_track_detected_threshold = l.threshold;
    t.reset(new GyroTracker(*w.camera, margin, extractor, w.type));
  }
  struct Wanted { std::vector<std::vector<int>> groups; int cap; };  // candidates by priority, equal ones in one group
  // The documented candidates.
  Wanted candidates(const Frame& k, const std::set<int>& matched, int nkp1) const {
    std::map<long, std::vector<int>> by;
    for (size_t i = 0; i < k.kp.size(); ++i) {
      if (matched.count(i)) continue;
      const Kp& x = k.kp[i];
      if (!x.lk && (size_t)x.length >= l.threshold) by[-1000 - x.length].push_back(i);
      if (x.lk && (size_t)x.length < l.longest) by[x.length].push_back(i);
    }
    Wanted r;
    for (auto& x : by) r.groups.push_back(x.second);
    r.cap = (int)std::floor(nkp1 * l.ratio + 1e-9);
    return r;
  }
  // One call.  The points of kp1 are detected already; afterwards kp1 has those of the optical flow as well.
  void step(Ctx& c, Frame& k, Frame& kp1, Stage& s, const std::function<bool(int)>& accepted) {
    VisualFrame before_k(*k.frame), before_kp1(*kp1.frame);
    s.margin = margin;
    s.image_k = k.frame->getRawImage();
    s.image_kp1 = kp1.frame->getRawImage();
    const cv::Mat pixels_k = s.image_k.clone(), pixels_kp1 = s.image_kp1.clone();
    for (size_t i = 0; i < k.kp.size(); ++i) {
      s.known.emplace_back(i, cv::Point2f(k.kp[i].u, k.kp[i].v));
      s.point_of.push_back(k.kp[i].point);
    }
    stage = &s;
    FrameToFrameMatches m;
    m.emplace_back(77, 77);  // what was in the list is gone
    t->track(w.q, *k.frame, kp1.frame.get(), &m);
    stage = nullptr;
    const std::string where = "k:" + show(k) + "  k+1:" + show(kp1);
    c.check(!s.wrong_images, "images", "other images than those of the frames: %s", where.c_str());
    c.check(!s.wrong_parameters, "parameters", "other parameters than the flags say");
    // ---- what must have happened: matches by descriptor
    const int n = kp1.kp.size();
    std::map<int, int> match;  // k+1 -> k
    std::vector<Eigen::Vector2d> prediction(k.kp.size());
    std::vector<bool> predicted(k.kp.size());
    for (size_t i = 0; i < k.kp.size(); ++i) predicted[i] = w.rotated(Eigen::Vector2d(k.kp[i].u, k.kp[i].v), w.q, &prediction[i]);
    std::set<int> matched;
    for (int j = 0; j < n; ++j)
      for (size_t i = 0; i < k.kp.size(); ++i)
        if (k.kp[i].point == kp1.kp[j].point && predicted[i]) { match[j] = i; matched.insert(i); }
    // ---- by optical flow
    std::vector<int> followed;  // keypoints of k, in the order in which they were handed to the extractor
    if (l.ratio > 0) {
      const Wanted wanted = candidates(k, matched, n);
      std::set<int> must, may;   // up to the cap; predictions that failed use up their place
      int left = wanted.cap;
      for (auto& g : wanted.groups) {
        if ((int)g.size() <= left) { for (int i : g) if (predicted[i]) must.insert(i); left -= g.size(); }
        else { if (left > 0) for (int i : g) if (predicted[i]) may.insert(i); break; }
      }
      std::set<int> got;
      for (size_t x = 0; x < s.points.size(); ++x) {
        const int i = s.points[x];
        c.check(i >= 0, "candidates", "a place that is no keypoint of frame k is tracked: (%g, %g): %s", s.at_k[x].x, s.at_k[x].y, where.c_str());
        c.check(must.count(i) || may.count(i), "candidates", "keypoint %d (%c) is tracked by optical flow, limits %g/%zu/%zu: %s", i, 'a' + k.kp[i].point, l.ratio,
                l.threshold, l.longest, where.c_str());
        c.check(got.insert(i).second, "twice", "keypoint %d is tracked twice: %s", i, where.c_str());
        c.check(std::abs(s.at_kp1[x].x - prediction[i](0)) < 1e-3 && std::abs(s.at_kp1[x].y - prediction[i](1)) < 1e-3, "prediction",
                "keypoint %d is looked for at (%g, %g) instead of (%g, %g)", i, s.at_kp1[x].x, s.at_kp1[x].y, prediction[i](0), prediction[i](1));
      }
      for (int i : must) c.check(got.count(i), "candidates", "keypoint %d (%c) is not tracked by optical flow, limits %g/%zu/%zu: %s", i, 'a' + k.kp[i].point, l.ratio,
                                 l.threshold, l.longest, where.c_str());
      size_t tied = 0;  // how many of a tied group; those whose prediction failed may have used up places
      bool lost_in_ties = false;
      { int rest = wanted.cap;
        for (auto& g : wanted.groups) {
          if ((int)g.size() <= rest) { rest -= g.size(); continue; }
          tied = rest;
          for (int i : g) if (!predicted[i]) lost_in_ties = true;
          break;
        } }
      if (lost_in_ties) c.check(got.size() <= must.size() + tied, "cap", "%zu keypoints are tracked by optical flow: %s", got.size(), where.c_str());
      else c.check(got.size() == must.size() + tied, "cap", "%zu keypoints are tracked by optical flow instead of %zu: %s", got.size(), must.size() + tied, where.c_str());
      for (int i : s.points) {
        const int p = k.kp[i].point;
        const Flow f = s.flow.count(p) ? s.flow[p] : kFound;
        const cv::Point2f at = s.found[p];
        const bool inside = at.x >= margin && at.y >= margin && at.x < 100 - margin && at.y < 80 - margin;
        if (f != kLost && inside) followed.push_back(i);
      }
      if (s.extract == 1 && !followed.empty()) followed.erase(followed.begin());
      if (s.extract == 2 && !followed.empty()) followed.pop_back();
      if (s.extract == 3) std::reverse(followed.begin(), followed.end());
      if (s.extract == 4) followed.clear();
    } else {
      c.check(s.flows == 0 && s.extracts == 0, "pure", "optical flow although its ratio is 0");
    }
    for (size_t x = 0; x < followed.size(); ++x) {
      const Kp& o = k.kp[followed[x]];
      const cv::Point2f at = s.found[o.point];
      kp1.kp.push_back({o.point, at.x, at.y, (double)(float)o.scale, (double)(float)o.orientation, (double)(float)o.score, GyroTrackerSettings::kKeypointUncertaintyPx, true, 0});
      match[n + x] = followed[x];
    }
    // ---- the matches
    std::map<int, int> got;
    for (const FrameToFrameMatch& x : m) {
      const int j = x.getKeypointIndexInFrameA(), i = x.getKeypointIndexInFrameB();
      c.check(got.emplace(j, i).second, "exclusive", "keypoint %d of frame k+1 in two matches: %s", j, where.c_str());
    }
    if (got != match) {
      std::string a, b;
      for (auto& x : got) a += seqx::fmt(" (%d,%d)", x.first, x.second);
      for (auto& x : match) b += seqx::fmt(" (%d,%d)", x.first, x.second);
      c.fail("matches", "matches%s instead of%s: %s", a.c_str(), b.c_str(), where.c_str());
    }
    // ---- the frames
    c.check(*k.frame == before_k, "frame k", "the previous frame was changed");
    c.check(cv::countNonZero(pixels_k != s.image_k) == 0 && cv::countNonZero(pixels_kp1 != s.image_kp1) == 0, "images", "an image was changed");
    Frame expected = kp1;
    expected.frame.reset(new VisualFrame(before_kp1));
    World::fill(&expected, w.type);
    const VisualFrame &e = *expected.frame, &f = *kp1.frame;
    c.check(f.getKeypointMeasurements() == e.getKeypointMeasurements(), "measurements", "keypoints of frame k+1: %s", where.c_str());
    c.check(f.getKeypointScales() == e.getKeypointScales(), "scales", "scales of frame k+1: %s", where.c_str());
    c.check(f.getKeypointOrientations() == e.getKeypointOrientations(), "orientations", "orientations of frame k+1: %s", where.c_str());
    c.check(f.getKeypointScores() == e.getKeypointScores(), "scores", "scores of frame k+1: %s", where.c_str());
    c.check(f.getKeypointMeasurementUncertainties() == e.getKeypointMeasurementUncertainties(), "uncertainties", "uncertainties of frame k+1: %s", where.c_str());
    c.check(f.getDescriptors() == e.getDescriptors(), "descriptors", "descriptors of frame k+1: %s", where.c_str());
    c.check(f.getTrackIds().size() == (int)kp1.kp.size() && (f.getTrackIds().tail(followed.size()).array() == -1).all() &&
            f.getTrackIds().head(n) == before_kp1.getTrackIds(), "track ids", "track ids of frame k+1: %s", where.c_str());
    c.check(f.getDescriptorsOfType(w.type).cols() == (int)kp1.kp.size(), "type", "the keypoints were not added to type %d", w.type);
    c.check(f.getTimestampNanoseconds() == before_kp1.getTimestampNanoseconds() && f.getCameraGeometry() == before_kp1.getCameraGeometry(), "frame", "time or camera changed");
    // ---- the user lets some of the matches pass, a track manager hands on the track ids
    FrameToFrameMatches pass;
    for (auto& x : match) {
      if (!accepted(kp1.kp[x.first].point)) continue;
      pass.emplace_back(x.first, x.second);
      const Kp& o = k.kp[x.second];
      kp1.kp[x.first].length = o.lk == kp1.kp[x.first].lk ? o.length + 1 : 1;
    }
    if (!ids_at_once) { manager.applyMatchesToFrames(pass, kp1.frame.get(), k.frame.get()); return; }
    Eigen::VectorXi& ids = *kp1.frame->getTrackIdsMutable();
    for (int j = 0; j < ids.size(); ++j) ids(j) = next_id++;
    for (const FrameToFrameMatch& x : pass) ids(x.getKeypointIndexInFrameA()) = k.frame->getTrackIds()(x.getKeypointIndexInFrameB());
  }
  void begin(Frame& first) {
    if (!ids_at_once) return;
    Eigen::VectorXi& ids = *first.frame->getTrackIdsMutable();
    for (int j = 0; j < ids.size(); ++j) ids(j) = next_id++;
  }
};
// One point through every history of detections, optical flow and rejected matches; two others are always there.
void history(Ctx& c, int points, int calls, bool reject) {
  World w;
  Limits l;
  l.ratio = 1;
  l.threshold = c.pick({1, 0, 2}, "threshold");
  l.longest = c.pick({2, 10, 1, 3}, "longest");
  Tracker t(w, l, 3, c.flag("ids at once"));
  const std::vector<int> fillers = {0, 1};
  auto visible = [&](const char* what) {
    std::vector<int> v = fillers;
    for (int p = 0; p < points; ++p) if (c.flag(what)) v.insert(p % 2 ? v.begin() : v.end(), 2 + p);
    return v;
  };
  Frame k = w.detect(visible("first"));
  t.begin(k);
  for (int n = 0; n < calls; ++n) {
    Frame kp1 = w.detect(visible("detected"));
    Stage s;
    // (drawn for those only that can be tracked, to keep the histories apart)
    std::set<int> matched;
    for (size_t i = 0; i < k.kp.size(); ++i) for (auto& y : kp1.kp) if (k.kp[i].point == y.point) matched.insert(i);
    for (auto& g : t.candidates(k, matched, kp1.kp.size()).groups) for (int i : g) if (c.flag("lost")) s.flow[k.kp[i].point] = kLost;
    t.step(c, k, kp1, s, [&](int p) { return p < 2 || !reject || !c.flag("rejected"); });
    k = kp1;
  }
}
// Candidates of every status and length compete for few places.
void places(Ctx& c, int points, int calls) {
  World w;
  Limits l;
  const int fillers = c.pick({2, 1, 4, 5}, "always there");
  l.ratio = c.pick({0.5, 0.4, 1., 0.2}, "ratio");
  l.threshold = c.pick({1, 0}, "threshold");
  l.longest = 3;
  const bool reversed = c.flag("extractor reverses");
  Tracker t(w, l, 3, false);
  auto visible = [&](const char* what) {
    std::vector<int> v;
    for (int p = 0; p < points; ++p) if (c.flag(what)) v.push_back(p);
    for (int p = 0; p < fillers; ++p) v.push_back(points + p);
    return v;
  };
  std::vector<int> all;
  for (int p = 0; p < points + fillers; ++p) all.push_back(p);
  Frame k = w.detect(all);
  for (int n = 0; n < calls; ++n) {
    Frame kp1 = w.detect(visible("detected"));
    Stage s;
    if (reversed) s.extract = 3;
    t.step(c, k, kp1, s, [](int) { return true; });
    k = kp1;
  }
}
// What the optical flow finds and what the extractor leaves, with rotations that lose points.
void flow(Ctx& c, int points) {
  World w;
  w.type = c.choose(2, "type");
  Limits l;
  l.threshold = 0;
  l.ratio = c.pick({1., 0.}, "ratio");
  const int margin = c.pick({5, 0, 13}, "margin");
  const int rotation = c.choose(3, "rotation");
  const double angle = rotation == 0 ? 0 : rotation == 1 ? .02 : .3;
  Tracker t(w, l, margin, false);
  std::vector<int> all, few;
  for (int p = 0; p < points; ++p) all.push_back(p);
  for (int p = 4; p < 8; ++p) { all.push_back(p); few.push_back(p); }
  if (c.flag("order")) std::reverse(all.begin(), all.end());
  Frame k = w.detect(all);
  for (int n = 0; n < 2; ++n) {
    w.q = n ? Quaternion(1, 0, 0, 0) : Quaternion(std::cos(angle / 2), 0, std::sin(angle / 2), 0);
    w.total = w.q * w.total;
    Frame kp1 = w.detect(few);
    Stage s;
    if (l.ratio > 0) {
      if (n == 0 || c.thorough)
        for (int p = 0; p < points; ++p) s.flow[p] = (Flow)c.choose(kFlows, "flow");
      s.extract = c.choose(5, "extractor");
    }
    t.step(c, k, kp1, s, [](int) { return true; });
    k = kp1;
  }
}
// Frames that have nothing to track, before and after ones that have.
void empty(Ctx& c) {
  World w;
  Limits l;
  l.threshold = c.choose(2, "threshold");
  Tracker t(w, l, 3, c.flag("ids at once"));
  auto some = [&](const char* what) {
    const int n = c.choose(3, what);
    return n == 0 ? std::vector<int>{} : n == 1 ? std::vector<int>{2} : std::vector<int>{1, 2, 3};
  };
  Frame k = w.detect(some("first"));
  t.begin(k);
  for (int n = 0; n < 4; ++n) {
    Frame kp1 = w.detect(some("detected"));
    Stage s;
    t.step(c, k, kp1, s, [](int) { return true; });
    k = kp1;
  }
}
// Two trackers at once, with limits of their own, do not know each other.
void two(Ctx& c) {
  World w[2];
  Limits l[2];
  l[0].longest = 1; l[0].ratio = 1;
  l[1].longest = 3; l[1].ratio = .5;
  Tracker a(w[0], l[0], 3, false), b(w[1], l[1], 3, false);
  Tracker* t[2] = {&a, &b};
  Frame k[2] = {w[0].detect({0, 1, 2, 3}), w[1].detect({0, 1, 2, 3})};
  int left[2] = {3, 3};
  for (int n = 0; n < 6; ++n) {
    const int who = left[0] == 0 ? 1 : left[1] == 0 ? 0 : c.choose(2, "who");
    --left[who];
    std::vector<int> v = {0, 1};
    for (int p : {2, 3}) if (c.flag("detected")) v.push_back(p);
    Frame kp1 = w[who].detect(v);
    Stage s;
    t[who]->step(c, k[who], kp1, s, [](int) { return true; });
    k[who] = kp1;
  }
}
// What does not fit is refused.
void refuse(Ctx& c) {
  World w;
  Limits l;
  Tracker t(w, l, 3, false);
  Frame k = w.detect({0, 1, 2}), kp1 = w.detect({0, 1});
  const int what = c.choose(15, "what"), side = c.choose(2, "frame");
  VisualFrame& f = side ? *kp1.frame : *k.frame;
  Frame other;
  switch (what) {
    case 1: f.invalidate(); break;
    case 2: f.releaseRawImage(); break;
    case 3: f.clearKeypointChannels(); break;
    case 4: f.setCameraGeometry(Camera::Ptr(new PinholeCamera(100, 100, 50, 40, 100, 80))); break;
    case 5: f.setCameraGeometry(nullptr); break;
    case 6: f.setTimestampNanoseconds(side ? 1000 : 2000); break;
    case 7: f.setTimestampNanoseconds(side ? 999 : 2001); break;
    case 8: f.setDescriptors(f.getDescriptors(), 0, 1); break;
    case 9: f.setDescriptors(D(D::Zero(kBytes, f.getDescriptors().cols() + 1))); break;
    case 10: case 11: case 12: case 13: {
      VisualFrame g;
      g.setTimestampNanoseconds(f.getTimestampNanoseconds());
      g.setCameraGeometry(w.camera);
      g.setRawImage(w.image());
      g.setKeypointMeasurements(f.getKeypointMeasurements());
      g.setDescriptors(f.getDescriptors());
      g.setKeypointMeasurementUncertainties(f.getKeypointMeasurementUncertainties());
      if (what != 10) g.setKeypointScales(f.getKeypointScales());
      if (what != 11) g.setKeypointOrientations(f.getKeypointOrientations());
      if (what != 12) g.setKeypointScores(f.getKeypointScores());
      if (what != 13) g.setTrackIds(f.getTrackIds());
      f = g;
      break;
    }
    case 14: break;
  }
  Stage s;
  for (size_t i = 0; i < k.kp.size(); ++i) { s.known.emplace_back(i, cv::Point2f(k.kp[i].u, k.kp[i].v)); s.point_of.push_back(k.kp[i].point); }
  stage = &s;
  const Quaternion q(1, 0, 0, 0);
  FrameToFrameMatches m;
  const bool refused = c.aborts([&] { t.t->track(q, *k.frame, what == 14 && side ? nullptr : kp1.frame.get(), what == 14 && !side ? nullptr : &m); });
  c.check(refused == (what != 0), "refuse", "case %d of frame %s is %s", what, side ? "k+1" : "k", refused ? "refused" : "accepted");
  for (double ratio : {-.1, 1.1}) {
    FLAGS_gyro_lk_candidate_ratio = ratio;
    c.check(c.aborts([&] { GyroTracker x(*w.camera, 3, t.extractor); }), "settings", "a ratio of %g is accepted", ratio);
  }
  FLAGS_gyro_lk_candidate_ratio = 1;
  FLAGS_gyro_lk_max_status_track_length = 0;
  c.check(c.aborts([&] { GyroTracker x(*w.camera, 3, t.extractor); }), "settings", "a maximum length of 0 is accepted");
  FLAGS_gyro_lk_max_status_track_length = 10;
  stage = nullptr;
}
}  // namespace
int main(int argc, char** argv) {
  std::vector<seqx::Scenario> v;
  v.push_back({"history", "one point through every history of detections, optical flow and rejected matches", [](Ctx& c) { history(c, 1, c.thorough ? 7 : 5, true); }, 8});
  v.push_back({"history-two", "two points, shorter", [](Ctx& c) { history(c, 2, c.thorough ? 4 : 3, true); }, 8});
  v.push_back({"places", "candidates of every status and length compete for few places", [](Ctx& c) { places(c, c.thorough ? 4 : 3, c.thorough ? 4 : 4); }, 8});
  v.push_back({"flow", "what the optical flow finds and what the extractor leaves, with rotations", [](Ctx& c) { flow(c, 3); }, 8});
  v.push_back({"empty", "frames without anything to track", empty, 8});
  v.push_back({"two", "two trackers at once", two, 8});
  v.push_back({"refuse", "what does not fit is refused", refuse, 1});
  return seqx::run_main(argc, argv, "S22", v);
}
