// Feature pipelines: a frame gets exactly what the detector and the extractor
// answered.  Both are stand-ins whose answers the explorer chooses.
#define SEQX_MAIN
#include "seqx.h"

#include <cmath>
#include <memory>
#include <set>

#include <aslam/cameras/camera-pinhole.h>
#include <aslam/cameras/distortion-null.h>
#include <aslam/cameras/distortion-radtan.h>
#include <aslam/frames/visual-frame.h>
#include <aslam/pipeline/undistorter-mapped.h>
#include <aslam/pipeline/visual-pipeline-brisk.h>
#include <aslam/pipeline/visual-pipeline-freak.h>
#include <brisk/brisk.h>

using seqx::Ctx;
using namespace aslam;
namespace featurestandin { Stage* stage; }
using featurestandin::Stage;
namespace {
Camera::Ptr camera() {
  Eigen::VectorXd k(4), d(4);
  k << 50, 48, 15.2, 12.1;
  d << -.12, .02, .001, -.002;
  Distortion::UniquePtr dist(new RadTanDistortion(d));
  return Camera::Ptr(new PinholeCamera(k, 32, 24, dist));
}
cv::Mat picture(int which) {
  cv::Mat m(24, 32, CV_8UC1);
  for (int y = 0; y < m.rows; ++y) for (int x = 0; x < m.cols; ++x) m.at<uchar>(y, x) = uchar(x * 7 + y * (3 + which) + which * 50);
  return m;
}
bool same(const cv::Mat& a, const cv::Mat& b) { return a.size() == b.size() && a.type() == b.type() && cv::norm(a, b, cv::NORM_INF) == 0; }
cv::KeyPoint keypoint(int i) { return cv::KeyPoint(3.25f + 5 * i, 20.5f - 4 * i, 1.5f + i, 10.f + i, 100.f - 7 * i, i, -1); }

struct Params { size_t octaves; double radius, threshold; size_t most; int hessian, layers; float pattern; };
const Params kParams[] = {{4, 2.5, 21, 300, 555, 3, 17.5f}, {0, 0, 0.125, 0, 9, 7, 0.25f}, {2, 40, 1e5, 100000, 100000, 1, 40}};
struct Pipe {
  std::unique_ptr<VisualPipeline> pipe;
  std::string detector, extractor;
  BriskVisualPipeline* brisk = nullptr;
  FreakVisualPipeline* freak = nullptr;
  void expect(const Params& p, bool rot, bool scale) {
    if (brisk) {
      detector = featurestandin::fmt("harris %.17g %.17g %.17g %.17g", p.octaves, p.radius, p.threshold, p.most);
      extractor = featurestandin::fmt("brisk %g %g", rot, scale);
    } else {
      detector = featurestandin::fmt("surf %.17g %g %g", p.hessian, p.octaves, p.layers);
      extractor = featurestandin::fmt("freak %g %g %.9g %g", rot, scale, p.pattern, p.octaves);
    }
  }
};
Pipe make(Ctx&, bool freak, bool undistort, bool copy, const Params& p, bool rot, bool scale, std::unique_ptr<MappedUndistorter>* twin) {
  Pipe r;
  Camera::Ptr cam = camera();
  std::unique_ptr<Undistorter> u;
  if (undistort) {
    u = createMappedUndistorter(static_cast<const PinholeCamera&>(*cam), .5f, 1.f, InterpolationMethod::Linear);
    *twin = createMappedUndistorter(static_cast<const PinholeCamera&>(*cam), .5f, 1.f, InterpolationMethod::Linear);
  }
  if (freak) {
    r.freak = undistort ? new FreakVisualPipeline(u, copy, p.octaves, p.hessian, p.layers, rot, scale, p.pattern)
                        : new FreakVisualPipeline(cam, copy, p.octaves, p.hessian, p.layers, rot, scale, p.pattern);
    r.pipe.reset(r.freak);
  } else {
    r.brisk = undistort ? new BriskVisualPipeline(u, copy, p.octaves, p.radius, p.threshold, p.most, rot, scale)
                        : new BriskVisualPipeline(cam, copy, p.octaves, p.radius, p.threshold, p.most, rot, scale);
    r.pipe.reset(r.brisk);
  }
  r.expect(p, rot, scale);
  return r;
}
struct Wanted { VisualFrame::Ptr frame; std::vector<cv::KeyPoint> points; std::vector<int> from; int bytes; std::string what; };
void checkFrame(Ctx& c, const Wanted& w) {
  const VisualFrame& f = *w.frame;
  const char* what = w.what.c_str();
  const size_t n = w.points.size();
  c.check(f.hasKeypointMeasurements() && f.hasKeypointScales() && f.hasKeypointOrientations() && f.hasKeypointScores() && f.hasKeypointMeasurementUncertainties() && f.hasDescriptors(),
          "channels", "%s: a channel of the keypoints is not set", what);
  c.check(f.getNumKeypointMeasurements() == n, "number", "%s: %zu keypoints instead of %zu", what, f.getNumKeypointMeasurements(), n);
  c.check((size_t)f.getKeypointScales().rows() == n && (size_t)f.getKeypointOrientations().rows() == n && (size_t)f.getKeypointScores().rows() == n &&
          (size_t)f.getKeypointMeasurementUncertainties().rows() == n, "number", "%s: not one value per keypoint", what);
  c.check((size_t)f.getDescriptors().cols() == n, "descriptors", "%s: %d descriptors instead of %zu", what, (int)f.getDescriptors().cols(), n);
  if (n) c.check(f.getDescriptors().rows() == w.bytes && f.getDescriptorSizeBytes() == (size_t)w.bytes, "descriptors", "%s: descriptors of %d bytes instead of %d", what, (int)f.getDescriptors().rows(), w.bytes);
  c.check(!f.hasTrackIds(), "tracks", "%s: tracks from nowhere", what);
  for (size_t i = 0; i < n; ++i) {
    const cv::KeyPoint& k = w.points[i];
    c.check(f.getKeypointMeasurement(i) == Eigen::Vector2d(k.pt.x, k.pt.y), "place", "%s: keypoint %zu is at (%g, %g)", what, i, f.getKeypointMeasurement(i)[0], f.getKeypointMeasurement(i)[1]);
    c.check(f.getKeypointScale(i) == k.size, "scale", "%s: scale %g of keypoint %zu", what, f.getKeypointScale(i), i);
    c.check(f.getKeypointOrientation(i) == k.angle, "orientation", "%s: orientation %g of keypoint %zu", what, f.getKeypointOrientation(i), i);
    c.check(f.getKeypointScore(i) == k.response, "score", "%s: score %g of keypoint %zu", what, f.getKeypointScore(i), i);
    c.check(f.getKeypointMeasurementUncertainty(i) == 0.8, "uncertainty", "%s: uncertainty %g of keypoint %zu", what, f.getKeypointMeasurementUncertainty(i), i);
    for (int b = 0; b < w.bytes; ++b)
      c.check(f.getDescriptors()(b, i) == featurestandin::byteOf(w.from[i], b), "descriptors", "%s: byte %d of the descriptor of keypoint %zu", what, b, i);
  }
}
// Every sequence of images with every answer of detector and extractor.
void images(Ctx& c) {
  Stage s;
  featurestandin::stage = &s;
  const bool freak = c.flag("FREAK"), undistort = c.flag("undistorting"), copy = c.flag("copy images");
  std::vector<Wanted> kept;
  std::set<std::string> ids;
  {
    std::unique_ptr<MappedUndistorter> twin;
    Pipe p = make(c, freak, undistort, copy, kParams[0], true, false, &twin);
    c.check(s.alive == 2, "alive", "%d of the detector and the extractor are left after construction", s.alive);
    const int n = c.thorough ? 3 : 2, most = 3;
    for (int step = 0; step < n; ++step) {
      const int found = c.choose(step == 2 ? 2 : most + 1, "keypoints found");
      s.found.clear();
      s.kept.clear();
      Wanted w;
      s.turns = found && c.flag("extractor orients");
      s.bytes = found ? c.pick({1, 48}, "bytes of a descriptor") : 4;
      for (int i = 0; i < found; ++i) {
        s.found.push_back(keypoint(i));
        s.kept.push_back(!c.flag("removed by the extractor"));
        if (!s.kept[i]) continue;
        w.points.push_back(keypoint(i));
        if (s.turns) w.points.back().angle = 200 + i;
        w.from.push_back(i);
      }
      w.bytes = s.bytes;
      s.calls.clear();
      cv::Mat image = picture(step);
      w.what = seqx::fmt("%s, image %d, %d found, %zu left", freak ? "freak" : "brisk", step, found, w.points.size());
      w.frame = p.pipe->processImage(image, 100 + step);
      c.check(w.frame != nullptr, "frame", "%s: no frame", w.what.c_str());
      if (c.replaying()) { kept.push_back(w); ids.insert(w.frame->getId().hexString()); continue; }
      c.check(ids.insert(w.frame->getId().hexString()).second, "id", "%s: id used before", w.what.c_str());
      cv::Mat e = picture(step);
      if (undistort) { cv::Mat out; twin->processImage(e, &out); e = out; }
      c.check(s.calls.size() == 2 || (!found && s.calls.size() == 1), "calls", "%s: %zu calls", w.what.c_str(), s.calls.size());
      c.check(s.calls[0].detect && s.calls[0].made_as == p.detector, "detector", "%s: detector %s instead of %s", w.what.c_str(), s.calls[0].made_as.c_str(), p.detector.c_str());
      c.check(s.calls[0].before.empty(), "detector", "%s: the detector got keypoints", w.what.c_str());
      if (s.calls.size() > 1) {
        c.check(!s.calls[1].detect && s.calls[1].made_as == p.extractor, "extractor", "%s: extractor %s instead of %s", w.what.c_str(), s.calls[1].made_as.c_str(), p.extractor.c_str());
        bool all = s.calls[1].before.size() == s.found.size();
        for (int i = 0; all && i < found; ++i) all = s.calls[1].before[i].pt == s.found[i].pt && s.calls[1].before[i].response == s.found[i].response && s.calls[1].before[i].size == s.found[i].size;
        c.check(all, "extractor", "%s: the extractor got other keypoints than the detector found", w.what.c_str());
      }
      for (const auto& call : s.calls) c.check(same(call.image, e), "image", "%s: %s got another image", w.what.c_str(), call.detect ? "the detector" : "the extractor");
      c.check(w.frame->getTimestampNanoseconds() == 100 + step && same(w.frame->getRawImage(), picture(step)), "raw", "%s: time stamp or raw image", w.what.c_str());
      c.check(same(image, picture(step)), "raw", "%s: the image changed", w.what.c_str());
      if (copy) image.setTo(cv::Scalar::all(0));
      kept.push_back(w);
      for (const Wanted& k : kept) checkFrame(c, k);
    }
  }
  if (c.replaying()) return;
  c.check(s.alive == 0, "alive", "%d of the detector and the extractor are left after destruction", s.alive);
  for (const Wanted& k : kept) checkFrame(c, k);
}
// Every parameter arrives where it belongs, also if set again.
void parameters(Ctx& c) {
  Stage s;
  featurestandin::stage = &s;
  const bool freak = c.flag("FREAK"), undistort = c.flag("undistorting");
  int which = c.choose(3, "parameters");
  bool rot = c.flag("rotation invariant"), scale = c.flag("scale invariant");
  {
    std::unique_ptr<MappedUndistorter> twin;
    Pipe p = make(c, freak, undistort, true, kParams[which], rot, scale, &twin);
    s.found = {keypoint(0), keypoint(1)};
    s.kept = {true, true};
    const int sets = c.thorough ? 2 : 1;
    for (int turn = 0;; ++turn) {
      s.calls.clear();
      if (!c.replaying()) {
        (void)p.pipe->processImage(picture(0), 5);
        c.check(s.calls.size() == 2 && s.calls[0].made_as == p.detector && s.calls[1].made_as == p.extractor, "parameters", "%zu calls, %s and %s instead of %s and %s", s.calls.size(),
                s.calls.empty() ? "" : s.calls[0].made_as.c_str(), s.calls.size() < 2 ? "" : s.calls[1].made_as.c_str(), p.detector.c_str(), p.extractor.c_str());
        c.check(s.alive == 2, "alive", "%d detectors and extractors", s.alive);
      }
      if (turn == sets) break;
      which = c.choose(3, "parameters");
      rot = c.flag("rotation invariant");
      scale = c.flag("scale invariant");
      const Params& q = kParams[which];
      if (freak) p.freak->initializeFreak(q.octaves, q.hessian, q.layers, rot, scale, q.pattern);
      else p.brisk->initializeBrisk(q.octaves, q.radius, q.threshold, q.most, rot, scale);
      p.expect(q, rot, scale);
    }
  }
  c.check(s.alive == 0, "alive", "%d of the detector and the extractor are left after destruction", s.alive);
}
}  // namespace

int main(int argc, char** argv) {
  cv::setNumThreads(1);
  std::vector<seqx::Scenario> v;
  v.push_back({"images", "every sequence of images with every answer of detector and extractor", images, 8});
  v.push_back({"parameters", "the parameters of detector and extractor", parameters, 1});
  return seqx::run_main(argc, argv, "S27", v);
}
