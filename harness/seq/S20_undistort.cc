// Undistortion maps, undistorted images and the frames of a visual pipeline.
#define SEQX_MAIN
#include "seqx.h"

#include <cmath>
#include <memory>
#include <set>

#include <opencv2/core/core.hpp>

#include <aslam/cameras/camera-3d-lidar.h>
#include <aslam/cameras/camera-pinhole.h>
#include <aslam/cameras/camera-unified-projection.h>
#include <aslam/cameras/distortion-equidistant.h>
#include <aslam/cameras/distortion-fisheye.h>
#include <aslam/cameras/distortion-null.h>
#include <aslam/cameras/distortion-radtan.h>
#include <aslam/common/undistort-helpers.h>
#include <aslam/frames/visual-frame.h>
#include <aslam/pipeline/test/convert-maps-legacy.h>
#include <aslam/pipeline/undistorter-mapped.h>
#include <aslam/pipeline/visual-pipeline-null.h>

using seqx::Ctx;
using namespace aslam;
namespace {
Eigen::VectorXd vec(std::initializer_list<double> l) {
  Eigen::VectorXd v(l.size());
  int i = 0;
  for (double d : l) v[i++] = d;
  return v;
}
Distortion::UniquePtr distortion(int d) {
  switch (d) {
    case 1: return Distortion::UniquePtr(new RadTanDistortion(vec({-0.12, 0.02, 0.001, -0.002})));
    case 2: return Distortion::UniquePtr(new RadTanDistortion(vec({0.06, 0.01, 0, 0})));
    case 3: return Distortion::UniquePtr(new EquidistantDistortion(vec({-0.013, 0.02, -0.012, 0.0025})));
    case 4: return Distortion::UniquePtr(new FisheyeDistortion(vec({0.7})));
    default: return Distortion::UniquePtr(new NullDistortion);
  }
}
const int kDistortions = 5, kCameras = 6;
const char* const kCameraNames[] = {"pinhole", "pinhole off centre", "unified xi 0.4", "unified xi 1", "unified xi 1 of 208 degrees", "unified xi 1.3 with invalid corners"};
bool wide(int cam) { return cam >= 4; }
struct Size { int w, h; };
const Size kSizes[] = {{64, 48}, {61, 43}, {30, 50}};
Camera::Ptr build(int cam, int dist, Size s) {
  Distortion::UniquePtr d = distortion(dist);
  const double cu = (s.w - 1) * .49, cv = (s.h - 1) * .52;
  Camera::Ptr c;
  switch (cam) {
    case 0: c.reset(new PinholeCamera(vec({50, 48, cu, cv}), s.w, s.h, d)); break;
    case 1: c.reset(new PinholeCamera(vec({80, 90, cu * .6, cv * 1.3}), s.w, s.h, d)); break;
    case 2: c.reset(new UnifiedProjectionCamera(vec({.4, 60, 61, cu, cv}), s.w, s.h, d)); break;
    case 3: c.reset(new UnifiedProjectionCamera(vec({1, 90, 88, cu, cv}), s.w, s.h, d)); break;
    case 4: c.reset(new UnifiedProjectionCamera(vec({1, 25, 25, cu, cv}), s.w, s.h, d)); break;
    default: c.reset(new UnifiedProjectionCamera(vec({1.3, 25, 25, cu, cv}), s.w, s.h, d)); break;
  }
  return c;
}
const float kAlphas[] = {0, 0.3f, 1};
const float kScales[] = {1, 0.5f, 1.5f, 0.77f, 0.7f};
struct Config { int cam, dist; Size size; float alpha, scale; int way; std::string str; };
enum { kSame, kDispatched, kToPinhole };
Config config(Ctx& c, bool all_sizes) {
  Config k;
  k.cam = c.choose(kCameras, "camera");
  k.dist = wide(k.cam) ? 0 : c.choose(kDistortions, "distortion");
  const bool unified = k.cam >= 2;
  // a pinhole cannot show what is seen more than 90 degrees away
  k.way = c.choose(unified && !wide(k.cam) ? 3 : 2, "to same type, through the base class, to pinhole");
  k.size = kSizes[all_sizes ? c.choose(3, "size") : 0];
  k.alpha = kAlphas[c.choose(3, "alpha")];
  k.scale = kScales[c.choose(5, "scale")];
  k.str = seqx::fmt("%s, distortion %d, %dx%d, way %d, alpha %g, scale %g", kCameraNames[k.cam], k.dist, k.size.w, k.size.h, k.way, k.alpha, k.scale);
  return k;
}
std::unique_ptr<MappedUndistorter> make(const Camera& a, int way, float alpha, float scale, InterpolationMethod m = InterpolationMethod::Linear) {
  if (way == kToPinhole) return createMappedUndistorterToPinhole(static_cast<const UnifiedProjectionCamera&>(a), alpha, scale, m);
  if (way == kDispatched) return createMappedUndistorter<Camera>(a, alpha, scale, m);
  if (a.getType() == Camera::Type::kPinhole) return createMappedUndistorter(static_cast<const PinholeCamera&>(a), alpha, scale, m);
  return createMappedUndistorter(static_cast<const UnifiedProjectionCamera&>(a), alpha, scale, m);
}
struct Point { double u, v; };
Point decode(const cv::Mat& m1, const cv::Mat& m2, int x, int y) {
  if (m1.type() == CV_32FC1) return {m1.at<float>(y, x), m2.at<float>(y, x)};
  if (m1.type() == CV_32FC2) return {m1.at<cv::Vec2f>(y, x)[0], m1.at<cv::Vec2f>(y, x)[1]};
  const cv::Vec2s p = m1.at<cv::Vec2s>(y, x);
  const int f = m2.at<uint16_t>(y, x);
  return {p[0] + (f & 31) / 32.0, p[1] + (f >> 5) / 32.0};
}
// Where the pixel of the output camera is in the input image; false if nowhere.
bool expected(const Camera& in, const Camera& out, int x, int y, Point* p) {
  Eigen::Vector3d ray;
  if (!out.backProject3(Eigen::Vector2d(x, y), &ray)) return false;
  Eigen::Vector2d k;
  const ProjectionResult::Status s = in.project3(ray, &k).getDetailedStatus();
  if (s != ProjectionResult::Status::KEYPOINT_VISIBLE && s != ProjectionResult::Status::KEYPOINT_OUTSIDE_IMAGE_BOX) return false;
  *p = {k[0], k[1]};
  return std::isfinite(p->u) && std::isfinite(p->v);
}
bool clear(const Point& p, const Camera& in) {  // far enough from the image for every interpolation
  return p.u <= -8 || p.v <= -8 || p.u >= in.imageWidth() + 7.0 || p.v >= in.imageHeight() + 7.0;
}
void checkMap(Ctx& c, const Camera& in, const Camera& out, const cv::Mat& m1, const cv::Mat& m2, const char* what) {
  c.check(m1.cols == (int)out.imageWidth() && m1.rows == (int)out.imageHeight(), "map-size", "%s: map of %dx%d", what, m1.cols, m1.rows);
  const double tol = m1.type() == CV_16SC2 ? 1 / 64. + 1e-6 : 1e-3;
  for (int y = 0; y < m1.rows; ++y) for (int x = 0; x < m1.cols; ++x) {
    Point e{};
    const Point got = decode(m1, m2, x, y);
    if (!expected(in, out, x, y, &e)) {
      c.check(clear(got, in), "map-unseen", "%s: pixel (%d, %d) shows nothing of the input image, but maps to (%g, %g)", what, x, y, got.u, got.v);
    } else if (std::abs(e.u) < 32000 && std::abs(e.v) < 32000) {
      c.check(std::abs(got.u - e.u) <= tol && std::abs(got.v - e.v) <= tol, "map", "%s: pixel (%d, %d) maps to (%g, %g), not (%g, %g)", what, x, y, got.u, got.v, e.u, e.v);
    } else {
      c.check(clear(got, in), "map-far", "%s: pixel (%d, %d) belongs to (%g, %g) and maps to (%g, %g)", what, x, y, e.u, e.v, got.u, got.v);
    }
  }
}
void maps(Ctx& c) {
  const Config k = config(c, true);
  if (c.replaying()) return;
  Camera::Ptr in = build(k.cam, k.dist, k.size);
  std::unique_ptr<MappedUndistorter> u = make(*in, k.way, k.alpha, k.scale);
  c.check(u && u->getUndistortMapU().type() == CV_16SC2 && u->getUndistortMapV().type() == CV_16UC1, "map-type", "%s: type of the maps", k.str.c_str());
  checkMap(c, *in, u->getOutputCamera(), u->getUndistortMapU(), u->getUndistortMapV(), k.str.c_str());
}
// Output cameras that look at what the input camera does not see, and all types of maps.
void anyOutput(Ctx& c) {
  const int cam = c.choose(kCameras, "input"), dist = wide(cam) ? 0 : c.choose(kDistortions, "distortion");
  const int outcam = c.choose(kCameras, "output");
  static const double kFocal[] = {1, 0.2, 0.01, 5};
  const double f = kFocal[c.choose(4, "focal length factor")];
  const int shift = c.choose(3, "shift");
  if (c.replaying()) return;
  Camera::Ptr in = build(cam, dist, kSizes[0]), out = build(outcam, 0, kSizes[2]);
  Eigen::VectorXd p = out->getParameters();
  const int n = p.size();
  p[n - 4] *= f;
  p[n - 3] *= f;
  if (shift) p[n - 2] += shift == 1 ? 100 : -3000;
  out->setParameters(p);
  const std::string what = seqx::fmt("%s (distortion %d) seen as %s with focal length x %g, shift %d", kCameraNames[cam], dist, kCameraNames[outcam], f, shift);
  for (int type : {CV_16SC2, CV_32FC1, CV_32FC2}) {
    cv::Mat m1, m2(3, 3, CV_8UC1);
    if (outcam < 2) common::buildUndistortMap(*in, static_cast<PinholeCamera&>(*out), type, m1, m2);
    else common::buildUndistortMap(*in, static_cast<UnifiedProjectionCamera&>(*out), type, m1, m2);
    c.check(m1.type() == type && (type == CV_32FC2) == m2.empty(), "map-type", "%s: type of the maps", what.c_str());
    checkMap(c, *in, *out, m1, m2, seqx::fmt("%s, map type %d", what.c_str(), type).c_str());
  }
}
void outputCamera(Ctx& c) {
  const Config k = config(c, true);
  if (c.replaying()) return;
  const char* what = k.str.c_str();
  Camera::Ptr in = build(k.cam, k.dist, k.size), copy = build(k.cam, k.dist, k.size);
  std::unique_ptr<MappedUndistorter> u = make(*in, k.way, k.alpha, k.scale);
  const Camera& out = u->getOutputCamera();
  // what it is
  c.check(out.getType() == (k.way == kToPinhole ? Camera::Type::kPinhole : in->getType()), "output-type", "%s: output camera of type %d", what, (int)out.getType());
  c.check(!out.hasDistortion(), "output-distortion", "%s: output camera with distortion", what);
  c.check(std::abs(out.imageWidth() - (double)k.scale * k.size.w) < 1.001 && std::abs(out.imageHeight() - (double)k.scale * k.size.h) < 1.001,
          "output-size", "%s: output of %ux%u", what, out.imageWidth(), out.imageHeight());
  if (out.getType() == Camera::Type::kUnifiedProjection)
    c.check(out.getParameters()[0] == in->getParameters()[0], "xi", "%s: xi %g", what, out.getParameters()[0]);
  // an independent copy of the input camera
  c.check(&u->getInputCamera() != in.get() && u->getInputCamera().getParameters() == copy->getParameters() &&
          u->getInputCamera().getDistortion() == copy->getDistortion(), "input-copy", "%s: not a copy of the input camera", what);
  in->setParameters(in->getParameters() * 1.5);
  in->removeDistortion();
  c.check(u->getInputCamera().getParameters() == copy->getParameters() && u->getInputCamera().getDistortion() == copy->getDistortion(),
          "input-shared", "%s: changing the camera changed that of the undistorter", what);
  // linear in alpha
  const int n = out.getParameterSize();
  const Eigen::VectorXd p0 = make(*copy, k.way, 0, k.scale)->getOutputCamera().getParameters(), p1 = make(*copy, k.way, 1, k.scale)->getOutputCamera().getParameters();
  for (int i = n - 4; i < n; ++i) {
    const double e = p0[i] + (p1[i] - p0[i]) * k.alpha;
    c.check(std::abs(out.getParameters()[i] - e) < 1e-5 * (1 + std::abs(p0[i]) + std::abs(p1[i])), "alpha", "%s: intrinsic %d is %g, not %g between %g and %g", what, i,
            out.getParameters()[i], e, p0[i], p1[i]);
  }
  // nothing to do
  if (k.dist == 0 && k.way != kToPinhole && k.scale == 1)
    for (int i = 0; i < n; ++i)
      c.check(std::abs(out.getParameters()[i] - copy->getParameters()[i]) < 1e-4 * copy->getParameters()[i], "unchanged", "%s: intrinsic %d is %g, not %g", what, i,
              out.getParameters()[i], copy->getParameters()[i]);
  const double w = k.size.w, h = k.size.h;
  if (k.alpha == 0) {  // all pixels valid
    for (int y = 0; y < (int)out.imageHeight(); ++y) for (int x = 0; x < (int)out.imageWidth(); ++x) {
      Point p{};
      if (!expected(*copy, out, x, y, &p)) {
        c.check(k.cam == 5, "alpha-0-nothing", "%s: pixel (%d, %d) of the output shows nothing", what, x, y);
        continue;
      }
      const double tol = 0.35;  // the rectangle is made of 9 points per side
      c.check(p.u >= -tol && p.v >= -tol && p.u <= w - 1 + tol && p.v <= h - 1 + tol, "alpha-0", "%s: pixel (%d, %d) of the %ux%u output belongs to (%g, %g)", what, x, y,
              out.imageWidth(), out.imageHeight(), p.u, p.v);
    }
  }
  if (k.alpha == 1) {  // nothing lost
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
      if (x && y && x != w - 1 && y != h - 1) continue;
      Eigen::Vector3d ray;
      if (!copy->backProject3(Eigen::Vector2d(x, y), &ray)) continue;
      Eigen::Vector2d p;
      if (out.project3(ray, &p).getDetailedStatus() == ProjectionResult::Status::PROJECTION_INVALID) {
        c.fail("alpha-1-invisible", "%s: pixel (%d, %d) of the input is not visible", what, x, y);
        continue;
      }
      const double tol = 0.35 * std::max(1.0f, k.scale);
      c.check(p[0] >= -tol && p[1] >= -tol && p[0] <= out.imageWidth() - 1 + tol && p[1] <= out.imageHeight() - 1 + tol, "alpha-1",
              "%s: pixel (%d, %d) of the input goes to (%g, %g) of %ux%u", what, x, y, p[0], p[1], out.imageWidth(), out.imageHeight());
    }
  }
}
double gradient(double x, double y) { return 10 + 2 * x + y; }
void images(Ctx& c) {
  static const InterpolationMethod kMethods[] = {InterpolationMethod::Linear, InterpolationMethod::Cubic, InterpolationMethod::Lanczos, InterpolationMethod::NearestNeighbor,
                                                 InterpolationMethod::Area};
  const int method = c.choose(5, "interpolation");
  const int type = c.choose(4, "image type");
  const int reuse = c.choose(3, "output image: new, of another size, of the right size");
  const bool roi = c.flag("input is part of an image");
  const Config k = config(c, false);
  if (c.replaying()) return;
  const std::string what = k.str + seqx::fmt(", interpolation %d, type %d", method, type);
  Camera::Ptr in = build(k.cam, k.dist, k.size);
  std::unique_ptr<MappedUndistorter> u = make(*in, k.way, k.alpha, k.scale, kMethods[method]);
  const Camera& out = u->getOutputCamera();
  static const int kTypes[] = {CV_8UC1, CV_8UC3, CV_16UC1, CV_32FC1};
  cv::Mat big(k.size.h + 4, k.size.w + 6, kTypes[type], cv::Scalar::all(255));
  cv::Mat image = roi ? big(cv::Rect(3, 2, k.size.w, k.size.h)) : cv::Mat(k.size.h, k.size.w, kTypes[type]);
  for (int y = 0; y < k.size.h; ++y) for (int x = 0; x < k.size.w; ++x) {
    const double v = gradient(x, y);
    switch (type) {
      case 0: image.at<uint8_t>(y, x) = v; break;
      case 1: image.at<cv::Vec3b>(y, x) = cv::Vec3b(v, 255 - v, 7); break;
      case 2: image.at<uint16_t>(y, x) = v * 100; break;
      default: image.at<float>(y, x) = v; break;
    }
  }
  const cv::Mat before = image.clone();
  cv::Mat result;
  if (reuse == 1) result = cv::Mat(5, 3, CV_8UC1, cv::Scalar(1));
  if (reuse == 2) result = cv::Mat(out.imageHeight(), out.imageWidth(), kTypes[type], cv::Scalar::all(77));
  u->processImage(image, &result);
  c.check(result.cols == (int)out.imageWidth() && result.rows == (int)out.imageHeight() && result.type() == image.type(), "image-size", "%s: image of %dx%d", what.c_str(),
          result.cols, result.rows);
  c.check(cv::norm(image, before, cv::NORM_INF) == 0, "input-changed", "%s: the input image changed", what.c_str());
  {
    // The next image does not touch this one, and its own is the same whether or not an output image is given.
    const cv::Mat first = result.clone();
    cv::Mat inverted = cv::Scalar::all(200) - image, second, again;
    u->processImage(inverted, &second);
    c.check(first.empty() || cv::norm(result, first, cv::NORM_INF) == 0, "earlier-output", "%s: the undistorted image changed when the next one was processed", what.c_str());
    const cv::Mat kept = second.clone();
    u->processImage(image, &again);
    c.check(first.empty() || (cv::norm(again, first, cv::NORM_INF) == 0 && cv::norm(second, kept, cv::NORM_INF) == 0), "earlier-output", "%s: an image depends on the one before", what.c_str());
  }
  const double w = k.size.w, h = k.size.h;
  const double margin = method == 1 ? 2 : method == 2 ? 4 : method == 3 ? 1 : 0;
  for (int y = 0; y < result.rows; ++y) for (int x = 0; x < result.cols; ++x) {
    Point p{};
    const bool seen = expected(*in, out, x, y, &p);
    double v[3] = {};
    int channels = 1;
    switch (type) {
      case 0: v[0] = result.at<uint8_t>(y, x); break;
      case 1: channels = 3; for (int i = 0; i < 3; ++i) v[i] = result.at<cv::Vec3b>(y, x)[i]; break;
      case 2: v[0] = result.at<uint16_t>(y, x) / 100.0; break;
      default: v[0] = result.at<float>(y, x); break;
    }
    if (!seen || p.u < -1.1 - margin || p.v < -1.1 - margin || p.u > w + .1 + margin || p.v > h + .1 + margin) {
      for (int i = 0; i < channels; ++i) c.check(v[i] == 0, "outside", "%s: pixel (%d, %d) shows %g, but nothing is seen there", what.c_str(), x, y, v[i]);
    } else if (p.u >= margin && p.v >= margin && p.u <= w - 1 - margin && p.v <= h - 1 - margin) {
      const double e[3] = {gradient(p.u, p.v), 255 - gradient(p.u, p.v), 7};
      const double tol = method == 3 ? 3.1 : 1.01;
      for (int i = 0; i < channels; ++i)
        c.check(std::abs(v[i] - e[i]) <= tol, "interpolation", "%s: pixel (%d, %d) of channel %d shows %g, the scene has %g at (%g, %g)", what.c_str(), x, y, i, v[i], e[i], p.u, p.v);
    }
  }
}
void refusals(Ctx& c) {
  const int cam = c.choose(4, "camera");
  const int way = c.choose(cam >= 2 ? 3 : 2, "way");
  const int kind = c.choose(10, "refusal");
  if (c.replaying()) return;
  Camera::Ptr in = build(cam, 1, kSizes[0]);
  const float nan = std::nanf("");
  struct { float alpha, scale; } const kBad[] = {{-0.001f, 1}, {1.001f, 1}, {0.5f, 0}, {0.5f, -1}, {nan, 1}, {0.5f, nan}};
  if (kind < 6) {
    c.check(c.aborts([&] { (void)make(*in, way, kBad[kind].alpha, kBad[kind].scale); }), "bad-parameter", "%s, way %d: alpha %g, scale %g accepted", kCameraNames[cam], way, kBad[kind].alpha,
            kBad[kind].scale);
  } else if (kind == 6) {
    Camera::Ptr lidar(new Camera3DLidar(vec({.006, .009, .3, 0}), 64, 48));
    c.check(c.aborts([&] { (void)make(*lidar, kDispatched, 0, 1); }), "lidar", "an undistorter for a lidar");
  } else if (kind == 7) {
    std::unique_ptr<MappedUndistorter> u = make(*in, way, 0, 1);
    for (const Size& s : {Size{63, 48}, Size{64, 47}, Size{48, 64}, Size{65, 49}, Size{0, 0}})
      c.check(c.aborts([&] { cv::Mat image(s.h, s.w, CV_8UC1, cv::Scalar(0)), r; u->processImage(image, &r); }), "image-size", "%s, way %d: image of %dx%d accepted", kCameraNames[cam], way, s.w, s.h);
    c.check(c.aborts([&] { cv::Mat image(48, 64, CV_8UC1, cv::Scalar(0)); u->processImage(image, nullptr); }), "no-output", "%s, way %d: no output image", kCameraNames[cam], way);
  } else if (kind == 8) {
    Camera::Ptr out = build(cam, 0, kSizes[1]);
    for (int i = 0; i < 6; ++i) {
      Size a = kSizes[1], b = kSizes[1];
      if (i == 1) --a.w;
      if (i == 2) ++a.h;
      if (i == 3) ++b.w;
      if (i == 4) --b.h;
      if (i == 5) a = b = kSizes[0];  // that of the input
      cv::Mat m1(a.h, a.w, CV_16SC2, cv::Scalar::all(0)), m2(b.h, b.w, CV_16UC1, cv::Scalar::all(0));
      c.check(c.aborts([&] { MappedUndistorter u(in, out, m1, m2, InterpolationMethod::Linear); }) == (i != 0), "own-maps", "%s: maps of %dx%d and %dx%d", kCameraNames[cam], a.w, a.h, b.w, b.h);
    }
  } else {
    cv::Mat m1, m2;
    for (int type : {CV_8UC1, CV_64FC1, CV_16UC1})
      c.check(c.aborts([&] { common::buildUndistortMap(*in, *in, type, m1, m2); }), "map-type", "map of type %d", type);
  }
}
// A visual pipeline that remembers what it got.
struct Seen { cv::Mat image; const VisualFrame* frame = nullptr; int calls = 0; bool raw = false, id = false; int64_t stamp = 0; const Camera* camera = nullptr; };
class Recorder : public VisualPipeline {
 public:
  Recorder(std::unique_ptr<Undistorter>& u, bool copy, Seen* s) : VisualPipeline(u, copy), seen_(s) {}
  Recorder(const Camera::ConstPtr& a, const Camera::ConstPtr& b, bool copy, Seen* s) : VisualPipeline(a, b, copy), seen_(s) {}
 protected:
  void processFrameImpl(const cv::Mat& image, VisualFrame* frame) const override {
    ++seen_->calls;
    seen_->image = image;
    seen_->frame = frame;
    seen_->raw = frame->hasRawImage();
    seen_->id = frame->getId().isValid();
    seen_->stamp = frame->getTimestampNanoseconds();
    seen_->camera = frame->getCameraGeometry().get();
  }
  Seen* seen_;
};
void pipeline(Ctx& c) {
  const int kind = c.choose(5, "undistorting, two cameras, no processing");  // 0-2 undistorting in each way
  const bool copy = c.flag("copy images");
  const int cam = kind == 2 ? 2 + c.choose(2, "camera") : c.choose(4, "camera");
  Seen seen;
  Camera::Ptr in = build(cam, 1, kSizes[0]), out = build(0, 0, kSizes[0]);
  std::unique_ptr<VisualPipeline> pipe;
  Camera::ConstPtr want_in = in, want_out = out;
  std::unique_ptr<MappedUndistorter> twin;
  if (kind < 3) {
    std::unique_ptr<Undistorter> u = make(*in, kind, 0.5f, 0.77f);
    want_in = u->getInputCameraShared();
    want_out = u->getOutputCameraShared();
    twin = make(*in, kind, 0.5f, 0.77f);
    pipe.reset(new Recorder(u, copy, &seen));
    c.check(!u, "undistorter-taken", "the pipeline left the undistorter with its caller");
  } else if (kind == 3) {
    pipe.reset(new Recorder(want_in, want_out, copy, &seen));
  } else {
    pipe.reset(new NullVisualPipeline(want_in, copy));
    want_out = want_in;
  }
  const std::string what = seqx::fmt("%s, kind %d, copy %d", kCameraNames[cam], kind, copy);
  c.check(pipe->getInputCameraShared() == want_in && pipe->getOutputCameraShared() == want_out && &pipe->getInputCamera() == want_in.get() && &pipe->getOutputCamera() == want_out.get(),
          "pipeline-cameras", "%s: cameras of the pipeline", what.c_str());
  std::set<std::string> ids;
  std::vector<std::pair<VisualFrame::Ptr, cv::Mat>> kept;
  std::vector<std::pair<cv::Mat, cv::Mat>> processed;  // as given to processFrameImpl(), and what it was
  static const int64_t kStamps[] = {0, 1, INT64_MAX, -5};
  const int n = c.thorough ? 4 : 3;
  for (int step = 0; step < n; ++step) {
    const int op = c.choose(6, "image");
    if (op == 5) {
      static const Size kWrong[] = {{63, 48}, {64, 47}, {48, 64}, {65, 48}};
      for (const Size& s : kWrong)
        c.check(c.aborts([&] { (void)pipe->processImage(cv::Mat(s.h, s.w, CV_8UC1, cv::Scalar(0)), 1); }), "image-size", "%s: image of %dx%d accepted", what.c_str(), s.w, s.h);
      continue;
    }
    cv::Mat image(48, 64, op == 4 ? CV_8UC3 : CV_8UC1);
    cv::randu(image, 0, 256);
    image.data[0] = step;
    const int64_t stamp = kStamps[op == 4 ? 0 : op];
    const cv::Mat content = image.clone();
    const int calls = seen.calls;
    VisualFrame::Ptr f = pipe->processImage(image, stamp);
    if (c.replaying()) { kept.push_back({f, content}); ids.insert(f->getId().hexString()); continue; }
    c.check(f != nullptr, "frame", "%s: no frame", what.c_str());
    c.check(f->getTimestampNanoseconds() == stamp, "stamp", "%s: time stamp %ld, not %ld", what.c_str(), (long)f->getTimestampNanoseconds(), (long)stamp);
    c.check(f->getRawCameraGeometry() == want_in && f->getCameraGeometry() == want_out, "frame-cameras", "%s: cameras of the frame", what.c_str());
    c.check(f->getId().isValid() && ids.insert(f->getId().hexString()).second, "frame-id", "%s: id of the frame is invalid or used before", what.c_str());
    c.check(f->isValid(), "frame-valid", "%s: frame not valid", what.c_str());
    c.check(f->hasRawImage() && (f->getRawImage().data == image.data) != copy, "image-copy", "%s: the image of the frame was %scopied", what.c_str(), copy ? "not " : "");
    c.check(f->getRawImage().size() == image.size() && f->getRawImage().type() == image.type() && cv::norm(f->getRawImage(), content, cv::NORM_INF) == 0, "image-content",
            "%s: the image of the frame differs from the raw image", what.c_str());
    c.check(!f->hasKeypointMeasurements() && !f->hasDescriptors() && !f->hasTrackIds(), "no-keypoints", "%s: keypoints from nowhere", what.c_str());
    if (kind < 4) {
      c.check(seen.calls == calls + 1 && seen.frame == f.get(), "impl-calls", "%s: processFrameImpl() called %d times", what.c_str(), seen.calls - calls);
      c.check(seen.raw && seen.id && seen.stamp == stamp && seen.camera == want_out.get(), "impl-frame", "%s: processFrameImpl() got an unfinished frame", what.c_str());
      cv::Mat e = content;
      if (twin) twin->processImage(content, &e);
      c.check(seen.image.size() == e.size() && seen.image.type() == e.type() && cv::norm(seen.image, e, cv::NORM_INF) == 0, "impl-image", "%s: processFrameImpl() got another image", what.c_str());
      if (twin) processed.push_back({seen.image, e});
    }
    for (const auto& p : processed)
      c.check(cv::norm(p.first, p.second, cv::NORM_INF) == 0, "impl-later", "%s: the undistorted image of an earlier frame changed", what.c_str());
    if (copy) image.setTo(cv::Scalar::all(0));  // the driver uses its buffer again
    kept.push_back({f, content});
    for (const auto& p : kept)
      c.check(cv::norm(p.first->getRawImage(), p.second, cv::NORM_INF) == 0, "image-later", "%s: the raw image of an earlier frame changed", what.c_str());
  }
}
// Conversions between types of maps keep the coordinates.
void conversion(Ctx& c) {
  static const float kValues[] = {-3, -1.03125f, -0.03125f, 0, 0.03125f, 0.5f, 0.96875f, 1, 47.5f, 31.015f, 1000.984f, 32766.5f, -32767.5f};
  const int n = 13;
  const int from = c.choose(5, "from"), to = c.choose(4, "to");
  const bool nearest = to == 1 && c.flag("nearest");
  const bool roi = c.flag("parts of matrices");
  const int rows = 1 + c.choose(3, "rows");
  if (c.replaying()) return;
  const int cols = 13;
  static const int kTo[] = {0, CV_16SC2, CV_32FC1, CV_32FC2};
  auto mat = [&](int type) {
    cv::Mat big(rows + 2, cols + 3, type, cv::Scalar::all(0));
    return roi ? big(cv::Rect(1, 1, cols, rows)) : cv::Mat(rows, cols, type, cv::Scalar::all(0));
  };
  for (int turn = 0; turn < n; ++turn) {
    const bool fixed = from >= 2;
    cv::Mat m1 = mat(fixed ? CV_16SC2 : from == 0 ? CV_32FC1 : CV_32FC2), m2;
    if (from != 1) m2 = mat(from == 0 ? CV_32FC1 : from == 3 ? CV_16SC1 : CV_16UC1);
    std::vector<Point> want;
    for (int y = 0; y < rows; ++y) for (int x = 0; x < cols; ++x) {
      float u = kValues[x % n], v = kValues[(x * 3 + y + turn) % n];
      if (from == 0) { m1.at<float>(y, x) = u; m2.at<float>(y, x) = v; }
      else if (from == 1) m1.at<cv::Vec2f>(y, x) = cv::Vec2f(u, v);
      else {
        u = std::floor(u * 32) / 32;
        v = std::floor(v * 32) / 32;
        m1.at<cv::Vec2s>(y, x) = cv::Vec2s(std::floor(u), std::floor(v));
        const int f = (u - std::floor(u)) * 32 + (v - std::floor(v)) * 32 * 32;
        m2.at<uint16_t>(y, x) = f;
      }
      want.push_back({u, v});
    }
    const bool swapped = from == 4;
    cv::Mat d1, d2;
    if (turn % 2) { d1 = cv::Mat(2, 2, CV_8UC1); d2 = cv::Mat(2, 2, CV_8UC1); }
    convertMapsLegacy(swapped ? m2 : m1, swapped ? m1 : m2, d1, d2, kTo[to], nearest);
    const int type = to ? kTo[to] : fixed ? CV_32FC2 : CV_16SC2;
    c.check(d1.type() == type && d1.cols == cols && d1.rows == rows, "converted-type", "from %d to %d: type %d", from, to, d1.type());
    c.check((type == CV_32FC2 || nearest) == d2.empty(), "converted-second", "from %d to %d: second map", from, to);
    if (d1.type() != type || d1.rows != rows || d1.cols != cols) return;
    int i = 0;
    for (int y = 0; y < rows; ++y) for (int x = 0; x < cols; ++x, ++i) {
      Point got;
      if (nearest) got = {(double)d1.at<cv::Vec2s>(y, x)[0], (double)d1.at<cv::Vec2s>(y, x)[1]};
      else got = decode(d1, d2, x, y);
      const double tol = nearest ? (fixed ? 1 : 0.5) : type == CV_16SC2 && !fixed ? 1 / 64. : 0;
      // known finding: signed fractions to CV_16SC2; the integer parts are right
      const bool fraction_only = from == 3 && to == 1 && !nearest && d1.at<cv::Vec2s>(y, x) == cv::Vec2s(std::floor(want[i].u), std::floor(want[i].v));
      c.check(std::abs(got.u - want[i].u) <= tol && std::abs(got.v - want[i].v) <= tol, fraction_only ? "signed-fractions" : "converted", "from %d to %d (nearest %d, roi %d): (%g, %g) became (%g, %g)", from, to, nearest, roi,
              want[i].u, want[i].v, got.u, got.v);
    }
  }
}
}  // namespace

int main(int argc, char** argv) {
  cv::setNumThreads(1);
  std::vector<seqx::Scenario> v;
  v.push_back({"maps", "the maps of every undistorter", maps, 8});
  v.push_back({"any-output", "maps of all types for output cameras looking elsewhere", anyOutput, 8});
  v.push_back({"output-camera", "output camera, alpha and scale", outputCamera, 8});
  v.push_back({"images", "undistorted images", images, 8});
  v.push_back({"refusals", "what is refused", refusals, 8});
  v.push_back({"pipeline", "the frames of visual pipelines", pipeline, 8});
  v.push_back({"conversion", "conversion of maps", conversion, 8});
  return seqx::run_main(argc, argv, "S20", v);
}
