// Triangulation of points from rays and from feature tracks.
#define SEQX_MAIN
#include "seqx.h"

#include <cmath>
#include <memory>

#include <aslam/cameras/camera-pinhole.h>
#include <aslam/cameras/camera-unified-projection.h>
#include <aslam/cameras/distortion-radtan.h>
#include <aslam/cameras/ncamera.h>
#include <aslam/frames/feature-track.h>
#include <aslam/frames/visual-frame.h>
#include <aslam/frames/visual-nframe.h>
#include <aslam/triangulation/triangulation.h>

using seqx::Ctx;
using namespace aslam;
namespace {
typedef Eigen::Matrix<long double, 3, 1> V3;
typedef Eigen::Matrix<long double, 3, 3> M3;
typedef TriangulationResult::Status St;
typedef Eigen::Vector3d P3;

Transformation pose(double x, double y, double z, double ax, double ay, double az, double angle) {
  const Eigen::Vector3d axis = Eigen::Vector3d(ax, ay, az).normalized();
  return Transformation(Quaternion(Eigen::Quaterniond(Eigen::AngleAxisd(angle, axis))), P3(x, y, z));
}
// Poses of the body that all look at (0, 0, 5) or so.
const int kPoses = 8;
Transformation bodyPose(int i) {
  switch (i) {
    case 0: return pose(0, 0, 0, 0, 0, 1, 0);
    case 1: return pose(1.5, 0, 0, 0, 1, 0, -.2);
    case 2: return pose(0, -1, .5, 1, 0, 0, -.1);
    case 3: return pose(-2, 1, -1, 1, 2, .5, .25);
    case 4: return pose(0, 0, -2, 0, 0, 1, 1.3);     // on the optical axis of 0
    case 5: return pose(0, 0, 0, .3, 1, 0, .15);     // where 0 is
    case 6: return pose(4, 2, 3, 0, 1, 0, -1.1);
    default: return pose(-3, -3, 12, 0, 1, 0, 2.9);  // from the other side
  }
}
const int kMounts = 3;
Transformation mount(int i) {
  switch (i) {
    case 0: return pose(0, 0, 0, 0, 0, 1, 0);
    case 1: return pose(.3, -.2, .1, 1, 1, 1, .2);
    default: return pose(-.5, .1, 0, 0, 0, 1, 3.1);
  }
}
const int kPoints = 8;
P3 point(int i) {
  static const double k[kPoints][3] = {{0, 0, 5}, {1, 1, 5}, {-1.5, .7, 4}, {.2, -2, 8}, {0, 0, 2.5}, {.1, .1, 30}, {3, -2.5, 6}, {-.4, .3, 3.5}};
  return P3(k[i][0], k[i][1], k[i][2]);
}
struct View { Transformation T_G_B, T_B_C; size_t cam; P3 ray; };  // ray: in the camera frame, of any length
struct Reference { bool usable = false; double angle = 0; P3 p; };
// The point closest to all lines, and the largest angle between two of them.
Reference reference(const std::vector<View>& views) {
  M3 a = M3::Zero();
  V3 b = V3::Zero();
  std::vector<V3> dirs;
  for (const View& v : views) {
    const Transformation T = v.T_G_B * v.T_B_C;
    const V3 d = (T.getRotationMatrix() * v.ray).cast<long double>().normalized(), c = T.getPosition().cast<long double>();
    const M3 m = M3::Identity() - d * d.transpose();
    a += m;
    b += m * c;
    dirs.push_back(d);
  }
  Reference r;
  for (size_t i = 0; i < dirs.size(); ++i) for (size_t j = 0; j < i; ++j)
    r.angle = std::max(r.angle, (double)std::atan2((long double)dirs[i].cross(dirs[j]).norm(), std::abs(dirs[i].dot(dirs[j]))));
  if (r.angle > 1e-4) {
    r.usable = true;
    r.p = (a.inverse() * b).cast<double>();
  }
  return r;
}
const P3 kUntouched(77, 78, 79);
// angle from which on a point has to be found, and up to which it must not be
const double kEnough = 0.1, kWell = 0.3, kTooSmall = 1e-7;
void verify(Ctx& c, TriangulationResult s, const P3& got, const Reference& r, double tol, const char* name, const char* what) {
  if (r.angle <= kTooSmall) c.check(s.status() == St::kUnobservable, "unobservable", "%s, %s: status %d for rays of which no two meet", name, what, (int)s.status());
  if (r.angle >= kEnough) c.check(s.status() == St::kSuccessful, "status", "%s, %s: status %d for rays %g rad apart", name, what, (int)s.status(), r.angle);
  c.check(s.wasTriangulationSuccessful() == (s.status() == St::kSuccessful) && (bool)s == (s.status() == St::kSuccessful), "status-bool", "%s, %s: status and its conversion to bool", name, what);
  if (s.status() == St::kSuccessful && r.angle >= 1e-3) {
    const double scale = 1 + r.p.norm();
    c.check((got - r.p).norm() <= tol * scale / (r.angle * r.angle), "point", "%s, %s: (%g, %g, %g) instead of (%g, %g, %g), angle %g", name, what, got[0], got[1], got[2], r.p[0], r.p[1], r.p[2], r.angle);
  } else if (s.status() != St::kSuccessful) {
    c.check(got == kUntouched, "untouched", "%s, %s: point changed without success", name, what);
  }
}
void linear(Ctx& c, const std::vector<View>& views, const char* what) {
  Aligned<std::vector, Eigen::Vector2d> m;
  TransformationVector T_G_B, mounts;
  std::vector<size_t> cams;
  Eigen::Matrix3Xd rays(3, views.size()), centers(3, views.size());
  bool same = true;
  int i = 0;
  for (int k = 0; k < kMounts; ++k) mounts.push_back(mount(k));
  for (const View& v : views) {
    m.push_back(v.ray.head<2>() / v.ray[2]);
    T_G_B.push_back(v.T_G_B);
    cams.push_back(v.cam);
    same &= v.cam == views[0].cam;
    const Transformation T = v.T_G_B * v.T_B_C;
    rays.col(i) = T.getRotationMatrix() * v.ray;
    centers.col(i++) = T.getPosition();
  }
  const Reference r = reference(views);
  P3 p = kUntouched;
  if (same) verify(c, linearTriangulateFromNViews(m, T_G_B, mounts[cams[0]], &p), p, r, 1e-9, "one camera", what);
  p = kUntouched;
  verify(c, linearTriangulateFromNViewsMultiCam(m, cams, T_G_B, mounts, &p), p, r, 1e-9, "several cameras", what);
  p = kUntouched;
  const TriangulationResult s = linearTriangulateFromNViews(rays, centers, &p);
  verify(c, s, p, r, 1e-9, "bearing vectors", what);
}
// Up to n views of a point, in every order, with and without noise.
std::vector<View> chooseViews(Ctx& c, int n, bool one_mount, const P3& g, bool noise) {
  std::vector<View> v;
  const int first = c.choose(kMounts, "mount");
  for (int i = 0; i < n; ++i) {
    View w;
    w.T_G_B = bodyPose(c.choose(kPoses, "pose"));
    w.cam = i == 0 || one_mount ? first : c.choose(kMounts, "mount");
    w.T_B_C = mount(w.cam);
    w.ray = (w.T_G_B * w.T_B_C).inverse() * g;
    if (noise) w.ray += P3(.003 * (i % 3 - 1), .002 * ((i + 1) % 3 - 1), 0) * w.ray[2];
    v.push_back(w);
  }
  return v;
}
bool seen(const std::vector<View>& v) {  // far enough from the image plane
  for (const View& w : v) if (std::abs(w.ray[2]) < .2 * w.ray.norm()) return false;
  return true;
}
std::string text(const std::vector<View>& v, const P3& g) {
  std::string s = seqx::fmt("point (%g, %g, %g) from", g[0], g[1], g[2]);
  for (const View& w : v) s += seqx::fmt(" [%g %g %g cam %zu]", w.T_G_B.getPosition()[0], w.T_G_B.getPosition()[1], w.T_G_B.getPosition()[2], w.cam);
  return s;
}
void views(Ctx& c) {
  const int n = 2 + c.choose(c.thorough ? 3 : 2, "views");
  const bool one = n > 2 || c.flag("one camera");
  const P3 g = point(c.choose(n == 4 ? 3 : kPoints, "point"));
  const bool noise = c.flag("noise");
  const std::vector<View> v = chooseViews(c, n, one, g, noise);
  if (c.replaying()) return;
  if (seen(v)) linear(c, v, text(v, g).c_str());
}
// A view whose ray is nearly in its image plane must not hide that the others do not see the point twice.
void wideViews(Ctx& c) {
  static const double kZ[] = {1e-2, 1e-4, 1e-6, 1e-8, -1e-5};
  const int n = 2 + c.choose(3, "views");
  const double z = kZ[c.choose(5, "depth")];
  const int which = c.choose(n, "which");
  const bool both = c.flag("two of them"), parallel = c.flag("the others are where the first one is");
  const P3 g = point(c.choose(kPoints, "point"));
  if (c.replaying()) return;
  std::vector<View> v;
  for (int i = 0; i < n; ++i) {
    View w;
    w.cam = 0;
    w.T_B_C = mount(0);
    const bool flat = i == which || (both && i == (which + 1) % n);
    const P3 center = parallel ? P3(1, 1, 0) : P3(1 + i, 1 - .5 * i, .3 * i);
    if (flat) {
      // turn the camera so that the point is at (1, 0, z)
      const P3 d = (g - center).normalized();
      w.T_G_B = Transformation(Quaternion(Eigen::Quaterniond::FromTwoVectors(P3(1, 0, z).normalized(), d)), center);
    } else {
      w.T_G_B = Transformation(Quaternion(Eigen::Quaterniond::Identity()), center);
    }
    w.ray = (w.T_G_B * w.T_B_C).inverse() * g;
    if (flat) w.ray = P3(1, 0, z) * w.ray.norm();
    v.push_back(w);
  }
  const Reference r = reference(v);
  const std::string what = seqx::fmt("depth %g, ", z) + text(v, g);
  Aligned<std::vector, Eigen::Vector2d> m;
  TransformationVector T_G_B, mounts;
  std::vector<size_t> cams(n, 0);
  for (const View& w : v) { m.push_back(w.ray.head<2>() / w.ray[2]); T_G_B.push_back(w.T_G_B); }
  mounts.push_back(mount(0));
  const double tol = 1e-9;
  P3 p = kUntouched;
  verify(c, linearTriangulateFromNViews(m, T_G_B, mounts[0], &p), p, r, tol, "one camera", what.c_str());
  p = kUntouched;
  verify(c, linearTriangulateFromNViewsMultiCam(m, cams, T_G_B, mounts, &p), p, r, tol, "several cameras", what.c_str());
}
void fewViews(Ctx& c) {
  const int n = c.choose(4, "views"), kind = c.choose(6, "refusal");
  if (c.replaying()) return;
  Aligned<std::vector, Eigen::Vector2d> m;
  TransformationVector T;
  std::vector<size_t> cams;
  Eigen::Matrix3Xd rays(3, n), centers(3, n);
  for (int i = 0; i < n; ++i) {
    T.push_back(bodyPose(i));
    const P3 ray = T.back().inverse() * point(1);
    m.push_back(ray.head<2>() / ray[2]);
    cams.push_back(0);
    rays.col(i) = T.back().getRotationMatrix() * ray;
    centers.col(i) = T.back().getPosition();
  }
  TransformationVector mounts(1, mount(0)), longer = T;
  longer.push_back(bodyPose(0));
  std::vector<size_t> more = cams, outside = cams;
  more.push_back(0);
  P3 p = kUntouched;
  auto refused = [&](const char* what, const std::function<void()>& f) { c.check(c.aborts(f), "refused", "%s with %d views accepted", what, n); };
  switch (kind) {
    case 0:
      for (int f = 0; f < 4; ++f) {
        p = kUntouched;
        TriangulationResult s;
        c.check(s.status() == St::kUninitialized && !s, "uninitialized", "status of a new result");
        if (f == 0) s = linearTriangulateFromNViews(m, T, mounts[0], &p);
        else if (f == 1) s = linearTriangulateFromNViews(rays, centers, &p);
        else if (f == 2) s = linearTriangulateFromNViewsMultiCam(m, cams, T, mounts, &p);
        else s = iterativeGaussNewtonTriangulateFromNViews(m, T, mounts[0], &p);
        c.check(s.status() == (n < 2 ? St::kTooFewMeasurments : St::kSuccessful), "too-few", "function %d with %d views: status %d", f, n, (int)s.status());
        if (n < 2) c.check(p == kUntouched, "untouched", "function %d with %d views changed the point", f, n);
      }
      break;
    case 1: refused("more poses", [&] { (void)linearTriangulateFromNViews(m, longer, mounts[0], &p); });
      refused("more poses, Gauss-Newton", [&] { (void)iterativeGaussNewtonTriangulateFromNViews(m, longer, mounts[0], &p); }); break;
    case 2: refused("more poses, several cameras", [&] { (void)linearTriangulateFromNViewsMultiCam(m, cams, longer, mounts, &p); });
      refused("more cameras than measurements", [&] { (void)linearTriangulateFromNViewsMultiCam(m, more, T, mounts, &p); }); break;
    case 3:
      if (n < 2) break;
      outside[n - 1] = 1;
      refused("camera index outside", [&] { (void)linearTriangulateFromNViewsMultiCam(m, outside, T, mounts, &p); });
      break;
    case 4:
      refused("no point", [&] { (void)linearTriangulateFromNViews(m, T, mounts[0], nullptr); });
      refused("no point, bearing vectors", [&] { (void)linearTriangulateFromNViews(rays, centers, nullptr); });
      refused("no point, several cameras", [&] { (void)linearTriangulateFromNViewsMultiCam(m, cams, T, mounts, nullptr); });
      refused("no point, Gauss-Newton", [&] { (void)iterativeGaussNewtonTriangulateFromNViews(m, T, mounts[0], nullptr); });
      break;
    default: {
      const Eigen::Matrix3Xd fewer = centers.leftCols(std::max(0, n - 1));
      if (n >= 2) refused("fewer centers than rays", [&] { (void)linearTriangulateFromNViews(rays, fewer, &p); });
    }
  }
}
// Gauss-Newton: points in front of cameras that look roughly the same way.
void iterative(Ctx& c) {
  static const double kPos[5][3] = {{0, 0, 0}, {1, 0, 0}, {0, 1.2, .2}, {-.8, -.5, -.3}, {.4, .1, .6}};
  const int n = 2 + c.choose(c.thorough ? 3 : 2, "views");
  const int mnt = c.choose(2, "mount"), rot = c.choose(3, "rotation");
  static const double kFar[] = {0, 1, 100};
  const P3 g0 = point(c.choose(3, "point")), origin = P3(5, 3, -8) * kFar[c.choose(3, "far from the origin")], g = g0 + origin;
  std::vector<View> v;
  for (int i = 0; i < n; ++i) {
    const int k = c.choose(5, "pose");
    View w;
    w.cam = mnt;
    w.T_B_C = mount(mnt);
    const Transformation look = rot == 0 ? pose(0, 0, 0, 1, 0, 0, 0) : rot == 1 ? pose(0, 0, 0, 1, 1, 0, .1 * (k - 2)) : pose(0, 0, 0, 0, 0, 1, k);
    w.T_G_B = Transformation(look.getRotation(), P3(kPos[k][0], kPos[k][1], kPos[k][2]) + origin);
    w.ray = (w.T_G_B * w.T_B_C).inverse() * g;
    v.push_back(w);
  }
  if (c.replaying()) return;
  Aligned<std::vector, Eigen::Vector2d> m;
  TransformationVector T;
  for (const View& w : v) { m.push_back(w.ray.head<2>() / w.ray[2]); T.push_back(w.T_G_B); }
  const Reference r = reference(v);
  P3 p = kUntouched;
  const TriangulationResult s = iterativeGaussNewtonTriangulateFromNViews(m, T, mount(mnt), &p);
  const std::string what = text(v, g);
  // closer to each other it may end elsewhere: it starts from a point at infinity and stops once the residuals grow
  if (r.angle <= kTooSmall || r.angle >= kWell || s.status() != St::kSuccessful) verify(c, s, p, r, 1e-5, "Gauss-Newton", what.c_str());
}
// Feature tracks through rigs of two cameras.
void tracks(Ctx& c) {
  const bool fast = c.flag("fast");
  const int n = 2 + c.choose(c.thorough ? 3 : 2, "length");
  const bool several = c.flag("several cameras");
  const int kind = c.choose(3, "cameras");
  const P3 g = point(c.choose(c.thorough ? kPoints : 4, "point"));
  std::vector<int> poses, cams;
  const int first = c.choose(2, "camera");
  for (int i = 0; i < n; ++i) {
    static const int kWhich[] = {0, 1, 2, 3, 5};
    poses.push_back(kWhich[c.choose(n < 4 ? 5 : 3, "pose")]);
    cams.push_back(i == 0 || !several ? first : c.choose(2, "camera"));
  }
  if (c.replaying()) return;
  NCameraId id;
  generateId(&id);
  std::vector<Camera::Ptr> cameras;
  for (int k = 0; k < 2; ++k) {
    Distortion::UniquePtr d;
    if (k) d.reset(new RadTanDistortion((Eigen::VectorXd(4) << -.02, .001, .0001, 0).finished()));
    else d.reset(new NullDistortion);
    Camera::Ptr cam;
    if (kind == 0 || (kind == 2 && k == 0)) cam.reset(new PinholeCamera((Eigen::VectorXd(4) << 400, 410, 320, 240).finished(), 640, 480, d));
    else cam.reset(new UnifiedProjectionCamera((Eigen::VectorXd(5) << 1.1, 500, 510, 320, 240).finished(), 640, 480, d));
    CameraId cid;
    generateId(&cid);
    cam->setId(cid);
    cameras.push_back(cam);
  }
  TransformationVector T_C_B;
  for (int k = 0; k < 2; ++k) T_C_B.push_back(mount(k + 1).inverse());
  std::shared_ptr<NCamera> rig(new NCamera(id, T_C_B, cameras, "rig"));
  FeatureTrack track(3);
  TransformationVector T_W_B;
  std::vector<View> v;
  for (int i = 0; i < n; ++i) {
    View w;
    w.T_G_B = bodyPose(poses[i]);
    w.cam = cams[i];
    w.T_B_C = mount(cams[i] + 1);
    w.ray = (w.T_G_B * w.T_B_C).inverse() * g;
    Eigen::Vector2d k;
    const ProjectionResult::Status s = cameras[cams[i]]->project3(w.ray, &k).getDetailedStatus();
    if (w.ray[2] < .3 * w.ray.norm() || (s != ProjectionResult::Status::KEYPOINT_VISIBLE && s != ProjectionResult::Status::KEYPOINT_OUTSIDE_IMAGE_BOX)) return;
    v.push_back(w);
    NFramesId nid;
    generateId(&nid);
    std::shared_ptr<VisualNFrame> nframe(new VisualNFrame(nid, rig));
    for (int j = 0; j < 2; ++j) {
      VisualFrame::Ptr f(new VisualFrame);
      FrameId fid;
      generateId(&fid);
      f->setId(fid);
      f->setCameraGeometry(cameras[j]);
      Eigen::Matrix2Xd keypoints(2, 3);
      keypoints << 1, k[0], 3, 4, k[1], 6;  // the second one is that of the track
      if (j != cams[i]) keypoints.setConstant(5);
      f->setKeypointMeasurements(keypoints);
      nframe->setFrame(j, f);
    }
    track.addKeypointObservationAtBack(nframe, cams[i], 1);
    T_W_B.push_back(w.T_G_B);
  }
  std::string what = text(v, g);
  const Reference r = reference(v);
  P3 p = kUntouched;
  verify(c, fast ? fastTriangulateFeatureTrack(track, T_W_B, &p) : triangulateFeatureTrack(track, T_W_B, &p), p, r, 1e-7, fast ? "fast track" : "track", what.c_str());
  // refusals
  TransformationVector fewer(T_W_B.begin(), T_W_B.end() - 1);
  FeatureTrack single(4), none(5);
  single.addKeypointObservationAtBack(std::shared_ptr<const VisualNFrame>(&track.getFirstKeypointIdentifier().getNFrame(), [](const VisualNFrame*) {}), cams[0], 1);
  const TransformationVector one(1, T_W_B[0]), zero;
  auto run = [&](const FeatureTrack& t, const TransformationVector& T, P3* out) { (void)(fast ? fastTriangulateFeatureTrack(t, T, out) : triangulateFeatureTrack(t, T, out)); };
  if (poses[0] == 0 && poses[1] == 1 && n == 2) {
    c.check(c.aborts([&] { run(track, fewer, &p); }), "refused", "fewer poses than observations");
    c.check(c.aborts([&] { run(track, T_W_B, nullptr); }), "refused", "no point");
    c.check(c.aborts([&] { run(single, one, &p); }), "refused", "a track of length 1");
    c.check(c.aborts([&] { run(none, zero, &p); }), "refused", "an empty track");
  }
}
}  // namespace

int main(int argc, char** argv) {
  std::vector<seqx::Scenario> v;
  v.push_back({"views", "points from 2-3 (thorough: 4) views", views, 8});
  v.push_back({"wide-views", "rays close to the image plane", wideViews, 4});
  v.push_back({"few-views", "too few views, sizes that do not fit", fewViews, 2});
  v.push_back({"iterative", "Gauss-Newton", iterative, 8});
  v.push_back({"tracks", "feature tracks", tracks, 8});
  return seqx::run_main(argc, argv, "S21", v);
}
