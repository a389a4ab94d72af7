// Outlier rejection and pose estimation: what goes into RANSAC and what is made of its answers.  opengv is a stand-in whose answers the explorer chooses.
#define SEQX_MAIN
#include "seqx.h"

#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <memory>
#include <set>
#include <unordered_set>
#include <vector>

#include <numeric>
#include <opengv/types.hpp>

#include <aslam/cameras/camera-3d-lidar.h>
#include <aslam/cameras/camera-pinhole.h>
#include <aslam/cameras/camera-unified-projection.h>
#include <aslam/cameras/distortion-null.h>
#include <aslam/cameras/distortion-radtan.h>
#include <aslam/cameras/ncamera.h>
#include <aslam/frames/visual-frame.h>
#include <aslam/geometric-vision/match-outlier-rejection-twopt.h>
#include <aslam/geometric-vision/pnp-pose-estimator.h>
#include <aslam/matcher/match.h>

namespace opengv { namespace standin { Stage* stage = nullptr; } }

using seqx::Ctx;
using namespace aslam;
using namespace aslam::geometric_vision;
using opengv::standin::Run;
using opengv::standin::Stage;
namespace {
Camera::Ptr camera(int kind) {
  Distortion::UniquePtr d;
  if (kind % 2) d.reset(new RadTanDistortion((Eigen::VectorXd(4) << -.02, .001, .0001, 0).finished()));
  else d.reset(new NullDistortion);
  Camera::Ptr cam;
  if (kind < 2) cam.reset(new PinholeCamera((Eigen::VectorXd(4) << 400 + 30 * kind, 410, 320, 240).finished(), 640, 480, d));
  else if (kind < 4) cam.reset(new UnifiedProjectionCamera((Eigen::VectorXd(5) << 1.1, 500, 520, 320, 240).finished(), 640, 480, d));
  else cam.reset(new Camera3DLidar((Eigen::VectorXd(4) << .1, .1, -3., -.5).finished(), 64, 16));
  CameraId id;
  generateId(&id);
  cam->setId(id);
  return cam;
}
double meanFocal(int kind) { return kind < 2 ? (400 + 30 * kind + 410) / 2. : 510; }
Transformation pose(int i) {
  static const double kRv[][3] = {{0, 0, 0}, {.1, -.2, .05}, {2.5, .4, -.3}, {0, 3, .2}}, kP[][3] = {{0, 0, 0}, {1, 2, 3}, {-.5, 0, .25}, {100, -50, 7}};
  const Eigen::Vector3d r(kRv[i][0], kRv[i][1], kRv[i][2]);
  const Eigen::Quaterniond q = r.norm() == 0 ? Eigen::Quaterniond::Identity() : Eigen::Quaterniond(Eigen::AngleAxisd(r.norm(), r.normalized()));
  return Transformation(Quaternion(q), Eigen::Vector3d(kP[i][0], kP[i][1], kP[i][2]));
}
opengv::transformation_t matrix(const Transformation& T) {
  opengv::transformation_t m;
  m << T.getRotationMatrix(), T.getPosition();
  return m;
}
double far(const Transformation& a, const opengv::transformation_t& b) { return (matrix(a) - b).cwiseAbs().maxCoeff(); }
const int kPoints = 10;
Eigen::Vector2d place(int frame, int i) { return Eigen::Vector2d(60 + 55 * i - 9 * frame, 400 - 35 * i + 4 * frame + 7 * (i % 3)); }
Eigen::Vector3d ray(const Camera& cam, const Eigen::Vector2d& k) {
  Eigen::Vector3d r;
  cam.backProject3(k, &r);
  return r.normalized();
}
// ---------------------------------------------------------------- outlier rejection
struct Frames {
  std::shared_ptr<VisualFrame> kp1, k;
  Camera::Ptr cam[2];
  int type, first;  // descriptor type asked for and its first keypoint
};
Frames frames(int type) {
  Frames f;
  f.type = type;
  f.first = type ? 2 : 0;
  for (int i = 0; i < 2; ++i) {
    f.cam[i] = camera(i ? 0 : 3);
    auto frame = std::make_shared<VisualFrame>();
    frame->setId(createRandomId<FrameId>());
    frame->setTimestampNanoseconds(i);
    frame->setCameraGeometry(f.cam[i]);
    Eigen::Matrix2Xd m(2, kPoints + 2);
    for (int j = 0; j < kPoints + 2; ++j) m.col(j) = place(i, j - f.first);
    const int n0 = type ? 2 : kPoints;
    frame->setKeypointMeasurements(m.leftCols(n0));
    frame->setDescriptors(VisualFrame::DescriptorsT(VisualFrame::DescriptorsT::Constant(16, n0, 7)), 0);
    frame->extendKeypointMeasurements(m.rightCols(m.cols() - n0));
    frame->extendDescriptors(VisualFrame::DescriptorsT(VisualFrame::DescriptorsT::Constant(16, m.cols() - n0, 9)), 1);
    (i ? f.k : f.kp1) = frame;
  }
  return f;
}
void checkRuns(Ctx& c, const Stage& s, const BearingVectors& b1, const BearingVectors& b2, const Quaternion& q, bool fix, double threshold, int iterations) {
  bool seen[2] = {false, false};
  for (const Run& r : s.runs) {
    c.check(r.kind == 0 || r.kind == 1, "problem", "an absolute pose problem");
    seen[r.kind] = true;
    c.check(r.threshold == threshold && r.max_iterations == iterations, "parameters", "threshold %g and %d iterations instead of %g and %d", r.threshold, r.max_iterations, threshold, iterations);
    c.check(r.random_seed == !fix, "seed", "random seed: %d, fixed seed asked for: %d", r.random_seed, fix);
    c.check((r.R12 - q.getRotationMatrix()).cwiseAbs().maxCoeff() < 1e-9, "rotation", "another rotation than q_Ckp1_Ck");
    c.check(r.b1.size() == b1.size() && r.b2.size() == b2.size(), "bearing vectors", "%zu and %zu bearing vectors instead of %zu", r.b1.size(), r.b2.size(), b1.size());
    for (size_t i = 0; i < r.b1.size() && i < b1.size(); ++i)
      c.check((r.b1[i] - b1[i]).norm() < 1e-9 && (r.b2[i] - b2[i]).norm() < 1e-9, "bearing vectors", "pair %zu is not the one of match %zu", i, i);
  }
  if (b1.size() >= 6) c.check(seen[0] && seen[1], "problem", "%zu matches, rotation looked at: %d, translation: %d", b1.size(), seen[0], seen[1]);
}
void choose(Ctx& c, int n, Stage* s, std::set<int>* all) {
  for (int i = 0; i < n; ++i) {
    const int who = c.choose(4, "inlier of");
    if (who & 1) s->inliers[0].push_back(i);
    if (who & 2) s->inliers[1].push_back(i);
    if (who) all->insert(i);
  }
  if (c.flag("backwards")) std::reverse(s->inliers[1].begin(), s->inliers[1].end());
  s->success = true;
}
void rejection(Ctx& c) {
  Stage s;
  opengv::standin::stage = &s;
  const int n = c.pick({0, 1, 5, 6, 7}, "matches");
  const int how = c.choose(3, "indices"), type = c.choose(2, "type");
  std::set<int> inliers;
  choose(c, c.thorough || n < 7 ? n : 6, &s, &inliers);
  const bool dirty = c.flag("lists used before");
  if (c.replaying()) return;
  const bool fix = how == 1;
  const double threshold = how == 2 ? .5 : 1e-4;
  const int iterations = how ? 200 : 1;
  const Quaternion q = pose(how).getRotation();
  Frames f = frames(type);
  FrameToFrameMatches matches, in, out;
  BearingVectors b1, b2;
  for (int i = 0; i < n; ++i) {
    FrameToFrameMatch m(how == 0 ? i : how == 1 ? kPoints - 1 - i : (3 * i + 1) % kPoints, how == 0 ? i + 1 : how == 1 ? (i * 3) % kPoints : i);
    matches.push_back(m);
    b1.push_back(ray(*f.cam[0], place(0, m.first)));
    b2.push_back(ray(*f.cam[1], place(1, m.second)));
  }
  if (dirty) { in.emplace_back(77, 78); out.emplace_back(79, 80); out.emplace_back(81, 82); }
  const FrameToFrameMatches before = matches;
  const bool ok = rejectOutlierFeatureMatchesTranslationRotationSAC(*f.kp1, *f.k, q, type, matches, fix, threshold, iterations, &in, &out);
  const bool want = n >= 6 && inliers.size() >= 6;
  c.check(ok == want, "success", "%d matches, %zu inliers: %s", n, inliers.size(), ok ? "success" : "failure");
  if (!want) inliers.clear();
  FrameToFrameMatches want_in, want_out;
  for (int i = 0; i < n; ++i) (inliers.count(i) ? want_in : want_out).push_back(before[i]);
  c.check(in == want_in && out == want_out, "partition", "%zu inliers and %zu outliers of %d matches instead of %zu and %zu, or others", in.size(), out.size(), n, want_in.size(), want_out.size());
  c.check(matches == before, "unchanged", "the matches were changed");
  checkRuns(c, s, b1, b2, q, fix, threshold, iterations);
}
void rejectionOfBearings(Ctx& c) {
  Stage s;
  opengv::standin::stage = &s;
  const int n1 = c.pick({0, 5, 6, 7}, "bearing vectors of k+1"), n2 = c.pick({0, 5, 6, 7}, "bearing vectors of k");
  const double threshold = c.pick({1e-3, 0., -1.}, "threshold");
  const int iterations = c.pick({100, 0}, "iterations");
  const bool null = c.flag("no output");
  const bool refused = n1 != n2 || threshold <= 0 || iterations == 0 || null;
  std::set<int> inliers;
  if (!refused) choose(c, std::min(n1, 6), &s, &inliers);
  if (c.replaying()) return;
  BearingVectors b1, b2;
  for (int i = 0; i < n1; ++i) b1.push_back(Eigen::Vector3d(i, 1, 2).normalized());
  for (int i = 0; i < n2; ++i) b2.push_back(Eigen::Vector3d(3, -i, 2).normalized());
  std::unordered_set<int> out = {55, 0};
  const Quaternion q = pose(1).getRotation();
  auto call = [&] { return rejectOutlierFeatureMatchesTranslationRotationSAC(b1, b2, q, true, threshold, iterations, null ? nullptr : &out); };
  if (refused) { c.check(c.aborts([&] { call(); }), "refused", "%d and %d bearing vectors, threshold %g, %d iterations%s accepted", n1, n2, threshold, iterations, null ? ", no output" : ""); return; }
  const bool ok = call(), want = n1 >= 6 && inliers.size() >= 6;
  c.check(ok == want, "success", "%d pairs, %zu inliers: %s", n1, inliers.size(), ok ? "success" : "failure");
  if (!want) inliers.clear();
  c.check(std::set<int>(out.begin(), out.end()) == inliers, "inliers", "%zu inliers instead of %zu, or others", out.size(), inliers.size());
  checkRuns(c, s, b1, b2, q, true, threshold, iterations);
}
// ---------------------------------------------------------------- camera poses
struct Answer { Transformation model, refined; };
Answer answer(Ctx& c, Stage* s, int n) {
  Answer a;
  a.model = pose(1 + c.choose(2, "model"));
  a.refined = pose(3);
  s->success = c.flag("found");
  for (int i = 0; i < n; ++i) if (c.flag("inlier")) { s->inliers[2].push_back(i); s->distances.push_back(.25 * i); }
  s->iterations = 17;
  s->model = matrix(a.model);
  s->refined = matrix(a.refined);
  return a;
}
void checkAnswer(Ctx& c, const Stage& s, const Answer& a, bool refine, bool ok, const Transformation& T, const std::vector<int>& inliers, int iterations) {
  c.check(ok == s.success, "success", "RANSAC %s, the estimator %s", s.success ? "succeeded" : "failed", ok ? "succeeded" : "failed");
  c.check(inliers == s.inliers[2], "inliers", "%zu inliers instead of %zu, or others", inliers.size(), s.inliers[2].size());
  c.check(iterations == 17, "iterations", "%d iterations instead of 17", iterations);
  const Transformation want = !s.success ? pose(2) : refine ? a.refined : a.model;
  c.check(far(T, matrix(want)) < 1e-9, "pose", "%s pose", !s.success ? "RANSAC failed and changed the" : refine ? "not the refined" : "not the estimated");
  if (s.success && refine) {
    c.check(s.refinements.size() >= 1 && s.refinements.back() == s.inliers[2] && s.refined_the_model, "refinement", "not a refinement of the estimate with all inliers");
  } else if (s.success) c.check(s.refinements.empty(), "refinement", "a refinement nobody asked for");
}
double thresholdOf(double sigma, double focal) { return 1 - std::cos(std::atan(sigma / focal)); }
void single(Ctx& c) {
  Stage s;
  opengv::standin::stage = &s;
  const int kind = c.choose(5, "camera"), n = c.choose(c.thorough ? 6 : 5, "measurements");
  const bool by_sigma = c.flag("by pixels"), refine = c.flag("refinement"), seed = c.flag("random seed");
  const int mismatch = c.choose(2, "another number of landmarks");
  const Answer a = answer(c, &s, n);
  if (c.replaying()) return;
  Camera::Ptr cam = camera(kind);
  Eigen::Matrix2Xd m(2, n);
  Eigen::Matrix3Xd landmarks(3, n + mismatch);
  for (int i = 0; i < n; ++i) m.col(i) = kind < 4 ? place(0, i) : Eigen::Vector2d(3 + 5 * i, 4 + i);
  for (int i = 0; i < n + mismatch; ++i) landmarks.col(i) << i, 2 * i + 1, 10 - i;
  PnpPoseEstimator e(refine, seed);
  Transformation T = pose(2);
  std::vector<int> inliers = {4, 4, 4};
  int iterations = -5;
  const double by = by_sigma ? .8 : 1e-3;
  auto call = [&] {
    return by_sigma ? e.absolutePoseRansacPinholeCam(m, landmarks, by, 30, cam, &T, &inliers, &iterations) : e.absolutePoseRansac(m, landmarks, by, 30, cam, &T, &inliers, &iterations);
  };
  if (mismatch || (by_sigma && kind == 4)) { c.check(c.aborts([&] { call(); }), "refused", "%d measurements of %d landmarks with camera %d accepted", n, n + mismatch, kind); return; }
  const bool ok = call();
  checkAnswer(c, s, a, refine, ok, T, inliers, iterations);
  c.check(s.runs.size() == 1, "runs", "%zu runs of RANSAC", s.runs.size());
  const Run& r = s.runs[0];
  const double want = by_sigma ? thresholdOf(by, meanFocal(kind)) : by;
  c.check(r.kind == 2 && r.central && r.algorithm != 4 && r.algorithm != 0, "problem", "not a central absolute pose problem");
  c.check(r.random_seed == seed && r.max_iterations == 30 && std::abs(r.threshold - want) < 1e-12 * (1 + want), "parameters", "threshold %g instead of %g, %d iterations, seed %d", r.threshold, want, r.max_iterations, r.random_seed);
  c.check(r.b1.size() == (size_t)n && r.points.size() == (size_t)n, "correspondences", "%zu bearing vectors, %zu points", r.b1.size(), r.points.size());
  for (int i = 0; i < n; ++i)
    c.check((r.b1[i] - ray(*cam, m.col(i))).norm() < 1e-9 && r.points[i] == landmarks.col(i), "correspondences", "measurement %d is not the ray to landmark %d", i, i);
}
void several(Ctx& c) {
  Stage s;
  opengv::standin::stage = &s;
  static const std::vector<int> kKinds[] = {{0, 1}, {1, 2}, {3, 0}, {0, 4}, {2}, {0, 2, 1}};
  const int kinds = c.choose(6, "cameras"), n = c.choose((c.thorough ? 5 : 4) - (kinds > 3), "measurements"), rig_size = kKinds[kinds].size();
  const int api = c.choose(4, "interface");  // bit 0: by pixels, bit 1: with distances
  const bool refine = c.flag("refinement"), seed = c.flag("random seed");
  std::vector<int> indices;
  bool valid = true;
  for (int i = 0; i < n; ++i) { indices.push_back(c.choose(rig_size + 2, "camera") - 1); valid = valid && indices[i] >= 0 && indices[i] < rig_size; }
  const int mismatch = valid ? c.choose(4, "number that does not fit") : 0;
  Answer a;
  if (valid && mismatch == 0) a = answer(c, &s, n);
  else { s.success = true; s.model = s.refined = matrix(pose(1)); }
  if (c.replaying()) return;
  std::vector<Camera::Ptr> cams;
  TransformationVector T_C_B;
  double focal = 0;
  for (int k = 0; k < rig_size; ++k) { cams.push_back(camera(kKinds[kinds][k])); T_C_B.push_back(pose(1 + k)); focal += meanFocal(kKinds[kinds][k]) / rig_size; }
  NCameraId id;
  generateId(&id);
  NCamera::Ptr rig(new NCamera(id, T_C_B, cams, "rig"));
  Eigen::Matrix2Xd m(2, n);
  Eigen::Matrix3Xd landmarks(3, n + (mismatch == 1));
  for (int i = 0; i < n; ++i) m.col(i) = indices[i] >= 0 && indices[i] < rig_size && kKinds[kinds][indices[i]] == 4 ? Eigen::Vector2d(3 + 5 * i, 4 + i) : place(0, i);
  for (int i = 0; i < landmarks.cols(); ++i) landmarks.col(i) << i, 2 * i + 1, 10 - i;
  std::vector<int> passed = indices;
  if (mismatch == 2) passed.push_back(0);
  if (mismatch == 3) { if (n == 0) return; passed.pop_back(); }
  PnpPoseEstimator e(refine, seed);
  Transformation T = pose(2);
  std::vector<int> inliers = {4, 4, 4};
  std::vector<double> distances = {9, 9};
  int iterations = -5;
  const bool by_sigma = api & 1;
  const double by = by_sigma ? 1.7 : 2e-3;
  auto call = [&] {
    if (api == 0) return e.absoluteMultiPoseRansac(m, passed, landmarks, by, 30, rig, &T, &inliers, &iterations);
    if (api == 1) return e.absoluteMultiPoseRansacPinholeCam(m, passed, landmarks, by, 30, rig, &T, &inliers, &iterations);
    if (api == 2) return e.absoluteMultiPoseRansac(m, passed, landmarks, by, 30, rig, &T, &inliers, &distances, &iterations);
    return e.absoluteMultiPoseRansacPinholeCam(m, passed, landmarks, by, 30, rig, &T, &inliers, &distances, &iterations);
  };
  if (mismatch || !valid || (by_sigma && kinds == 3)) { c.check(c.aborts([&] { call(); }), "refused", "%d measurements, sizes %d, cameras %d accepted", n, mismatch, kinds); return; }
  const bool ok = call();
  checkAnswer(c, s, a, refine, ok, T, inliers, iterations);
  if (api & 2) c.check(distances == s.distances, "distances", "%zu distances instead of %zu, or others", distances.size(), s.distances.size());
  c.check(s.runs.size() == 1, "runs", "%zu runs of RANSAC", s.runs.size());
  const Run& r = s.runs[0];
  const double want = by_sigma ? thresholdOf(by, focal) : by;
  c.check(r.kind == 2 && !r.central && r.algorithm == 4, "problem", "not a problem with several cameras");
  c.check(r.random_seed == seed && r.max_iterations == 30 && std::abs(r.threshold - want) < 1e-12 * (1 + want), "parameters", "threshold %g instead of %g, %d iterations, seed %d", r.threshold, want, r.max_iterations, r.random_seed);
  c.check(r.b1.size() == (size_t)n && r.points.size() == (size_t)n && r.cameras == indices, "correspondences", "%zu bearing vectors, %zu points, or other cameras", r.b1.size(), r.points.size());
  for (int i = 0; i < n; ++i)
    c.check((r.b1[i] - ray(*cams[indices[i]], m.col(i))).norm() < 1e-9 && r.points[i] == landmarks.col(i), "correspondences", "measurement %d is not the ray of camera %d to landmark %d", i, indices[i], i);
  c.check((int)r.offsets.size() == rig_size && (int)r.rotations.size() == rig_size, "rig", "%zu offsets, %zu rotations", r.offsets.size(), r.rotations.size());
  for (int k = 0; k < rig_size; ++k) {
    const Transformation T_B_C = T_C_B[k].inverse();
    c.check((r.offsets[k] - T_B_C.getPosition()).norm() < 1e-9 && (r.rotations[k] - T_B_C.getRotationMatrix()).cwiseAbs().maxCoeff() < 1e-9, "rig", "camera %d is mounted elsewhere", k);
  }
}
// ---------------------------------------------------------------- points measured in 3D
void points(Ctx& c) {
  const int n = c.choose(c.thorough ? 11 : 10, "measurements");
  const int truth = c.choose(4, "pose"), mounts = c.choose(2, "mounts"), shape = c.choose(3, "shape");
  const bool seed = c.flag("random seed");
  std::vector<int> indices;
  for (int i = 0, all = c.choose(3, "cameras"); i < n; ++i) indices.push_back(all == 2 ? i % 2 : all);
  std::vector<bool> bad(n, false);
  int outliers = 0;
  if (n >= 7) for (int k = 0, from = 0; k < (n >= 9 ? 2 : 1); ++k) {
    const int which = from + c.choose(n - from + 1, "outlier");
    if (which >= n) break;
    bad[which] = true;
    ++outliers;
    from = which + 1;
  }
  const double ratio = c.pick({.99, 2.}, "stopping ratio");
  if (c.replaying()) return;
  std::vector<Camera::Ptr> cams = {camera(0), camera(2)};
  TransformationVector T_C_B = {pose(mounts ? 1 : 0), pose(mounts ? 3 : 2)};
  NCameraId id;
  generateId(&id);
  NCamera::Ptr rig(new NCamera(id, T_C_B, cams, "rig"));
  const Transformation T_G_I = pose(truth);
  static const double kB[][3] = {{1, 2, 9}, {-3, 1, 7}, {2, -4, 5}, {5, 5, 12}, {-1, -2, 3}, {4, 0, -6}, {-6, 3, 2}, {0, 7, 4}, {3, 3, 3}, {-2, 8, -5}, {6, -1, 1}};
  Eigen::Matrix3Xd m(3, n), landmarks(3, n);
  for (int i = 0; i < n; ++i) {
    Eigen::Vector3d b(kB[i][0], kB[i][1], kB[i][2]);
    if (shape == 1) b *= .2;
    if (shape == 2) b[2] = 4;  // a plane: reflections fit as well as rotations
    landmarks.col(i) = T_G_I * b;
    if (bad[i]) b = -3 * b + Eigen::Vector3d(1, i, -2);
    m.col(i) = T_C_B[indices[i]] * b;
  }
  srand(1 + truth);
  PnpPoseEstimator e(false, seed);
  Transformation T = pose(2);
  std::vector<int> inliers = {4, 4, 4};
  std::vector<double> distances = {9};
  int iterations = -5;
  const bool ok = e.absoluteMultiPoseRansac3DFeatures(m, indices, landmarks, 1e-3, outliers ? 400 : 3, ratio, rig, &T, &inliers, &distances, &iterations);
  if (n < 6) {
    c.check(!ok && inliers.empty() && distances.empty() && far(T, matrix(pose(2))) == 0, "too few", "%d points: %s, %zu inliers", n, ok ? "success" : "failure", inliers.size());
    return;
  }
  c.check(ok, "success", "%d points with %d outliers: failure", n, outliers);
  std::vector<int> want;
  for (int i = 0; i < n; ++i) if (!bad[i]) want.push_back(i);
  std::sort(inliers.begin(), inliers.end());
  c.check(inliers == want, "inliers", "%zu inliers instead of %zu, or others", inliers.size(), want.size());
  c.check(far(T, matrix(T_G_I)) < 1e-6, "pose", "the pose is off by %g", far(T, matrix(T_G_I)));
  c.check(distances.size() == inliers.size(), "distances", "%zu inliers, %zu distances", inliers.size(), distances.size());
  for (double d : distances) c.check(d < 1e-6, "distances", "an exact measurement is %g off", d);
  if (!seed && outliers == 0) {  // seeds set outside count
    const int first = rand();
    srand(99);
    e.absoluteMultiPoseRansac3DFeatures(m, indices, landmarks, 1e-3, 3, ratio, rig, &T, &inliers, &distances, &iterations);
    c.check(rand() != first, "seed", "the seed set outside was replaced");
  }
}
void pointsRefused(Ctx& c) {
  const int what = c.choose(7, "what is wrong");
  std::vector<Camera::Ptr> cams = {camera(0), camera(2)};
  TransformationVector T_C_B = {pose(1), pose(3)};
  NCameraId id;
  generateId(&id);
  NCamera::Ptr rig(new NCamera(id, T_C_B, cams, "rig"));
  Eigen::Matrix3Xd m = Eigen::Matrix3Xd::Identity(3, 8), landmarks = m;
  std::vector<int> indices(8, 0);
  double threshold = .1;
  int iterations = 5;
  if (what == 0) landmarks = Eigen::Matrix3Xd::Identity(3, 9);
  if (what == 1) indices.pop_back();
  if (what == 2) indices[4] = 2;
  if (what == 3) indices[7] = -1;
  if (what == 4) threshold = 0;
  if (what == 5) iterations = 0;
  if (what == 6) rig.reset();
  Transformation T;
  std::vector<int> inliers;
  std::vector<double> distances;
  int n = 0;
  c.check(c.aborts([&] { PnpPoseEstimator(false).absoluteMultiPoseRansac3DFeatures(m, indices, landmarks, threshold, iterations, .9, rig, &T, &inliers, &distances, &n); }), "refused", "case %d was accepted", what);
}
}  // namespace

int main(int argc, char** argv) {
  std::vector<seqx::Scenario> v;
  v.push_back({"rejection", "every answer of both RANSACs for up to 7 matches", rejection, 8});
  v.push_back({"bearing-vectors", "every answer for bearing vectors, and what is refused", rejectionOfBearings, 8});
  v.push_back({"single-camera", "every answer for a camera", single, 8});
  v.push_back({"several-cameras", "every answer for every assignment of measurements to the cameras of a rig", several, 8});
  v.push_back({"points", "3D points with every choice of outliers", points, 8});
  v.push_back({"points-refused", "3D points that do not fit", pointsRefused, 1});
  return seqx::run_main(argc, argv, "S26", v);
}
