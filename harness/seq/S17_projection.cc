// Cameras: every form of projection and back-projection agrees with the camera model.
#define SEQX_MAIN
#include "seqx.h"

#include <cmath>
#include <limits>
#include <memory>
#include <string>

#include <aslam/cameras/camera-3d-lidar.h>
#include <aslam/cameras/camera-factory.h>
#include <aslam/cameras/camera-pinhole.h>
#include <aslam/cameras/camera-unified-projection.h>
#include <aslam/cameras/distortion-equidistant.h>
#include <aslam/cameras/distortion-fisheye.h>
#include <aslam/cameras/distortion-null.h>
#include <aslam/cameras/distortion-radtan.h>

using seqx::Ctx;
using namespace aslam;
namespace {
typedef long double R;
typedef ProjectionResult::Status S;
typedef Distortion::Type DT;
typedef Camera::Type CT;
const R kPi = 3.14159265358979323846264338327950288L;
Eigen::VectorXd vec(std::initializer_list<double> l) {
  Eigen::VectorXd v(l.size());
  int i = 0;
  for (double d : l) v[i++] = d;
  return v;
}
struct P2 { R u, v; };
struct P3 { R x, y, z; };
// ---- the models, in extended precision
P2 distort(DT t, const std::vector<R>& k, P2 p) {
  const R r2 = p.u * p.u + p.v * p.v, r = sqrtl(r2);
  switch (t) {
    case DT::kRadTan: {
      const R rad = 1 + k[0] * r2 + k[1] * r2 * r2;
      return {p.u * rad + 2 * k[2] * p.u * p.v + k[3] * (r2 + 2 * p.u * p.u),
              p.v * rad + 2 * k[3] * p.u * p.v + k[2] * (r2 + 2 * p.v * p.v)};
    }
    case DT::kEquidistant: {
      if (r == 0) return p;
      const R th = atanl(r), t2 = th * th;
      const R s = th * (1 + t2 * (k[0] + t2 * (k[1] + t2 * (k[2] + t2 * k[3])))) / r;
      return {p.u * s, p.v * s};
    }
    case DT::kFisheye: {
      const R w = k[0];
      if (fabsl(w) < 1e-9L) return p;
      const R t = 2 * tanl(w / 2);
      const R s = r == 0 ? t / w : atanl(t * r) / (r * w);
      return {p.u * s, p.v * s};
    }
    default: return p;
  }
}
struct Model {
  CT kind;
  DT dist;
  uint32_t width, height;
  std::vector<R> k, d;  // intrinsics and distortion parameters
  int f0() const { return kind == CT::kUnifiedProjection ? 1 : 0; }
  R fov() const { return k[0] <= 1 ? k[0] : 1 / k[0]; }
  bool valid(P3 p) const {
    const R n = sqrtl(p.x * p.x + p.y * p.y + p.z * p.z);
    if (kind == CT::kUnifiedProjection) return p.z > -fov() * n;
    if (kind == CT::kLidar3D) return n >= 1e-6L;
    return p.z != 0;
  }
  P2 project(P3 p) const {
    const R n = sqrtl(p.x * p.x + p.y * p.y + p.z * p.z);
    if (kind == CT::kLidar3D) {
      const R turn = 2 * kPi / k[0];
      R u = (atan2l(p.x, p.z) + k[3]) / k[0];
      u -= turn * floorl(u / turn);
      return {u, (asinl(p.y / n) + k[2]) / k[1]};
    }
    const int f = f0();
    const R q = kind == CT::kUnifiedProjection ? p.z + k[0] * n : p.z;
    const P2 m = distort(dist, d, {p.x / q, p.y / q});
    return {k[f] * m.u + k[f + 2], k[f + 1] * m.v + k[f + 3]};
  }
};
std::vector<R> ext(const Eigen::VectorXd& v) { return std::vector<R>(v.data(), v.data() + v.size()); }
struct Config { CT kind; DT dist; Eigen::VectorXd k, d; uint32_t width, height; const char* name; };
Model model(const Config& c) { return Model{c.kind, c.dist, c.width, c.height, ext(c.k), ext(c.d)}; }
Distortion::UniquePtr distortion(DT t, const Eigen::VectorXd& d) {
  switch (t) {
    case DT::kRadTan: return Distortion::UniquePtr(new RadTanDistortion(d));
    case DT::kEquidistant: return Distortion::UniquePtr(new EquidistantDistortion(d));
    case DT::kFisheye: return Distortion::UniquePtr(new FisheyeDistortion(d));
    default: return Distortion::UniquePtr(new NullDistortion);
  }
}
Camera::Ptr camera(const Config& c) {
  Distortion::UniquePtr d = distortion(c.dist, c.d);
  Camera::Ptr r;
  if (c.kind == CT::kPinhole) r.reset(new PinholeCamera(c.k, c.width, c.height, d));
  else if (c.kind == CT::kUnifiedProjection) r.reset(new UnifiedProjectionCamera(c.k, c.width, c.height, d));
  else r.reset(new Camera3DLidar(c.k, c.width, c.height));
  CameraId id;
  generateId(&id);
  r->setId(id);
  return r;
}
struct Dist { DT t; Eigen::VectorXd d; const char* name; };
// Parameters of real lenses, and the limits.
std::vector<Dist> distortions() {
  return {{DT::kNoDistortion, vec({}), "none"},
          {DT::kRadTan, vec({-0.28, 0.07, 0.0002, 0.00002}), "radtan"},
          {DT::kRadTan, vec({0.05, -0.02, -0.003, 0.004}), "radtan, tangential"},
          {DT::kRadTan, vec({0, 0, 0, 0}), "radtan 0"},
          {DT::kEquidistant, vec({-0.013, 0.02, -0.012, 0.0025}), "equidistant"},
          {DT::kEquidistant, vec({0.2, 0.01, 0.3, 0.05}), "equidistant, strong"},
          {DT::kEquidistant, vec({0, 0, 0, 0}), "equidistant 0"},
          {DT::kFisheye, vec({0.5}), "fisheye 0.5"},
          {DT::kFisheye, vec({1.1}), "fisheye 1.1"},
          {DT::kFisheye, vec({1.5}), "fisheye 1.5"},
          {DT::kFisheye, vec({0}), "fisheye 0"}};
}
struct Kind { CT kind; Eigen::VectorXd k; uint32_t w, h; const char* name; };
std::vector<Kind> kinds() {
  return {{CT::kPinhole, vec({400, 300, 320, 240}), 640, 480, "pinhole"},
          {CT::kPinhole, vec({90.5, 110.25, 60, 100.5}), 100, 150, "pinhole, off centre"},
          {CT::kUnifiedProjection, vec({0, 400, 300, 320, 240}), 640, 480, "unified xi=0"},
          {CT::kUnifiedProjection, vec({0.9, 400, 300, 320, 240}), 640, 480, "unified xi=0.9"},
          {CT::kUnifiedProjection, vec({1, 180, 190, 150, 170}), 320, 300, "unified xi=1"},
          {CT::kUnifiedProjection, vec({1.8, 400, 300, 320, 240}), 640, 480, "unified xi=1.8"}};
}
std::vector<Kind> lidars() {
  return {{CT::kLidar3D, vec({2 * M_PI / 1024, 0.009203703, 0.289916642, 0}), 1024, 64, "lidar"},
          {CT::kLidar3D, vec({2 * M_PI / 512, 0.01, 0.32, M_PI}), 512, 64, "lidar, centred"},
          {CT::kLidar3D, vec({2 * M_PI / 512, 0.01, 0.32, 4.5}), 512, 64, "lidar, turned"},
          {CT::kLidar3D, vec({2 * M_PI / 1024, 0.02, 0.4, M_PI / 2}), 512, 40, "lidar of half a turn"}};
}
Config pickConfig(Ctx& c, bool lidar = true) {
  std::vector<Kind> ks = kinds();
  if (lidar) for (const Kind& k : lidars()) ks.push_back(k);
  const Kind k = ks[c.choose(ks.size(), "camera")];
  Dist d = distortions()[0];
  if (k.kind != CT::kLidar3D) { const std::vector<Dist> ds = distortions(); d = ds[c.choose(ds.size(), "distortion")]; }
  return Config{k.kind, d.t, k.k, d.d, k.w, k.h, k.name};
}
// Other parameters of the same shape.
Config other(Config c, int which) {
  if (which & 1) {
    c.k *= 1.0625;
    if (c.kind == CT::kUnifiedProjection) c.k[0] = which & 4 ? 1.3 : 0.4;
  }
  if (which & 2 && c.d.size()) c.d = c.dist == DT::kFisheye ? vec({which & 4 ? 1.3 : 0.7}) : Eigen::VectorXd(c.d * 0.5 + Eigen::VectorXd::Constant(c.d.size(), 1e-3));
  return c;
}
bool close(double a, R b, R tol) { return fabsl((R)a - b) <= tol * (1 + fabsl(b)); }
bool close(const Eigen::Vector2d& k, P2 r, R tol) { return close(k[0], r.u, tol) && close(k[1], r.v, tol); }
// The limit formula of the fisheye model for small radii is off by a factor of up to 1 + 1e-5.
R tolerance(const Config& c) { return c.dist == DT::kFisheye ? 2e-5L : 1e-11L; }
const char* name(S s) {
  switch (s) {
    case S::KEYPOINT_VISIBLE: return "visible";
    case S::KEYPOINT_OUTSIDE_IMAGE_BOX: return "outside the image";
    case S::POINT_BEHIND_CAMERA: return "behind";
    case S::PROJECTION_INVALID: return "invalid";
    default: return "uninitialized";
  }
}
// Status by the model; false if too close to a border to tell.
bool status(const Model& m, P3 p, P2 k, S* s) {
  const R n = sqrtl(p.x * p.x + p.y * p.y + p.z * p.z);
  if (m.kind == CT::kPinhole) {
    if (p.z < 0) { *s = S::POINT_BEHIND_CAMERA; return true; }
    if (p.z <= 1e-10L) { *s = S::PROJECTION_INVALID; return p.z < 0.9e-10L; }
  } else if (m.kind == CT::kUnifiedProjection) {
    if (fabsl(p.z + m.fov() * n) < 1e-9L * n) return false;
    if (!m.valid(p)) { *s = S::PROJECTION_INVALID; return true; }
    if (n < 1e-10L) { *s = S::PROJECTION_INVALID; return true; }
    if (n < 1e-5L) return false;
  } else {
    if (n < 0.9e-2L) { *s = S::PROJECTION_INVALID; return true; }
    if (n < 1.1e-2L) return false;
  }
  const R e = 1e-6L + (m.dist == DT::kFisheye ? 2e-5L * (fabsl(k.u) + fabsl(k.v)) : 0);
  for (R b : {(R)0, (R)m.width}) if (fabsl(k.u - b) < e) return false;
  for (R b : {(R)0, (R)m.height}) if (fabsl(k.v - b) < e) return false;
  *s = k.u > 0 && k.v > 0 && k.u < m.width && k.v < m.height ? S::KEYPOINT_VISIBLE : S::KEYPOINT_OUTSIDE_IMAGE_BOX;
  return true;
}
Eigen::Vector3d pickPoint(Ctx& c) {
  const std::vector<double> xs = c.thorough
      ? std::vector<double>{-3, -1, -0.6, -0.2, -1e-3, -1e-9, 0, 1e-12, 1e-4, 0.05, 0.3, 0.5, 0.8, 2, 10}
      : std::vector<double>{-1, -0.2, -1e-9, 0, 1e-4, 0.3, 0.8, 3};
  const std::vector<double> zs = c.thorough
      ? std::vector<double>{-5, -1, -0.5, -0.1, -1e-3, 0, 1e-12, 1e-3, 0.1, 0.5, 1, 2.5, 7, 40}
      : std::vector<double>{-2, -0.3, 0, 1e-12, 1e-3, 0.5, 1, 4};
  const double x = c.pick(xs, "x"), y = c.pick(xs, "y"), z = c.pick(zs, "z");
  return Eigen::Vector3d(x, y, z);
}
template <class Cam, class D, class P>
ProjectionResult templated(const Cam& cam, const Eigen::Vector3d& p, const Eigen::VectorXd& k, const P& d, Eigen::Vector2d* kp) {
  return cam.template project3Functional<double, D>(p, k, d, kp);
}
// ---- all forms of projection
void forms(Ctx& c) {
  const Config conf = pickConfig(c);
  const Camera::Ptr cam = camera(conf);
  const Eigen::Vector3d p = pickPoint(c);
  const int ext_params = c.choose(conf.kind == CT::kUnifiedProjection ? 3 : 2, "external parameters");
  const Config used = other(conf, ext_params == 0 ? 0 : ext_params == 1 ? 3 : 7);
  const Model m = model(used);
  const P3 q{p[0], p[1], p[2]};
  const R tol = tolerance(used);
  const bool lidar = conf.kind == CT::kLidar3D;
  Eigen::Vector2d kp(-7, -7);
  const ProjectionResult first = ext_params == 0 ? cam->project3(p, &kp) : cam->project3Functional(p, &used.k, lidar ? nullptr : &used.d, &kp);
  const S st = first.getDetailedStatus();
  c.check(st != S::UNINITIALIZED, "no-status", "%s: no status", conf.name);
  c.check((bool)first == (st == S::KEYPOINT_VISIBLE) && first.isKeypointVisible() == (bool)first, "status-bool", "%s: bool of the result", conf.name);
  const bool defined = m.valid(q) && (conf.kind != CT::kUnifiedProjection || q.z + m.fov() * p.norm() > 1e-9L * p.norm());
  P2 ref{0, 0};
  if (defined) ref = m.project(q);
  bool seam = false;  // of a lidar: both ends of the turn are the same direction
  if (lidar && defined) {
    const R turn = 2 * kPi / m.k[0];
    seam = ref.u < 1e-6L || ref.u > turn - 1e-6L;
    const R steep = fabsl(q.y) / p.norm() > 0.999L ? 1e-7L / m.k[1] : 0;  // where asin() magnifies rounding
    c.check(close(kp[1], ref.v, 1e-9L + steep), "keypoint", "%s: row %.12g, not %.12Lg", conf.name, kp[1], ref.v);
    c.check(close(kp[0], ref.u, 1e-9L) || (seam && (fabsl(kp[0]) < 2e-6L || fabsl(kp[0] - turn) < 2e-6L)), "keypoint",
            "%s: (%g, %g, %g) in column %.12g, not %.12Lg", conf.name, p[0], p[1], p[2], kp[0], ref.u);
  } else if (defined && fabsl(ref.u) < 1e9L && fabsl(ref.v) < 1e9L) {
    const R n = p.norm(), q = conf.kind == CT::kUnifiedProjection ? p[2] + m.k[0] * n : n;  // cancellation
    c.check(close(kp, ref, tol * n / q), "keypoint", "%s, %s: (%g, %g, %g) at (%.14g, %.14g), not (%.14Lg, %.14Lg)", conf.name, distortions()[0].name, p[0], p[1],
            p[2], kp[0], kp[1], ref.u, ref.v);
  }
  S want;
  if (!seam && (defined || conf.kind != CT::kUnifiedProjection || q.z < -m.fov() * p.norm() - 1e-9L * p.norm()) && status(m, q, ref, &want))
    c.check(st == want, "status", "%s: (%g, %g, %g) at (%g, %g) is %s, not %s", conf.name, p[0], p[1], p[2], kp[0], kp[1], name(st), name(want));
  if (st == S::KEYPOINT_VISIBLE) c.check(cam->isKeypointVisible(kp) && !cam->isMasked(kp), "visible-outside", "%s: visible at (%g, %g)", conf.name, kp[0], kp[1]);
  // the other forms give the same
  auto same = [&](const ProjectionResult& r, const Eigen::Vector2d& k, const char* form) {
    c.check(r == first && r == st, "form-status", "%s: %s by %s, %s else", conf.name, name(r.getDetailedStatus()), form, name(st));
    const bool eq = (k - kp).norm() <= 1e-9 * (1 + kp.norm()) || !kp.allFinite() || kp.norm() > 1e15;
    c.check(eq, "form-keypoint", "%s: (%.12g, %.12g) by %s, (%.12g, %.12g) else", conf.name, k[0], k[1], form, kp[0], kp[1]);
  };
  Eigen::Vector2d k(-7, -7);
  {
    const Camera::Ptr built = camera(used);  // a camera with these parameters
    built->setImageWidth(conf.width);
    built->setImageHeight(conf.height);
    same(built->project3(p, &k), k, "a camera built with the parameters");
    k.setConstant(-7);
    const Camera::Ptr set = camera(conf);
    set->setParameters(used.k);
    if (used.d.size()) set->getDistortionMutable()->setParameters(used.d);
    same(set->project3(p, &k), k, "a camera given the parameters");
    k.setConstant(-7);
    std::unique_ptr<Camera> clone(set->clone());
    same(clone->project3(p, &k), k, "a clone");
  }
  if (!lidar) {
    Eigen::Matrix<double, 2, 3> jp;
    Eigen::Matrix<double, 2, Eigen::Dynamic> ji, jd;
    for (int which = 1; which < 8; ++which) {
      k.setConstant(-7);
      same(cam->project3Functional(p, &used.k, &used.d, &k, which & 1 ? &jp : nullptr, which & 2 ? &ji : nullptr, which & 4 ? &jd : nullptr), k, "with Jacobians");
    }
    if (ext_params == 0) {
      k.setConstant(-7);
      same(cam->project3(p, &k, &jp), k, "project3 with Jacobian");
      k.setConstant(-7);
      same(cam->project3Functional(p, nullptr, nullptr, &k), k, "internal parameters");
      k.setConstant(-7);
      same(cam->project3Functional(p, &used.k, nullptr, &k), k, "internal distortion");
      k.setConstant(-7);
      same(cam->project3Functional(p, nullptr, &used.d, &k), k, "internal intrinsics");
    }
  } else {
    k.setConstant(-7);
    same(static_cast<const Camera3DLidar&>(*cam).project3Functional<double, NullDistortion>(p, used.k, Eigen::VectorXd(), &k), k, "the template");
  }
  if (conf.kind == CT::kPinhole) {
    const PinholeCamera& ph = static_cast<const PinholeCamera&>(*cam);
    k.setConstant(-7);
    if (conf.dist == DT::kNoDistortion) same(templated<PinholeCamera, NullDistortion>(ph, p, used.k, used.d, &k), k, "the template");
    if (conf.dist == DT::kFisheye) same(templated<PinholeCamera, FisheyeDistortion>(ph, p, used.k, used.d, &k), k, "the template");
  }
  if (ext_params == 0) {
    for (double w : {1.0, 0.0, 2.5, -1.0, -0.5}) {
      Eigen::Vector4d h;
      h << (w < 0 ? -p : p), w;
      k.setConstant(-7);
      same(cam->project4(h, &k), k, "project4");
      c.check(cam->isProjectable4(h) == cam->isProjectable3(p), "projectable", "%s: isProjectable4 and isProjectable3", conf.name);
      if (!lidar) {
        Eigen::Matrix<double, 2, 4> j;
        k.setConstant(-7);
        same(cam->project4(h, &k, &j), k, "project4 with Jacobian");
      }
    }
    Eigen::Matrix3Xd ps(3, 3);
    ps << p, Eigen::Vector3d(0.1, 0.2, 1), p;
    Eigen::Matrix2Xd ks = Eigen::Matrix2Xd::Constant(2, 1, -7);
    std::vector<ProjectionResult> rs(5, ProjectionResult(S::UNINITIALIZED));
    cam->project3Vectorized(ps, &ks, &rs);
    c.check(ks.cols() == 3 && rs.size() == 3, "vectorized-size", "%s: %d keypoints, %zu results of 3 points", conf.name, (int)ks.cols(), rs.size());
    same(rs[0], ks.col(0), "project3Vectorized");
    same(rs[2], ks.col(2), "project3Vectorized, last");
    cam->project3Vectorized(Eigen::Matrix3Xd(3, 0), &ks, &rs);
    c.check(ks.cols() == 0 && rs.empty(), "vectorized-size", "%s: %d keypoints of no points", conf.name, (int)ks.cols());
  }
}
// ---- Jacobians against differences of the model
R ulp_tol(R ref, R scale) { return 1e-7L * (1 + fabsl(ref)) + 1e-7L * scale; }
void jacobians(Ctx& c) {
  const Config conf = pickConfig(c, false);
  const Camera::Ptr cam = camera(conf);
  const Eigen::Vector3d p = pickPoint(c);
  const int ext_params = c.choose(2, "external parameters");
  const Config used = other(conf, ext_params ? 3 : 0);
  const Model m = model(used);
  const P3 q{p[0], p[1], p[2]};
  const R n = p.norm();
  if (n < 1e-2L) throw seqx::Pruned();
  if (conf.kind == CT::kPinhole ? q.z < 0.05L : q.z < -m.fov() * n + 0.05L * n) throw seqx::Pruned();
  const P2 at = m.project(q);
  if (fabsl(at.u) + fabsl(at.v) > 2e4L) throw seqx::Pruned();  // the differences are not precise enough
  Eigen::Vector2d kp;
  Eigen::Matrix<double, 2, 3> jp;
  Eigen::Matrix<double, 2, Eigen::Dynamic> ji, jd;
  cam->project3Functional(p, ext_params ? &used.k : nullptr, ext_params ? &used.d : nullptr, &kp, &jp, &ji, &jd);
  c.check(ji.cols() == cam->getParameterSize() && jd.cols() == cam->getDistortion().getParameterSize(), "jacobian-size", "%s: sizes %d, %d", conf.name, (int)ji.cols(), (int)jd.cols());
  const bool approx = conf.dist == DT::kFisheye;
  auto compare = [&](double got, R ref, R scale, const char* what, int i) {
    const R tol = approx ? 1e-4L * (1 + fabsl(ref)) + 5e-4L * scale * 0.1L : ulp_tol(ref, scale);
    c.check(fabsl(got - ref) <= tol, std::string("jacobian-") + what, "%s: (%g, %g, %g): derivative %d of %s is %.10g, not %.10Lg", conf.name, p[0], p[1], p[2], i, what, got, ref);
  };
  auto diff = [](P2 a, P2 b, R h) { return P2{(a.u - b.u) / (2 * h), (a.v - b.v) / (2 * h)}; };
  R scale = 0;
  for (int i = 0; i < 3; ++i) {
    const R h = 1e-6L * n;
    P3 a = q, b = q;
    R* pa[] = {&a.x, &a.y, &a.z};
    R* pb[] = {&b.x, &b.y, &b.z};
    *pa[i] += h;
    *pb[i] -= h;
    const P2 d = diff(m.project(a), m.project(b), h);
    scale = std::max(scale, std::max(fabsl(d.u), fabsl(d.v)));
    compare(jp(0, i), d.u, scale, "the point", i);
    compare(jp(1, i), d.v, scale, "the point", i);
  }
  for (size_t i = 0; i < m.k.size(); ++i) {
    Model a = m, b = m;
    if (conf.kind == CT::kUnifiedProjection && i == 0 && m.k[0] == 0) { a.k[0] = 1e-6L; b.k[0] = -1e-6L; }
    const R h = 1e-6L;
    a.k[i] = m.k[i] + h;
    b.k[i] = m.k[i] - h;
    const P2 d = diff(a.project(q), b.project(q), h);
    compare(ji(0, i), d.u, fabsl(d.u), "the intrinsics", i);
    compare(ji(1, i), d.v, fabsl(d.v), "the intrinsics", i);
  }
  for (size_t i = 0; i < m.d.size(); ++i) {
    Model a = m, b = m;
    const R h = 1e-6L;
    a.d[i] += h;
    b.d[i] -= h;
    if (conf.dist == DT::kFisheye && m.d[0] == 0) { c.check(jd(0, 0) == 0 && jd(1, 0) == 0, "jacobian-the distortion", "%s: not 0 at w=0", conf.name); continue; }
    const P2 d = diff(a.project(q), b.project(q), h);
    compare(jd(0, i), d.u, fabsl(d.u), "the distortion", i);
    compare(jd(1, i), d.v, fabsl(d.v), "the distortion", i);
  }
  // of project3 and project4
  if (ext_params == 0) {
    Eigen::Matrix<double, 2, 3> j3;
    cam->project3(p, &kp, &j3);
    c.check((j3 - jp).norm() <= 1e-9 * (1 + jp.norm()), "jacobian-project3", "%s: Jacobian of project3", conf.name);
    for (double w : {1.0, 0.0, 3.0, -1.0, -2.0}) {
      Eigen::Vector4d h;
      h << (w < 0 ? -p : p), w;
      Eigen::Matrix<double, 2, 4> j4;
      cam->project4(h, &kp, &j4);
      const double sign = w < 0 ? -1 : 1;
      c.check((j4.leftCols<3>() - sign * jp).norm() <= 1e-9 * (1 + jp.norm()) && j4.col(3).norm() == 0, "jacobian-project4",
              "%s: Jacobian of project4 with w=%g: (%g, %g, %g), not (%g, %g, %g)", conf.name, w, j4(0, 0), j4(0, 1), j4(0, 2), sign * jp(0, 0), sign * jp(0, 1), sign * jp(0, 2));
    }
  }
}
// ---- the distortion models themselves
void distortions_alone(Ctx& c) {
  const std::vector<Dist> ds = distortions();
  const Dist d = ds[c.choose(ds.size(), "distortion")];
  Distortion::UniquePtr dist = distortion(d.t, d.d);
  const std::vector<double> xs{-1.2, -0.7, -0.3, -0.05, -1e-3, -1e-5, -1e-9, 0, 1e-11, 1e-7, 2e-3, 0.01, 0.4, 0.9};
  const Eigen::Vector2d p(c.pick(xs, "x"), c.pick(xs, "y"));
  const int e = c.choose(2, "external");
  Eigen::VectorXd k = d.d;
  if (e && k.size()) k = d.t == DT::kFisheye ? vec({0.8}) : Eigen::VectorXd(k * 0.5 + Eigen::VectorXd::Constant(k.size(), 1e-3));
  const Eigen::VectorXd* kptr = e ? &k : nullptr;
  const std::vector<R> kr = ext(k);
  const P2 ref = distort(d.t, kr, {p[0], p[1]});
  const R tol = d.t == DT::kFisheye ? 2e-5L : 1e-12L;
  auto good = [&](const Eigen::Vector2d& q, const char* form) {
    c.check(fabsl(q[0] - ref.u) <= tol * (fabsl(ref.u) + fabsl(ref.v)) + 1e-18L && fabsl(q[1] - ref.v) <= tol * (fabsl(ref.u) + fabsl(ref.v)) + 1e-18L, "distort", "%s: (%g, %g) to (%.14g, %.14g) by %s, not (%.14Lg, %.14Lg)", d.name, p[0], p[1], q[0], q[1], form, ref.u, ref.v);
  };
  Eigen::Vector2d q = p;
  Eigen::Matrix2d j;
  dist->distortUsingExternalCoefficients(kptr, &q, nullptr);
  good(q, "distortUsingExternalCoefficients()");
  q = p;
  dist->distortUsingExternalCoefficients(kptr, &q, &j);
  good(q, "the form with Jacobian");
  const R h = 1e-7L;
  for (int i = 0; i < 2; ++i) {
    const P2 a = distort(d.t, kr, {p[0] + (i == 0 ? h : 0), p[1] + (i == 1 ? h : 0)}), b = distort(d.t, kr, {p[0] - (i == 0 ? h : 0), p[1] - (i == 1 ? h : 0)});
    const R jt = d.t == DT::kFisheye ? 1e-4L : 1e-8L;
    c.check(fabsl(j(0, i) - (a.u - b.u) / (2 * h)) < jt && fabsl(j(1, i) - (a.v - b.v) / (2 * h)) < jt, "distort-jacobian",
            "%s at (%g, %g): derivative %d is (%.9g, %.9g), not (%.9Lg, %.9Lg)", d.name, p[0], p[1], i, j(0, i), j(1, i), (a.u - b.u) / (2 * h), (a.v - b.v) / (2 * h));
  }
  Eigen::Matrix<double, 2, Eigen::Dynamic> jd;
  dist->distortParameterJacobian(kptr, p, &jd);
  c.check(jd.cols() == dist->getParameterSize(), "parameter-jacobian", "%s: %d columns", d.name, (int)jd.cols());
  for (int i = 0; i < jd.cols(); ++i) {
    std::vector<R> ka = kr, kb = kr;
    if (d.t == DT::kFisheye && kr[0] == 0) { c.check(jd.norm() == 0, "parameter-jacobian", "fisheye at w=0"); break; }
    ka[i] += h;
    kb[i] -= h;
    const P2 a = distort(d.t, ka, {p[0], p[1]}), b = distort(d.t, kb, {p[0], p[1]});
    const R s = fabsl(p[0]) + fabsl(p[1]), jt = (d.t == DT::kFisheye ? 1e-4L : 1e-8L) * (s + 1e-12L);
    c.check(fabsl(jd(0, i) - (a.u - b.u) / (2 * h)) < jt && fabsl(jd(1, i) - (a.v - b.v) / (2 * h)) < jt, "parameter-jacobian",
            "%s at (%g, %g): derivative %d is (%.9g, %.9g), not (%.9Lg, %.9Lg)", d.name, p[0], p[1], i, jd(0, i), jd(1, i), (a.u - b.u) / (2 * h), (a.v - b.v) / (2 * h));
  }
  if (d.t == DT::kFisheye) {
    Eigen::Vector2d out;
    static_cast<const FisheyeDistortion&>(*dist).distortUsingExternalCoefficients(k, p, &out);
    good(out, "the template");
    out = p;
    static_cast<const FisheyeDistortion&>(*dist).distortUsingExternalCoefficients(k, out, &out);
    good(out, "the template in place");
  }
  if (!e) {
    q = p;
    dist->distort(&q);
    good(q, "distort(point)");
    q.setConstant(5);
    dist->distort(p, &q);
    good(q, "distort(point, out)");
    q = p;
    dist->distort(&q, &j);
    good(q, "distort(point, jacobian)");
    std::unique_ptr<Distortion> clone(dist->clone());
    c.check(*clone == *dist && clone->getType() == d.t, "distortion-clone", "%s: the clone differs", d.name);
    q = p;
    clone->distort(&q);
    good(q, "the clone");
  }
  // and back: within the radius up to which the model can be inverted
  const R r = p.norm();
  if (r > (d.t == DT::kRadTan ? 0.8L : 1.7L)) return;
  q = Eigen::Vector2d(ref.u, ref.v);
  dist->undistortUsingExternalCoefficients(k, &q);
  const double back = (q - p).norm();
  c.check(back <= 1e-6 * (1e-3 + r) * (d.t == DT::kFisheye ? 30 : 1), "undistort", "%s: (%g, %g) distorted and back is (%.12g, %.12g)", d.name, p[0], p[1], q[0], q[1]);
  if (!e) {
    Eigen::Vector2d u, v(ref.u, ref.v);
    dist->undistort(v, &u);
    c.check(u == q && v[0] == (double)ref.u, "undistort-form", "%s: undistort(point, out)", d.name);
    dist->undistort(&v);
    c.check(v == q, "undistort-form", "%s: undistort(point)", d.name);
  }
}
// ---- back-projection
void back(Ctx& c) {
  const Config conf = pickConfig(c);
  const Camera::Ptr cam = camera(conf);
  const Model m = model(conf);
  const std::vector<double> fs = c.thorough ? std::vector<double>{0.001, 0.01, 0.05, 0.1, 0.2, 0.3, 0.4, 0.45, 0.5, 0.55, 0.6, 0.7, 0.8, 0.9, 0.97, 0.999}
                                            : std::vector<double>{0.001, 0.1, 0.3, 0.5, 0.6, 0.8, 0.999};
  const Eigen::Vector2d k(c.pick(fs, "column") * conf.width, c.pick(fs, "row") * conf.height);
  Eigen::Vector3d p(7, 7, 7);
  const bool ok = cam->backProject3(k, &p);
  Eigen::Vector4d h;
  const bool ok4 = cam->backProject4(k, &h);
  c.check(ok == ok4 && (h.head<3>() == p || !p.allFinite()) && h[3] == 0, "back-form", "%s: backProject4 differs", conf.name);
  Eigen::Matrix2Xd ks(2, 2);
  ks << k, k;
  Eigen::Matrix3Xd ps;
  std::vector<unsigned char> succ(7, 9);
  cam->backProject3Vectorized(ks, &ps, &succ);
  c.check(ps.cols() == 2 && succ.size() == 2 && (bool)succ[0] == ok && (bool)succ[1] == ok && (ps.col(1) == p || !p.allFinite()), "back-form", "%s: backProject3Vectorized differs", conf.name);
  if (conf.kind == CT::kPinhole) c.check(ok && p[2] == 1, "back-pinhole", "%s: not in the plane z=1", conf.name);
  if (conf.kind == CT::kLidar3D) c.check(ok && std::abs(p.norm() - 1) < 1e-12, "back-lidar", "%s: norm %g", conf.name, p.norm());
  // Where the ray exists by the model: undistorted radius within the range of the models.
  if (!ok) { c.check(conf.kind == CT::kUnifiedProjection && m.k[0] > 1, "back-refused", "%s: (%g, %g) refused", conf.name, k[0], k[1]); return; }
  if (conf.kind != CT::kLidar3D) {
    // find the undistorted keypoint on a fine grid of the model to see whether it can be inverted there
    const int f = m.f0();
    const R du = (k[0] - m.k[f + 2]) / m.k[f], dv = (k[1] - m.k[f + 3]) / m.k[f + 1];
    const R rd = sqrtl(du * du + dv * dv);
    R limit = 1e9L;
    if (m.dist == DT::kRadTan) limit = 0.65L;
    if (m.dist == DT::kEquidistant) limit = 1.0L;
    if (m.dist == DT::kFisheye && m.d[0] != 0) limit = 1.45L / m.d[0];
    if (rd > limit) return;
  }
  for (double depth : {1.0, 0.5, 20.0}) {
    const Eigen::Vector3d q = p * depth;
    Eigen::Vector2d again;
    const ProjectionResult r = cam->project3(q, &again);
    c.check((again - k).norm() < 1e-3 * (conf.dist == DT::kFisheye ? 10 : 1), "round-trip", "%s (%d): keypoint (%.10g, %.10g), back and forth (%.10g, %.10g)", conf.name, (int)conf.dist, k[0], k[1], again[0], again[1]);
    c.check(r == S::KEYPOINT_VISIBLE, "round-trip-status", "%s: (%g, %g) back and forth is %s", conf.name, k[0], k[1], name(r.getDetailedStatus()));
  }
}
// A visible point projects to a keypoint whose ray is that of the point.
void there(Ctx& c) {
  const Config conf = pickConfig(c);
  const Camera::Ptr cam = camera(conf);
  const Eigen::Vector3d p = pickPoint(c);
  Eigen::Vector2d k;
  if (!cam->project3(p, &k)) throw seqx::Pruned();
  Eigen::Vector3d b;
  const bool ok = cam->backProject3(k, &b);
  const Model m = model(conf);
  R limit = 1e9L;
  if (conf.kind != CT::kLidar3D) {
    const int f = m.f0();
    const R n = p.norm(), q = conf.kind == CT::kUnifiedProjection ? p[2] + m.k[0] * n : p[2];
    const R r = hypotl(p[0], p[1]) / q;
    (void)f;
    limit = m.dist == DT::kRadTan ? 0.7L : m.dist == DT::kEquidistant ? 1.5L : m.dist == DT::kFisheye ? 3.0L : 1e9L;
    if (r > limit) return;
    if (conf.kind == CT::kUnifiedProjection && m.k[0] > 1 && r * r > 0.9L / (m.k[0] * m.k[0] - 1)) return;
  }
  c.check(ok, "ray-refused", "%s: keypoint (%g, %g) of a visible point refused", conf.name, k[0], k[1]);
  const double dev = (b.normalized() - p.normalized()).norm();
  c.check(dev < (conf.dist == DT::kFisheye ? 1e-4 : 1e-6), "ray", "%s (%d): (%g, %g, %g) there and back is (%g, %g, %g), %g off", conf.name, (int)conf.dist, p[0], p[1], p[2], b[0], b[1], b[2], dev);
}
// ---- visibility, masks and line delays
void image(Ctx& c) {
  const int kind = c.choose(3, "camera");
  const uint32_t w = c.pick({1, 2, 5, 640}, "width"), h = c.pick({1, 3, 480}, "height");
  Camera::Ptr cam;
  if (kind == 0) cam.reset(new PinholeCamera(vec({1, 1, 1, 1}), w, h));
  if (kind == 1) cam.reset(new UnifiedProjectionCamera(vec({1, 1, 1, 1, 1}), w, h));
  if (kind == 2) cam.reset(new Camera3DLidar(vec({1, 1, 1, 1}), w, h));
  const int mask_kind = c.choose(4, "mask");  // none, all valid, columns 0 masked, rows alternating
  cv::Mat mask;
  auto valid = [&](int x, int y) { return mask_kind < 2 || (mask_kind == 2 ? x != 0 : y % 2 == 0); };
  if (mask_kind) {
    mask = cv::Mat(h, w, CV_8UC1);
    for (uint32_t y = 0; y < h; ++y) for (uint32_t x = 0; x < w; ++x) mask.at<uint8_t>(y, x) = valid(x, y) ? (x % 2 ? 1 : 255) : 0;
    for (const cv::Mat& bad : {cv::Mat(h + 1, w, CV_8UC1), cv::Mat(h, w + 1, CV_8UC1), cv::Mat(h, w, CV_8UC3), cv::Mat(h, w, CV_8SC1)})
      c.check(c.aborts([&] { cam->setMask(bad); }), "mask-accepted", "a mask that does not fit was accepted");
    c.check(!cam->hasMask(), "mask-has", "a refused mask was taken");
    cam->setMask(mask);
  }
  c.check(cam->hasMask() == (mask_kind != 0), "mask-has", "hasMask()");
  const double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
  auto coords = [&](double n) {
    return std::vector<double>{-inf, -1e300, -1, -0.25, -1e-300, 0, 0.5, 1, n - 1, n - 0.001, std::nextafter(n, 0), n, n + 0.5, 3e9, 1e19, inf, nan};
  };
  const double u = c.pick(coords(w), "u"), v = c.pick(coords(h), "v");
  const Eigen::Vector2d k(u, v);
  const bool in = u >= 0 && v >= 0 && u < w && v < h;
  c.check(cam->isKeypointVisible(k) == in, "visible", "(%g, %g) of %ux%u: visible %d", u, v, w, h, (int)!in);
  const bool masked = !in || !valid((int)u, (int)v);
  c.check(cam->isMasked(k) == masked, "masked", "(%g, %g) of %ux%u with mask %d: masked %d", u, v, w, h, mask_kind, (int)!masked);
  if (std::abs(u) < 1e6 && std::abs(v) < 1e6) {
    const Eigen::Vector2i ki((int)std::floor(u), (int)std::floor(v));
    c.check(cam->isKeypointVisible(ki) == (ki[0] >= 0 && ki[1] >= 0 && ki[0] < (int)w && ki[1] < (int)h), "visible-int", "(%d, %d) of %ux%u", ki[0], ki[1], w, h);
  }
  for (double m : {0.0, 0.25, 1.0, 2.0, 100.0}) {
    const bool fits = 2 * m < w && 2 * m < h;
    bool got = false;
    const bool refused = c.aborts([&] { got = cam->isKeypointVisibleWithMargin(k, m); });
    c.check(refused == !fits, "margin-refused", "margin %g of %ux%u: refused %d", m, w, h, (int)refused);
    if (fits) c.check(got == (u >= m && v >= m && u < w - m && v < h - m), "margin", "(%g, %g) with margin %g of %ux%u: %d", u, v, m, w, h, (int)got);
  }
  if (mask_kind) {
    std::unique_ptr<Camera> clone(cam->clone());
    c.check(clone->hasMask() && clone->isMasked(k) == masked, "mask-clone", "the mask of the clone");
    cam->clearMask();
    c.check(!cam->hasMask() && cam->isMasked(k) == !in, "mask-cleared", "the mask is still there");
    c.check(clone->hasMask() && clone->isMasked(k) == masked, "mask-clone", "the mask of the clone went with that of the original");
  }
}
void delays(Ctx& c) {
  const int kind = c.choose(3, "camera");
  const uint32_t w = 1000, h = 40;
  Camera::Ptr cam;
  if (kind == 0) cam.reset(new PinholeCamera(vec({1, 1, 1, 1}), w, h));
  if (kind == 1) cam.reset(new UnifiedProjectionCamera(vec({1, 1, 1, 1, 1}), w, h));
  if (kind == 2) cam.reset(new Camera3DLidar(vec({1, 1, 1, 1}), w, h));
  const uint64_t delay = c.pick({(uint64_t)0, (uint64_t)1, (uint64_t)30000, (uint64_t)10000000000ull}, "delay");
  cam->setLineDelayNanoSeconds(delay);
  const bool columns = kind == 2;
  c.check(cam->getLineDelayNanoSeconds() == delay, "delay-get", "line delay");
  c.check((cam->getLineDelayMode() == Camera::LineDelayMode::kColumns) == columns, "delay-mode", "line delay mode");
  c.check(cam->getNumberOfLines() == (delay == 0 ? 1 : columns ? w : h), "delay-lines", "%u lines", cam->getNumberOfLines());
  c.check(cam->maxRollingShutterDelayNanoSeconds() == (int64_t)((columns ? w : h) * delay), "delay-max", "camera %d: longest delay %ld of %u lines of %lu", kind,
          (long)cam->maxRollingShutterDelayNanoSeconds(), columns ? w : h, (unsigned long)delay);
  for (double u : {-3.5, -0.5, 0.0, 0.99, 7.0, 39.5, 999.9, 2000.0}) for (double v : {-2.25, 0.0, 5.75, 39.999, 100.0}) {
    const int64_t line = (int64_t)(columns ? u : v);
    c.check(cam->rollingShutterDelayNanoSeconds(Eigen::Vector2d(u, v)) == line * (int64_t)delay, "delay", "camera %d: delay of (%g, %g)", kind, u, v);
    if (delay && cam->isKeypointVisible(Eigen::Vector2d(u, v)))
      c.check(cam->rollingShutterDelayNanoSeconds(Eigen::Vector2d(u, v)) <= cam->maxRollingShutterDelayNanoSeconds(), "delay-max", "camera %d: delay of (%g, %g) is beyond the longest", kind, u, v);
  }
}
// Points and keypoints that are no numbers are never visible.
void nonfinite(Ctx& c) {
  const Config conf = pickConfig(c);
  const Camera::Ptr cam = camera(conf);
  const double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
  const std::vector<double> xs{0.1, 0, nan, inf, -inf};
  const Eigen::Vector3d p(c.pick(xs, "x"), c.pick(xs, "y"), c.pick({1.0, 0.0, nan, inf, -inf}, "z"));
  if (p.allFinite()) throw seqx::Pruned();
  if (!p.hasNaN()) throw seqx::Pruned();
  Eigen::Vector2d k;
  c.check(!cam->project3(p, &k).isKeypointVisible(), "nan-visible", "%s: (%g, %g, %g) is visible at (%g, %g)", conf.name, p[0], p[1], p[2], k[0], k[1]);
}
// Parameter vectors of the wrong size are refused.
void refused(Ctx& c) {
  const Config conf = pickConfig(c);
  const Camera::Ptr cam = camera(conf);
  const int size = c.choose(7, "size");
  const Eigen::VectorXd v = Eigen::VectorXd::Constant(size, 0.5);
  const Eigen::Vector3d p(0.1, 0.2, 1);
  Eigen::Vector2d k;
  c.check(c.aborts([&] { cam->project3Functional(p, &v, nullptr, &k); }) == (size != cam->getParameterSize()), "size-intrinsics", "%s: %d external intrinsics", conf.name, size);
  c.check(c.aborts([&] { cam->setParameters(v); }) == (size != cam->getParameterSize()), "size-set", "%s: %d intrinsics set", conf.name, size);
  if (conf.kind == CT::kLidar3D || conf.dist == DT::kNoDistortion) return;
  const Camera::Ptr fresh = camera(conf);
  c.check(c.aborts([&] { fresh->project3Functional(p, nullptr, &v, &k); }) == (size != (int)conf.d.size()), "size-distortion", "%s: %d external coefficients", conf.name, size);
  c.check(c.aborts([&] { fresh->getDistortionMutable()->setParameters(v); }) == (size != (int)conf.d.size()), "size-distortion-set", "%s: %d coefficients set", conf.name, size);
}
}  // namespace

int main(int argc, char** argv) {
  std::vector<seqx::Scenario> v;
  v.push_back({"forms", "every form of projection, 10 cameras x 11 distortions x points", forms, 2});
  v.push_back({"jacobians", "Jacobians, 6 cameras x 11 distortions x points", jacobians, 2});
  v.push_back({"distortion", "the distortion models on their own, 14x14 points", distortions_alone, 2});
  v.push_back({"back", "keypoints, back-projected and projected again", back, 2});
  v.push_back({"there", "points, projected and back-projected again", there, 2});
  v.push_back({"image", "visibility, margins and masks", image, 3});
  v.push_back({"delays", "line delays", delays, 1});
  v.push_back({"nan", "points that are not numbers", nonfinite, 1});
  v.push_back({"refuse", "parameters of the wrong size", refused, 1});
  return seqx::run_main(argc, argv, "S17", v);
}
