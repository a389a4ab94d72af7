// Calibration targets: geometry and numbering of the points, observations, april grid detections, initial intrinsics.
#define SEQX_MAIN
#include "seqx.h"

#include <cmath>
#include <fstream>
#include <memory>
#include <string>

#include <Eigen/Core>
#include <Eigen/Geometry>
#include <glog/logging.h>
#include <opencv2/highgui/highgui.hpp>

#include <aslam/calibration/target-aprilgrid.h>
#include <aslam/calibration/target-observation.h>
#include <aslam/calibration/focallength-initializers.h>

using seqx::Ctx;
using namespace aslam::calibration;

// Windows are neither opened nor waited for.
namespace cv {
void namedWindow(const String&, int) {}
void destroyAllWindows() {}
int startWindowThread() { return 0; }
void imshow(const String&, InputArray) {}
int waitKey(int) { return 0; }
}  // namespace cv
extern "C" int cvStartWindowThread() { return 0; }

namespace {
typedef TargetAprilGrid::TargetConfiguration TC;
typedef DetectorAprilGrid::DetectorConfiguration DC;
TC config(size_t rows, size_t cols, double size = 0.5, double space = 0.25) {
  TC c;
  c.num_tag_rows = rows;
  c.num_tag_cols = cols;
  c.tag_size_meter = size;
  c.tag_inbetween_space_meter = space;
  return c;
}
bool near(double a, double b, double tol) { return std::abs(a - b) <= tol; }

// ------------------------------------------------------------------------------------------- geometry
void geometry(Ctx& c) {
  const size_t tr = c.range(0, 4, "tag rows"), tc = c.range(0, 4, "tag cols");
  const double sizes[] = {-0.1, 0, 0.088, 0.5}, spaces[] = {-0.1, 0, 0.0264, 1};
  const int si = c.choose(4, "size"), pi = c.choose(4, "space");
  const double size = sizes[si], space = spaces[pi];
  TargetBase::Ptr t;
  const bool refused = c.aborts([&] { t.reset(new TargetAprilGrid(config(tr, tc, size, space))); });
  const bool valid = tr > 0 && tc > 0 && size > 0 && space > 0;
  c.check(refused == !valid, "construct", "%zux%zu tags of %g with space %g were %s", tr, tc, size, space, refused ? "refused" : "accepted");
  if (!valid) return;
  TargetBase& b = *t;
  const TargetBase& cb = *t;
  const size_t rows = 2 * tr, cols = 2 * tc;
  c.check(b.rows() == rows && b.cols() == cols && b.size() == rows * cols, "size", "%zux%zu points, %zu in total", b.rows(), b.cols(), b.size());
  c.check(cb.points().cols() == (int)(rows * cols), "size", "%d points", (int)cb.points().cols());
  auto at = [&](size_t i) { return (i / 2) * (size + space) + (i % 2) * size; };
  for (size_t r = 0; r < rows; ++r) for (size_t k = 0; k < cols; ++k) {
    const Eigen::Vector3d want(at(k), at(r), 0);
    const size_t idx = b.gridCoordinatesToPoint(r, k);
    c.check(idx == r * cols + k, "index", "point (%zu, %zu) has index %zu of %zux%zu", r, k, idx, rows, cols);
    for (const Eigen::Vector3d& p : {b.gridPoint(r, k), b.point(idx), Eigen::Vector3d(cb.points().col(idx)), Eigen::Vector3d(b.pointMutable(idx))})
      c.check((p - want).cwiseAbs().maxCoeff() < 1e-12, "position", "point (%zu, %zu) is at (%g, %g, %g) instead of (%g, %g, 0)", r, k, p[0], p[1], p[2], want[0], want[1]);
    const std::pair<size_t, size_t> g = b.pointToGridCoordinates(idx);
    c.check(g.first == k && g.second == r, "grid", "point %zu is in column %zu, row %zu instead of %zu, %zu", idx, g.first, g.second, k, r);
  }
  c.check(near(b.width(), at(cols - 1), 1e-12) && near(b.height(), at(rows - 1), 1e-12), "extent", "extent %g x %g", b.width(), b.height());
  // Neighbouring tags do not overlap, and moving one point moves no other.
  const size_t n = rows * cols;
  const size_t m = c.choose((int)n, "moved");
  const Eigen::Matrix3Xd before = b.points();
  b.pointMutable(m)[1] = 77;
  for (size_t i = 0; i < n; ++i) {
    Eigen::Vector3d want = before.col(i);
    if (i == m) want[1] = 77;
    c.check(b.point(i) == want, "mutable", "moving point %zu changed point %zu to (%g, %g, %g)", m, i, b.point(i)[0], b.point(i)[1], b.point(i)[2]);
  }
  for (size_t i : {n, n + 1, (size_t)1 << 32, ~(size_t)0}) {
    c.check(c.aborts([&] { b.point(i); }), "refuse", "point %zu of %zu", i, n);
    c.check(c.aborts([&] { b.pointMutable(i); }), "refuse", "pointMutable %zu of %zu", i, n);
  }
  for (size_t i : {(size_t)0, rows - 1, rows, cols - 1, cols, n, (size_t)1 << 32, ~(size_t)0})
    for (size_t k : {(size_t)0, rows - 1, rows, cols - 1, cols, n, (size_t)1 << 32, ~(size_t)0}) {
      const bool in = i < rows && k < cols;
      c.check(c.aborts([&] { b.gridCoordinatesToPoint(i, k); }) == !in, "refuse", "point (%zu, %zu) of %zux%zu", i, k, rows, cols);
      c.check(c.aborts([&] { b.gridPoint(i, k); }) == !in, "refuse", "point (%zu, %zu) of %zux%zu", i, k, rows, cols);
    }
}
struct PlainTarget : TargetBase {
  PlainTarget(size_t r, size_t k, const Eigen::Matrix3Xd& p) : TargetBase(r, k, p) {}
};
void plain(Ctx& c) {
  const size_t r = c.range(0, 3, "rows"), k = c.range(0, 3, "cols"), n = c.range(0, 10, "points");
  Eigen::Matrix3Xd p(3, n);
  for (size_t i = 0; i < n; ++i) p.col(i) = Eigen::Vector3d(10 - 2.5 * (k ? i % k : 0), -3 + 1.25 * (k ? i / k : 0), 0);
  std::unique_ptr<TargetBase> t;
  const bool refused = c.aborts([&] { t.reset(new PlainTarget(r, k, p)); });
  c.check(refused == !(r > 0 && k > 0 && n == r * k), "construct", "%zux%zu target of %zu points was %s", r, k, n, refused ? "refused" : "accepted");
  if (refused) return;
  c.check(near(t->width(), 2.5 * (k - 1), 1e-12) && near(t->height(), 1.25 * (r - 1), 1e-12), "extent", "extent %g x %g of a %zux%zu target", t->width(), t->height(), r, k);
  for (size_t i = 0; i < n; ++i) c.check(t->point(i) == p.col(i), "position", "point %zu", i);
}

// ------------------------------------------------------------------------------------------- observations
void observation(Ctx& c) {
  TargetBase::Ptr t(new TargetAprilGrid(config(1, c.range(1, 2, "tags"))));
  const int size = t->size();
  const int n = c.range(0, c.thorough ? 5 : 4, "corners");
  if (n > size) throw seqx::Pruned();
  std::vector<int> ids;
  std::vector<bool> used(size, false);
  for (int i = 0; i < n; ++i) {
    const int id = c.choose(size, "id");
    if (used[id]) throw seqx::Pruned();
    used[id] = true;
    ids.push_back(id);
  }
  Eigen::VectorXi v(n);
  Eigen::Matrix2Xd corners(2, n);
  for (int i = 0; i < n; ++i) {
    v[i] = ids[i];
    corners.col(i) = Eigen::Vector2d(3 + 7 * i, 20 - 4 * i);
  }
  for (int d : {-1, 1}) if (n + d >= 0) {
    c.check(c.aborts([&] { TargetObservation o(t, 30, 40, v, Eigen::Matrix2Xd::Zero(2, n + d)); }), "construct", "%d identifiers with %d corners were accepted", n, n + d);
  }
  c.check(c.aborts([&] { TargetObservation o(TargetBase::Ptr(), 30, 40, v, corners); }), "construct", "an observation without target was accepted");
  TargetObservation o(t, 30, 40, v, corners);
  const TargetObservation& co = o;
  c.check(o.getTarget() == t && co.getTarget() == t && o.getImageWidth() == 40 && o.getImageHeight() == 30, "members", "target or image size");
  c.check(o.numObservedCorners() == (size_t)n && o.allCornersObservered() == (n == size), "count", "%zu corners, all: %d", o.numObservedCorners(), o.allCornersObservered());
  c.check(o.getObservedCorners() == corners && o.getObservedCornerIds() == v, "members", "corners");
  for (int i = 0; i < n; ++i) {
    c.check(o.getObservedCorner(i) == corners.col(i), "corner", "corner %d", i);
    c.check(o.getObservedCornerId(i) == (size_t)ids[i], "corner-id", "identifier %zu of corner %d", o.getObservedCornerId(i), i);
  }
  for (int id = 0; id < size; ++id) {
    int at = -1;
    for (int i = 0; i < n; ++i) if (ids[i] == id) at = i;
    c.check(o.observedCornerId(id) == (at >= 0), "observed", "corner %d is %s", id, at >= 0 ? "not found" : "found");
    Eigen::Vector2d p(-7, -7);
    bool found = false;
    const bool refused = c.aborts([&] { found = o.getObservedCornerById(id, &p); });
    c.check(!refused, "by-id-refused", "asking for corner %d of a target of %d was refused, with %d corners observed", id, size, n);
    c.check(found == (at >= 0), "by-id", "corner %d is %s", id, found ? "found" : "not found");
    c.check(p == (at >= 0 ? Eigen::Vector2d(corners.col(at)) : Eigen::Vector2d(-7, -7)), "by-id", "corner %d is at (%g, %g)", id, p[0], p[1]);
  }
  Eigen::Vector2d p;
  for (size_t i : {(size_t)n, (size_t)n + 1, (size_t)1 << 31, (size_t)1 << 32, ~(size_t)0})
    c.check(c.aborts([&] { o.getObservedCorner(i); }), "refuse", "corner %zu of %d", i, n);
  for (int i : {n, n + 1, -1, INT_MIN, INT_MAX}) c.check(c.aborts([&] { o.getObservedCornerId(i); }), "refuse", "identifier of corner %d of %d", i, n);
  for (size_t i : {(size_t)size, (size_t)size + 1, (size_t)1 << 32, ~(size_t)0}) c.check(c.aborts([&] { o.observedCornerId(i); }), "refuse", "observedCornerId(%zu)", i);
  for (int i : {size, size + 1, INT_MAX}) c.check(c.aborts([&] { o.getObservedCornerById(i, &p); }), "refuse", "getObservedCornerById(%d)", i);
  const Eigen::Matrix3Xd points = o.getCorrespondingTargetPoints();
  c.check(points.cols() == n, "points", "%d target points", (int)points.cols());
  for (int i = 0; i < n; ++i) c.check(points.col(i) == t->point(ids[i]), "points", "target point of corner %d", i);
  cv::Mat image = cv::Mat::zeros(30, 40, CV_8UC3);
  o.drawCornersIntoImage(&image);
  for (int i = 0; i < n; ++i) if (corners(0, i) < 40 && corners(1, i) >= 0)
    c.check(image.at<cv::Vec3b>(corners(1, i), corners(0, i))[2] == 255, "draw", "corner %d was not drawn", i);
  if (n == 0) c.check(cv::countNonZero(image.reshape(1)) == 0, "draw", "an image without corners was drawn on");
  // a corner of no point of the target
  if (n > 0) for (int bad : {size, -1, INT_MAX}) {
    v[n - 1] = bad;
    c.check(c.aborts([&] { TargetObservation x(t, 30, 40, v, corners); x.getCorrespondingTargetPoints(); }), "refuse", "corner %d of a target of %d points has a target point", bad, size);
  }
}

// ------------------------------------------------------------------------------------------- detections
constexpr int kW = 120, kH = 90;
// Corner k of the i-th detection; the quality moves one corner across a limit.
// qualities: 0 good, 1 marked bad, then for each border: exactly at the limit (kept), just beyond it (removed)
constexpr int kQualities = 2 + 8;
AprilTags::TagDetection detection(int i, int id, int quality, double border) {
  AprilTags::TagDetection d;
  d.id = id;
  d.good = quality != 1;
  for (int k = 0; k < 4; ++k) d.p[k] = {20.25f + 25 * i + 10 * (k == 1 || k == 2), 30.5f + 3 * i + 10 * (k >= 2)};
  if (quality >= 2) {
    const int side = (quality - 2) / 2;
    const float over = (quality - 2) % 2 ? 0.25f : 0;
    std::pair<float, float>& p = d.p[(side + i) % 4];
    if (side == 0) p.first = border - over;
    if (side == 1) p.first = kW - border + over;
    if (side == 2) p.second = border - over;
    if (side == 3) p.second = kH - border + over;
  }
  return d;
}
bool kept_quality(int q) { return q == 0 || (q >= 2 && (q - 2) % 2 == 0); }
// Index in the grid of corner k (counter-clockwise from the lower left) of a tag.
int point_of(int id, int k, int tag_cols) {
  const int row = 2 * (id / tag_cols) + (k >= 2), col = 2 * (id % tag_cols) + (k == 1 || k == 2);
  return row * 2 * tag_cols + col;
}
void compare(Ctx& c, const TargetBase::Ptr& t, const TargetObservation::Ptr& o, const std::map<int, Eigen::Vector2d>& want, double tol) {
  c.check(o->getTarget() == t && o->getImageWidth() == kW && o->getImageHeight() == kH, "members", "target or image size of the observation");
  c.check(o->numObservedCorners() == want.size() && (size_t)o->getObservedCorners().cols() == want.size(), "corners", "%zu corners instead of %zu", o->numObservedCorners(), want.size());
  int last = -1;
  for (size_t i = 0; i < want.size(); ++i) {
    const int id = o->getObservedCornerId(i);
    auto w = want.find(id);
    c.check(w != want.end(), "corner-id", "corner %d was not seen", id);
    const Eigen::Vector2d p = o->getObservedCorner(i);
    c.check((p - w->second).norm() <= tol, "corner", "corner %d is at (%g, %g) instead of (%g, %g)", id, p[0], p[1], w->second[0], w->second[1]);
    last = id;
  }
  (void)last;
  for (size_t id = 0; id < t->size(); ++id)
    c.check(o->observedCornerId(id) == (want.count(id) > 0), "corner-id", "corner %zu %s", id, want.count(id) ? "is missing" : "appeared");
}
void detect(Ctx& c) {
  const int shapes[][2] = {{1, 1}, {1, 2}, {2, 1}, {2, 2}, {2, 3}};
  const int s = c.choose(5, "target");
  const int tr = shapes[s][0], tc = shapes[s][1], tags = tr * tc;
  TargetAprilGrid::Ptr t(new TargetAprilGrid(config(tr, tc)));
  DC dc;
  dc.run_subpixel_refinement = false;
  dc.min_visible_tags_for_valid_obs = c.pick({1, 2, 3}, "minimum");
  dc.min_border_distance_px = c.pick({4.0, 0.0}, "border");
  DetectorAprilGrid d(t, dc);
  const int n = c.range(0, 3, "detections");
  std::vector<AprilTags::TagDetection>& seen = AprilTags::TagDetector::next();
  seen.clear();
  std::map<int, int> times;
  std::map<int, Eigen::Vector2d> want;
  int kept = 0;
  const int odd = n ? c.choose(n, "odd") : -1;  // the detection of any quality; with the others good unless thorough
  for (int i = 0; i < n; ++i) {
    const int id = c.choose(tags + 2, "id");
    const int q = i == odd || (c.thorough && n < 3) ? c.choose(kQualities, "quality") : 0;
    seen.push_back(detection(i, id == tags + 1 ? 1000 : id, q, dc.min_border_distance_px));
    if (id >= tags || !kept_quality(q)) continue;
    ++kept;
    ++times[id];
    for (int k = 0; k < 4; ++k) want[point_of(id, k, tc)] = Eigen::Vector2d(seen.back().p[k].first, seen.back().p[k].second);
  }
  bool twice = false;
  for (auto& x : times) twice |= x.second > 1;
  const cv::Mat image(kH, kW, CV_8UC1, cv::Scalar(128));
  TargetObservation::Ptr o = d.detectTargetInImage(image);
  const bool valid = kept >= (int)dc.min_visible_tags_for_valid_obs && !twice;
  c.check(!!o == valid, "valid", "%d valid tags of at least %zu%s gave %s observation", kept, dc.min_visible_tags_for_valid_obs, twice ? ", one seen twice," : "", o ? "an" : "no");
  if (o) compare(c, t, o, want, 0);
}
// All sets of tags of a 2x3 and a 3x2 target, in two orders.
void sets(Ctx& c) {
  const bool wide = c.flag("wide");
  const int tr = wide ? 2 : 3, tc = wide ? 3 : 2;
  TargetAprilGrid::Ptr t(new TargetAprilGrid(config(tr, tc)));
  const int subset = c.choose(64, "tags");
  const bool reverse = c.flag("reverse");
  DC dc;
  dc.run_subpixel_refinement = c.flag("refine");
  dc.min_visible_tags_for_valid_obs = 1;
  std::vector<AprilTags::TagDetection>& seen = AprilTags::TagDetector::next();
  seen.clear();
  std::map<int, Eigen::Vector2d> want;
  for (int i = 0; i < 6; ++i) {
    const int id = reverse ? 5 - i : i;
    if (!(subset >> id & 1)) continue;
    AprilTags::TagDetection d = detection(i % 3, id, 0, 4);
    for (int k = 0; k < 4; ++k) {
      d.p[k].second += i / 3 * 20;
      want[point_of(id, k, tc)] = Eigen::Vector2d(d.p[k].first, d.p[k].second);
    }
    seen.push_back(d);
  }
  DetectorAprilGrid d(t, dc);
  TargetObservation::Ptr o = d.detectTargetInImage(cv::Mat(kH, kW, CV_8UC1, cv::Scalar(128)));
  c.check(!!o == (subset != 0), "valid", "%s observation of tags %#x", o ? "an" : "no", subset);
  if (!o) return;
  compare(c, t, o, want, 1e-3);  // nothing to refine in a uniform image
  c.check(o->allCornersObservered() == (subset == 63), "count", "all corners: %d", o->allCornersObservered());
  const Eigen::Matrix3Xd points = o->getCorrespondingTargetPoints();
  for (size_t i = 0; i < want.size(); ++i) c.check(points.col(i) == t->point(o->getObservedCornerId(i)), "points", "target point of corner %zu", i);
}
// Corners that the refinement moves: kept at the refined place, or dropped if they move too far.
void refine(Ctx& c) {
  TargetAprilGrid::Ptr t(new TargetAprilGrid(config(1, 2)));
  DC dc;
  dc.min_visible_tags_for_valid_obs = 1;
  dc.run_subpixel_refinement = c.flag("refine");
  dc.max_subpixel_refine_displacement_px_sq = c.pick({1.5, 0.5}, "limit");
  const int tag = c.choose(2, "tag");
  cv::Mat image(kH, kW, CV_8UC1, cv::Scalar(128));
  const double off[][2] = {{0, 0}, {0.5, 0.25}, {-0.75, 0.5}, {1.25, 1.0}};
  std::vector<AprilTags::TagDetection>& seen = AprilTags::TagDetector::next();
  seen.clear();
  AprilTags::TagDetection d;
  d.id = tag;
  d.good = true;
  std::map<int, Eigen::Vector2d> want;
  for (int k = 0; k < 4; ++k) {
    const int x = 30 + 30 * (k == 1 || k == 2), y = 30 + 30 * (k >= 2);
    // a corner between the pixels (x - 1, y - 1) and (x, y)
    cv::rectangle(image, cv::Rect(x - 8, y - 8, 8, 8), cv::Scalar(0), -1);
    cv::rectangle(image, cv::Rect(x, y, 8, 8), cv::Scalar(0), -1);
    cv::rectangle(image, cv::Rect(x, y - 8, 8, 8), cv::Scalar(255), -1);
    cv::rectangle(image, cv::Rect(x - 8, y, 8, 8), cv::Scalar(255), -1);
    const int w = c.choose(4, "offset");
    const Eigen::Vector2d real(x - 0.5, y - 0.5), raw = real + Eigen::Vector2d(off[w][0], off[w][1]);
    d.p[k] = {(float)raw[0], (float)raw[1]};
    if (!dc.run_subpixel_refinement) want[point_of(tag, k, 2)] = raw;
    else if ((raw - real).squaredNorm() < dc.max_subpixel_refine_displacement_px_sq) want[point_of(tag, k, 2)] = real;
  }
  seen.push_back(d);
  DetectorAprilGrid det(t, dc);
  const cv::Mat before = image.clone();
  TargetObservation::Ptr o = det.detectTargetInImage(image);
  c.check(!!o, "valid", "no observation");
  compare(c, t, o, want, dc.run_subpixel_refinement ? 0.15 : 1e-5);
  c.check(cv::countNonZero(before != image) == 0, "image", "the image was changed");
}

// ------------------------------------------------------------------------------------------- configuration
// What a variable that is not initialized will contain.
__attribute__((noinline)) void dirty_stack(double x) {
  volatile double v[3000];
  for (int i = 0; i < 3000; ++i) v[i] = x;
}
void yaml(Ctx& c) {
  const char* types[] = {"target_type: aprilgrid\n", "", "target_type: checkerboard\n", "target_type: ''\n"};
  const char* cols[] = {"tagCols: 3\n", "tagCols: 0\n", ""};
  const char* rows[] = {"tagRows: 4\n", "tagRows: 0\n", ""};
  const char* sizes[] = {"tagSize: 0.2\n", "tagSize: 0\n", "tagSize: -1\n", ""};
  const char* spaces[] = {"tagSpacing: 0.3\n", "tagSpacing: 0\n", "tagSpacing: -0.3\n", "", "tagSpacing: wide\n"};
  const int a = c.choose(4, "type"), b = c.choose(3, "cols"), r = c.choose(3, "rows"), s = c.choose(4, "size"), p = c.choose(5, "spacing");
  const int order = c.choose(2, "order");
  const std::string file = seqx::fmt("s19-%d.yaml", (int)getpid());
  {
    std::ofstream f(file);
    if (order) f << spaces[p] << sizes[s] << rows[r] << cols[b] << types[a];
    else f << types[a] << cols[b] << rows[r] << sizes[s] << spaces[p];
  }
  TC t;
  const bool refused = c.aborts([&] { dirty_stack(1.5); t = TC::fromYaml(file); });
  unlink(file.c_str());
  const bool bad = a != 0 || b == 1 || r == 1 || s == 1 || s == 2 || p == 1 || p == 2;
  c.check(!bad || refused, "accepted", "a configuration that is no valid target was accepted");
  const bool good = a == 0 && b == 0 && r == 0 && s == 0 && p == 0;
  c.check(!good || !refused, "refused", "a valid configuration was refused");
  if (refused) return;
  const TC def;
  c.check(t.num_tag_cols == (b == 0 ? 3 : def.num_tag_cols), "cols", "%zu columns", t.num_tag_cols);
  c.check(t.num_tag_rows == (r == 0 ? 4 : def.num_tag_rows), "rows", "%zu rows", t.num_tag_rows);
  const double size = s == 0 ? 0.2 : def.tag_size_meter;
  c.check(t.tag_size_meter == size, "tag-size", "tag size %g", t.tag_size_meter);
  c.check(p == 0 ? near(t.tag_inbetween_space_meter, 0.3 * size, 1e-12) : t.tag_inbetween_space_meter == def.tag_inbetween_space_meter, "spacing", "space %g between tags of %g with '%s'", t.tag_inbetween_space_meter, size, spaces[p]);
}
void files(Ctx& c) {
  const char* texts[] = {nullptr, "", "[", "aprilgrid", "- 1\n- 2\n", "target_type: [aprilgrid]\n", "{target_type: aprilgrid, tagCols: [1], tagRows: 2, tagSize: 1, tagSpacing: -1}"};
  const char* text = texts[c.choose(7, "text")];
  const std::string file = seqx::fmt("s19-%d.yaml", (int)getpid());
  if (text) std::ofstream(file) << text;
  c.check(c.aborts([&] { TC::fromYaml(file); }), "accepted", "'%s' was accepted", text ? text : "(no file)");
  unlink(file.c_str());
}

// ------------------------------------------------------------------------------------------- circles
void circles(Ctx& c) {
  const int R = c.thorough ? 5 : 3;
  const double off = c.pick({0.0, 0.1, 1e3}, "offset"), scale = c.pick({1.0, 0.1, 1. / 3}, "scale");
  const int dx = c.range(-R, R, "dx"), dy = c.range(-R, R, "dy"), r1 = c.range(1, R + 2, "r1"), r2 = c.range(1, R + 2, "r2");
  const double x1 = off, y1 = -2 * off, x2 = off + dx * scale, y2 = -2 * off + dy * scale;
  std::vector<cv::Point2d> p(1, cv::Point2d(7, 7));
  InitializerHelpers::intersectCircles(x1, y1, r1 * scale, x2, y2, r2 * scale, &p);
  c.check(!p.empty() && p[0] == cv::Point2d(7, 7), "append", "a point that was in the list is gone");
  p.erase(p.begin());
  const int d2 = dx * dx + dy * dy, sum = (r1 + r2) * (r1 + r2), diff = (r1 - r2) * (r1 - r2);
  for (auto& q : p) {
    const double e1 = std::hypot(q.x - x1, q.y - y1) - r1 * scale, e2 = std::hypot(q.x - x2, q.y - y2) - r2 * scale;
    const double tol = d2 == sum || d2 == diff ? 1e-5 : 1e-9;
    c.check(std::abs(e1) < tol && std::abs(e2) < tol, "point", "circles %g around (%g, %g) and %g around (%g, %g): point (%g, %g)", r1 * scale, x1, y1, r2 * scale, x2, y2, q.x, q.y);
  }
  if (d2 == 0 || d2 > sum || d2 < diff) c.check(p.empty(), "count", "circles %d and %d, %d, %d apart, meet in %zu points", r1, r2, dx, dy, p.size());
  else if (d2 < sum && d2 > diff) {
    c.check(p.size() == 2, "count", "circles %d and %d, %d, %d apart, meet in %zu points", r1, r2, dx, dy, p.size());
    c.check(cv::norm(p[0] - p[1]) > 1e-3 * scale, "distinct", "one intersection was found twice");
  }
}
void fit(Ctx& c) {
  // the integer points on a circle of radius 5 (65: 36 points)
  static const int P[12][2] = {{5, 0}, {4, 3}, {3, 4}, {0, 5}, {-3, 4}, {-4, 3}, {-5, 0}, {-4, -3}, {-3, -4}, {0, -5}, {3, -4}, {4, -3}};
  const int subset = c.choose(4096, "points");
  if (__builtin_popcount(subset) < 3) throw seqx::Pruned();
  const double cx = c.pick({0.0, 320.0, -3.5}, "cx"), cy = c.pick({0.0, 240.25}, "cy"), scale = c.pick({1.0, 40.0}, "scale");
  std::vector<cv::Point2d> v;
  for (int i = 0; i < 12; ++i) if (subset >> i & 1) v.emplace_back(cx + scale * P[i][0], cy + scale * P[i][1]);
  if (c.flag("reverse")) std::reverse(v.begin(), v.end());
  double x, y, r;
  InitializerHelpers::fitCircle(v, &x, &y, &r);
  c.check(near(x, cx, 1e-4 * scale) && near(y, cy, 1e-4 * scale) && near(r, 5 * scale, 1e-4 * scale), "circle", "circle %g around (%g, %g) instead of %g around (%g, %g)", r, x, y, 5 * scale, cx, cy);
}

// ------------------------------------------------------------------------------------------- focal lengths
const double kPoses[][5] = {  // rotation about x, y, z; shift of the center of the target
    {0.6, 0.5, 0.1, 0, 0}, {-0.5, 0.4, -0.3, 0.1, 0.05}, {0.4, -0.7, 1.0, -0.1, 0.1}, {0.3, 0.35, -0.2, 0.05, -0.1}};
Eigen::Matrix3Xd in_camera(const TargetBase& t, int pose, double distance) {
  const double* p = kPoses[pose];
  const Eigen::Matrix3d R = (Eigen::AngleAxisd(p[2], Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(p[1], Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(p[0], Eigen::Vector3d::UnitX())).toRotationMatrix();
  Eigen::Matrix3Xd x = t.points();
  x.row(0).array() -= t.width() / 2;
  x.row(1).array() -= t.height() / 2;
  x = (R * x).eval();
  x.colwise() += Eigen::Vector3d(p[3], p[4], distance);
  return x;
}
TargetObservation::Ptr observe(const TargetBase::Ptr& t, const Eigen::Matrix2Xd& image, int w, int h, int missing, bool shuffled) {
  const int n = t->size();
  Eigen::VectorXi ids(n);
  Eigen::Matrix2Xd k(2, n);
  int m = 0;
  for (int i = 0; i < n; ++i) {
    const int id = shuffled ? (i * 7 + 3) % n : i;
    if (missing == 1 && id == n / 2) continue;
    if (missing == 2 && id >= 3) continue;
    ids[m] = id;
    k.col(m++) = image.col(id);
  }
  ids.conservativeResize(m);
  k.conservativeResize(2, m);
  return TargetObservation::Ptr(new TargetObservation(t, h, w, ids, k));
}
// Views: 0-2 (3) complete, 3-4 with corners missing.
void conic(Ctx& c) {
  TargetBase::Ptr t(new TargetAprilGrid(config(2, 3, 0.1, 0.03)));
  const double fu = c.pick({200.0, 450.0, 800.0}, "fu"), fv = fu * c.pick({1.0, 1.1}, "aspect");
  const int w = c.pick({640, 752}, "width"), h = 480;
  const bool shuffled = c.flag("shuffled");
  auto view = [&](int i) {
    const int pose = i < 3 ? i : i - 3;
    const Eigen::Matrix3Xd x = in_camera(*t, pose, 0.6);
    Eigen::Matrix2Xd k(2, x.cols());
    k.row(0) = fu * x.row(0).cwiseQuotient(x.row(2)).array() + (w - 1) / 2.;
    k.row(1) = fv * x.row(1).cwiseQuotient(x.row(2)).array() + (h - 1) / 2.;
    return observe(t, k, w, h, i < 3 ? 0 : i - 2, shuffled);
  };
  const int n = c.range(0, 3, "views");
  std::vector<TargetObservation::Ptr> all;
  int complete = 0;
  for (int i = 0; i < n; ++i) {
    const int v = c.choose(5, "view");
    complete += v < 3;
    all.push_back(view(v));
  }
  Eigen::VectorXd k = Eigen::VectorXd::Constant(1, -3);
  bool ok = false;
  const bool refused = c.aborts([&] { ok = initFocalLengthAbsoluteConic(all, &k); });
  c.check(refused == (n == 0), "refuse", "%d views were %s", n, refused ? "refused" : "accepted");
  if (refused) return;
  c.check(ok == (complete > 0), "result", "%d complete views of %d: %s", complete, n, ok ? "success" : "failure");
  if (!ok) return;
  c.check(k.size() == 4 && near(k[2], (w - 1) / 2., 1e-9) && near(k[3], (h - 1) / 2., 1e-9), "center", "principal point");
  c.check(near(k[0], fu, 0.01 * fu) && near(k[1], fv, 0.01 * fv), "focal-length", "focal lengths %g, %g instead of %g, %g from %d complete views of %d", k[0], k[1], fu, fv, complete, n);
}
void vanishing(Ctx& c) {
  TargetBase::Ptr t(new TargetAprilGrid(config(3, 3, 0.1, 0.03)));
  const double f = c.pick({150.0, 250.0, 400.0}, "f");
  const int w = c.pick({640, 752}, "width"), h = 480;
  const bool shuffled = c.flag("shuffled");
  auto view = [&](int i) {
    Eigen::Matrix3Xd x = in_camera(*t, i < 3 ? i : i - 3, 0.35);
    if (i == 5) {  // a row through the center of the image, and its neighbours on both sides
      x = t->points();
      x.row(0).array() -= t->width() / 2;
      x.row(1).array() -= t->points()(1, 2 * t->cols());
      x.row(2).setConstant(0.2);
    }
    Eigen::Matrix2Xd k(2, x.cols());
    for (int j = 0; j < x.cols(); ++j) {
      const double r = std::hypot(x(0, j), x(1, j)), th = std::atan2(r, x(2, j));
      const double s = r > 0 ? f * th / r : 0;
      k.col(j) = Eigen::Vector2d((w - 1) / 2. + s * x(0, j), (h - 1) / 2. + s * x(1, j));
    }
    return observe(t, k, w, h, i == 3 ? 1 : i == 4 ? 2 : 0, shuffled);
  };
  const int n = c.range(0, 3, "views");
  std::vector<TargetObservation::Ptr> all;
  int complete = 0;
  for (int i = 0; i < n; ++i) {
    const int v = c.choose(6, "view");
    complete += v < 3 || v == 5;
    all.push_back(view(v));
  }
  Eigen::VectorXd k = Eigen::VectorXd::Constant(1, -3);
  bool ok = false;
  const bool refused = c.aborts([&] { ok = initFocalLengthVanishingPoints(all, &k); });
  c.check(refused == (n == 0), "refuse", "%d views were %s", n, refused ? "refused" : "accepted");
  if (refused) return;
  c.check(complete > 0 || !ok, "result", "%d complete views of %d: %s", complete, n, ok ? "success" : "failure");
  c.check(complete == 0 || ok, "result", "%d complete views of %d: %s", complete, n, ok ? "success" : "failure");
  if (!ok) return;
  c.check(k.size() == 4 && near(k[2], (w - 1) / 2., 1e-9) && near(k[3], (h - 1) / 2., 1e-9), "center", "principal point");
  c.check(k[0] == k[1] && near(k[0], f, 0.35 * f), "focal-length", "focal length %g, %g instead of %g from %d complete views of %d", k[0], k[1], f, complete, n);
}
}  // namespace

int main(int argc, char** argv) {
  std::vector<seqx::Scenario> v;
  v.push_back({"geometry", "april grids of up to 4x4 tags, every point moved", geometry, 3});
  v.push_back({"plain", "targets of every size up to 3x3 with 0-10 points", plain});
  v.push_back({"observation", "every list of up to 4 (5) corners of targets of 4 and 8 points", observation, 2});
  v.push_back({"detect", "every list of up to 3 detections on 5 targets", detect, 5});
  v.push_back({"sets", "every set of tags of targets of 2x3 and 3x2 tags", sets, 2});
  v.push_back({"refine", "corners that are refined by 4 displacements", refine, 2});
  v.push_back({"yaml", "every mix of good, bad and missing parameters", yaml, 4});
  v.push_back({"files", "files that are no target", files});
  v.push_back({"circles", "intersections of circles on a lattice", circles, 3});
  v.push_back({"fit", "every set of at least 3 of 12 points of a circle", fit, 4});
  v.push_back({"conic", "focal lengths from up to 3 views, complete and not", conic, 3});
  v.push_back({"vanishing", "focal length of a fisheye from up to 3 views, complete and not", vanishing, 3});
  return seqx::run_main(argc, argv, "S19", v);
}
