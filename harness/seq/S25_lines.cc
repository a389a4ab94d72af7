// Line segments: straight edges of sufficient length and contrast are found where they are, nothing else is.
#define SEQX_MAIN
#include "seqx.h"

#include <algorithm>
#include <cmath>
#include <memory>
#include <vector>

#include <opencv2/core/core.hpp>
#include <opencv2/imgproc/imgproc.hpp>

#include <aslam/detectors/line-segment-detector.h>
#include <lsd/lsd-opencv.h>

using seqx::Ctx;
using namespace aslam;
namespace {
struct Edge { double x0, y0, x1, y1; };  // dark on the right hand when going from 0 to 1 (y down), if it matters
double toLine(double x, double y, const Edge& e) {
  const double dx = e.x1 - e.x0, dy = e.y1 - e.y0, l2 = dx * dx + dy * dy;
  double t = l2 == 0 ? 0 : ((x - e.x0) * dx + (y - e.y0) * dy) / l2;
  t = std::min(1., std::max(0., t));
  return std::hypot(e.x0 + t * dx - x, e.y0 + t * dy - y);
}
double length(const Edge& e) { return std::hypot(e.x1 - e.x0, e.y1 - e.y0); }
double length(const Line& l) { return (l.end_point - l.start_point).norm(); }
LineSegmentDetector::Options options(size_t minimum) {
  LineSegmentDetector::Options o;
  o.min_segment_length_px = minimum;
  return o;
}
bool sameLines(const Lines& a, const Lines& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (a[i].start_point != b[i].start_point || a[i].end_point != b[i].end_point) return false;
  return true;
}
Lines detect(Ctx& c, LineSegmentDetector* d, const cv::Mat& image, size_t minimum) {
  const cv::Mat before = image.clone();
  Lines lines;
  lines.emplace_back(1., 2., 3., 4.);  // must not stay
  d->detect(image, &lines);
  c.check(cv::countNonZero(before != image) == 0, "unchanged", "the image was changed");
  for (const Line& l : lines) {
    c.check(length(l) >= minimum - 1e-3, "length", "a line of %g pixels with a minimum of %zu", length(l), minimum);
    for (const auto* p : {&l.start_point, &l.end_point})
      c.check((*p)(0) >= -1 && (*p)(1) >= -1 && (*p)(0) <= image.cols && (*p)(1) <= image.rows, "in the image", "a line ends at (%g, %g)", (*p)(0), (*p)(1));
  }
  return lines;
}
// Every line lies along one of the edges; every edge longer than needed is covered by lines along it.
void compare(Ctx& c, const Lines& lines, const std::vector<Edge>& edges, double off, double needed, double covered) {
  for (const Line& l : lines) {
    bool ok = false;
    for (const Edge& e : edges) {
      bool here = true;
      for (int s = 0; s <= 4; ++s) {
        const Eigen::Vector2d p = l.start_point + (l.end_point - l.start_point) * s / 4.;
        here = here && toLine(p(0), p(1), e) <= off;
      }
      ok = ok || here;
    }
    c.check(ok, "along an edge", "line (%g, %g)-(%g, %g) is not along an edge", l.start_point(0), l.start_point(1), l.end_point(0), l.end_point(1));
  }
  for (const Edge& e : edges) {
    if (length(e) < needed) continue;
    const int n = 40;
    int seen = 0;
    for (int s = 0; s <= n; ++s) {
      const double x = e.x0 + (e.x1 - e.x0) * s / n, y = e.y0 + (e.y1 - e.y0) * s / n;
      bool here = false;
      for (const Line& l : lines) {
        const Edge le{l.start_point(0), l.start_point(1), l.end_point(0), l.end_point(1)};
        const double cross = std::abs((le.x1 - le.x0) * (e.y1 - e.y0) - (le.y1 - le.y0) * (e.x1 - e.x0)) / length(le) / length(e);
        here = here || (cross < .2 && toLine(x, y, le) <= off);
      }
      seen += here;
    }
    c.check(seen >= covered * (n + 1), "found", "the edge (%g, %g)-(%g, %g) is covered to %d of %d by %zu lines", e.x0, e.y0, e.x1, e.y1, seen, n + 1, lines.size());
  }
}
// Share of the pixel on the side n*p > d, with 8x8 samples.
double share(double x, double y, double nx, double ny, double d) {
  int in = 0;
  for (int i = 0; i < 8; ++i) for (int j = 0; j < 8; ++j) in += nx * (x - .5 + (i + .5) / 8) + ny * (y - .5 + (j + .5) / 8) > d;
  return in / 64.;
}
void halfplane(Ctx& c) {
  const int w = c.pick({48, 64, 50}, "width"), h = c.pick({48, 64, 40}, "height");
  const int step = c.thorough ? 5 : 15;
  const double angle = step * c.choose(360 / step, "angle") * M_PI / 180;
  const double offset = c.pick({0., 7.3, -11.}, "offset");
  const int dark = c.pick({0, 100}, "dark"), contrast = c.pick({155, 60, 30}, "contrast");
  const double nx = std::cos(angle), ny = std::sin(angle), d = nx * (w / 2.) + ny * (h / 2.) + offset;
  cv::Mat image(h, w, CV_8UC1);
  for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) image.at<unsigned char>(y, x) = cv::saturate_cast<unsigned char>(dark + contrast * share(x, y, nx, ny, d));
  // the edge within the image: points d*n + t*(-ny, nx)
  double lo = 1e9, hi = -1e9;
  for (double t = -200; t <= 200; t += .25) {
    const double x = nx * d - t * ny, y = ny * d + t * nx;
    if (x >= 0 && y >= 0 && x <= w - 1 && y <= h - 1) { lo = std::min(lo, t); hi = std::max(hi, t); }
  }
  std::vector<Edge> edges;
  if (hi > lo) edges.push_back({nx * d - lo * ny, ny * d + lo * nx, nx * d - hi * ny, ny * d + hi * nx});
  const size_t minimum = c.pick({20, 5}, "minimum");
  LineSegmentDetector detector(options(minimum));
  const Lines lines = detect(c, &detector, image, minimum);
  compare(c, lines, edges, 2.5, minimum + 12, .7);
  for (const Line& l : lines) {  // (nx, ny) points to the bright side
    const Eigen::Vector2d v = l.end_point - l.start_point;
    c.check(-v(0) * ny + v(1) * nx > 0, "orientation", "a line at %g degrees goes by (%g, %g), with the bright side on the other hand than all others", angle * 180 / M_PI, v(0), v(1));
  }
}
void rectangles(Ctx& c) {
  const int size = 72;
  const int x0 = c.pick({8, 9, 20}, "x"), y0 = c.pick({8, 13, 16}, "y");
  const int w = c.pick({6, 10, 14, 24, 34, 35, 48}, "width"), h = c.pick({6, 12, 24, 36, 47}, "height");
  const int inside = c.pick({255, 0, 190}, "inside"), outside = c.pick({0, 128, 255}, "outside");
  const size_t minimum = c.pick({20, 8, 33}, "minimum");
  cv::Mat image(size, size, CV_8UC1, cv::Scalar(outside));
  image(cv::Rect(x0, y0, w, h)).setTo(inside);
  const double l = x0 - .5, r = x0 + w - .5, t = y0 - .5, b = y0 + h - .5;
  std::vector<Edge> edges;
  if (inside != outside) edges = {{l, t, r, t}, {l, b, r, b}, {l, t, l, b}, {r, t, r, b}};
  LineSegmentDetector detector(options(minimum));
  const Lines lines = detect(c, &detector, image, minimum);
  if (inside == outside) { c.check(lines.empty(), "blank", "%zu lines in a blank image", lines.size()); return; }
  compare(c, lines, std::min(w, h) < 12 ? edges : edges, std::min(w, h) < 12 ? 5. : 2.5, minimum + 8, std::min(w, h) < 12 ? 0 : .7);
  for (const Line& line : lines) {
    const Eigen::Vector2d v = (line.end_point - line.start_point).cwiseAbs();
    c.check(std::min(v(0), v(1)) <= 3, "direction", "a line of a rectangle goes by (%g, %g)", v(0), v(1));
    c.check(length(line) <= std::max(w, h) + 6, "length", "a line of %g pixels on a rectangle of %dx%d", length(line), w, h);
  }
}
void patterns(Ctx& c) {
  const int cell = c.pick({16, 24}, "cell");
  bool on[3][3];
  for (auto& row : on) for (bool& x : row) x = c.flag("bright");
  const int bright = c.pick({255, 140}, "level");
  cv::Mat image(3 * cell, 3 * cell, CV_8UC1, cv::Scalar(40));
  for (int y = 0; y < 3; ++y) for (int x = 0; x < 3; ++x) if (on[y][x]) image(cv::Rect(x * cell, y * cell, cell, cell)).setTo(bright);
  const size_t minimum = 10;
  // borders between cells that differ, joined while the bright side stays the same
  std::vector<Edge> edges;
  for (int k = 1; k < 3; ++k) for (int vertical = 0; vertical < 2; ++vertical) for (int i = 0; i < 3;) {
    auto side = [&](int j) { return vertical ? on[j][k] - on[j][k - 1] : on[k][j] - on[k - 1][j]; };
    int j = i;
    while (j < 3 && side(j) == side(i)) ++j;
    if (side(i) != 0) {
      const double at = k * cell - .5, from = i * cell - .5, to = j * cell - .5;
      edges.push_back(vertical ? Edge{at, from, at, to} : Edge{from, at, to, at});
    }
    i = j;
  }
  LineSegmentDetector detector(options(minimum));
  const Lines lines = detect(c, &detector, image, minimum);
  compare(c, lines, edges, 4, minimum + 4, .6);
  // the same part of a larger image gives the same
  cv::Mat larger(image.rows + 9, image.cols + 5, CV_8UC1, cv::Scalar(7));
  image.copyTo(larger(cv::Rect(2, 6, image.cols, image.rows)));
  c.check(sameLines(lines, detect(c, &detector, larger(cv::Rect(2, 6, image.cols, image.rows)), minimum)), "part", "the same pixels as a part of an image give other lines");
}
// The detector below with other parameters: 2x2 cells, all refinements and scales.
void modes(Ctx& c) {
  const int cell = c.pick({24, 31}, "cell");
  bool on[2][2];
  for (auto& row : on) for (bool& x : row) x = c.flag("bright");
  const int refine = c.choose(3, "refinement");
  const double scale = c.pick({1., .8, .5}, "scale"), angle = c.pick({22.5, 10., 45.}, "angle tolerance");
  const int depth = c.pick({CV_8UC1, CV_16UC1, CV_32FC1, CV_64FC1}, "depth");
  cv::Mat image(2 * cell, 2 * cell + 3, CV_8UC1, cv::Scalar(30));
  for (int y = 0; y < 2; ++y) for (int x = 0; x < 2; ++x) if (on[y][x]) image(cv::Rect(x * cell, y * cell, cell, cell)).setTo(220);
  std::vector<Edge> edges;
  const double far = 2 * cell - .5, mid = cell - .5;
  if (on[0][0] != on[0][1]) edges.push_back({mid, -.5, mid, mid});
  if (on[1][0] != on[1][1]) edges.push_back({mid, mid, mid, far});
  if (on[0][0] != on[1][0]) edges.push_back({-.5, mid, mid, mid});
  if (on[0][1] != on[1][1]) edges.push_back({mid, mid, far, mid});
  if (on[0][1]) edges.push_back({far, -.5, far, mid});
  if (on[1][1]) edges.push_back({far, mid, far, far});
  // edges that go on with the bright side on the same hand may be one line
  std::vector<Edge> all = edges;
  if (on[0][1] && on[1][1]) all.push_back({far, -.5, far, far});
  if (on[0][0] != on[0][1] && on[0][0] == on[1][0] && on[0][1] == on[1][1]) all.push_back({mid, -.5, mid, far});
  if (on[0][0] != on[1][0] && on[0][0] == on[0][1] && on[1][0] == on[1][1]) all.push_back({-.5, mid, far, mid});
  cv::Mat converted;
  image.convertTo(converted, depth);
  const cv::Mat before = converted.clone();
  auto d = aslamcv::createLineSegmentDetectorPtr(refine, scale, .6, 2., angle);
  std::vector<cv::Vec4i> raw = {{1, 1, 1, 1}}, again;
  std::vector<double> widths = {7}, precisions = {7}, alarms = {7};
  d->detect(converted, again);
  if (refine < aslamcv::LSD_REFINE_ADV) {
    bool thrown = false;
    try { d->detect(converted, raw, widths, precisions, alarms); } catch (const cv::Exception&) { thrown = true; }
    c.check(thrown, "refused", "false alarms without the refinement that computes them");
    d->detect(converted, raw, widths, precisions);
  } else {
    d->detect(converted, raw, widths, precisions, alarms);
    c.check(alarms.size() == raw.size(), "sizes", "%zu lines and %zu numbers of false alarms", raw.size(), alarms.size());
    for (double a : alarms) c.check(a > 0, "false alarms", "a line with %g, the threshold is 0", a);
  }
  c.check(raw == again, "outputs", "other lines if widths are asked for");
  c.check(widths.size() == raw.size() && precisions.size() == raw.size(), "sizes", "%zu lines, %zu widths, %zu precisions", raw.size(), widths.size(), precisions.size());
  for (double w : widths) c.check(w > 0 && w < 12 / scale, "width", "an edge of width %g", w);
  for (double p : precisions) c.check(p > 0 && p <= angle / 180 + 1e-9, "precision", "a line with precision %g, allowed %g", p, angle / 180);
  c.check(cv::countNonZero(before != converted) == 0, "unchanged", "the image was changed");
  if (edges.empty()) { c.check(raw.empty(), "blank", "%zu lines in a blank image", raw.size()); return; }
  Lines lines;
  for (auto& v : raw) if (std::hypot(v[0] - v[2], v[1] - v[3]) >= 8) lines.emplace_back(v[0], v[1], v[2], v[3]);
  compare(c, lines, all, 6, 14, refine == aslamcv::LSD_REFINE_ADV ? 0 : .6);
}
cv::Mat some(int i) {
  cv::Mat image(i == 3 ? 30 : 50, i == 2 ? 70 : 50, CV_8UC1, cv::Scalar(20));
  if (i == 0) image(cv::Rect(10, 10, 30, 32)).setTo(200);
  if (i == 1) for (int y = 0; y < 50; ++y) for (int x = 0; x < 50; ++x) image.at<unsigned char>(y, x) = x + y > 50 ? 250 : 10;
  if (i == 2) image(cv::Rect(35, 0, 35, 50)).setTo(90);
  if (i == 3) for (int y = 0; y < 30; ++y) for (int x = 0; x < 50; ++x) image.at<unsigned char>(y, x) = 2 * x + y;  // gentle slope
  if (i == 4) image.setTo(0);
  return image;
}
void history(Ctx& c) {
  const size_t minimum = c.pick({20, 3}, "minimum"), other = 10;
  LineSegmentDetector used(options(minimum)), second(options(other));
  const int n = c.thorough ? 5 : 4;
  for (int i = 0; i < n; ++i) {
    const int which = c.choose(5, "image"), by = c.choose(2, "detector");
    LineSegmentDetector fresh(options(by ? other : minimum));
    const cv::Mat image = some(which);
    const Lines a = detect(c, by ? &second : &used, image, by ? other : minimum), b = detect(c, &fresh, image, by ? other : minimum);
    c.check(sameLines(a, b), "history", "a used detector finds %zu lines, a new one %zu, or others", a.size(), b.size());
    if (which >= 3) c.check(a.empty(), "blank", "%zu lines in an image without edges", a.size());
    else c.check(!a.empty(), "found", "no lines in image %d", which);
  }
}
// ---------------------------------------------------------------- filters and comparisons
typedef std::vector<cv::Vec4i> Raw;
const cv::Vec4i kLines[] = {{0, 0, 10, 0}, {10, 0, 0, 0}, {0, 0, 0, 10}, {5, 15, 5, 5}, {0, 0, 10, 10}, {12, 2, 2, 12}, {0, 0, 3, 4}, {3, 4, 3, 4}, {20, 0, 0, 1}, {1, 20, 19, 0}};
const int kLinesUsed = sizeof kLines / sizeof kLines[0];
Raw list(Ctx& c, int most) {
  Raw l;
  const int n = c.choose(most + 1, "lines");
  for (int i = 0; i < n; ++i) l.push_back(kLines[c.choose(kLinesUsed, "line")]);
  return l;
}
cv::_InputArray as(int container, const Raw& l, cv::Mat* m) {
  if (container == 0) return l;
  *m = cv::Mat(l).clone();  // n x 1, what detect() returns in a cv::Mat
  if (container == 2) *m = m->reshape(4, 1);
  return *m;
}
void filters(Ctx& c) {
  const Raw l = list(c, c.thorough ? 4 : 3);
  auto d = aslamcv::createLineSegmentDetectorPtr();
  cv::Mat m;
  const int container = l.empty() ? 0 : c.choose(3, "container");
  const bool in_place = container == 0 && c.flag("in place");
  Raw out = {{9, 9, 9, 9}}, input = l, want;
  const int what = c.choose(3, "filter");
  int returned;
  if (what == 0) {
    const float lo = c.pick({-1.f, 0.f, 5.f, 10.f, 10.01f}, "minimum"), hi = c.pick({-1.f, 5.f, 10.f, 15.f}, "maximum");
    for (auto& v : l) {
      const double len = std::hypot(v[0] - v[2], v[1] - v[3]);
      if ((lo == -1 || len >= lo) && (hi == -1 || len < hi)) want.push_back(v);
    }
    returned = in_place ? d->filterSize(input, input, lo, hi) : d->filterSize(as(container, l, &m), out, lo, hi);
  } else {
    const float lo = c.pick({0.f, 44.f, 46.f, 90.f, 100.f}, "from"), hi = c.pick({180.f, 0.f, 45.5f, 90.f, 134.f, 136.f}, "to");
    bool point = false;
    for (auto& v : l) {
      double a = std::atan2(v[3] - v[1], v[2] - v[0]) * 180 / M_PI;
      if (a < 0) a += 180;
      if (a >= 180) a -= 180;
      point = point || (v[0] == v[2] && v[1] == v[3]);
      if ((a >= lo && a <= hi) == (what == 1)) want.push_back(v);
    }
    if (point) return;  // a point has no angle
    if (what == 1) returned = in_place ? d->retainAngle(input, input, lo, hi) : d->retainAngle(as(container, l, &m), out, lo, hi);
    else returned = in_place ? d->filterOutAngle(input, input, lo, hi) : d->filterOutAngle(as(container, l, &m), out, lo, hi);
  }
  const Raw& got = in_place ? input : out;
  c.check(got == want, "lines", "%zu of %zu lines instead of %zu, or others", got.size(), l.size(), want.size());
  c.check(returned == (int)(l.size() - want.size()), "count", "%d lines said to be left out instead of %zu", returned, l.size() - want.size());
}
cv::Mat drawn(cv::Size size, const Raw& l) {
  cv::Mat m = cv::Mat::zeros(size, CV_8UC1);
  for (auto& v : l) cv::line(m, cv::Point(v[0], v[1]), cv::Point(v[2], v[3]), cv::Scalar(255), 1);
  return m;
}
void comparison(Ctx& c) {
  const Raw a = list(c, 2), b = list(c, 2);
  const cv::Size size = c.flag("large") ? cv::Size(26, 22) : cv::Size(8, 9);
  const cv::Mat da = drawn(size, a), db = drawn(size, b);
  auto d = aslamcv::createLineSegmentDetectorPtr();
  cv::Mat ma, mb;
  const int container = a.empty() || b.empty() ? 0 : c.choose(3, "container");
  const bool canvas = c.flag("canvas");
  cv::Mat image = canvas ? cv::Mat(size, CV_8UC3, cv::Scalar(10, 20, 30)) : cv::Mat();
  const int n = canvas ? d->compareSegments(size, as(container, a, &ma), as(container, b, &mb), image) : d->compareSegments(size, as(container, a, &ma), as(container, b, &mb));
  c.check(n == cv::countNonZero(da != db), "count", "%d pixels differ instead of %d", n, cv::countNonZero(da != db));
  for (int y = 0; canvas && y < size.height; ++y) for (int x = 0; x < size.width; ++x) {
    const bool ia = da.at<unsigned char>(y, x), ib = db.at<unsigned char>(y, x);
    const cv::Vec3b want = ia || ib ? cv::Vec3b(ia ? 255 : 0, 0, ib ? 255 : 0) : cv::Vec3b(10, 20, 30);
    c.check(image.at<cv::Vec3b>(y, x) == want, "canvas", "pixel (%d, %d) has another color", x, y);
  }
  // drawing: gray image and red lines
  cv::Mat gray = c.flag("color canvas") ? cv::Mat(size, CV_8UC3, cv::Scalar(60, 60, 60)) : cv::Mat(size, CV_8UC1, cv::Scalar(60));
  d->drawSegments(gray, as(container, a, &ma));
  c.check(gray.type() == CV_8UC3, "drawing", "the drawing has no colors");
  for (int y = 0; y < size.height; ++y) for (int x = 0; x < size.width; ++x)
    c.check(gray.at<cv::Vec3b>(y, x) == (da.at<unsigned char>(y, x) ? cv::Vec3b(0, 0, 255) : cv::Vec3b(60, 60, 60)), "drawing", "pixel (%d, %d) has another color", x, y);
}
void intersection(Ctx& c) {
  cv::Vec4i a, b;
  const std::vector<int> places = c.thorough ? std::vector<int>{0, 7, 100, 611, -5} : std::vector<int>{0, 7, 611};
  for (int i = 0; i < 4; ++i) a[i] = places[c.choose(places.size(), "a")];
  for (int i = 0; i < 4; ++i) b[i] = places[c.choose(places.size(), "b")] + (i == 1 ? 13 : 0);
  if ((a[0] == a[2] && a[1] == a[3]) || (b[0] == b[2] && b[1] == b[3])) return;  // points
  auto d = aslamcv::createLineSegmentDetectorPtr();
  cv::Point p(-77, -78);
  const bool meet = d->intersection(a, b, p);
  const long long dx1 = a[2] - a[0], dy1 = a[3] - a[1], dx2 = b[2] - b[0], dy2 = b[3] - b[1], det = dx1 * dy2 - dy1 * dx2;
  c.check(meet == (det != 0), "parallel", "lines that %s are said to %s", det ? "meet" : "are parallel", meet ? "meet" : "be parallel");
  if (det == 0) { c.check(p == cv::Point(-77, -78), "parallel", "the point was changed"); return; }
  const long double t = (long double)((b[0] - a[0]) * dy2 - (b[1] - a[1]) * dx2) / det, x = a[0] + t * dx1, y = a[1] + t * dy1;
  const long double tolerance = 1 + 611. * 611 * 611 * 4 * 6e-8 / std::abs((double)det);
  c.check(std::abs(p.x - x) <= tolerance && std::abs(p.y - y) <= tolerance, "point", "the point is (%d, %d) instead of (%g, %g)", p.x, p.y, (double)x, (double)y);
}
void drawing(Ctx& c) {
  Lines l;
  const int n = c.choose(4, "lines");
  for (int i = 0; i < n; ++i) { const auto& v = kLines[c.choose(kLinesUsed, "line")]; l.emplace_back(v[0] + 3., v[1] + 3., v[2] + 3., v[3] + 3.); }
  LineSegmentDetector d(options(20));
  const int type = c.pick({CV_8UC3, CV_8UC1, CV_8UC4}, "type");
  cv::Mat image(30, 40, type, cv::Scalar(255, 255, 255, 255)), before = image.clone();  // colors are below 255
  if (type != CV_8UC3) { c.check(c.aborts([&] { d.drawLines(l, &image); }), "refused", "lines were drawn on an image without colors"); return; }
  d.drawLines(l, &image);
  for (int y = 0; y < image.rows; ++y) for (int x = 0; x < image.cols; ++x) {
    double nearest = 1e9;
    for (auto& line : l) nearest = std::min(nearest, toLine(x, y, {line.start_point(0), line.start_point(1), line.end_point(0), line.end_point(1)}));
    const bool changed = image.at<cv::Vec3b>(y, x) != before.at<cv::Vec3b>(y, x);
    if (nearest > 4) c.check(!changed, "background", "pixel (%d, %d) away from the lines was drawn", x, y);
    if (nearest < .3) c.check(changed, "drawn", "pixel (%d, %d) of a line was not drawn", x, y);
  }
}
}  // namespace

int main(int argc, char** argv) {
  std::vector<seqx::Scenario> v;
  v.push_back({"half-planes", "one straight edge at every angle", halfplane, 8});
  v.push_back({"rectangles", "bright and dark rectangles", rectangles, 8});
  v.push_back({"patterns", "all patterns of 3x3 cells", patterns, 8});
  v.push_back({"modes", "patterns of 2x2 cells with all refinements, scales, tolerances and depths", modes, 8});
  v.push_back({"history", "every sequence of images through used detectors", history, 8});
  v.push_back({"filters", "filterSize(), retainAngle(), filterOutAngle() of all lists of lines", filters, 8});
  v.push_back({"comparison", "compareSegments() and drawSegments() of all pairs of lists", comparison, 8});
  v.push_back({"intersection", "intersections of all pairs of lines", intersection, 8});
  v.push_back({"drawing", "drawLines() of all lists of lines", drawing, 4});
  return seqx::run_main(argc, argv, "S25", v);
}
