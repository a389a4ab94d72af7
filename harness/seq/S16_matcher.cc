// GyroTwoFrameMatcher: the matches are exactly those the documented search gives.
#define SEQX_MAIN
#include "seqx.h"

#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <string>

#include <gflags/gflags.h>

#include <aslam/cameras/camera-pinhole.h>
#include <aslam/common/memory.h>
#include <aslam/frames/visual-frame.h>
#include <aslam/matcher/gyro-two-frame-matcher.h>
#include <aslam/matcher/match-helpers.h>

DECLARE_int32(gyro_matcher_small_search_distance_px);
DECLARE_int32(gyro_matcher_large_search_distance_px);

using seqx::Ctx;
using namespace aslam;
namespace {
typedef VisualFrame::DescriptorsT D;
struct Kp { double u, v; int ones; };  // the descriptor has its first `ones` bits set: distances are differences
struct Setup {
  int bytes = 16;
  int height = 100;
  std::vector<Kp> k, kp1;               // keypoints of the two frames; those of frame k where they are predicted
  std::vector<unsigned char> success;   // of the predictions
};
D descriptors(const std::vector<Kp>& v, int bytes) {
  D d = D::Zero(bytes, v.size());
  for (size_t i = 0; i < v.size(); ++i) for (int b = 0; b < v[i].ones; ++b) d(b / 8, i) |= 1 << (b % 8);
  return d;
}
Eigen::Matrix2Xd points(const std::vector<Kp>& v) {
  Eigen::Matrix2Xd m(2, v.size());
  for (size_t i = 0; i < v.size(); ++i) m.col(i) << v[i].u, v[i].v;
  return m;
}
VisualFrame::Ptr frame(const std::vector<Kp>& v, int bytes, int64_t time) {
  VisualFrame::Ptr f(new VisualFrame);
  f->setTimestampNanoseconds(time);
  f->setKeypointMeasurements(points(v));
  f->setDescriptors(descriptors(v, bytes));
  return f;
}
// ---- the reference
enum In { kOut, kIn, kEdge };
// Is a keypoint in the window?  Windows are only exact up to a pixel.
In inside(const Kp& p, const Kp& q, int half) {
  const double du = std::abs(p.u - q.u), dv = std::abs(p.v - q.v);
  if (du > half + 1 || dv > half + 1) return kOut;
  if (du <= half - 1 && dv <= half - 1) return kIn;
  return kEdge;
}
struct Ref {
  bool exact = true;  // false: ties or keypoints on the edge of a window, several results are right
  std::map<int, int> match;  // keypoint of k+1 -> keypoint of k
};
Ref reference(const Setup& s, int small, int large) {
  Ref r;
  const int bits = 8 * s.bytes;
  const int relaxed = (int)(bits * 0.8f);
  auto dist = [&](int i, int j) { return std::abs(s.k[i].ones - s.kp1[j].ones); };
  std::map<int, std::vector<int>> queried;
  std::map<int, std::pair<int, int>> owner;  // keypoint of k+1 -> score, keypoint of k
  std::vector<int> inferior;
  for (int i = 0; i < (int)s.k.size(); ++i) {
    if (!s.success[i]) continue;
    std::vector<int> cand;
    int best = -1;
    for (int half : {small, large}) {
      std::vector<int> more;
      for (int j = 0; j < (int)s.kp1.size(); ++j) {
        const In in = inside(s.k[i], s.kp1[j], half);
        if (in == kEdge) r.exact = false;
        if (in == kIn && std::find(cand.begin(), cand.end(), j) == cand.end()) more.push_back(j);
      }
      cand.insert(cand.end(), more.begin(), more.end());
      for (int j : more) if (bits - dist(i, j) > relaxed && (best < 0 || dist(i, j) < dist(i, best))) best = j;
      if (best >= 0) break;
    }
    if (best < 0) continue;
    int second = -1;
    for (int j : cand) if (j != best && (second < 0 || dist(i, j) < dist(i, second))) second = j;
    // the ratio test
    if (second >= 0 && dist(i, second) != 0 && !(dist(i, best) / (float)dist(i, second) < 0.8f)) continue;
    if (second >= 0 && dist(i, second) == dist(i, best)) r.exact = false;  // (both 0)
    queried[i] = cand;
    const int score = bits - dist(i, best);
    auto o = owner.find(best);
    if (o == owner.end()) owner[best] = {score, i};
    else if (score > o->second.first) { inferior.push_back(o->second.second); o->second = {score, i}; }
    else inferior.push_back(i);
  }
  for (int round = 0; round < 3; ++round) {
    std::map<int, std::pair<int, int>> now;
    for (int i : inferior) {
      int best = -1;
      bool tie = false;
      for (int j : queried[i]) {
        if (owner.count(j) || !((double)(bits - dist(i, j)) / bits > (double)0.85f)) continue;
        if (best >= 0 && dist(i, j) == dist(i, best)) tie = true;
        if (best < 0 || dist(i, j) < dist(i, best)) { best = j; tie = false; }
      }
      if (tie) r.exact = false;
      if (best < 0) continue;
      const int score = bits - dist(i, best);
      auto o = now.find(best);
      if (o != now.end() && score == o->second.first) r.exact = false;
      if (o == now.end() || score > o->second.first) now[best] = {score, i};
    }
    if (now.empty()) break;
    for (auto& x : now) {
      owner[x.first] = x.second;
      inferior.erase(std::find(inferior.begin(), inferior.end(), x.second.second));
    }
  }
  for (auto& x : owner) r.match[x.first] = x.second.second;
  return r;
}
std::string show(const Setup& s) {
  std::string t = seqx::fmt("height %d, k:", s.height);
  for (auto& x : s.k) t += seqx::fmt(" (%g,%g)/%d", x.u, x.v, x.ones);
  t += " k+1:";
  for (auto& x : s.kp1) t += seqx::fmt(" (%g,%g)/%d", x.u, x.v, x.ones);
  return t;
}
void compare(Ctx& c, const Setup& s, const FrameToFrameMatches& m, int small, int large) {
  const int bits = 8 * s.bytes;
  std::set<int> a, b;
  for (const FrameToFrameMatch& x : m) {
    const int j = x.getKeypointIndexInFrameA(), i = x.getKeypointIndexInFrameB();
    c.check(j >= 0 && i >= 0 && j < (int)s.kp1.size() && i < (int)s.k.size(), "index", "match (%d, %d)", j, i);
    c.check(a.insert(j).second && b.insert(i).second, "exclusive", "keypoint in two matches: %s", show(s).c_str());
    c.check(s.success[i], "success", "a keypoint whose prediction failed is matched");
    c.check(inside(s.k[i], s.kp1[j], large) != kOut, "window", "match (%d, %d) outside of the search window: %s", j, i, show(s).c_str());
    c.check(bits - std::abs(s.k[i].ones - s.kp1[j].ones) > (int)(bits * 0.8f), "threshold", "match (%d, %d) with too few equal bits: %s", j, i, show(s).c_str());
  }
  const Ref r = reference(s, small, large);
  if (!r.exact) return;
  std::map<int, int> got;
  for (const FrameToFrameMatch& x : m) got[x.getKeypointIndexInFrameA()] = x.getKeypointIndexInFrameB();
  if (got == r.match) return;
  std::string t;
  for (auto& x : got) t += seqx::fmt(" (%d,%d)", x.first, x.second);
  t += " instead of";
  for (auto& x : r.match) t += seqx::fmt(" (%d,%d)", x.first, x.second);
  c.fail("matches", "matches%s: %s", t.c_str(), show(s).c_str());
}
void run(Ctx& c, const Setup& s) {
  const int small = FLAGS_gyro_matcher_small_search_distance_px, large = FLAGS_gyro_matcher_large_search_distance_px;
  VisualFrame::Ptr k = frame(s.k, s.bytes, 1), kp1 = frame(s.kp1, s.bytes, 2);
  const Eigen::Matrix2Xd predicted = points(s.k);
  FrameToFrameMatches m;
  m.emplace_back(77, 77);  // what was in the list is gone
  const Quaternion q(1, 0, 0, 0);
  GyroTwoFrameMatcher matcher(q, *kp1, *k, 0, s.height, predicted, s.success, &m);
  matcher.match();
  compare(c, s, m, small, large);
}
// Every choice of descriptors for keypoints that all see each other.
void appearance(Ctx& c, int nk, int nkp1) {
  Setup s;
  static const std::vector<int> full = {0, 5, 19, 20, 25, 26, 44, 128}, few = {0, 5, 20, 26, 44};
  const std::vector<int>& ones = nk + nkp1 > 4 && !(c.thorough && nk + nkp1 < 8) ? few : full;
  for (int i = 0; i < nk; ++i) s.k.push_back({50, 50, ones[c.choose(ones.size(), "k")]});
  for (int j = 0; j < nkp1; ++j) s.kp1.push_back({50, 48. + j, ones[c.choose(ones.size(), "k+1")]});
  s.success.assign(nk, 1);
  run(c, s);
}
// Small and large windows: near, in the large window only, outside.
void windows(Ctx& c) {
  Setup s;
  const int nk = 2, nkp1 = c.thorough ? 3 : 2;
  const double du[] = {1, 15, 25}, dv[] = {-1, 16, -25};
  const int ones[] = {0, 5, 20, 26};
  for (int i = 0; i < nk; ++i) {
    s.k.push_back({50. + i, 50, ones[c.choose(4, "k")]});
    s.success.push_back(c.choose(2, "failed") ? 0 : 1);
  }
  for (int j = 0; j < nkp1; ++j) {
    const int u = c.choose(3, "u"), v = c.choose(3, "v");
    s.kp1.push_back({50. + du[u], 50. + dv[v] + .1 * j, ones[c.choose(4, "k+1")]});
  }
  run(c, s);
}
// One keypoint each at every place of the image, at every border.
void places(Ctx& c, int height, int small, int large) {
  FLAGS_gyro_matcher_small_search_distance_px = small;
  FLAGS_gyro_matcher_large_search_distance_px = large;
  Setup s;
  s.height = height;
  std::vector<double> ys;
  for (int y = 0; y < height; ++y) { ys.push_back(y); ys.push_back(y + .5); ys.push_back(y + .999); }
  s.k.push_back({c.pick({0., 0.4, 7.5, 30.}, "u"), ys[c.choose(ys.size(), "v")] , 0});
  // predictions are within the image
  const double v = ys[c.choose(ys.size(), "v")];
  const int du = c.choose(5, "du") - 2;
  s.kp1.push_back({std::max(0., s.k[0].u + du * (large * .5 + 1)), v, 3});
  s.success.assign(1, 1);
  run(c, s);
}
// Frames of different descriptor sizes one after the other, several blocks, empty frames.
void sizes(Ctx& c) {
  for (int round = 0; round < 2; ++round) {
    Setup s;
    s.bytes = c.pick({1, 2, 16, 32, 64}, "bytes");
    const int nk = c.choose(3, "k"), nkp1 = c.choose(3, "k+1");
    const int bits = 8 * s.bytes;
    for (int i = 0; i < nk; ++i) s.k.push_back({50, 50, i ? bits / 2 : 0});
    const int d = c.choose(3, "distance");
    for (int j = 0; j < nkp1; ++j) s.kp1.push_back({50, 50. + j, (j ? bits / 2 : 0) + (d == 0 ? 0 : d == 1 ? bits / 10 : bits / 4)});
    s.success.assign(nk, 1);
    run(c, s);
  }
}
void blocks(Ctx& c) {
  VisualFrame k, kp1;
  k.setTimestampNanoseconds(1);
  kp1.setTimestampNanoseconds(2);
  const int type = c.choose(2, "type"), n0 = c.choose(3, "keypoints of the other type"), order = c.choose(2, "order");
  Setup s, o;
  const int ones[] = {0, 5, 20, 40};
  o.bytes = 32;
  for (int i = 0; i < n0; ++i) { o.k.push_back({50, 50, 0}); o.kp1.push_back({50, 51, 0}); }
  for (int i = 0; i < 2; ++i) { s.k.push_back({50, 50, ones[c.choose(4, "k")]}); s.kp1.push_back({50, 49. + i, ones[c.choose(4, "k+1")]}); }
  s.success.assign(2, 1);
  for (int b = 0; b < 2; ++b) {
    const Setup& x = b == order ? s : o;
    const int t = b == order ? type : 1 - type;
    if (b) {
      k.extendKeypointMeasurements(points(x.k));
      kp1.extendKeypointMeasurements(points(x.kp1));
      k.extendDescriptors(descriptors(x.k, x.bytes), t);
      kp1.extendDescriptors(descriptors(x.kp1, x.bytes), t);
    } else {
      k.setKeypointMeasurements(points(x.k));
      kp1.setKeypointMeasurements(points(x.kp1));
      k.setDescriptors(descriptors(x.k, x.bytes), 0, t);
      kp1.setDescriptors(descriptors(x.kp1, x.bytes), 0, t);
    }
  }
  const Eigen::Matrix2Xd predicted = points(s.k);
  FrameToFrameMatches m;
  const Quaternion q(1, 0, 0, 0);
  GyroTwoFrameMatcher matcher(q, kp1, k, type, s.height, predicted, s.success, &m);
  matcher.match();
  compare(c, s, m, 10, 20);
}
// What does not fit is refused instead of read beyond its end.
void refuse(Ctx& c) {
  const int what = c.choose(11, "what");
  std::vector<Kp> two = {{50, 50, 0}, {50, 51, 9}};
  VisualFrame::Ptr k = frame(two, 16, 1), kp1 = frame(two, 16, 2);
  Eigen::Matrix2Xd predicted = points(two);
  std::vector<unsigned char> success(2, 1);
  uint32_t height = 100;
  int type = 0;
  switch (what) {
    case 1: kp1 = frame(two, 16, 1); break;
    case 2: k = frame(two, 8, 1); break;
    case 3: k = frame(two, 32, 1); break;
    case 4: success.resize(1); break;
    case 5: predicted = points({two[0]}); success.resize(1); break;
    case 6: k->invalidate(); break;
    case 7: kp1->invalidate(); break;
    case 8: height = 0; break;
    case 9: type = 1; break;
    case 10: k = frame(two, 65, 1); kp1 = frame(two, 65, 2); break;
  }
  FrameToFrameMatches m;
  const Quaternion q(1, 0, 0, 0);
  const bool refused = c.aborts([&] {
    GyroTwoFrameMatcher matcher(q, *kp1, *k, type, height, predicted, success, &m);
    matcher.match();
  });
  c.check(refused == (what != 0), "refuse", "case %d is %s", what, refused ? "refused" : "accepted");
  c.check(c.aborts([&] { GyroTwoFrameMatcher matcher(q, *kp1, *k, type, height, predicted, success, nullptr); }), "null", "no list of matches accepted");
}
// ---- predictKeypointsByRotation(), getBearingVectorsFromMatches()
void prediction(Ctx& c) {
  Camera::Ptr camera(new PinholeCamera(100, 100, 50, 40, 100, 80));
  VisualFrame f;
  f.setCameraGeometry(camera);
  const double us[] = {0, 1, 50, 98, 99.5}, vs[] = {0, 40, 79};
  const int n = c.choose(4, "keypoints");
  std::vector<Kp> kp;
  for (int i = 0; i < n; ++i) kp.push_back({us[c.choose(5, "u")], vs[c.choose(3, "v")], i});
  const int block = c.choose(3, "block");  // 0: the only one, 1: the first of two, 2: the second
  const std::vector<Kp> other = {{3, 4, 0}, {5, 6, 0}};
  if (block < 2) { f.setKeypointMeasurements(points(kp)); f.setDescriptors(descriptors(kp, 4)); if (block == 1) { f.extendKeypointMeasurements(points(other)); f.extendDescriptors(descriptors(other, 4), 1); } }
  else { f.setKeypointMeasurements(points(other)); f.setDescriptors(descriptors(other, 4), 0, 1); f.extendKeypointMeasurements(points(kp)); f.extendDescriptors(descriptors(kp, 4), 0); }
  const int rot = c.choose(4, "rotation");  // none, a few pixels about y, half a turn about y, about z
  const double angle[] = {0, 0.05, M_PI, 0.5};
  const double w = std::cos(angle[rot] / 2), s = std::sin(angle[rot] / 2);
  const Quaternion q(w, 0, rot == 3 ? 0 : s, rot == 3 ? s : 0);
  Eigen::Matrix2Xd predicted = Eigen::Matrix2Xd::Zero(2, c.pick({0, 5}, "left over"));
  std::vector<unsigned char> success(7, 1);
  predictKeypointsByRotation(f, q, &predicted, &success, 0);
  c.check(predicted.cols() == n && (int)success.size() == n, "sizes", "%d predictions, %zu flags for %d keypoints", (int)predicted.cols(), success.size(), n);
  for (int i = 0; i < n; ++i) {
    Eigen::Vector3d ray((kp[i].u - 50) / 100, (kp[i].v - 40) / 100, 1), r;
    if (rot == 3) r << std::cos(angle[3]) * ray(0) - std::sin(angle[3]) * ray(1), std::sin(angle[3]) * ray(0) + std::cos(angle[3]) * ray(1), ray(2);
    else r << std::cos(angle[rot]) * ray(0) + std::sin(angle[rot]) * ray(2), ray(1), -std::sin(angle[rot]) * ray(0) + std::cos(angle[rot]) * ray(2);
    const double u = 100 * r(0) / r(2) + 50, v = 100 * r(1) / r(2) + 40;
    const bool border = std::abs(u) < 1e-6 || std::abs(v) < 1e-6 || std::abs(u - 100) < 1e-6 || std::abs(v - 80) < 1e-6;
    const bool ok = r(2) > 0 && u >= 0 && v >= 0 && u < 100 && v < 80;
    if (border) continue;
    c.check((bool)success[i] == ok, "success", "keypoint (%g, %g), rotation %d: prediction %s", kp[i].u, kp[i].v, rot, success[i] ? "succeeds" : "fails");
    if (ok) c.check(std::abs(predicted(0, i) - u) < 1e-6 && std::abs(predicted(1, i) - v) < 1e-6, "place", "keypoint (%g, %g) is predicted at (%g, %g) instead of (%g, %g)", kp[i].u, kp[i].v, predicted(0, i), predicted(1, i), u, v);
    else c.check(predicted(0, i) == kp[i].u && predicted(1, i) == kp[i].v, "unchanged", "a failed prediction moves the keypoint");
  }
  // bearing vectors of matches
  VisualFrame g(f);
  FrameToFrameMatches m;
  for (int i = 0; i < n; ++i) m.emplace_back(i, (i + 1) % n);
  Aligned<std::vector, Eigen::Vector3d> a, b;
  getBearingVectorsFromMatches(f, g, m, 0, &a, &b);
  c.check((int)a.size() == n && (int)b.size() == n, "bearings", "%zu and %zu bearing vectors for %d matches", a.size(), b.size(), n);
  for (int i = 0; i < n; ++i) {
    const Kp &x = kp[i], &y = kp[(i + 1) % n];
    const Eigen::Vector3d ra = Eigen::Vector3d((x.u - 50) / 100, (x.v - 40) / 100, 1).normalized(), rb = Eigen::Vector3d((y.u - 50) / 100, (y.v - 40) / 100, 1).normalized();
    c.check((a[i] - ra).norm() < 1e-9 && (b[i] - rb).norm() < 1e-9, "bearing", "bearing vectors of match %d", i);
  }
}
}  // namespace

int main(int argc, char** argv) {
  std::vector<seqx::Scenario> v;
  v.push_back({"appearance-2x2", "2 x 2 keypoints in reach of each other, 8 descriptors", [](Ctx& c) { appearance(c, 2, 2); }, 2});
  v.push_back({"appearance-1x3", "1 x 3 keypoints, 8 descriptors", [](Ctx& c) { appearance(c, 1, 3); }, 2});
  v.push_back({"appearance-3x3", "3 x 3 keypoints, 5 (8) descriptors", [](Ctx& c) { appearance(c, 3, 3); }, 3});
  v.push_back({"appearance-3x2", "3 x 2 (4) keypoints, 5 (8) descriptors", [](Ctx& c) { appearance(c, 3, c.thorough ? 4 : 2); }, 3});
  v.push_back({"windows", "2 x 2 (3) keypoints inside and outside of the windows", windows, 3});
  v.push_back({"places", "a pair of keypoints at every place of an image of 8 rows", [](Ctx& c) { places(c, 8, 2, 4); }, 2});
  v.push_back({"places-tall", "a pair of keypoints at every place of an image of 24 rows", [](Ctx& c) { places(c, 24, 10, 20); }, 2});
  v.push_back({"sizes", "two matchers for descriptors of different sizes one after the other", sizes, 3});
  v.push_back({"blocks", "frames with two descriptor types", blocks, 2});
  v.push_back({"refuse", "frames and predictions that do not fit", refuse, 1});
  v.push_back({"prediction", "predictions and bearing vectors of up to 3 keypoints", prediction, 3});
  return seqx::run_main(argc, argv, "S16", v);
}
