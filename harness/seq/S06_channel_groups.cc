// Channel groups: which values are shared and which are copied by clone, copy and assignment, and when groups are equal.
#define SEQX_MAIN
#include "seqx.h"

#include <map>
#include <memory>
#include <sstream>

#include <aslam/common/channel-definitions.h>

using seqx::Ctx;
namespace ch = aslam::channels;
DECLARE_CHANNEL(NUM, int)
typedef std::vector<Eigen::Matrix<unsigned char, Eigen::Dynamic, Eigen::Dynamic>> Desc;

namespace {
enum Kind { kNum, kKp, kDesc, kImg, kKinds };
const char* const kNames[] = {"NUM", "VISUAL_KEYPOINT_MEASUREMENTS", "DESCRIPTORS", "RAW_IMAGE"};

// Values 0..4 of every kind; some differ in one element only, some in their size only, 4 is empty (0 for numbers).
int num(int v) { return v * 3 - 1; }
Eigen::Matrix2Xd kp(int v) {
  static const int cols[] = {2, 2, 3, 1, 0};
  Eigen::Matrix2Xd m = Eigen::Matrix2Xd::Constant(2, cols[v], 1.5);
  if (v == 1) m(1, 1) = 2;
  return m;
}
Desc desc(int v) {
  static const int cols[] = {2, 2, 1, 2, 0};
  Desc d(v == 4 ? 0 : v == 3 ? 2 : 1);
  for (auto& m : d) { m.resize(4, cols[v]); m.setConstant(7); }
  if (v == 1) d[0](3, 1) = 8;
  return d;
}
cv::Mat img(int v) {
  if (v == 4) return cv::Mat();
  cv::Mat m(v == 2 ? 3 : 2, 2, v == 3 ? CV_8UC3 : CV_8UC1, cv::Scalar(5, 5, 5));
  if (v == 1) m.at<uint8_t>(1, 1) = 6;
  return m;
}
bool same(const cv::Mat& a, const cv::Mat& b) {
  if (a.rows != b.rows || a.cols != b.cols || a.type() != b.type()) return false;
  for (int i = 0; i < a.rows; ++i) if (memcmp(a.ptr(i), b.ptr(i), a.cols * a.elemSize())) return false;
  return true;
}
bool same(const Eigen::Matrix2Xd& a, const Eigen::Matrix2Xd& b) { return a.cols() == b.cols() && (a.array() == b.array()).all(); }
bool same(const Desc& a, const Desc& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (a[i].rows() != b[i].rows() || a[i].cols() != b[i].cols() || !(a[i].array() == b[i].array()).all()) return false;
  return true;
}
void put(ch::ChannelGroup& g, int k, int v, bool add) {
  switch (k) {
    case kNum: (add ? ch::add_NUM_Channel(&g) : ch::get_NUM_Data(g)) = num(v); break;
    case kKp: (add ? ch::add_VISUAL_KEYPOINT_MEASUREMENTS_Channel(&g) : ch::get_VISUAL_KEYPOINT_MEASUREMENTS_Data(g)) = kp(v); break;
    case kDesc: (add ? ch::addChannel<Desc>("DESCRIPTORS", &g) : ch::getChannelData<Desc>("DESCRIPTORS", g)) = desc(v); break;
    default: (add ? ch::add_RAW_IMAGE_Channel(&g) : ch::get_RAW_IMAGE_Data(g)) = img(v); break;
  }
}
bool is(const ch::ChannelGroup& g, int k, int v) {
  switch (k) {
    case kNum: return ch::get_NUM_Data(g) == num(v);
    case kKp: return same(ch::get_VISUAL_KEYPOINT_MEASUREMENTS_Data(g), kp(v));
    case kDesc: return same(ch::getChannelData<Desc>("DESCRIPTORS", g), desc(v));
    default: return same(ch::get_RAW_IMAGE_Data(g), img(v));
  }
}
bool has(const ch::ChannelGroup& g, int k) {
  switch (k) {
    case kNum: return ch::has_NUM_Channel(g);
    case kKp: return ch::has_VISUAL_KEYPOINT_MEASUREMENTS_Channel(g);
    case kDesc: return ch::hasChannel("DESCRIPTORS", g);
    default: return ch::has_RAW_IMAGE_Channel(g);
  }
}
void remove(ch::ChannelGroup& g, int k) {
  switch (k) {
    case kNum: ch::remove_NUM_Channel(&g); break;
    case kKp: ch::remove_VISUAL_KEYPOINT_MEASUREMENTS_Channel(&g); break;
    case kDesc: ch::remove_DESCRIPTORS_Channel(&g); break;
    default: ch::remove_RAW_IMAGE_Channel(&g); break;
  }
}
// Model: a group maps kinds to shared cells; an empty image has no pixels, so that values of images are plain too.
typedef std::map<int, std::shared_ptr<int>> Group;

void ops(Ctx& c, std::vector<int> kinds, std::vector<int> values, int depth) {
  std::unique_ptr<ch::ChannelGroup> g[2] = {std::unique_ptr<ch::ChannelGroup>(new ch::ChannelGroup), std::unique_ptr<ch::ChannelGroup>(new ch::ChannelGroup)};
  Group m[2];
  for (int d = 0; d < depth; ++d) {
    const int op = c.choose(7, "op"), s = c.choose(2, "group"), t = 1 - s;
    if (op < 4) {
      const int k = c.pick(kinds, "kind");
      const bool in = m[s].count(k);
      if (op == 0) {
        const int v = c.pick(values, "value");
        c.check(c.aborts([&] { put(*g[s], k, v, true); }) == in, "add", "adding a channel that is %s", in ? "there" : "missing");
        if (!in) m[s][k] = std::make_shared<int>(v);
      } else if (op == 1) {
        const int v = c.pick(values, "value");
        c.check(c.aborts([&] { put(*g[s], k, v, false); }) == !in, "set", "setting a channel that is %s", in ? "there" : "missing");
        if (in) *m[s][k] = v;
      } else if (op == 2) {
        c.check(c.aborts([&] { remove(*g[s], k); }) == !in, "remove", "removing a channel that is %s", in ? "there" : "missing");
        m[s].erase(k);
      } else {
        // the wrong type is refused
        c.check(c.aborts([&] { ch::getChannelData<float>(kNames[k], *g[s]); }), "type", "a channel was read as another type");
      }
    } else if (op == 4) {
      *g[s] = *g[t];
      m[s] = m[t];
    } else if (op == 5) {
      // clone into a new group
      const int how = c.choose(2, "how");
      if (how == 0) g[s].reset(new ch::ChannelGroup(ch::cloneChannelGroup(*g[t])));
      else { ch::ChannelGroup tmp = ch::cloneChannelGroup(*g[t]); *g[s] = tmp; }
      m[s].clear();
      for (auto& kv : m[t]) m[s][kv.first] = std::make_shared<int>(*kv.second);
    } else {
      g[s].reset(new ch::ChannelGroup(*g[t]));
      m[s] = m[t];
    }
    bool equal = m[0].size() == m[1].size();
    for (int i = 0; i < 2; ++i) {
      c.check(g[i]->channels_.size() == m[i].size(), "count", "%zu channels instead of %zu", g[i]->channels_.size(), m[i].size());
      for (int k = 0; k < kKinds; ++k) {
        const bool in = m[i].count(k);
        c.check(has(*g[i], k) == in, "has", "has() of kind %d", k);
        if (in) c.check(is(*g[i], k, *m[i][k]), "value", "group %d, kind %d: not value %d", i, k, *m[i][k]);
      }
    }
    for (auto& kv : m[0]) equal = equal && m[1].count(kv.first) && *m[1][kv.first] == *kv.second;
    c.check(ch::isChannelGroupEqual(*g[0], *g[1]) == equal && ch::isChannelGroupEqual(*g[1], *g[0]) == equal, "equal", "groups that are %s compare as %s", equal ? "equal" : "different", equal ? "different" : "equal");
    c.check(ch::isChannelGroupEqual(*g[0], *g[0]), "self-equal", "a group differs from itself");
    const ch::ChannelGroup cl = ch::cloneChannelGroup(*g[0]);
    c.check(ch::isChannelGroupEqual(cl, *g[0]) && ch::isChannelGroupEqual(*g[0], cl), "clone-equal", "a clone differs");
    for (auto& kv : m[0]) c.check(cl.channels_.at(kNames[kv.first]) != g[0]->channels_.at(kNames[kv.first]), "clone-deep", "a clone shares a channel");
    std::ostringstream os;
    g[0]->printParameters(os);
    for (int k = 0; k < kKinds; ++k) c.check((os.str().find(kNames[k]) != std::string::npos) == (m[0].count(k) > 0), "print", "printParameters() shows other channels");
    if (d + 1 < depth) {
      std::string key = seqx::fmt("%d|", d);
      std::map<int*, int> num;
      for (int i = 0; i < 2; ++i) for (auto& kv : m[i]) key += seqx::fmt("%d:%d=%d#%d ", i, kv.first, *kv.second, (int)num.emplace(kv.second.get(), num.size()).first->second);
      c.seen(key);
    }
  }
}
void ops_two(Ctx& c) { ops(c, {kNum, kKp}, {0, 1, 2}, c.thorough ? 8 : 6); }
void ops_img(Ctx& c) { ops(c, {kImg, kDesc}, {0, 1, 2}, c.thorough ? 8 : 6); }
// Equality of all pairs of values of each kind.
void pairs(Ctx& c) {
  const int k = c.choose(kKinds, "kind"), a = c.choose(5, "a"), b = c.choose(5, "b");
  ch::ChannelGroup x, y;
  put(x, k, a, true);
  put(y, k, b, true);
  c.check(ch::isChannelGroupEqual(x, y) == (a == b), "pair", "%s: values %d and %d compare as %s", kNames[k], a, b, a == b ? "different" : "equal");
  put(y, (k + 1) % kKinds, 0, true);
  c.check(!ch::isChannelGroupEqual(x, y) && !ch::isChannelGroupEqual(y, x), "subset", "a group equals one with more channels");
}
// Clones are independent: changing any element in place changes only its own group (images share their pixels on purpose).
void independent(Ctx& c) {
  const int k = c.choose(3, "kind");
  ch::ChannelGroup x;
  put(x, k, 0, true);
  ch::ChannelGroup y = ch::cloneChannelGroup(x);
  const bool which = c.flag("which");
  ch::ChannelGroup &w = which ? x : y, &o = which ? y : x;
  if (k == kNum) ch::get_NUM_Data(w) = 99;
  else if (k == kKp) ch::get_VISUAL_KEYPOINT_MEASUREMENTS_Data(w)(c.choose(2, "i"), c.choose(2, "j")) = 99;
  else ch::get_DESCRIPTORS_Data(w)[0](c.choose(4, "i"), c.choose(2, "j")) = 99;
  c.check(is(o, k, 0) && !is(w, k, 0), "independent", "a change in a clone is visible in the original, or the other way round");
  c.check(!ch::isChannelGroupEqual(x, y) && !ch::isChannelGroupEqual(y, x), "differs", "a changed clone still compares equal");
}
// Element by element: images that differ in one byte, or in one matrix element, are different.
void image_bytes(Ctx& c) {
  const int type = c.pick({CV_8UC1, CV_8UC3, CV_8UC4, CV_16UC1, CV_16SC2, CV_32SC1, CV_32FC1, CV_64FC2}, "type"), rows = c.range(1, 3, "rows"), cols = c.range(1, 3, "cols");
  ch::ChannelGroup x, y;
  cv::Mat &a = ch::add_RAW_IMAGE_Channel(&x), &b = ch::add_RAW_IMAGE_Channel(&y);
  a = cv::Mat(rows, cols, type, cv::Scalar::all(3));
  b = a.clone();
  c.check(ch::isChannelGroupEqual(x, y), "image-equal", "equal images compare as different");
  const int at = c.choose(rows * cols * a.elemSize(), "byte");
  b.data[at] ^= 1;
  c.check(!ch::isChannelGroupEqual(x, y) && !ch::isChannelGroupEqual(y, x), "image-differs", "images that differ in byte %d compare as equal", at);
}
}  // namespace
int main(int argc, char** argv) {
  return seqx::run_main(argc, argv, "S06", {
    {"ops-values", "every sequence of 6 operations on two groups, numbers and matrices", ops_two, 7},
    {"ops-images", "every sequence of 6 operations on two groups, descriptor lists and images", ops_img, 7},
    {"pairs", "equality of all pairs of values, of different sizes and empty ones too", pairs, 4},
    {"independent", "all in-place changes of a clone or its original", independent, 1},
    {"image-bytes", "images that differ in any one byte, 8 types, all sizes up to 3x3", image_bytes, 1},
  });
}
