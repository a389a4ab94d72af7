// VisualFrame: the keypoint channels stay aligned, block by block, through every sequence of operations.
#define SEQX_MAIN
#include "seqx.h"

#include <map>
#include <memory>
#include <string>

#include <aslam/cameras/camera-pinhole.h>
#include <aslam/frames/visual-frame.h>

using seqx::Ctx;
typedef aslam::VisualFrame F;
typedef F::DescriptorsT D;
namespace {
enum { kUnc, kOri, kSco, kSca, kOff, kTrk, kPos, kNum };  // the optional channels
const char* const kName[] = {"uncertainties", "orientations", "scores", "scales", "time offsets", "track ids", "3D positions"};
bool integral(int c) { return c == kOff || c == kTrk; }

Eigen::VectorXd vd(const std::vector<double>& v) { Eigen::VectorXd r(v.size()); for (size_t i = 0; i < v.size(); ++i) r(i) = v[i]; return r; }
Eigen::VectorXi vi(const std::vector<double>& v) { Eigen::VectorXi r(v.size()); for (size_t i = 0; i < v.size(); ++i) r(i) = (int)v[i]; return r; }
Eigen::Matrix2Xd m2(const std::vector<double>& v) { Eigen::Matrix2Xd r(2, v.size()); for (size_t i = 0; i < v.size(); ++i) r.col(i) << v[i], -v[i]; return r; }
Eigen::Matrix3Xd m3(const std::vector<double>& v, bool constant = false) {
  Eigen::Matrix3Xd r(3, v.size());
  for (size_t i = 0; i < v.size(); ++i) r.col(i) << v[i], v[i] + .25, v[i] + .5;
  return r;
}
D desc(const std::vector<double>& v, int bytes) {
  D r(bytes, v.size());
  for (size_t i = 0; i < v.size(); ++i) for (int b = 0; b < bytes; ++b) r(b, i) = (unsigned char)(v[i] * 7 + b);
  return r;
}
void extend(F& f, int c, const std::vector<double>& v, double def, bool use_def) {
  switch (c) {
    case kUnc: use_def ? f.extendKeypointMeasurementUncertainties(vd(v), def) : f.extendKeypointMeasurementUncertainties(vd(v)); break;
    case kOri: use_def ? f.extendKeypointOrientations(vd(v), def) : f.extendKeypointOrientations(vd(v)); break;
    case kSco: use_def ? f.extendKeypointScores(vd(v), def) : f.extendKeypointScores(vd(v)); break;
    case kSca: use_def ? f.extendKeypointScales(vd(v), def) : f.extendKeypointScales(vd(v)); break;
    case kOff: use_def ? f.extendKeypointTimeOffsets(vi(v), (int)def) : f.extendKeypointTimeOffsets(vi(v)); break;
    case kTrk: use_def ? f.extendTrackIds(vi(v), (int)def) : f.extendTrackIds(vi(v)); break;
    default: use_def ? f.extendKeypoint3DPositions(m3(v), def) : f.extendKeypoint3DPositions(m3(v)); break;
  }
}
void set(F& f, int c, const std::vector<double>& v, bool swap) {
  Eigen::VectorXd d = vd(v);
  Eigen::VectorXi i = vi(v);
  Eigen::Matrix3Xd p = m3(v);
  switch (c) {
    case kUnc: swap ? f.swapKeypointMeasurementUncertainties(&d) : f.setKeypointMeasurementUncertainties(d); break;
    case kOri: swap ? f.swapKeypointOrientations(&d) : f.setKeypointOrientations(d); break;
    case kSco: swap ? f.swapKeypointScores(&d) : f.setKeypointScores(d); break;
    case kSca: swap ? f.swapKeypointScales(&d) : f.setKeypointScales(d); break;
    case kOff: swap ? f.swapKeypointTimeOffsets(&i) : f.setKeypointTimeOffsets(i); break;
    case kTrk: swap ? f.swapTrackIds(&i) : f.setTrackIds(i); break;
    default: swap ? f.swapKeypoint3DPositions(&p) : f.setKeypoint3DPositions(p); break;
  }
}
bool has(const F& f, int c) {
  switch (c) {
    case kUnc: return f.hasKeypointMeasurementUncertainties();
    case kOri: return f.hasKeypointOrientations();
    case kSco: return f.hasKeypointScores();
    case kSca: return f.hasKeypointScales();
    case kOff: return f.hasKeypointTimeOffsets();
    case kTrk: return f.hasTrackIds();
    default: return f.hasKeypoint3DPositions();
  }
}
double at(const F& f, int c, size_t i) {
  switch (c) {
    case kUnc: return f.getKeypointMeasurementUncertainty(i);
    case kOri: return f.getKeypointOrientation(i);
    case kSco: return f.getKeypointScore(i);
    case kSca: return f.getKeypointScale(i);
    case kOff: return f.getKeypointTimeOffset(i);
    case kTrk: return f.getTrackId(i);
    default: return f.getKeypoint3DPosition(i)(0);
  }
}
double at_type(const F& f, int c, size_t i, int t) {
  switch (c) {
    case kUnc: return f.getKeypointMeasurementUncertaintyOfType(i, t);
    case kOri: return f.getKeypointOrientationOfType(i, t);
    case kSco: return f.getKeypointScoreOfType(i, t);
    case kSca: return f.getKeypointScaleOfType(i, t);
    case kOff: return f.getKeypointTimeOffsetOfType(i, t);
    case kTrk: return f.getTrackIdOfType(i, t);
    default: return f.getKeypoint3DPositionOfType(i, t)(0);
  }
}
template <class V> std::vector<double> vec(const V& v) { std::vector<double> r; for (int i = 0; i < v.size(); ++i) r.push_back(v(i)); return r; }
std::vector<double> all(const F& f, int c) {
  switch (c) {
    case kUnc: return vec(f.getKeypointMeasurementUncertainties());
    case kOri: return vec(f.getKeypointOrientations());
    case kSco: return vec(f.getKeypointScores());
    case kSca: return vec(f.getKeypointScales());
    case kOff: return vec(f.getKeypointTimeOffsets());
    case kTrk: return vec(f.getTrackIds());
    default: return vec(f.getKeypoint3DPositions().row(0));
  }
}
std::vector<double> all_type(const F& f, int c, int t) {
  switch (c) {
    case kUnc: return vec(f.getKeypointMeasurementUncertaintiesOfType(t));
    case kOri: return vec(f.getKeypointOrientationsOfType(t));
    case kSco: return vec(f.getKeypointScoresOfType(t));
    case kSca: return vec(f.getKeypointScalesOfType(t));
    case kOff: return vec(f.getKeypointTimeOffsetsOfType(t));
    case kTrk: return vec(f.getTrackIdsOfType(t));
    default: return vec(f.getKeypoint3DPositionsOfType(t).row(0));
  }
}

struct Model {
  struct Block { int type, bytes; std::vector<double> tags; };
  std::vector<Block> blocks;
  std::vector<double> tags;                    // one per keypoint
  std::map<int, std::vector<double>> values;   // channel -> values
  bool measurements = false, descriptors = false;
};

void verify(Ctx& c, const F& f, const Model& m, const char* what) {
  if (c.replaying()) return;
  const size_t n = m.tags.size();
  c.check(f.hasKeypointMeasurements() == m.measurements && f.hasDescriptors() == m.descriptors, "has", "%s: channels", what);
  c.check(f.getNumKeypointMeasurements() == n, "count", "%s: %zu keypoints instead of %zu", what, f.getNumKeypointMeasurements(), n);
  if (m.measurements) {
    c.check(f.getKeypointMeasurements() == m2(m.tags), "keypoints", "%s: other keypoints", what);
    for (size_t i = 0; i < n; ++i) c.check(f.getKeypointMeasurement(i) == m2(m.tags).col(i), "keypoint", "%s: keypoint %zu", what, i);
    for (size_t i : {n, (size_t)-1, (size_t)1 << 32}) c.check(c.aborts([&] { (void)f.getKeypointMeasurement(i); }), "bounds", "%s: keypoint %zu of %zu is returned", what, i, n);
  }
  for (int k = 0; k < kNum; ++k) {
    auto it = m.values.find(k);
    c.check(has(f, k) == (it != m.values.end()), "has", "%s: channel of %s", what, kName[k]);
    if (it == m.values.end()) { c.check(c.aborts([&] { (void)at(f, k, 0); }), "absent", "%s: %s are returned although there are none", what, kName[k]); continue; }
    c.check(all(f, k) == it->second, "channel", "%s: other %s", what, kName[k]);
    for (size_t i = 0; i < it->second.size(); ++i) c.check(at(f, k, i) == it->second[i], "entry", "%s: %s of keypoint %zu", what, kName[k], i);
    const size_t s = it->second.size();
    for (size_t i : {s, (size_t)-1, (size_t)1 << 32}) c.check(c.aborts([&] { (void)at(f, k, i); }), "bounds", "%s: entry %zu of %zu %s is returned", what, i, s, kName[k]);
    if (k == kPos) {
      Eigen::Matrix3Xd p = f.getKeypoint3DPositions();
      for (size_t i = 0; i < s; ++i) c.check((p(1, i) == it->second[i] + .25 && p(2, i) == it->second[i] + .5) || (p(1, i) == p(0, i) && p(2, i) == p(0, i)), "position", "%s: rows of position %zu", what, i);
    }
  }
  if (!m.descriptors) {
    c.check(f.getNumDescriptors() == 0 && !f.hasDescriptorType(0) && !f.hasDescriptorType(5), "no-descriptors", "%s: descriptors", what);
    return;
  }
  size_t start = 0;
  c.check(f.getDescriptorTypes().size() == (int)m.blocks.size(), "blocks", "%s: %d blocks instead of %zu", what, (int)f.getDescriptorTypes().size(), m.blocks.size());
  for (size_t b = 0; b < m.blocks.size(); ++b) {
    const Model::Block& B = m.blocks[b];
    const int t = B.type;
    const size_t bn = B.tags.size();
    c.check(f.getDescriptorTypes()(b) == t && f.getDescriptorBlockType(b) == t, "type", "%s: type of block %zu", what, b);
    const D want = desc(B.tags, B.bytes);
    c.check(f.getDescriptors(b).rows() == want.rows() && f.getDescriptors(b).cols() == want.cols() && f.getDescriptors(b) == want, "descriptors", "%s: descriptors of block %zu", what, b);
    c.check(f.getDescriptorSizeBytes(b) == (size_t)B.bytes, "bytes", "%s: descriptor size", what);
    for (size_t i = 0; i < bn; ++i) {
      const unsigned char* p = f.getDescriptor(start + i);
      for (int k = 0; k < B.bytes; ++k) c.check(p[k] == want(k, i), "descriptor", "%s: descriptor %zu byte %d", what, start + i, k);
      c.check(f.getDescriptorType(start + i) == t, "type-at", "%s: type of descriptor %zu", what, start + i);
    }
    bool first = true;  // the first block of its type is the one that is found by type
    for (size_t a = 0; a < b; ++a) first &= m.blocks[a].type != t;
    if (first) {
      c.check(f.hasDescriptorType(t) && f.getDescriptorTypeBlock(t) == b, "find", "%s: block of type %d", what, t);
      c.check(f.getDescriptorTypeSizeBytes(t) == (size_t)B.bytes && &f.getDescriptorsOfType(t) == &f.getDescriptors(b), "of-type", "%s: descriptors of type %d", what, t);
      size_t s0 = 99, s1 = 99;
      f.getDescriptorBlockTypeStartAndSize(t, &s0, &s1);
      c.check(s0 == start && s1 == bn, "start", "%s: block of type %d starts at %zu and has %zu", what, t, s0, s1);
      if (m.measurements) {
        c.check(f.getNumKeypointMeasurementsOfType(t) == bn, "count-type", "%s: %zu keypoints of type %d", what, f.getNumKeypointMeasurementsOfType(t), t);
        if (start + bn <= n) {
          const std::vector<double> sub(m.tags.begin() + start, m.tags.begin() + start + bn);
          c.check(f.getKeypointMeasurementsOfType(t) == m2(sub), "keypoints-type", "%s: keypoints of type %d", what, t);
          for (size_t i = 0; i < bn; ++i) c.check(f.getKeypointMeasurementOfType(i, t) == m2(sub).col(i), "keypoint-type", "%s: keypoint %zu of type %d", what, i, t);
          for (size_t i : {bn, (size_t)-1, (size_t)0 - start}) if (i >= bn) c.check(c.aborts([&] { (void)f.getKeypointMeasurementOfType(i, t); }), "bounds-type", "%s: keypoint %zu of type %d", what, i, t);
        }
      }
      for (auto& e : m.values) {
        if (start + bn > e.second.size()) { c.check(c.aborts([&] { (void)all_type(f, e.first, t); }), "short", "%s: %s beyond their end", what, kName[e.first]); continue; }
        const std::vector<double> sub(e.second.begin() + start, e.second.begin() + start + bn);
        c.check(all_type(f, e.first, t) == sub, "channel-type", "%s: %s of type %d", what, kName[e.first], t);
        for (size_t i = 0; i < bn; ++i) c.check(at_type(f, e.first, i, t) == sub[i], "entry-type", "%s: %s %zu of type %d", what, kName[e.first], i, t);
        c.check(c.aborts([&] { (void)at_type(f, e.first, bn, t); }), "bounds-type", "%s: %s %zu of type %d", what, kName[e.first], bn, t);
      }
    }
    start += bn;
  }
  c.check(f.getNumDescriptors() == start, "num-descriptors", "%s: %zu descriptors instead of %zu", what, f.getNumDescriptors(), start);
  c.check(c.aborts([&] { (void)f.getDescriptor(start); }) && c.aborts([&] { (void)f.getDescriptorType(start); }) && c.aborts([&] { (void)f.getDescriptors(m.blocks.size()); }) &&
              c.aborts([&] { (void)f.getDescriptorBlockType(m.blocks.size()); }), "bounds", "%s: descriptor %zu", what, start);
  c.check(!f.hasDescriptorType(12345) && f.getNumKeypointMeasurementsOfType(12345) == 0 && c.aborts([&] { (void)f.getDescriptorTypeBlock(12345); }) &&
              c.aborts([&] { (void)f.getDescriptorsOfType(12345); }), "other-type", "%s: a type that does not exist", what);
}

// Adds a block as a feature extractor does: keypoints, some channels, descriptors.
void add_block(Ctx& c, F& f, Model& m, int type, const std::vector<double>& tags, unsigned present, bool defaults, bool map) {
  f.extendKeypointMeasurements(m2(tags));
  m.measurements = true;
  m.tags.insert(m.tags.end(), tags.begin(), tags.end());
  for (int k = 0; k < kNum; ++k) {
    if (!(present >> k & 1)) continue;
    const double def = defaults ? -50 - k : integral(k) ? -1 : 0;
    extend(f, k, tags, def, defaults);
    std::vector<double>& v = m.values[k];
    v.resize(m.tags.size() - tags.size(), def);
    v.insert(v.end(), tags.begin(), tags.end());
  }
  const int bytes = 2 + type % 3;
  const D d = desc(tags, bytes);
  if (map) f.extendDescriptors(Eigen::Map<const D>(d.data(), d.rows(), d.cols()), type);
  else f.extendDescriptors(d, type);
  m.descriptors = true;
  m.blocks.push_back({type, bytes, tags});
}

void blocks(Ctx& c) {
  F f;
  Model m;
  verify(c, f, m, "a new frame");
  const int focus = c.choose(kNum, "focus"), nb = c.range(1, 3, "blocks");
  const bool others = c.flag("others"), defaults = c.flag("defaults");
  double tag = 1;
  const std::vector<int> types = {5, 0, 9};
  const int rot = c.choose(3, "types");
  for (int b = 0; b < nb; ++b) {
    const int n = c.choose(c.thorough ? 4 : 3, "size");
    std::vector<double> tags;
    for (int i = 0; i < n; ++i) tags.push_back(tag++);
    unsigned p = others ? (1u << kNum) - 1 : 0;
    p = c.flag("present") ? p | 1u << focus : p & ~(1u << focus);
    add_block(c, f, m, types[(b + rot) % 3], tags, p, defaults, b == 1);
    verify(c, f, m, "after a block");
  }
  // more entries than keypoints are refused
  c.check(c.aborts([&] { extend(f, focus, std::vector<double>(m.tags.size() - (m.values.count(focus) ? m.values[focus].size() : 0) + 1, 1.), 0, false); }), "too-many",
          "more %s than keypoints are accepted", kName[focus]);
}

std::string key(const Model& m) {
  std::string k;
  std::map<double, int> name;  // tags are interchangeable up to order
  auto nm = [&](double t) { return t < 0 ? std::string("n") : std::to_string(name.emplace(t, name.size()).first->second); };
  for (double t : m.tags) k += nm(t) + ",";
  for (auto& b : m.blocks) { k += "b" + std::to_string(b.type) + ":"; for (double t : b.tags) k += nm(t) + ","; }
  for (auto& e : m.values) { k += "c" + std::to_string(e.first) + ":"; for (double t : e.second) k += nm(t) + ","; }
  return k + (m.measurements ? "M" : "") + (m.descriptors ? "D" : "");
}

// Sequences of operations on one frame with a copy made on the way.
void ops(Ctx& c, const std::vector<unsigned>& presents, int depth) {
  F f;
  Model m;
  f.setTimestampNanoseconds(77);
  double tag = 1;
  for (int d = 0; d < depth; ++d) {
    c.seen(std::to_string(depth - d) + key(m));
    const int op = c.choose(7, "op");
    if (op == 0) {  // a block, each keypoint tracked or not
      bool complete = true;
      for (auto& e : m.values) complete &= e.second.size() == m.tags.size();
      (void)complete;
      const int type = c.pick({5, 0, 9}, "type"), n = c.choose(3, "size");
      for (auto& b : m.blocks) if (b.type == type) throw seqx::Pruned();
      // A block of a frame with keypoints without descriptors does not fit
      size_t nd = 0;
      for (auto& b : m.blocks) nd += b.tags.size();
      if (nd != m.tags.size()) throw seqx::Pruned();
      std::vector<double> tags;
      for (int i = 0; i < n; ++i) tags.push_back(tag++);
      const unsigned p = c.pick(presents, "channels");
      add_block(c, f, m, type, tags, p, false, false);
      if (p >> kTrk & 1) {
        for (int i = 0; i < n; ++i) if (c.flag("untracked")) {
          const size_t at = m.tags.size() - n + i;
          f.getTrackIdsOfTypeMutable(type)(i) = -1;
          m.values[kTrk][at] = -1;
        }
      }
    } else if (op == 1) {  // discard what is not tracked
      for (auto& e : m.values) if (e.second.size() != m.tags.size()) throw seqx::Pruned();
      size_t nd = 0;
      for (auto& b : m.blocks) nd += b.tags.size();
      if (nd != m.tags.size()) throw seqx::Pruned();
      std::vector<size_t> out = {42};
      if (!m.values.count(kTrk)) { c.check(c.aborts([&] { f.discardUntrackedObservations(&out); }), "no-tracks", "untracked observations of a frame without tracks"); throw seqx::Pruned(); }
      f.discardUntrackedObservations(&out);
      std::vector<size_t> want;
      Model r = m;
      r.tags.clear();
      for (auto& e : r.values) e.second.clear();
      for (auto& b : r.blocks) b.tags.clear();
      size_t i = 0;
      for (size_t b = 0; b < m.blocks.size(); ++b) for (double t : m.blocks[b].tags) {
        if (m.values[kTrk][i] < 0) want.push_back(i);
        else {
          r.tags.push_back(m.tags[i]);
          r.blocks[b].tags.push_back(t);
          for (auto& e : m.values) r.values[e.first].push_back(e.second[i]);
        }
        ++i;
      }
      m = r;
      c.check(out == want, "discarded", "%zu discarded indices instead of %zu", out.size(), want.size());
    } else if (op == 2) {  // clear
      if (m.values.count(kPos) && !m.values[kPos].empty()) throw seqx::Pruned();  // not among the channels it documents to clear
      if (m.values.count(kOff) && !m.values[kOff].empty()) throw seqx::Pruned();
      f.clearKeypointChannels();
      m.tags.clear();
      m.measurements = true;
      for (int k : {kUnc, kOri, kSco, kSca, kTrk}) m.values[k].clear();
      m.values[kUnc]; m.values[kOri]; m.values[kSco]; m.values[kSca]; m.values[kTrk];
      c.check(f.getNumKeypointMeasurements() == 0 && f.getNumDescriptors() == 0, "clear", "%zu keypoints and %zu descriptors after clearing", f.getNumKeypointMeasurements(), f.getNumDescriptors());
      for (auto& b : m.blocks) c.check(f.getNumKeypointMeasurementsOfType(b.type) == 0, "clear-type", "keypoints of type %d after clearing", b.type);
      c.check(f.hasDescriptors(), "clear-has", "no descriptors channel after clearing");
      throw seqx::Pruned();  // which empty blocks remain is not specified
    } else if (op == 3) {  // replace everything by one block
      const int n = c.choose(3, "size"), type = c.pick({5, 0}, "type");
      const bool swap = c.flag("swap");
      if (m.blocks.size() > 1) throw seqx::Pruned();
      std::vector<double> tags;
      for (int i = 0; i < n; ++i) tags.push_back(tag++);
      Eigen::Matrix2Xd k = m2(tags);
      if (swap) f.swapKeypointMeasurements(&k); else f.setKeypointMeasurements(k);
      if (swap) c.check(k == m2(m.tags) || (!m.measurements && k.cols() == 0), "swapped-out", "other keypoints were swapped out");
      m.measurements = true;
      for (auto& e : m.values) e.second = tags;
      for (int ch = 0; ch < kNum; ++ch) if (presents[0] >> ch & 1) m.values[ch] = tags;
      for (auto& e : m.values) set(f, e.first, tags, swap);
      D dn = desc(tags, 2 + type % 3);
      if (swap) {
        const int old = f.swapDescriptors(&dn, 0, type);
        if (!m.blocks.empty()) c.check(old == m.blocks[0].type && dn == desc(m.blocks[0].tags, m.blocks[0].bytes), "swapped-type", "swapped out type %d", old);
      } else f.setDescriptors(dn, 0, type);
      m.descriptors = true;
      m.blocks.assign(1, {type, 2 + type % 3, tags});
      m.tags = tags;
    } else if (op == 4) {  // go on with a copy, and spoil the original
      F g(f);
      c.check(g == f && f == g && g.compareWithoutCameraGeometry(f), "copy-equal", "a copy differs");
      if (m.measurements && !m.tags.empty()) {
        const int w = c.choose(2 + (int)m.values.size(), "spoil");
        if (w == 0) (*f.getKeypointMeasurementsMutable())(1, m.tags.size() - 1) += 1;
        else if (w == 1) {
          if (m.blocks.empty() || m.blocks.back().tags.empty()) throw seqx::Pruned();
          f.getDescriptorsMutable(m.blocks.size() - 1)->coeffRef(0, 0) ^= 1;
        } else {
          auto it = m.values.begin();
          std::advance(it, w - 2);
          if (it->second.empty()) throw seqx::Pruned();
          std::vector<double> v = it->second;
          v.back() += 1;
          set(f, it->first, v, false);
        }
        c.check(!(g == f) && !(f == g) && !g.compareWithoutCameraGeometry(f), "copy-differs", "frames with different contents are equal");
      }
      verify(c, g, m, "a copy after its original changed");
      F h;
      h.setTimestampNanoseconds(5);
      h = g;
      c.check(h == g, "assign-equal", "an assigned frame differs");
      f = h;
    } else if (op == 5) {  // descriptors to a string and back
      if (!m.descriptors) { std::string s; c.check(c.aborts([&] { f.serializeDescriptorsToString(&s); }), "serialize-none", "descriptors of a frame without"); throw seqx::Pruned(); }
      std::string s;
      f.serializeDescriptorsToString(&s);
      F g;
      g.deserializeDescriptorsFromString(s);
      g.setDescriptorTypes(f.getDescriptorTypes());
      Model x;
      x.descriptors = true;
      x.blocks = m.blocks;
      verify(c, g, x, "descriptors read from a string");
      f.deserializeDescriptorsFromString(s);
    } else {  // touches nothing else
      f.setRawImage(cv::Mat(2, 3, CV_8UC1, cv::Scalar(9)));
      c.check(f.hasRawImage() && f.getRawImage().cols == 3, "raw", "raw image");
      f.releaseRawImage();
      c.check(!f.hasRawImage() && c.aborts([&] { (void)f.getRawImage(); }), "released", "raw image after release");
      f.setChannelData<int>("X", 3);
      c.check(f.hasChannel("X") && f.getChannelData<int>("X") == 3, "named", "named channel");
    }
    verify(c, f, m, "after an operation");
    if (op >= 4 && !c.thorough) break;  // the model is back where it was
  }
  c.check(f.getTimestampNanoseconds() == 77, "time", "the time changed");
}

// Everything a frame carries besides channels.
void members(Ctx& c) {
  aslam::Camera::Ptr cam[2];
  for (int i = 0; i < 2; ++i) cam[i].reset(new aslam::PinholeCamera(1.0 + i, 1.0, 0.5, 0.5, 1u, 1u));
  auto make = [&](const char* w, F* f, int* s) {
    s[0] = c.choose(2, w); s[1] = c.choose(2, w); s[2] = c.choose(3, w); s[3] = c.choose(3, w);
    f->setTimestampNanoseconds(100 + s[0]);
    f->setValid(s[1]);
    if (s[2] < 2) f->setCameraGeometry(cam[s[2]]);
    if (s[3]) { f->addChannel<int>("X"); f->setChannelData<int>("X", s[3]); }
  };
  F a, b;
  int s[4], t[4];
  make("a", &a, s);
  make("b", &b, t);
  aslam::FrameId id;
  aslam::generateId(&id);
  a.setId(id);
  const bool chan = s[0] == t[0] && s[1] == t[1] && s[3] == t[3];
  c.check((a == b) == (chan && s[2] == t[2]), "equal", "equality of two frames");
  c.check(a.compareWithoutCameraGeometry(b) == chan, "equal-nocam", "equality of two frames without cameras");
  F k(a);
  b = a;
  for (F* x : {&k, &b}) c.check(x->getId() == id && x->getTimestampNanoseconds() == 100 + s[0] && x->isValid() == (bool)s[1] && x->getCameraGeometry() == a.getCameraGeometry() && x->hasChannel("X") == (s[3] > 0),
                                "copy", "a copy carries something else");
  F& self = b;
  b = self;
  c.check(b == a, "self", "self assignment changes a frame");
  b.invalidate(); c.check(!b.isValid(), "valid", "invalidate()");
  b.validate(); c.check(b.isValid(), "valid", "validate()");
  F::Ptr e = F::createEmptyTestVisualFrame(cam[0], 99);
  c.check(e->getTimestampNanoseconds() == 99 && e->getNumKeypointMeasurements() == 0 && e->getNumDescriptors() == 0 && e->hasKeypointMeasurements() && e->hasDescriptors() &&
              e->getCameraGeometry() == cam[0] && e->getDescriptorSizeBytes() == 48, "empty", "the empty test frame");
}

// Bearing vectors of chosen keypoints of one type: those of that type, in the order asked for; others are refused.
void bearings(Ctx& c) {
  aslam::Camera::Ptr cam(new aslam::PinholeCamera(2.0, 4.0, 0.5, 0.5, 10u, 10u));
  F f;
  f.setCameraGeometry(cam);
  f.setRawCameraGeometry(cam);
  Model m;
  const int n0 = c.choose(3, "first"), n1 = c.range(1, 3, "second"), n2 = c.choose(3, "third");
  double tag = 1;
  auto some = [&](int n) { std::vector<double> t; while (n--) t.push_back(tag++); return t; };
  add_block(c, f, m, 5, some(n0), 0, false, false);
  add_block(c, f, m, 0, some(n1), 0, false, false);
  add_block(c, f, m, 9, some(n2), 0, false, false);
  std::vector<size_t> idx;
  const int k = c.choose(4, "asked");
  bool good = true;
  for (int i = 0; i < k; ++i) { idx.push_back(c.choose(n1 + 2, "index")); good &= (int)idx.back() < n1; }
  std::vector<unsigned char> ok(3, 7);
  Eigen::Matrix3Xd r;
  const bool refused = c.aborts([&] { r = f.getNormalizedBearingVectors(idx, 0, &ok); });
  c.check(refused == !good, "index", refused ? "keypoints of that type are refused" : "the bearing of a keypoint that is not of that type is returned");
  if (!good) return;
  c.check(r.cols() == k && (int)ok.size() == k, "size", "%d bearings for %d keypoints", (int)r.cols(), k);
  for (int i = 0; i < k; ++i) {
    Eigen::Vector3d b;
    Eigen::Vector2d kp = f.getKeypointMeasurementOfType(idx[i], 0), raw;
    c.check(cam->backProject3(kp, &b) && ok[i] && (r.col(i) - b.normalized()).norm() < 1e-14, "bearing", "bearing %d is of another keypoint", i);
    f.getKeypointInRawImageCoordinates(n0 + idx[i], &raw);
    c.check((raw - kp).norm() < 1e-12, "raw", "raw image coordinates with the same camera");
  }
  Eigen::Matrix2Xd raws;
  std::vector<aslam::ProjectionResult> res;
  f.toRawImageCoordinatesVectorized(f.getKeypointMeasurements(), &raws, &res);
  c.check(raws.cols() == (int)m.tags.size() && res.size() == m.tags.size() && (raws - f.getKeypointMeasurements()).norm() < 1e-11, "raws", "raw image coordinates with the same camera");
}
}  // namespace

int main(int argc, char** argv) {
  const unsigned all = (1u << kNum) - 1;
  std::vector<seqx::Scenario> v;
  v.push_back({"blocks", "1-3 blocks of 0-2 (3) keypoints, every channel present or absent per block", blocks, 7});
  v.push_back({"ops", "all states within 3 (4) operations with all channels or tracks only", [all](Ctx& c) { ops(c, {all, 1u << kTrk}, c.thorough ? 4 : 3); }, 7});
  v.push_back({"ops-some", "all states within 3 (4) operations with the channels that can be cleared", [all](Ctx& c) { ops(c, {all & ~(1u << kPos | 1u << kOff), 0}, c.thorough ? 4 : 3); }, 7});
  v.push_back({"members", "every pair of times, validity flags, cameras and named channels", members});
  v.push_back({"bearings", "3 blocks, every list of up to 3 keypoints of the middle one", bearings});
  return seqx::run_main(argc, argv, "S12", v);
}
