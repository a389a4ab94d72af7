// VisualNFrame: frames stay in their camera's place; copies are deep; keypoint identifiers and feature tracks refer to
// what was added.
#define SEQX_MAIN
#include "seqx.h"

#include <memory>
#include <string>

#include <aslam/cameras/camera-pinhole.h>
#include <aslam/cameras/ncamera.h>
#include <aslam/frames/feature-track.h>
#include <aslam/frames/visual-frame.h>
#include <aslam/frames/visual-nframe.h>

using seqx::Ctx;
using namespace aslam;
namespace {
Camera::Ptr camera(int k) {
  Camera::Ptr c(new PinholeCamera(100 + k, 200, 30, 40, 64, 48));
  return c;
}
NCamera::Ptr rig(int n, int kind) {
  TransformationVector t;
  std::vector<Camera::Ptr> cams;
  for (int i = 0; i < n; ++i) {
    cams.push_back(camera(10 * kind + i));
    t.push_back(Transformation(Quaternion(1, 0, 0, 0), Position3D(i, kind, 0)));
  }
  NCameraId id;
  generateId(&id);
  return NCamera::Ptr(new NCamera(id, t, cams, "rig"));
}
VisualFrame::Ptr frame(const Camera::ConstPtr& cam, int time, int keypoints) {
  VisualFrame::Ptr f(new VisualFrame);
  f->setCameraGeometry(cam);
  f->setTimestampNanoseconds(time);
  Eigen::Matrix2Xd k(2, keypoints);
  for (int i = 0; i < keypoints; ++i) k.col(i) << 10 * time + i, i;
  f->setKeypointMeasurements(k);
  FrameId id;
  generateId(&id);
  f->setId(id);
  return f;
}
struct Model {
  struct Slot { bool set = false; int time = 0, keypoints = 0; bool raw = false, valid = true; FrameId id; };
  std::vector<Slot> slots;
  int rig = -1;  // which of the rigs; -1: none
};
void verify(Ctx& c, const VisualNFrame& f, const Model& m, const NCamera::Ptr* rigs, const char* what) {
  if (c.replaying()) return;
  const size_t n = m.slots.size();
  c.check(f.getNumFrames() == n, "count", "%s: %zu frames instead of %zu", what, f.getNumFrames(), n);
  bool all = true, raws = true;
  int64_t lo = 1 << 30, hi = -(1 << 30);
  for (size_t i = 0; i < n; ++i) {
    const Model::Slot& s = m.slots[i];
    all &= s.set;
    raws &= s.raw;
    c.check(f.isFrameSet(i) == s.set && (f.getFrameShared(i) != nullptr) == s.set, "set", "%s: frame %zu %s", what, i, s.set ? "is missing" : "is there");
    if (!s.set) {
      c.check(c.aborts([&] { (void)f.getFrame(i); }) && c.aborts([&] { (void)f.isFrameValid(i); }), "unset", "%s: frame %zu is returned although it is not set", what, i);
      continue;
    }
    lo = std::min<int64_t>(lo, s.time);
    hi = std::max<int64_t>(hi, s.time);
    c.check(f.getFrame(i).getId() == s.id && f.getFrame(i).getTimestampNanoseconds() == s.time && (int)f.getFrame(i).getNumKeypointMeasurements() == s.keypoints &&
                f.getFrame(i).hasRawImage() == s.raw && f.isFrameValid(i) == s.valid && f.getFrameShared(i).get() == &f.getFrame(i), "frame", "%s: frame %zu is another one", what, i);
    if (m.rig >= 0) c.check(f.getFrame(i).getCameraGeometry() == rigs[m.rig]->getCameraShared(i), "camera", "%s: camera of frame %zu", what, i);
  }
  c.check(f.areAllFramesSet() == all, "all-set", "%s: areAllFramesSet()", what);
  if (all) c.check(f.hasRawImagesInAllFrames() == raws, "raw", "%s: hasRawImagesInAllFrames()", what);
  if (lo <= hi) c.check(f.getMinTimestampNanoseconds() == lo && f.getMaxTimestampNanoseconds() == hi, "times", "%s: times %lld to %lld instead of %lld to %lld", what,
                        (long long)f.getMinTimestampNanoseconds(), (long long)f.getMaxTimestampNanoseconds(), (long long)lo, (long long)hi);
  else c.check(c.aborts([&] { (void)f.getMinTimestampNanoseconds(); }) && c.aborts([&] { (void)f.getMaxTimestampNanoseconds(); }), "no-times", "%s: a time although no frame is set", what);
  for (size_t i : {n, n + 1, (size_t)-1})
    c.check(c.aborts([&] { (void)f.isFrameSet(i); }) && c.aborts([&] { (void)f.getFrame(i); }) && c.aborts([&] { (void)f.getFrameShared(i); }) && c.aborts([&] { (void)f.isFrameValid(i); }), "bounds", "%s: frame %zu of %zu", what, i, n);
  if (m.rig >= 0) {
    const NCamera& r = *rigs[m.rig];
    c.check(&f.getNCamera() == &r && f.getNCameraShared().get() == &r && f.getNumCameras() == n, "rig", "%s: rig", what);
    for (size_t i = 0; i < n; ++i)
      c.check(&f.getCamera(i) == &r.getCamera(i) && f.getCameraId(i) == r.getCameraId(i) && f.hasCameraWithId(r.getCameraId(i)) && f.getCameraIndex(r.getCameraId(i)) == i && f.get_T_C_B(i).getPosition() == r.get_T_C_B(i).getPosition(),
              "rig-camera", "%s: camera %zu of the rig", what, i);
    c.check(c.aborts([&] { (void)f.getCamera(n); }) && c.aborts([&] { (void)f.get_T_C_B(n); }), "rig-bounds", "%s: camera %zu", what, n);
  } else c.check(c.aborts([&] { (void)f.getNCamera(); }) && c.aborts([&] { (void)f.getNumCameras(); }) && c.aborts([&] { (void)f.getCamera(0); }), "no-rig", "%s: a rig although there is none", what);
}
std::string key(const Model& m) {
  std::string s = std::to_string(m.rig);
  for (auto& x : m.slots) s += seqx::fmt("|%d %d %d %d %d", x.set, x.time, x.keypoints, x.raw, x.valid);
  return s;
}
void ops(Ctx& c) {
  const int n = c.range(1, c.thorough ? 3 : 2, "cameras");
  NCamera::Ptr rigs[4] = {rig(n, 0), rig(n, 1), rig(n + 1, 2), n > 1 ? rig(n - 1, 3) : rig(3, 3)};
  Model m;
  m.slots.resize(n);
  VisualNFrame::Ptr f;
  NFramesId id;
  generateId(&id);
  switch (c.choose(3, "constructor")) {
    case 0: f.reset(new VisualNFrame(id, n)); break;
    case 1: f.reset(new VisualNFrame(id, rigs[0])); m.rig = 0; break;
    default: f.reset(new VisualNFrame(rigs[0])); m.rig = 0; f->setId(id); break;
  }
  verify(c, *f, m, rigs, "a new nframe");
  const int depth = c.thorough ? 6 : 5;
  for (int d = 0; d < depth; ++d) {
    c.seen(seqx::fmt("%d %d ", n, depth - d) + key(m));
    const int op = c.choose(8, "op");
    if (op == 0) {
      const int i = c.choose(n + 1, "index"), t = c.pick({5, -3, 8}, "time");
      const int cam = c.choose(3, "camera");  // of this place, of another rig, none
      Camera::ConstPtr g;
      if (cam == 0) g = m.rig >= 0 && i < n ? rigs[m.rig]->getCameraShared(i) : rigs[0]->getCameraShared(0);
      else if (cam == 1) g = m.rig >= 0 && n > 1 && i < n ? rigs[m.rig]->getCameraShared((i + 1) % n) : rigs[2]->getCameraShared(0);
      VisualFrame::Ptr x = frame(g, t, t == 5 ? 2 : 0);
      if (t == 8) { x->invalidate(); x->setRawImage(cv::Mat(2, 2, CV_8UC1, cv::Scalar(1))); }
      const bool bad = i == n || (m.rig >= 0 && cam != 0);
      c.check(c.aborts([&] { f->setFrame(i, x); }) == bad, "set-frame", bad ? "a frame of another camera, or outside, is accepted" : "a frame is refused");
      c.check(c.aborts([&] { f->setFrame(0, nullptr); }), "set-null", "an absent frame is accepted");
      if (bad) { verify(c, *f, m, rigs, "after a refused frame"); throw seqx::Pruned(); }
      m.slots[i].set = true; m.slots[i].time = t; m.slots[i].keypoints = t == 5 ? 2 : 0; m.slots[i].raw = t == 8; m.slots[i].valid = t != 8; m.slots[i].id = x->getId();
      c.check(f->getFrameShared(i) == x, "shared", "another frame than the one set");
    } else if (op == 1) {
      const int i = c.choose(n + 1, "index");
      if (i == n) { c.check(c.aborts([&] { f->unSetFrame(i); }), "unset-bounds", "frame %d is unset", i); throw seqx::Pruned(); }
      f->unSetFrame(i);
      m.slots[i] = Model::Slot();
    } else if (op == 2) {
      const int r = c.choose(4, "rig");
      if (r >= 2) { c.check(c.aborts([&] { f->setNCameras(rigs[r]); }), "set-rig-size", "a rig of another size is accepted"); throw seqx::Pruned(); }
      f->setNCameras(rigs[r]);
      m.rig = r;
    } else if (op == 3) {  // copy, then spoil the original
      VisualNFrame::Ptr g;
      if (c.flag("assign")) { g.reset(new VisualNFrame(NFramesId(), 7)); *g = *f; } else g.reset(new VisualNFrame(*f));
      c.check(g->getId() == id && *g == *f && *f == *g && g->compareWithoutCameraSystem(*f), "copy", "a copy of an nframe differs");
      for (int i = 0; i < n; ++i) if (m.slots[i].set) {
        c.check(g->getFrameShared(i) != f->getFrameShared(i), "copy-shared", "a copy shares frame %d", i);
        f->getFrameShared(i)->setTimestampNanoseconds(77);
        c.check(!(*g == *f) && !(*f == *g) && !g->compareWithoutCameraSystem(*f), "copy-differs", "nframes with different frames are equal");
        f->unSetFrame(i);
        c.check(!(*g == *f) && !(*f == *g) && !g->compareWithoutCameraSystem(*f), "copy-unset", "nframes with and without a frame are equal");
      }
      f = g;
    } else if (op == 4) {
      VisualNFrame& self = *f;
      *f = self;
    } else if (op == 5) {
      for (auto& s : m.slots) if (!s.set) throw seqx::Pruned();
      if (c.flag("raw")) {
        for (auto& s : m.slots) if (!s.raw) throw seqx::Pruned();
        f->releaseRawImagesOfAllFrames();
        for (auto& s : m.slots) s.raw = false;
      } else {
        f->clearKeypointChannelsOfAllFrames();
        for (auto& s : m.slots) s.keypoints = 0;
      }
    } else if (op == 6) {  // equality
      VisualNFrame g(*f);
      bool same = true, nocam = true;
      switch (c.choose(3, "what")) {
        case 0: { NFramesId o; generateId(&o); g.setId(o); same = nocam = false; break; }
        case 1: g = VisualNFrame(id, n + 1); same = nocam = false; break;
        default: {
          if (m.rig < 0) throw seqx::Pruned();
          g.setNCameras(rigs[1 - m.rig]);
          same = false;
          break;
        }
      }
      c.check((g == *f) == same && (*f == g) == same && g.compareWithoutCameraSystem(*f) == nocam && f->compareWithoutCameraSystem(g) == nocam, "equality", "equality of two nframes");
    } else {
      VisualNFrame::Ptr e = VisualNFrame::createEmptyTestVisualNFrame(rigs[0], 5);
      c.check(e->getNumFrames() == (size_t)n && e->areAllFramesSet() && e->getMinTimestampNanoseconds() == 5 && e->getMaxTimestampNanoseconds() == 5 && e->getNCameraShared() == rigs[0], "empty", "the empty test nframe");
      throw seqx::Pruned();
    }
    verify(c, *f, m, rigs, "after an operation");
    c.check(f->getId() == id, "id", "another id");
  }
}
// Tracks: every sequence of observations added and removed.
void tracks(Ctx& c) {
  NCamera::Ptr r = rig(2, 0);
  std::vector<VisualNFrame::Ptr> fs;
  const double u[4][2] = {{-4, -2}, {-1, -8}, {3, 5}, {0, 0}};
  for (int k = 0; k < 2; ++k) {
    VisualNFrame::Ptr f(new VisualNFrame(r));
    for (int i = 0; i < 2; ++i) {
      VisualFrame::Ptr x = frame(r->getCameraShared(i), k + 1, 0);
      Eigen::Matrix2Xd m(2, 2);
      for (int j = 0; j < 2; ++j) m.col(j) << u[2 * j + i][0] + k, u[2 * j + i][1] - k;
      x->setKeypointMeasurements(m);
      Eigen::Matrix<unsigned char, Eigen::Dynamic, Eigen::Dynamic> dsc(3, 2);
      dsc << 1, 2, 3, 4, 5, 6;
      x->setDescriptors(dsc);
      if (k == 1 && i == 1) continue;  // one frame is not set
      f->setFrame(i, x);
    }
    fs.push_back(f);
  }
  FeatureTrack t(c.pick({(size_t)0, (size_t)7}, "id"));
  struct Obs { int f, i, k; };
  std::vector<Obs> m;
  const int depth = c.thorough ? 6 : 5;
  for (int d = 0; d < depth; ++d) {
    std::string s = std::to_string(depth - d);
    for (auto& o : m) s += seqx::fmt(" %d%d%d", o.f, o.i, o.k);
    const int op = c.choose(2, "op");
    if (op == 0) {
      const int f = c.choose(3, "nframe"), i = c.choose(3, "frame"), k = c.choose(3, "keypoint");
      const bool bad = f == 2 || i == 2 || k == 2 || (f == 1 && i == 1);
      c.check(c.aborts([&] { t.addKeypointObservationAtBack(f < 2 ? fs[f] : nullptr, i, k); }) == bad, "add", bad ? "an observation that does not exist is added" : "an observation is refused");
      if (!bad) m.push_back({f, i, k}); else c.check(t.getTrackLength() == m.size(), "add-refused", "a refused observation changes the track");
      if (bad && d + 1 < depth) throw seqx::Pruned();
    } else {
      if (m.empty()) throw seqx::Pruned();
      t.popLastKeypointIdentifier();
      m.pop_back();
    }
    if (c.replaying()) continue;
    c.check(t.getTrackLength() == m.size() && t.hasObservations() == !m.empty() && t.getKeypointIdentifiers().size() == m.size(), "length", "track of %zu observations instead of %zu", t.getTrackLength(), m.size());
    if (m.empty()) {
      c.check(c.aborts([&] { (void)t.getFirstKeypointIdentifier(); }) && c.aborts([&] { (void)t.getLastKeypointIdentifier(); }) && c.aborts([&] { (void)t.getDiagonalSqOfDisparityBoundingBox(); }), "empty", "observations of an empty track");
      continue;
    }
    Eigen::Vector2d lo(1e9, 1e9), hi(-1e9, -1e9);
    size_t n = 0;
    for (auto& o : m) {
      const KeypointIdentifier& k = t.getKeypointIdentifiers()[n++];
      c.check(&k.getNFrame() == fs[o.f].get() && (int)k.getFrameIndex() == o.i && (int)k.getKeypointIndex() == o.k && &k.getFrame() == &fs[o.f]->getFrame(o.i) && k.getNFrameId() == fs[o.f]->getId() &&
                  k.getFrameId() == fs[o.f]->getFrame(o.i).getId() && k.getCamera() == r->getCameraShared(o.i) && &k.getNCamera() == r.get() && k.get_T_C_B().getPosition() == r->get_T_C_B(o.i).getPosition(), "observation", "observation %zu is another one", n - 1);
      const Eigen::Vector2d p(u[2 * o.k + o.i][0] + o.f, u[2 * o.k + o.i][1] - o.f);
      c.check(k.getKeypointMeasurement() == p && k.getDescriptor()[0] == 1 + o.k && k.getDescriptor()[2] == 5 + o.k, "keypoint", "keypoint of observation %zu", n - 1);
      lo = lo.cwiseMin(p);
      hi = hi.cwiseMax(p);
    }
    const double want = (hi - lo).squaredNorm();
    c.check(t.getDiagonalSqOfDisparityBoundingBox() == want, "diagonal", "diagonal %g instead of %g", t.getDiagonalSqOfDisparityBoundingBox(), want);
    c.check(&t.getFirstKeypointIdentifier() == &t.getKeypointIdentifiers().front() && &t.getLastKeypointIdentifier() == &t.getKeypointIdentifiers().back(), "ends", "first or last observation");
    FeatureTrack s2(t), s3(9);
    s2.popLastKeypointIdentifier();
    c.check(s2 < t && t > s2 && !(t < s2) && !(t < t) && s3 < t && t.getTrackLength() == m.size(), "order", "tracks are ordered by length");
  }
}
}  // namespace

int main(int argc, char** argv) {
  std::vector<seqx::Scenario> v;
  v.push_back({"ops", "all nframes within 5 (6) operations for 1-2 (3) cameras", ops, 3});
  v.push_back({"tracks", "all sequences of 5 (6) observations added and removed", tracks, 2});
  return seqx::run_main(argc, argv, "S14", v);
}
