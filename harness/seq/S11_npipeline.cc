// VisualNPipeline, one worker, one operation after the other: every sequence of images and reads against the model.
#define SEQX_MAIN
#include "seqx.h"

#include <array>
#include <memory>
#include <string>

#include <aslam/cameras/camera-pinhole.h>
#include <aslam/cameras/ncamera.h>
#include <aslam/frames/visual-frame.h>
#include <aslam/frames/visual-nframe.h>
#include <aslam/pipeline/visual-npipeline.h>
#include <aslam/pipeline/visual-pipeline-null.h>

#include "npipe_model.h"

using seqx::Ctx;
namespace {
// Shifts the time of its images, as a timestamp corrector would.
class Pipe : public aslam::VisualPipeline {
 public:
  Pipe(const aslam::Camera::ConstPtr& c, int64_t shift, bool copy) : aslam::VisualPipeline(c, c, copy), shift_(shift) {}
 protected:
  void processFrameImpl(const cv::Mat&, aslam::VisualFrame* f) const override { f->setTimestampNanoseconds(f->getTimestampNanoseconds() + shift_); }
  int64_t shift_;
};

struct Sys {
  std::vector<aslam::Camera::Ptr> in, out;
  aslam::NCamera::Ptr rig, rig_out;
  std::unique_ptr<aslam::VisualNPipeline> p;
  static aslam::NCamera::Ptr make(size_t n, std::vector<aslam::Camera::Ptr>* cams) {
    for (size_t i = 0; i < n; ++i) {
      aslam::CameraId id;
      aslam::generateId(&id);
      aslam::PinholeCamera::Ptr c(new aslam::PinholeCamera(1.0, 1.0, 0.5, 0.5, 1u, 1u));
      c->setId(id);
      cams->push_back(c);
    }
    aslam::NCameraId id;
    aslam::generateId(&id);
    return aslam::NCamera::Ptr(new aslam::NCamera(id, aslam::TransformationVector(n), *cams, "rig"));
  }
  Sys(size_t n, int64_t shift) {
    rig = make(n, &in);
    std::vector<aslam::VisualPipeline::Ptr> v;
    for (size_t i = 0; i < n; ++i) v.push_back(aslam::VisualPipeline::Ptr(new Pipe(in[i], shift, true)));
    p.reset(new aslam::VisualNPipeline(1, v, rig, rig, np::kTol));
  }
};

struct Ops {
  size_t cams;
  std::vector<int64_t> times;
  int64_t shift;
  int depth;
  bool prune;
  size_t max_queue;
};

void run(Ctx& c, const Ops& o) {
  Sys s(o.cams, o.shift);
  np::Model m;
  m.cams = o.cams;
  std::vector<int64_t> time;  // of image n
  int n = -1;
  // with the pruned search, a state is the model's state and the number of operations left
  auto key = [&](int left) {
    std::string k = std::to_string(left);
    for (int w = 0; w < 2; ++w) {
      k += w ? "|" : "#";
      for (auto& e : w ? m.completed : m.processing) {
        k += std::to_string(e.first) + ":";
        for (int64_t i : e.second) k += (i < 0 ? "-" : std::to_string(time[i])) + ",";
      }
    }
    return k;
  };
  auto feed_model = [&](size_t cam, int64_t t) {
    // a set that was completed and not fetched, and another one of the same time: not specified
    np::Model x = m;
    x.image(cam, t, n);
    for (auto& e : m.completed) {
      // would the new image open or complete an nframe with the time of a completed one?
      auto it = x.processing.find(e.first);
      if (it != x.processing.end()) throw seqx::Pruned();
      if (x.completed[e.first] != e.second) throw seqx::Pruned();
    }
    if (o.cams == 1 && m.completed.count(t)) throw seqx::Pruned();
    m = x;
  };
  auto look = [&](const std::shared_ptr<aslam::VisualNFrame>& f, const np::Set& want, const char* what) {
    if (want.empty()) { c.check(!f, "empty", "%s returned an nframe although none is complete", what); return; }
    c.check(f != nullptr, "missing", "%s returned nothing although an nframe is complete", what);
    c.check(f->getNumFrames() == o.cams && f->getNCameraShared().get() == s.rig.get(), "rig", "%s: another rig", what);
    for (size_t i = 0; i < o.cams; ++i) {
      c.check(f->isFrameSet(i), "incomplete", "%s returned an incomplete nframe", what);
      const aslam::VisualFrame& fr = f->getFrame(i);
      c.check(fr.getTimestampNanoseconds() == time[want[i]], "frame", "%s: frame %zu has the time %ld instead of %ld", what, i, (long)fr.getTimestampNanoseconds(), (long)time[want[i]]);
      c.check(fr.getCameraGeometry().get() == s.in[i].get() && fr.getRawCameraGeometry().get() == s.in[i].get(), "camera", "%s: frame %zu is of another camera", what, i);
      c.check(fr.getRawImage().rows == 1 && fr.getRawImage().cols == 1 && fr.getRawImage().at<uchar>(0, 0) == (want[i] & 255), "image", "%s: frame %zu holds another image", what, i);
    }
  };
  for (int d = 0; d < o.depth; ++d) {
    if (o.prune) c.seen(key(o.depth - d));
    const int nt = o.times.size(), ni = nt * o.cams;
    const int op = c.choose(ni + 2 + (o.max_queue ? 2 : 0), "op");
    if (op < ni) {
      const size_t cam = op / nt;
      const int64_t t = o.times[op % nt];
      ++n;
      time.push_back(t + o.shift);
      {
        cv::Mat im(1, 1, CV_8UC1, cv::Scalar(n & 255));
        const int how = o.max_queue ? c.choose(m.completed.size() < o.max_queue ? 3 : 2, "how") : 0;
        if (how == 0) s.p->processImage(cam, im, t);
        else if (how == 1) {
          const bool full = m.completed.size() >= o.max_queue;
          const bool dropped = s.p->processImageNonBlockingDroppingOldestNFrameIfFull(cam, im, t, o.max_queue);
          c.check(dropped == full, "drop-report", "processImageNonBlockingDroppingOldestNFrameIfFull() returned %d with %zu of %zu nframes queued", dropped, m.completed.size(), o.max_queue);
          if (full) m.completed.erase(m.completed.begin());
        } else c.check(s.p->processImageBlockingIfFull(cam, im, t, o.max_queue), "accepted", "processImageBlockingIfFull() refused an image although there is room");
        s.p->waitForAllWorkToComplete();
        im.setTo(cv::Scalar(255 - (n & 255)));  // the pipeline was asked to keep copies
      }
      feed_model(cam, t + o.shift);
    } else {
      const int r = op - ni;
      const np::Set want = m.completed.empty() ? np::Set() : (r % 2 == 0 ? m.completed.begin()->second : m.completed.rbegin()->second);
      std::shared_ptr<aslam::VisualNFrame> f;
      if (r == 0) f = s.p->getNext();
      else if (r == 1) f = s.p->getLatestAndClear();
      else if (want.empty()) throw seqx::Pruned();  // would block
      else if (r == 2) c.check(s.p->getNextBlocking(&f), "blocking", "getNextBlocking() gave up");
      else c.check(s.p->getLatestAndClearBlocking(&f), "blocking", "getLatestAndClearBlocking() gave up");
      look(f, want, r % 2 == 0 ? "getNext()" : "getLatestAndClear()");
      if (r % 2 == 0) m.next(want); else m.latest(want);
    }
    c.check(s.p->getNumFramesComplete() == m.completed.size(), "complete", "%zu nframes are complete instead of %zu", s.p->getNumFramesComplete(), m.completed.size());
    c.check(s.p->getNumFramesProcessing() == m.processing.size(), "processing", "%zu nframes are assembled instead of %zu", s.p->getNumFramesProcessing(), m.processing.size());
  }
  // what is left comes out in order
  int64_t last = INT64_MIN;
  while (!m.completed.empty()) {
    const np::Set want = m.completed.begin()->second;
    look(s.p->getNext(), want, "getNext()");
    c.check(m.completed.begin()->first > last, "order", "not chronological");
    last = m.completed.begin()->first;
    m.next(want);
  }
  c.check(!s.p->getNext(), "rest", "more nframes than there were");
}

void shut(Ctx& c) {
  Sys s(2, 0);
  const int before = c.choose(3, "sets");
  for (int k = 0; k < before; ++k) for (int i = 0; i < 2; ++i) s.p->processImage(i, cv::Mat(1, 1, CV_8UC1, cv::Scalar(k)), 100 + k);
  // 100 and 101 are within the tolerance of each other: fed one after the other, the first is complete when the second starts
  s.p->waitForAllWorkToComplete();
  s.p->shutdown();
  if (c.flag("twice")) s.p->shutdown();
  std::shared_ptr<aslam::VisualNFrame> f;
  c.check(!s.p->getNextBlocking(&f) && !f, "next-after", "getNextBlocking() succeeds after shutdown()");
  c.check(!s.p->getLatestAndClearBlocking(&f) && !f, "latest-after", "getLatestAndClearBlocking() succeeds after shutdown()");
  c.check(!s.p->processImageBlockingIfFull(0, cv::Mat(1, 1, CV_8UC1), 500, 100), "image-after", "processImageBlockingIfFull() succeeds after shutdown()");
  s.p->waitForAllWorkToComplete();
  c.check((int)s.p->getNumFramesComplete() == before && s.p->getNumFramesProcessing() == 0, "kept", "%zu nframes after shutdown() instead of %d", s.p->getNumFramesComplete(), before);
  for (int k = 0; k < before; ++k) {
    f = s.p->getNext();
    c.check(f && f->getFrame(0).getTimestampNanoseconds() == 100 + k, "drain", "nframe %d is lost after shutdown()", k);
  }
}

// Cameras that do not exist, images of another size.
void refuse(Ctx& c) {
  Sys s(2, 0);
  const size_t cam = c.pick({(size_t)0, (size_t)1, (size_t)2, (size_t)3, (size_t)1000, (size_t)-1}, "camera");
  const int rows = c.choose(3, "rows"), cols = c.choose(3, "cols");
  s.p->processImage(cam, cv::Mat(rows, cols, CV_8UC1, cv::Scalar(1)), 100);
  s.p->waitForAllWorkToComplete();
  const bool good = cam < 2 && rows == 1 && cols == 1;
  c.check(s.p->getNumFramesProcessing() == (good ? 1u : 0u), "refuse", "an image of camera %zu and size %dx%d: %zu nframes are assembled", cam, cols, rows, s.p->getNumFramesProcessing());
}

// Construction with parts that do not belong together is refused.
void construct(Ctx& c) {
  std::vector<aslam::Camera::Ptr> a, b, d;
  aslam::NCamera::Ptr rig = Sys::make(2, &a), other = Sys::make(2, &b), three = Sys::make(3, &d);
  const int in = c.choose(4, "input rig"), out = c.choose(4, "output rig"), np_ = c.choose(4, "pipelines"), threads = c.choose(2, "threads"), null = c.flag("null pipeline"), swap = c.flag("swapped");
  const int64_t tol = c.pick({(int64_t)-1, (int64_t)0, (int64_t)5}, "tolerance");
  auto pick = [&](int k) { return k == 0 ? rig : k == 1 ? other : k == 2 ? three : aslam::NCamera::Ptr(); };
  std::vector<aslam::VisualPipeline::Ptr> v;
  for (int i = 0; i < np_; ++i) {
    if (null && i == 1) { v.push_back(nullptr); continue; }
    const int k = swap ? 1 - (i & 1) : i & 1;
    v.push_back(aslam::VisualPipeline::Ptr(new aslam::NullVisualPipeline(rig->getCameraShared(k), false)));
  }
  const bool good = in == 0 && out == 0 && np_ == 2 && threads > 0 && !null && !swap && tol >= 0;
  std::unique_ptr<aslam::VisualNPipeline> p;
  const bool refused = c.aborts([&] { p.reset(new aslam::VisualNPipeline(threads, v, pick(in), pick(out), tol)); });
  c.check(refused != good, "construct", refused ? "a good pipeline is refused" : "a pipeline of parts that do not belong together is accepted");
  if (good) c.check(p->getInputNCameras() == rig && p->getOutputNCameras() == rig && p->getNumFramesComplete() == 0, "getters", "getters");
}
}  // namespace

int main(int argc, char** argv) {
  const int64_t T = np::kTol;
  std::vector<seqx::Scenario> v;
  v.push_back({"all", "every sequence of 4 (5) operations: images of 2 cameras at 5 times around the tolerance, reads", [T](Ctx& c) {
    run(c, Ops{2, {100, 100 + T, 101 + T, 101 + 2 * T, 300}, 0, c.thorough ? 5 : 4, false, 0}); }, 8});
  v.push_back({"deep-near", "all states within 8 (10) operations: 2 cameras, times around the tolerance", [T](Ctx& c) {
    run(c, Ops{2, {100, 100 + T, 101 + T, 101 + 2 * T}, 0, c.thorough ? 10 : 8, true, 0}); }, 4});
  v.push_back({"deep-far", "all states within 8 (10) operations: 2 cameras, 4 distant times", [](Ctx& c) {
    run(c, Ops{2, {100, 200, 300, 400}, 0, c.thorough ? 10 : 8, true, 0}); }, 4});
  v.push_back({"deep-three", "all states within 7 (9) operations: 3 cameras, 3 times, shifted by the pipelines", [](Ctx& c) {
    run(c, Ops{3, {100, 108, 200}, -37, c.thorough ? 9 : 7, true, 0}); }, 4});
  v.push_back({"deep-five", "all states within 7 (9) operations: 2 cameras, 5 distant times, negative and large too", [](Ctx& c) {
    run(c, Ops{2, {-1000000000000ll, 0, 1000000000, 2000000000, 4000000000000000000ll}, 0, c.thorough ? 9 : 7, true, 0}); }, 4});
  v.push_back({"one-camera", "all states within 7 (9) operations of a rig of one camera", [T](Ctx& c) {
    run(c, Ops{1, {100, 100 + T, 101 + T, 300}, 0, c.thorough ? 9 : 7, true, 1}); }, 2});
  v.push_back({"queue-1", "all states within 6 (8) operations with a queue of 1, all ways to feed and to read", [](Ctx& c) {
    run(c, Ops{2, {100, 200, 300}, 0, c.thorough ? 8 : 6, true, 1}); }, 4});
  v.push_back({"queue-2", "all states within 6 (8) operations with a queue of 2, all ways to feed and to read", [](Ctx& c) {
    run(c, Ops{2, {100, 200, 300}, 0, c.thorough ? 8 : 6, true, 2}); }, 4});
  v.push_back({"shutdown", "after shutdown()", shut});
  v.push_back({"refuse", "6 camera indices x 9 image sizes", refuse});
  v.push_back({"construct", "every combination of 4 input and output rigs, 4 numbers of pipelines, thread counts and tolerances", construct});
  return seqx::run_main(argc, argv, "S11", v);
}
