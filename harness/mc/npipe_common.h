// VisualNPipeline scenarios shared by C09 and C10: a rig of tiny cameras, a pipeline that does nothing, and the
// sequential model of the synchronization.
#ifndef NPIPE_COMMON_H_
#define NPIPE_COMMON_H_
#include <array>
#include <map>
#include <memory>
#include <string>
#include <thread>
#include <vector>

#include <aslam/cameras/camera-pinhole.h>
#include <aslam/cameras/ncamera.h>
#include <aslam/frames/visual-frame.h>
#include <aslam/frames/visual-nframe.h>
#include <aslam/pipeline/visual-npipeline.h>
#include <aslam/pipeline/visual-pipeline.h>

#include "lin.h"
#include "mcx.h"
#include "npipe_model.h"

namespace np {
typedef lin::History<Model> Hist;

struct Sys;
class Pipe : public aslam::VisualPipeline {
 public:
  Pipe(const aslam::Camera::ConstPtr& c, Sys* s, size_t cam) : aslam::VisualPipeline(c, c, false), s_(s), cam_(cam) {}

 protected:
  void processFrameImpl(const cv::Mat&, aslam::VisualFrame* frame) const override;

 private:
  Sys* s_;
  size_t cam_;
};

struct Sys {
  Hist hist;
  std::vector<int> open_by_thread;  // the insertion a worker has not been seen to finish
  int processed = 0, accepted = 0;
  unsigned char pixel = 7;
  std::vector<aslam::Camera::Ptr> cams;
  aslam::NCamera::Ptr rig;
  std::unique_ptr<aslam::VisualNPipeline> p;

  Sys(size_t ncams, size_t workers) {
    {
      mcx::Ignore ig;
      open_by_thread.assign(16, -1);
    }
    std::vector<aslam::VisualPipeline::Ptr> pipes;
    aslam::TransformationVector T(ncams);
    for (size_t i = 0; i < ncams; ++i) {
      aslam::CameraId id;
      aslam::generateId(&id);
      aslam::PinholeCamera::Ptr c(new aslam::PinholeCamera(1.0, 1.0, 0.5, 0.5, 1u, 1u));
      c->setId(id);
      cams.push_back(c);
      pipes.push_back(aslam::VisualPipeline::Ptr(new Pipe(c, this, i)));
    }
    aslam::NCameraId id;
    aslam::generateId(&id);
    rig.reset(new aslam::NCamera(id, T, cams, "rig"));
    p.reset(new aslam::VisualNPipeline(workers, pipes, rig, rig, kTol));
  }
  Model initial() const {
    Model m;
    m.cams = cams.size();
    return m;
  }
  cv::Mat image() { return cv::Mat(1, 1, CV_8UC1, &pixel); }

  // In the worker: from here on the image may be added to the nframes.
  void inserting(size_t cam, int64_t t) {
    mcx::visible(&hist, "insert");
    mcx::Ignore ig;
    ++processed;
    int& o = open_by_thread[mcx::self()];
    if (o >= 0) hist.close(o);
    o = hist.open("image " + std::to_string(cam) + "@" + std::to_string(t),
                  [cam, t](Model& m) { m.image(cam, t); return true; });
  }
  void all_inserted() {
    mcx::visible(&hist, "all inserted");
    mcx::Ignore ig;
    for (int& o : open_by_thread) {
      if (o >= 0) hist.close(o);
      o = -1;
    }
  }
  // What a user sees of a result.
  Set look(const std::shared_ptr<aslam::VisualNFrame>& f) {
    Set s;
    if (!f) return s;
    MCX_CHECK(f->getNumFrames() == cams.size(), "an nframe of %zu frames was delivered", f->getNumFrames());
    MCX_CHECK(f->getNCameraShared().get() == rig.get(), "an nframe of another rig was delivered");
    for (size_t i = 0; i < cams.size(); ++i) {
      MCX_CHECK(f->isFrameSet(i), "an incomplete nframe was delivered");
      const aslam::VisualFrame& fr = f->getFrame(i);
      MCX_CHECK(fr.getCameraGeometry().get() == cams[i].get(), "frame %zu of an nframe is of another camera", i);
      mcx::Ignore ig;
      s.push_back(fr.getTimestampNanoseconds());
    }
    mcx::Ignore ig;
    for (int64_t a : s) for (int64_t b : s)
      MCX_CHECK(std::abs(a - b) <= 2 * kTol, "frames of times %ld and %ld were synchronized with a tolerance of %ld", (long)a, (long)b, (long)kTol);
    return s;
  }
  static std::string text(const Set& s) {
    std::string t;
    for (int64_t x : s) t += (t.empty() ? "" : "/") + std::to_string(x);
    return t.empty() ? "none" : t;
  }
  Set get_next() {
    Set s;
    hist.run("getNext", [&] {
      s = look(p->getNext());
      mcx::Ignore ig;
      Set r = s;
      return [r](Model& m) { return m.next(r); };
    });
    return s;
  }
  Set get_latest() {
    Set s;
    hist.run("getLatestAndClear", [&] {
      s = look(p->getLatestAndClear());
      mcx::Ignore ig;
      Set r = s;
      return [r](Model& m) { return m.latest(r); };
    });
    return s;
  }
  void counts(bool both) {
    hist.run("getNumFramesComplete", [&] {
      const size_t n = p->getNumFramesComplete();
      return [n](Model& m) { return m.completed.size() == n; };
    });
    if (both) hist.run("getNumFramesProcessing", [&] {
      const size_t n = p->getNumFramesProcessing();
      return [n](Model& m) { return m.processing.size() == n; };
    });
  }
};

inline void Pipe::processFrameImpl(const cv::Mat& image, aslam::VisualFrame* frame) const {
  MCX_CHECK(image.data == &s_->pixel, "the pipeline received another image");
  s_->inserting(cam_, frame->getTimestampNanoseconds());
}

inline mcx::Bounds B(int pre, int spur = 0) {
  mcx::Bounds b;
  b.preemptions = pre;
  b.spurious = spur;
  b.timeouts = 0;
  b.max_steps = 60000;
  return b;
}
}  // namespace np
#endif
