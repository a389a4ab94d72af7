// Track identifiers written from matches, and OpenCV keypoints put into frames.
#define SEQX_MAIN
#include "seqx.h"

#include <map>
#include <memory>
#include <set>
#include <string>

#include <aslam/common/memory.h>
#include <aslam/frames/visual-frame.h>
#include <aslam/matcher/match.h>
#include <aslam/tracker/track-manager.h>
#include <aslam/tracker/tracking-helpers.h>

using seqx::Ctx;
using namespace aslam;
namespace {
typedef std::vector<int> Ids;
struct Model {
  std::vector<Ids> ids;       // per frame
  std::vector<bool> channel;  // has the frame a channel already
  std::set<int> used;
};
std::string key(const Model& m) {  // track ids up to renaming
  std::map<int, int> name;
  std::string s;
  for (size_t f = 0; f < m.ids.size(); ++f) {
    s += m.channel[f] ? "|" : "?";
    for (int i : m.ids[f]) {
      if (i >= 0 && !name.count(i)) { const int n = name.size(); name[i] = n; }
      s += seqx::fmt(" %d", i < 0 ? -1 : name[i]);
    }
  }
  return s;
}
void verify(Ctx& c, const Model& m, const std::vector<VisualFrame::Ptr>& f) {
  if (c.replaying()) return;
  for (size_t i = 0; i < f.size(); ++i) {
    c.check(f[i]->hasTrackIds() == m.channel[i], "channel", "frame %zu: track ids %s", i, m.channel[i] ? "are missing" : "are there");
    if (!m.channel[i]) continue;
    const Eigen::VectorXi& v = f[i]->getTrackIds();
    c.check(v.size() == (int)m.ids[i].size(), "size", "frame %zu: %d track ids for %zu keypoints", i, (int)v.size(), m.ids[i].size());
    for (size_t k = 0; k < m.ids[i].size(); ++k) c.check(v(k) == m.ids[i][k], "id", "frame %zu keypoint %zu: track id %d instead of %d", i, k, v(k), m.ids[i][k]);
  }
}
// One list of matches on the model: what must happen.  New tracks are named -2, -3, ... until the ids are known.
bool apply(Model* m, int a, int b, const std::vector<std::pair<int, int>>& list) {
  std::set<int> as, bs;
  int fresh = -2;
  for (auto& p : list) {
    if (p.first < 0 || p.second < 0 || p.first >= (int)m->ids[a].size() || p.second >= (int)m->ids[b].size()) return false;
    if (!as.insert(p.first).second || !bs.insert(p.second).second) return false;
    int &x = m->ids[a][p.first], &y = m->ids[b][p.second];
    if (x < 0 && y < 0) x = y = fresh--;
    else if (x < 0) x = y;
    else if (y < 0) y = x;
    else if (x != y) return false;
  }
  return true;
}
void matches(Ctx& c, int n_frames, int n_keypoints, int depth, bool more) {
  TrackManager::resetIdProvider();
  Model m;
  std::vector<VisualFrame::Ptr> f;
  for (int i = 0; i < n_frames; ++i) {
    VisualFrame::Ptr x(new VisualFrame);
    const int n = i == 0 ? c.choose(n_keypoints + 1, "keypoints of the first") : n_keypoints;
    x->setKeypointMeasurements(Eigen::Matrix2Xd::Zero(2, n));
    Ids ids(n, -1);
    const int pre = i < 2 ? c.choose(3, "channel") : 0;
    if (pre == 2) for (int k = 0; k < n; ++k) ids[k] = k ? 500 + k : -7;  // an id below zero is no track
    if (pre) {
      Eigen::VectorXi v(n);
      for (int k = 0; k < n; ++k) v(k) = ids[k];
      x->setTrackIds(v);
    }
    m.ids.push_back(ids);
    m.channel.push_back(pre != 0);
    f.push_back(x);
  }
  SimpleTrackManager manager[2];
  for (int d = 0; d < depth; ++d) {
    c.seen(seqx::fmt("%d ", depth - d) + key(m));
    const int a = c.choose(n_frames, "A"), b = (a + 1 + c.choose(n_frames - 1, "B")) % n_frames;
    FrameToFrameMatches list;
    std::vector<std::pair<int, int>> plain;
    const int len = c.choose(more ? 4 : 3, "matches");
    const int na = m.ids[a].size(), nb = m.ids[b].size();
    for (int i = 0; i < len; ++i) {
      const int p = c.choose(na + 2, "a") - 1, q = c.choose(nb + 2, "b") - 1;
      plain.emplace_back(p, q);
      list.emplace_back(p, q);
    }
    Model next = m;
    const bool ok = apply(&next, a, b, plain);
    next.channel[a] = next.channel[b] = true;
    c.check(c.aborts([&] { manager[d % 2].applyMatchesToFrames(list, f[a].get(), f[b].get()); }) == !ok, "accept",
            ok ? "matches are refused" : "matches that are not exclusive, outside or between two tracks are accepted");
    if (!ok) throw seqx::Pruned();
    std::map<int, int> fresh;
    for (int side : {a, b}) for (size_t k = 0; k < next.ids[side].size(); ++k) {
      int& id = next.ids[side][k];
      if (id > -2 || id == -7) continue;  // -7: below zero before and not matched
      const int got = f[side]->getTrackIds()(k);
      c.check(got >= 0 && (!fresh.count(id) || fresh[id] == got), "new-id", "track id %d of a new track", got);
      if (!fresh.count(id)) c.check(m.used.insert(got).second, "reused", "track id %d for two tracks", got);
      fresh[id] = got;
      id = got;
    }
    next.used = m.used;
    m = next;
    for (const FrameToFrameMatch& x : list) c.check(f[a]->getTrackIds()(x.getKeypointIndexInFrameA()) == f[b]->getTrackIds()(x.getKeypointIndexInFrameB()), "same", "matched keypoints with different track ids");
    verify(c, m, f);
  }
}
void channel(Ctx& c) {
  VisualFrame f;
  const int n = c.choose(3, "keypoints"), pre = c.choose(3, "channel");
  f.setKeypointMeasurements(Eigen::Matrix2Xd::Zero(2, n));
  if (pre) f.setTrackIds(Eigen::VectorXi::Constant(n, pre == 1 ? 4 : -3));
  Eigen::VectorXi* v = TrackManager::createAndGetTrackIdChannel(&f);
  c.check(v == f.getTrackIdsMutable() && v->size() == n, "channel", "%d track ids for %d keypoints", (int)v->size(), n);
  for (int i = 0; i < n; ++i) c.check((*v)(i) == (pre == 0 ? -1 : pre == 1 ? 4 : -3), "content", "track id %d", (*v)(i));
  c.check(c.aborts([&] { TrackManager::createAndGetTrackIdChannel(nullptr); }), "null", "no frame accepted");
  TrackManager::resetIdProvider();
  // ids of different providers and after a reset
  ThreadSafeIdProvider<size_t> p(3), q((size_t)0);
  for (size_t i = 0; i < 3; ++i) c.check(p.getNewId() == 3 + i && q.getNewId() == i, "provider", "identifiers do not count up from the first one");
  p.reset();
  c.check(p.getNewId() == 3 && q.getNewId() == 3, "reset", "identifiers after a reset");
}
// ---- OpenCV keypoints
struct KP { float x, y, response, size, angle; };
void insert(Ctx& c) {
  VisualFrame f;
  struct Row { double u, v, score, scale, angle, unc; int track; std::vector<unsigned char> d; };
  std::vector<Row> rows;
  const int widths[] = {1, 3, 16};
  int width = -1;
  const int depth = c.thorough ? 3 : 2;
  int serial = 0;
  const int channels = c.choose(3, "channels in the frame");
  if (channels == 2) { f.clearKeypointChannels(); width = 0; }  // all of them, empty
  else if (channels) {
    f.setKeypointMeasurements(Eigen::Matrix2Xd(2, 0));
    f.setTrackIds(Eigen::VectorXi(0));
    f.setKeypointScores(Eigen::VectorXd(0));
  }
  for (int d = 0; d < depth; ++d) {
    const bool additional = c.flag("additional");
    const int n = c.choose(3, "keypoints"), w = c.pick({1, 3, 16}, "bytes");
    const int damage = c.choose(7, "damage");  // 0: none
    const double unc = damage == 1 ? 0.0 : damage == 2 ? -1.0 : 0.5 + d;
    std::vector<cv::KeyPoint> kps;
    for (int i = 0; i < n; ++i) {
      cv::KeyPoint k;
      const int s = serial++;
      k.pt = cv::Point2f(s + 0.25f, -s - 0.5f);
      k.response = 100 + s;
      k.size = 200 + s;
      k.angle = 300 + s;
      kps.push_back(k);
    }
    // The descriptors lie inside a larger buffer of other bytes.
    const int mat_rows = n + (damage == 3 ? 1 : 0);
    cv::Mat big(mat_rows + 2, w + (damage == 4 ? 2 : 0), damage == 5 ? CV_8UC2 : damage == 6 ? CV_32FC1 : CV_8UC1, cv::Scalar::all(0xEE));
    cv::Mat dsc = damage == 4 ? big(cv::Rect(1, 1, w, mat_rows)) : big.rowRange(1, 1 + mat_rows);
    if (damage != 5 && damage != 6) for (int i = 0; i < mat_rows; ++i) for (int b = 0; b < w; ++b) dsc.at<unsigned char>(i, b) = (unsigned char)(17 * (serial - n + i) + b + 1);
    const bool continuous = dsc.isContinuous();
    // After the first call the frame has all channels; the first kind of call wants it empty.
    bool ok = unc > 0 && mat_rows == n && dsc.type() == CV_8UC1 && continuous;
    if (additional) ok = ok && width >= 0 && (w == width || rows.empty() || n == 0);
    else ok = ok && rows.empty();
    if (n == 0 && !continuous) throw seqx::Pruned();  // OpenCV's idea of an empty matrix
    const bool refused = c.aborts([&] {
      if (additional) insertAdditionalCvKeypointsAndDescriptorsToVisualFrame(kps, dsc, unc, &f);
      else insertCvKeypointsAndDescriptorsIntoEmptyVisualFrame(kps, dsc, unc, &f);
    });
    c.check(refused == !ok, "accept", "%s: %d keypoints, %d descriptors of %d bytes (frame: %zu keypoints, %d bytes), uncertainty %g, %s", ok ? "refused" : "accepted", n, mat_rows, w, rows.size(), width, unc,
            continuous ? "continuous" : "not continuous");
    if (refused) throw seqx::Pruned();
    if (n || width < 0) width = w;
    for (int i = 0; i < n; ++i) {
      Row r{kps[i].pt.x, kps[i].pt.y, kps[i].response, kps[i].size, kps[i].angle, unc, -1, {}};
      for (int b = 0; b < w; ++b) r.d.push_back(dsc.at<unsigned char>(i, b));
      rows.push_back(r);
    }
    big.setTo(cv::Scalar::all(0x55));  // the frame has copies
    const int N = rows.size();
    c.check((int)f.getNumKeypointMeasurements() == N && f.getKeypointScores().size() == N && f.getKeypointScales().size() == N && f.getKeypointOrientations().size() == N &&
                f.getKeypointMeasurementUncertainties().size() == N && f.getTrackIds().size() == N && f.getDescriptors().cols() == N && (N == 0 || f.getDescriptors().rows() == width),
            "sizes", "channels of different sizes for %d keypoints", N);
    for (int i = 0; i < N; ++i) {
      const Row& r = rows[i];
      c.check(f.getKeypointMeasurement(i)(0) == r.u && f.getKeypointMeasurement(i)(1) == r.v && f.getKeypointScore(i) == r.score && f.getKeypointScale(i) == r.scale && f.getKeypointOrientation(i) == r.angle &&
                  f.getKeypointMeasurementUncertainty(i) == r.unc && f.getTrackId(i) == r.track, "values", "channels of keypoint %d of %d", i, N);
      for (int b = 0; b < width; ++b) c.check(f.getDescriptor(i)[b] == r.d[b], "descriptor", "byte %d of descriptor %d of %d", b, i, N);
    }
    // a track started on what is there stays with its keypoint
    if (N) { (*f.getTrackIdsMutable())(N - 1) = 40 + d; rows[N - 1].track = 40 + d; }
  }
}
}  // namespace

int main(int argc, char** argv) {
  std::vector<seqx::Scenario> v;
  v.push_back({"matches-2x2", "2 frames of up to 2 keypoints, lists of up to 3 matches, twice", [](Ctx& c) { matches(c, 2, 2, c.thorough ? 3 : 2, true); }, 3});
  v.push_back({"matches-3x2", "3 frames of up to 2 keypoints, lists of up to 2 matches, 3 (4) times", [](Ctx& c) { matches(c, 3, 2, c.thorough ? 4 : 3, false); }, 4});
  v.push_back({"matches-2x3", "2 frames of up to 3 keypoints, a list of up to 3 matches", [](Ctx& c) { matches(c, 2, 3, 1, true); }, 3});
  v.push_back({"channel", "the track id channel and the provider of identifiers", channel, 1});
  v.push_back({"insert", "every sequence of 2 (3) insertions of OpenCV keypoints", insert, 3});
  return seqx::run_main(argc, argv, "S15", v);
}
