// NCamera: cameras, identifiers, indices and extrinsics stay in step; copies and YAML denote the same rig.
#define SEQX_MAIN
#include "seqx.h"

#include <memory>
#include <string>

#include <aslam/cameras/camera-pinhole.h>
#include <aslam/cameras/camera-unified-projection.h>
#include <aslam/cameras/distortion-fisheye.h>
#include <aslam/cameras/distortion-radtan.h>
#include <aslam/cameras/ncamera.h>

using seqx::Ctx;
using namespace aslam;
namespace {
CameraId cid(int k) {
  CameraId id;
  char h[33];
  snprintf(h, sizeof h, "%032x", 0x100 + k);
  CHECK(id.fromHexString(h));
  return id;
}
Camera::Ptr make(int k) {
  Distortion::UniquePtr d;
  Camera::Ptr c;
  switch (k % 4) {
    case 0: c.reset(new PinholeCamera(100 + k, 200, 30, 40, 64, 48)); break;
    case 1: d = RadTanDistortion::createTestDistortion(); c.reset(new PinholeCamera(100 + k, 201, 31, 41, 65, 49, d)); break;
    case 2: d = FisheyeDistortion::createTestDistortion(); c.reset(new UnifiedProjectionCamera(0.5, 100 + k, 202, 32, 42, 66, 50, d)); break;
    default: c.reset(new UnifiedProjectionCamera(0.75, 100 + k, 203, 33, 43, 67, 51)); break;
  }
  c->setId(cid(k));
  return c;
}
const Quaternion kQ[] = {Quaternion(1, 0, 0, 0), Quaternion(.5, .5, -.5, .5), Quaternion(.6, 0, .8, 0)};
Transformation T(int k) { return Transformation(kQ[k % 3], Position3D(1 + k, 2 * k, -k)); }
double diff(const Transformation& a, const Transformation& b) { return (a.getTransformationMatrix() - b.getTransformationMatrix()).cwiseAbs().maxCoeff(); }

struct Model {
  struct Cam { int id; int kind; bool distorted; int t; };
  std::vector<Cam> cams;
  bool cov = false;
};
// ids < 100 are those of make(); others are looked up in fresh.
struct World {
  std::vector<CameraId> fresh;
  CameraId id(int k) const { return k < 100 ? cid(k) : fresh.at(k - 100); }
};

void verify(Ctx& c, const NCamera& r, const Model& m, const World& w, const char* what) {
  if (c.replaying()) return;
  const size_t n = m.cams.size();
  c.check(r.getNumCameras() == n && r.numCameras() == n && r.getCameraVector().size() == n && r.getTransformationVector().size() == n, "count", "%s: %zu cameras instead of %zu", what, r.getNumCameras(), n);
  std::set<int> in;
  for (size_t i = 0; i < n; ++i) {
    const Model::Cam& k = m.cams[i];
    in.insert(k.id);
    const CameraId id = w.id(k.id);
    c.check(r.getCameraId(i) == id && r.getCamera(i).getId() == id && r.getCameraShared(i)->getId() == id && r.getCameraVector()[i] == r.getCameraShared(i), "id", "%s: camera %zu has another id", what, i);
    c.check(r.getCamera(i).imageWidth() == 64u + k.kind % 4 && r.getCamera(i).getParameters()(r.getCamera(i).getType() == Camera::Type::kPinhole ? 0 : 1) == 100 + k.kind, "camera", "%s: camera %zu is another one", what, i);
    c.check(r.getCamera(i).hasDistortion() == k.distorted, "distortion", "%s: distortion of camera %zu", what, i);
    c.check(diff(r.get_T_C_B(i), T(k.t)) < 1e-12 && diff(r.getTransformationVector()[i], T(k.t)) < 1e-12, "extrinsics", "%s: extrinsics of camera %zu", what, i);
    c.check(r.hasCameraWithId(id), "has-id", "%s: the id of camera %zu is not found", what, i);
    const int at = r.getCameraIndex(id);
    c.check(at >= 0 && at < (int)n && m.cams[at].id == k.id, "index", "%s: the id of camera %zu has index %d", what, i, at);
    c.check(diff(r.get_T_C_B(id), T(m.cams[at].t)) < 1e-12, "extrinsics-id", "%s: extrinsics by id of camera %zu", what, i);
  }
  for (int k = 0; k < 100 + (int)w.fresh.size(); ++k) {
    if (k == 6) k = 100;
    if (k >= 100 + (int)w.fresh.size()) break;
    if (in.count(k)) continue;
    c.check(!r.hasCameraWithId(w.id(k)) && r.getCameraIndex(w.id(k)) == -1, "stale-id", "%s: a camera that is not in the rig is found", what);
    c.check(c.aborts([&] { (void)r.get_T_C_B(w.id(k)); }), "stale-extrinsics", "%s: extrinsics of a camera that is not in the rig", what);
  }
  for (size_t i : {n, n + 1, (size_t)-1}) {
    c.check(c.aborts([&] { (void)r.getCamera(i); }) && c.aborts([&] { (void)r.get_T_C_B(i); }) && c.aborts([&] { (void)r.getCameraShared(i); }) && c.aborts([&] { (void)r.getCameraId(i); }),
            "bounds", "%s: camera %zu of %zu", what, i, n);
  }
  TransformationCovariance cov;
  c.check(r.has_T_G_B_fixed_localization_covariance() == m.cov && r.get_T_G_B_fixed_localization_covariance(&cov) == m.cov && (!m.cov || cov == TransformationCovariance::Identity() * 3),
          "covariance", "%s: localization covariance", what);
  c.check(r.isValid(), "valid", "%s: invalid", what);
}
NCamera::Ptr build(Ctx&, const Model& m, const World& w) {
  TransformationVector t;
  std::vector<Camera::Ptr> cams;
  for (auto& k : m.cams) {
    cams.push_back(make(k.kind));
    cams.back()->setId(w.id(k.id));
    t.push_back(T(k.t));
  }
  NCameraId id;
  generateId(&id);
  NCamera::Ptr r;
  if (m.cov) r.reset(new NCamera(id, t, TransformationCovariance::Identity() * 3, cams, "rig"));
  else r.reset(new NCamera(id, t, cams, "rig"));
  return r;
}
Model initial(Ctx& c) {
  Model m;
  const int n = c.range(1, 3, "cameras");
  for (int i = 0; i < n; ++i) m.cams.push_back({i, i, i % 4 == 1 || i % 4 == 2, i});
  m.cov = c.flag("covariance");
  return m;
}
void fresh_ids(Ctx& c, const NCamera& r, Model* m, World* w, const char* what) {
  for (size_t i = 0; i < m->cams.size(); ++i) {
    const CameraId id = r.getCamera(i).getId();
    for (auto& f : w->fresh) c.check(!(f == id), "fresh", "%s: id used before", what);
    for (int k = 0; k < 6; ++k) c.check(!(cid(k) == id), "fresh", "%s: id of another camera", what);
    w->fresh.push_back(id);
    m->cams[i].id = 100 + w->fresh.size() - 1;
  }
}
std::string key(const Model& m) {
  std::string s = m.cov ? "C" : "c";
  std::map<int, int> name;
  for (auto& k : m.cams) s += seqx::fmt("%d.%d.%d.%d ", k.id < 100 ? k.id : 100 + name.emplace(k.id, (int)name.size()).first->second, k.kind, k.distorted, k.t);
  return s;
}
NCamera::Ptr through_yaml(Ctx& c, const NCamera& r) {
  YAML::Node node;
  r.serialize(&node);
  std::stringstream text;
  text << node;
  NCamera::Ptr q(new NCamera);
  c.check(q->deserialize(YAML::Load(text.str())), "yaml-read", "a rig written as YAML is not read back");
  c.check(q->getId() == r.getId() && *q == r && r == *q, "yaml-equal", "a rig read back from YAML differs");
  return q;
}
void ops(Ctx& c) {
  World w;
  Model m = initial(c);
  NCamera::Ptr r = build(c, m, w);
  verify(c, *r, m, w, "a new rig");
  const int depth = c.thorough ? 4 : 3;
  for (int d = 0; d < depth; ++d) {
    c.seen(seqx::fmt("%d ", depth - d) + key(m));
    const int op = c.choose(8, "op"), n = m.cams.size();
    if (op == 0) {  // another camera, possibly one that is (for now) in the rig already
      const int i = c.choose(n + 1, "index"), k = c.choose(5, "camera");
      if (i == n) { c.check(c.aborts([&] { r->setCamera(i, make(k)); }), "set-bounds", "camera %d of %d is set", i, n); continue; }
      r->setCamera(i, make(k));
      m.cams[i].id = m.cams[i].kind = k;
      m.cams[i].distorted = k % 4 == 1 || k % 4 == 2;
    } else if (op == 1) {
      const int i = c.choose(n, "index"), t = 4 + c.choose(2, "T"), how = c.choose(3, "how");
      if (how == 0) r->set_T_C_B(i, T(t));
      else if (how == 1) r->get_T_C_B_Mutable((size_t)i) = T(t);
      else {
        for (int j = 0; j < n; ++j) if (j != i && m.cams[j].id == m.cams[i].id) throw seqx::Pruned();
        r->get_T_C_B_Mutable(w.id(m.cams[i].id)) = T(t);
      }
      m.cams[i].t = t;
    } else if (op == 2) {
      r->set_T_G_B_fixed_localization_covariance(TransformationCovariance::Identity() * 3);
      m.cov = true;
    } else if (op == 3) {  // a copy; then the original changes
      NCamera::Ptr q;
      switch (c.choose(3, "how")) {
        case 0: q.reset(r->clone()); break;
        case 1: q = r->cloneToShared(); break;
        default: q = std::dynamic_pointer_cast<NCamera>(r->cloneAsSensor()); break;
      }
      c.check(q && *q == *r && q->getId() == r->getId(), "copy", "a copy of a rig differs");
      for (int i = 0; i < n; ++i) {
        c.check(q->getCameraShared(i) != r->getCameraShared(i), "shared", "a copy shares camera %d", i);
        r->getCameraMutable(i).setImageWidth(7);
        r->getCameraMutable(i).removeDistortion();
        r->set_T_C_B(i, T(9));
      }
      c.check(!(*q == *r), "copy-differs", "rigs with other cameras are equal");
      r = q;
    } else if (op == 4) {
      NCamera::Ptr q(r->cloneWithNewIds());
      verify(c, *r, m, w, "the original of a copy with new ids");
      c.check(!(q->getId() == r->getId()), "new-id", "a copy with new ids has the same id");
      fresh_ids(c, *q, &m, &w, "copy with new ids");
      r = q;
    } else if (op == 5) {
      NCamera::Ptr q = r->cloneRigWithoutDistortion();
      verify(c, *r, m, w, "the original of an undistorted copy");
      c.check(!(q->getId() == r->getId()), "new-id", "an undistorted copy has the same id");
      fresh_ids(c, *q, &m, &w, "undistorted copy");
      for (auto& k : m.cams) k.distorted = false;
      r = q;
    } else if (op == 6) {
      NCamera::Ptr q = through_yaml(c, *r);
      if (c.flag("into")) {  // into a rig that has been used before
        YAML::Node node;
        r->serialize(&node);
        World w2;
        Model other;
        other.cams = {{5, 5, true, 8}, {4, 4, false, 7}};
        NCamera::Ptr u = build(c, other, w2);
        c.check(u->deserialize(node), "yaml-into", "a rig is not read into another one");
        verify(c, *u, m, w, "a rig read into another one");
        c.check(*u == *r, "yaml-into-equal", "a rig read into another one differs");
      }
      r = q;
    } else {  // differences are noticed
      Model x = m;
      const int i = c.choose(n, "index");
      switch (c.choose(4, "what")) {
        case 0: x.cams[i].t = x.cams[i].t == 8 ? 7 : 8; break;
        case 1: x.cams[i].kind = x.cams[i].id = 5; x.cams[i].distorted = true; break;
        case 2: x.cams.push_back({5, 5, true, 0}); break;
        default: x.cams.pop_back(); break;
      }
      for (int j = 0; j < n; ++j) if (m.cams[j].distorted != (m.cams[j].kind % 4 == 1 || m.cams[j].kind % 4 == 2)) throw seqx::Pruned();
      if (key(x) == key(m)) throw seqx::Pruned();
      NCamera::Ptr q = build(c, x, w);
      q->setId(r->getId());
      c.check(!(*q == *r) && !(*r == *q) && *q != *r, "different", "different rigs are equal");
    }
    verify(c, *r, m, w, "after an operation");
  }
}
// Damaged YAML is refused: false or an abort, never a rig.
void damaged(Ctx& c) {
  World w;
  Model m = initial(c);
  NCamera::Ptr r = build(c, m, w);
  YAML::Node node;
  r->serialize(&node);
  const int i = c.choose((int)m.cams.size(), "camera"), how = c.choose(16, "damage");
  YAML::Node cam = node["cameras"][i];
  switch (how) {
    case 0: node.remove("cameras"); break;
    case 1: node["cameras"] = YAML::Node(YAML::NodeType::Sequence); break;
    case 2: node["cameras"] = "text"; break;
    case 3: node["cameras"] = YAML::Node(); break;
    case 4: node["cameras"][i] = "text"; break;
    case 5: cam.remove("T_B_C"); break;
    case 6: cam["T_B_C"] = "text"; break;
    case 7: cam["T_B_C"]["rows"] = 3; break;
    case 8: cam.remove("camera"); break;
    case 9: cam["camera"]["type"] = "other"; break;
    case 10: cam["camera"].remove("type"); break;
    case 11: cam["camera"]["intrinsics"]["rows"] = 3; break;
    case 12: cam["camera"].remove("image_width"); break;
    case 13: cam["camera"]["distortion"] = "text"; break;
    case 14: cam["camera"]["id"] = "xyz"; break;
    default: cam["camera"]["image_height"] = "tall"; break;
  }
  std::stringstream text;
  text << node;
  bool read = false;
  NCamera q;
  const bool refused = c.aborts([&] { read = q.deserialize(YAML::Load(text.str())); });
  c.check(refused || !read, "damaged", "damage %d of camera %d is accepted", how, i);
}
// T_C_B instead of T_B_C denotes the inverse.
void inverse(Ctx& c) {
  World w;
  Model m = initial(c);
  NCamera::Ptr r = build(c, m, w);
  YAML::Node node;
  r->serialize(&node);
  for (size_t i = 0; i < m.cams.size(); ++i) if (c.flag("inverse")) {
    node["cameras"][i].remove("T_B_C");
    node["cameras"][i]["T_C_B"] = r->get_T_C_B(i).getTransformationMatrix();
  }
  NCamera q;
  c.check(q.deserialize(node), "inverse-read", "T_C_B is not read");
  verify(c, q, m, w, "a rig read from T_C_B");
}
void sizes(Ctx& c) {
  TransformationVector t;
  std::vector<Camera::Ptr> cams;
  const int a = c.choose(4, "cameras"), b = c.choose(4, "extrinsics"), null = c.choose(5, "null");
  for (int i = 0; i < a; ++i) cams.push_back(i == null ? nullptr : make(i));
  for (int i = 0; i < b; ++i) t.push_back(T(i));
  NCameraId id;
  if (c.flag("id")) generateId(&id);
  c.check(c.aborts([&] { NCamera r(id, t, cams, ""); }) == (a != b || null < a || !id.isValid()), "sizes", "a rig of %d cameras and %d extrinsics", a, b);
}
}  // namespace

int main(int argc, char** argv) {
  std::vector<seqx::Scenario> v;
  v.push_back({"ops", "all rigs within 3 (4) operations from 1-3 cameras", ops, 3});
  v.push_back({"damaged", "every damage of every camera of a written rig", damaged});
  v.push_back({"inverse", "every mix of T_C_B and T_B_C", inverse});
  v.push_back({"sizes", "every number of cameras, extrinsics and absent cameras", sizes});
  return seqx::run_main(argc, argv, "S13", v);
}
