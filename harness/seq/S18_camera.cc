// Camera objects: parameters, copies, equality, factories and YAML.
#define SEQX_MAIN
#include "seqx.h"

#include <memory>
#include <sstream>
#include <string>

#include <aslam/cameras/camera-3d-lidar.h>
#include <aslam/cameras/camera-factory.h>
#include <aslam/cameras/camera-pinhole.h>
#include <aslam/cameras/camera-unified-projection.h>
#include <aslam/cameras/distortion-equidistant.h>
#include <aslam/cameras/distortion-fisheye.h>
#include <aslam/cameras/distortion-null.h>
#include <aslam/cameras/distortion-radtan.h>

using seqx::Ctx;
using namespace aslam;
namespace {
typedef Distortion::Type DT;
typedef Camera::Type CT;
const CT kKinds[] = {CT::kPinhole, CT::kUnifiedProjection, CT::kLidar3D};
const DT kDists[] = {DT::kNoDistortion, DT::kRadTan, DT::kEquidistant, DT::kFisheye};
const char* const kKindNames[] = {"pinhole", "unified-projection", "camera-3d-lidar"};
Eigen::VectorXd vec(std::initializer_list<double> l) {
  Eigen::VectorXd v(l.size());
  int i = 0;
  for (double d : l) v[i++] = d;
  return v;
}
// Values that need all digits.
Eigen::VectorXd intrinsics(int kind, int variant) {
  const double s = variant == 0 ? 1 : variant == 1 ? 4. / 3 : 0.1 + 0.2 + 1;
  switch (kind) {
    case 0: return vec({400.123456789012 * s, 300 * s, 3.2e2 * s, 240 * s});
    case 1: return vec({0.9 * s, 400 * s, 300 * s, 320 * s, 240 * s});
    default: return vec({0.00613592315154256 * s, 0.0092 * s, 0.29 * s, variant == 0 ? 0 : -1. / 3});
  }
}
Eigen::VectorXd coefficients(int dist, int variant) {
  const double s = variant ? 1. / 3 : 1;
  switch (dist) {
    case 0: return Eigen::VectorXd(0);
    case 1: return vec({-0.28 * s, 0.07, 0.0002, 2e-5 * s});
    case 2: return vec({-0.013 * s, 0.02, -0.012, 0.0025 * s});
    default: return vec({variant ? 2. / 3 : 1.1});
  }
}
// The reference: an identifier per member value.
struct Model {
  int kind = 0, k = 0, dist = 0, d = 0, w = 640, h = 480, id = 0, topic = 0, desc = 0, mask = 0;
  uint64_t delay = 0;
  bool compressed = false;
  std::string key(bool with_mask = true) const {
    return seqx::fmt("%d %d %d %d %d %d %d %d %d %d %lu %d", kind, k, dist, d, w, h, id, topic, desc, with_mask ? mask : 0, (unsigned long)delay, compressed);
  }
};
const char* const kTexts[] = {"", "/cam0/image_raw", "a: \"b\" # {c}\n - 1"};
struct Ids {
  std::vector<CameraId> v;
  Ids() { for (int i = 0; i < 3; ++i) { v.emplace_back(); generateId(&v.back()); } }
};
Distortion::UniquePtr distortion(int dist, int d) {
  switch (dist) {
    case 1: return Distortion::UniquePtr(new RadTanDistortion(coefficients(1, d)));
    case 2: return Distortion::UniquePtr(new EquidistantDistortion(coefficients(2, d)));
    case 3: return Distortion::UniquePtr(new FisheyeDistortion(coefficients(3, d)));
    default: return Distortion::UniquePtr(new NullDistortion);
  }
}
cv::Mat mask(const Model& m) {
  cv::Mat r(m.h, m.w, CV_8UC1, cv::Scalar(255));
  r.at<uint8_t>(m.h - 1, m.mask) = 0;  // one pixel of the last row
  return r;
}
Camera::Ptr build(const Model& m, const Ids& ids) {
  Distortion::UniquePtr dist = distortion(m.dist, m.d);
  Camera::Ptr c;
  if (m.kind == 0) c.reset(new PinholeCamera(intrinsics(0, m.k), m.w, m.h, dist));
  else if (m.kind == 1) c.reset(new UnifiedProjectionCamera(intrinsics(1, m.k), m.w, m.h, dist));
  else c.reset(new Camera3DLidar(intrinsics(2, m.k), m.w, m.h));
  c->setId(ids.v[m.id]);
  c->setTopic(kTexts[m.topic]);
  c->setDescription(kTexts[m.desc]);
  c->setLineDelayNanoSeconds(m.delay);
  c->setCompressedImages(m.compressed);
  if (m.mask) c->setMask(mask(m));
  return c;
}
void verify(Ctx& c, const Camera& a, const Model& m, const Ids& ids, const char* what, bool with_mask = true) {
  if (c.replaying()) return;
  c.check(a.getType() == kKinds[m.kind], "type", "%s: type %d", what, (int)a.getType());
  c.check(a.getParameters() == intrinsics(m.kind, m.k) && a.getParameterSize() == a.getParameters().size(), "intrinsics", "%s: intrinsics", what);
  c.check(a.getDistortion().getType() == kDists[m.dist], "distortion-type", "%s: distortion of type %d, not %d", what, (int)a.getDistortion().getType(), m.dist);
  c.check(a.hasDistortion() == (m.dist != 0), "has-distortion", "%s: hasDistortion()", what);
  const Eigen::VectorXd d = a.getDistortion().getParameters();
  const Eigen::VectorXd want = coefficients(m.dist, m.d);
  c.check(d.size() == want.size() && (d.size() == 0 || d == want), "distortion", "%s: distortion coefficients", what);
  c.check(a.getDistortion().getParameterSize() == want.size(), "distortion-size", "%s: number of distortion coefficients", what);
  c.check(a.imageWidth() == (uint32_t)m.w && a.imageHeight() == (uint32_t)m.h, "size", "%s: %ux%u pixels", what, a.imageWidth(), a.imageHeight());
  c.check(a.getLineDelayNanoSeconds() == m.delay, "delay", "%s: line delay %lu, not %lu", what, (unsigned long)a.getLineDelayNanoSeconds(), (unsigned long)m.delay);
  c.check(a.hasCompressedImages() == m.compressed, "compressed", "%s: compressed %d", what, a.hasCompressedImages());
  c.check(a.getId() == ids.v[m.id], "id", "%s: id", what);
  c.check(a.getTopic() == kTexts[m.topic] && a.getDescription() == kTexts[m.desc], "texts", "%s: topic or description", what);
  c.check(a.isValid(), "valid", "%s: not valid", what);
  if (with_mask) {
    c.check(a.hasMask() == (m.mask != 0), "has-mask", "%s: hasMask()", what);
    for (int x = 0; x < 4; ++x)
      c.check(a.isMasked(Eigen::Vector2d(x, m.h - 1)) == (m.mask != 0 && x == m.mask), "mask", "%s: pixel %d of the last row of %dx%d with mask %d", what, x, m.w, m.h, m.mask);
  }
  // the four corners can be asked for whatever the mask was made for
  for (double x : {0.0, m.w - 1.0}) for (double y : {0.0, m.h - 1.0}) (void)a.isMasked(Eigen::Vector2d(x, y));
}
YAML::Node yaml(const Camera& a) {
  YAML::Node n;
  a.serialize(&n);
  std::stringstream text;
  text << n;
  return YAML::Load(text.str());
}
bool equal(const Camera& a, const Camera& b) { return static_cast<const Sensor&>(a) == static_cast<const Sensor&>(b); }
Model anything(Ctx& c) {
  Model m;
  m.kind = c.choose(3, "camera");
  if (m.kind != 2) m.dist = c.choose(4, "distortion");
  return m;
}
// One member is changed.  False if nothing changes.
bool change(Ctx& c, Model* m, Camera* a, const Ids& ids) {
  const Model before = *m;
  switch (c.choose(10, "change")) {
    case 0: m->k = c.choose(3, "intrinsics"); if (a) a->setParameters(intrinsics(m->kind, m->k)); break;
    case 1: {
      if (m->kind == 2) throw seqx::Pruned();
      m->dist = c.choose(4, "distortion");
      m->d = m->dist ? c.choose(2, "coefficients") : 0;
      if (!a) break;
      if (m->dist == 0 && c.flag("remove")) a->removeDistortion();
      else {
        Distortion::UniquePtr d = distortion(m->dist, m->d);
        a->setDistortion(d);
      }
      break;
    }
    case 2:
      if (!m->dist) throw seqx::Pruned();
      m->d = 1 - m->d;
      if (a && c.flag("raw")) Eigen::Map<Eigen::VectorXd>(a->getDistortionMutable()->getParametersMutable(), coefficients(m->dist, m->d).size()) = coefficients(m->dist, m->d);
      else if (a) a->getDistortionMutable()->setParameters(coefficients(m->dist, m->d));
      break;
    case 3: {
      const bool small = c.flag("small"), height = c.flag("height");
      if (height) { m->h = small ? 4 : 480; if (a) a->setImageHeight(m->h); }
      else { m->w = small ? 5 : 640; if (a) a->setImageWidth(m->w); }
      if (m->w != before.w || m->h != before.h) m->mask = 0;  // it does not fit any more
      break;
    }
    case 4: m->delay = c.pick({(uint64_t)0, (uint64_t)30000, ~(uint64_t)0}, "delay"); if (a) a->setLineDelayNanoSeconds(m->delay); break;
    case 5: m->compressed = !m->compressed; if (a) a->setCompressedImages(m->compressed); break;
    case 6: m->id = c.choose(3, "id"); if (a) a->setId(ids.v[m->id]); break;
    case 7: m->topic = c.choose(3, "topic"); if (a) a->setTopic(kTexts[m->topic]); break;
    case 8: m->desc = c.choose(3, "description"); if (a) a->setDescription(kTexts[m->desc]); break;
    default:
      m->mask = c.choose(4, "mask");
      if (a && m->mask) a->setMask(mask(*m));
      else if (a) a->clearMask();
  }
  return before.key() != m->key();
}
void ops(Ctx& c) {
  static Ids ids;
  Model m = anything(c);
  Camera::Ptr a = build(m, ids);
  verify(c, *a, m, ids, "a new camera");
  const int depth = c.thorough ? 4 : 3;
  for (int d = 0; d < depth; ++d) {
    c.seen(seqx::fmt("%d ", depth - d) + m.key());
    switch (c.choose(5, "op")) {
      case 0: case 1: change(c, &m, a.get(), ids); break;
      case 2: {  // a copy, then one of the two changes
        Camera::Ptr b;
        if (c.flag("as sensor")) b = std::dynamic_pointer_cast<Camera>(static_cast<const Sensor&>(*a).cloneAsSensor());
        else b.reset(a->clone());
        c.check(b && typeid(*b) == typeid(*a), "clone-type", "the clone is of another class");
        c.check(equal(*a, *b) && equal(*b, *a), "clone-equal", "a clone differs");
        verify(c, *b, m, ids, "a clone");
        const bool original = c.flag("change the original");
        Model n = m;
        const bool other = change(c, &n, original ? a.get() : b.get(), ids);
        verify(c, original ? *b : *a, m, ids, original ? "a clone whose original changed" : "the original of a clone that changed");
        verify(c, original ? *a : *b, n, ids, "the one that changed");
        if (other && n.key(false) != m.key(false)) c.check(!equal(*a, *b) && !equal(*b, *a) && static_cast<Sensor&>(*a) != *b, "different", "cameras that differ (%s) are equal", n.key().c_str());
        if (c.flag("go on with the other")) a = b;
        if ((a == b) != original) m = n;  // a == b: goes on with the clone, which changed unless the original did
        break;
      }
      case 3: {  // written and read
        const Camera::Ptr b = createCamera(yaml(*a));
        c.check(b != nullptr, "yaml-refused", "a written camera is refused");
        Model n = m;
        n.mask = 0;  // not written
        verify(c, *b, n, ids, "a camera read from YAML");
        c.check(equal(*a, *b) && equal(*b, *a) && typeid(*a) == typeid(*b), "yaml-equal", "a camera read from YAML differs");
        a = b;
        m = n;
        break;
      }
      default: {  // read into a camera of the same class that was something else before
        Model x;
        x.kind = m.kind;
        x.k = 2;
        x.dist = m.kind == 2 ? 0 : c.choose(4, "previous distortion");
        x.d = x.dist ? 1 : 0;
        x.id = 2 - (m.id == 2);
        x.topic = 2;
        x.desc = 1;
        x.delay = 77;
        x.compressed = true;
        x.mask = 2;
        if (c.flag("previous size")) { x.w = 3; x.h = 2; }
        const Camera::Ptr b = build(x, ids);
        c.check(b->deserialize(yaml(*a)), "yaml-refused", "a written camera is refused");
        Model n = m;
        n.mask = 0;
        verify(c, *b, n, ids, "a camera read into another one", false);
        c.check(equal(*a, *b), "yaml-equal", "a camera read into another one differs");
        b->clearMask();
        a = b;
        m = n;
      }
    }
    verify(c, *a, m, ids, "after an operation");
  }
}
// Cameras are equal exactly if their members are.
void pairs(Ctx& c) {
  static Ids ids;
  Model m = anything(c), n = m;
  if (c.flag("different")) {
    Model x = anything(c);
    n.kind = x.kind;
    n.dist = x.dist;
  }
  const int changes = c.choose(3, "changes");
  for (int i = 0; i < changes; ++i) change(c, &n, nullptr, ids);
  const Camera::Ptr a = build(m, ids), b = build(n, ids);
  const bool eq = m.key(false) == n.key(false);
  c.check(equal(*a, *b) == eq && equal(*b, *a) == eq && a->isEqual(*b) == eq && (*a != *b) == !eq, "equality", "cameras %s and %s: %d", m.key().c_str(), n.key().c_str(), (int)equal(*a, *b));
}
// What is optional in YAML has a default, whatever the camera was before; the rest is required.
void damaged(Ctx& c) {
  static Ids ids;
  Model m = anything(c);
  m.delay = 30000;
  m.compressed = true;
  m.topic = m.desc = 1;
  const Camera::Ptr a = build(m, ids);
  YAML::Node n = yaml(*a);
  const int how = c.choose(30, "damage");
  int expect = 0;  // 0 refused, 1 read with the default
  Model want = m;
  switch (how) {
    case 0: n.remove("image_width"); break;
    case 1: n.remove("image_height"); break;
    case 2: n.remove("type"); break;
    case 3: n.remove("intrinsics"); break;
    case 4: n["image_width"] = "wide"; break;
    case 5: n["image_height"] = -480; break;
    case 6: n["image_width"] = 640.5; break;
    case 7: n["image_height"] = "99999999999"; break;
    case 8: n["type"] = "Pinhole"; break;
    case 9: n["type"] = kKindNames[(m.kind + 1) % 3]; break;
    case 10: n["type"] = kKindNames[(m.kind + 2) % 3]; break;
    case 11: n["intrinsics"]["data"][0] = m.kind == 1 ? -0.5 : 0; break;
    case 12: n["intrinsics"]["data"][1] = -1; break;
    case 13: n["intrinsics"]["rows"] = m.kind == 1 ? 4 : 5; break;
    case 14: n["intrinsics"]["data"][1] = "x"; break;
    case 15: n["intrinsics"]["data"][1] = ".nan"; break;
    case 16: n["distortion"] = "none"; break;
    case 17: n["distortion"] = YAML::Node(); want.dist = want.d = 0; expect = 1; break;
    case 18: n.remove("distortion"); want.dist = want.d = 0; expect = 1; break;
    case 19: if (m.dist == 0) throw seqx::Pruned(); n["distortion"].remove("type"); break;
    case 20: if (m.dist == 0) throw seqx::Pruned(); n["distortion"].remove("parameters"); break;
    case 21: if (m.dist == 0) throw seqx::Pruned(); n["distortion"]["type"] = "radtan"; break;
    case 22: if (m.dist != 3) throw seqx::Pruned(); n["distortion"]["parameters"]["data"][0] = 1.6; break;
    case 23: if (m.dist != 3) throw seqx::Pruned(); n["distortion"]["type"] = "equidistant"; break;
    case 24: if (m.dist != 1 && m.dist != 2) throw seqx::Pruned(); n["distortion"]["type"] = "fisheye"; break;
    case 25: n.remove("line-delay-nanoseconds"); want.delay = 0; expect = 1; break;
    case 26: n["line-delay-nanoseconds"] = "slow"; want.delay = 0; expect = 1; break;
    case 27: n.remove("compressed"); want.compressed = false; expect = 1; break;
    case 28: n["compressed"] = "maybe"; want.compressed = false; expect = 1; break;
    default: n["id"] = "0123xyz"; break;
  }
  std::stringstream text;
  text << n;
  const YAML::Node back = YAML::Load(text.str());
  const int into = c.choose(2, "into");  // a new camera, or one that had other values
  Camera::Ptr b;
  bool read = false;
  const bool refused = c.aborts([&] {
    if (into == 0) { b = createCamera(back); read = b != nullptr; }
    else {
      Model x = m;
      x.k = 1;
      x.dist = m.kind == 2 ? 0 : 2;
      x.delay = 5;
      b = build(x, ids);
      read = b->deserialize(back);
    }
  });
  if (how == 9 || how == 10) {
    // As text this is a camera of the other type; it is one only if the intrinsics are those of one.
    if (refused || !read) return;
    c.check(into == 0 && back["type"].as<std::string>() == kKindNames[(int)b->getType()], "other-type", "a %s camera read a node of a %s camera and has type %d now", kKindNames[m.kind], back["type"].as<std::string>().c_str(), (int)b->getType());
    return;
  }
  c.check((read && !refused) == (expect == 1), "damaged", "camera %d, damage %d: %s", m.kind, how, read ? "accepted" : "refused");
  if (expect == 1) verify(c, *b, want, ids, seqx::fmt("a camera read with damage %d", how).c_str());
}
void nodes(Ctx& c) {
  YAML::Node n;
  switch (c.choose(5, "node")) {
    case 0: break;
    case 1: n = "pinhole"; break;
    case 2: n.push_back("type"); n.push_back("pinhole"); break;
    case 3: n = YAML::Node(YAML::NodeType::Map); break;
    default: n = YAML::Node(YAML::NodeType::Map)["camera"]; break;
  }
  Camera::Ptr b;
  const bool refused = c.aborts([&] { b = createCamera(n); });
  c.check(refused || !b, "node", "a camera from a node that is none");
  PinholeCamera p;
  bool read = false;
  const bool refused2 = c.aborts([&] { read = p.deserialize(n); });
  c.check(refused2 || !read, "node", "a camera reads a node that is none");
}
// Factories: the same camera whichever way it is made; parameters that are not valid are refused.
void factories(Ctx& c) {
  static Ids ids;
  Model m = anything(c);
  const int bad = c.choose(9, "damage");
  Eigen::VectorXd k = intrinsics(m.kind, m.k), d = coefficients(m.dist, m.d);
  bool ok = true;
  auto shape = [](Eigen::VectorXd* v, int size) { Eigen::VectorXd r = Eigen::VectorXd::Constant(size, 1.0); for (int i = 0; i < std::min<int>(size, v->size()); ++i) r[i] = (*v)[i]; *v = r; };
  switch (bad) {
    case 0: break;
    case 1: shape(&k, k.size() - 1); ok = false; break;
    case 2: shape(&k, k.size() + 1); ok = false; break;
    case 3: k[0] = -1; ok = false; break;
    case 4: k[1] = 0; ok = false; break;
    case 5: k[k.size() - 1] = -2; ok = m.kind == 2; break;
    case 6: shape(&k, 0); ok = false; break;
    case 7: if (m.dist == 0) throw seqx::Pruned(); shape(&d, d.size() + 1); ok = false; break;
    default: if (m.dist != 3) throw seqx::Pruned(); d[0] = c.pick({0.49, 1.51, -1.0}, "w"); ok = false;
  }
  CameraId none;
  if (bad == 0)
    c.check(c.aborts([&] { createCamera(none, k, 640, 480, d, kKinds[m.kind], kDists[m.dist]); }), "no-id", "a camera without id is made");
  Camera::Ptr a;
  const bool refused = c.aborts([&] { a = createCamera(ids.v[0], k, 640, 480, d, kKinds[m.kind], kDists[m.dist]); });
  c.check(refused == !ok, "factory", "camera %d, distortion %d, damage %d: refused %d", m.kind, m.dist, bad, (int)refused);
  if (ok && bad == 0) verify(c, *a, m, ids, "a camera of the factory");
  // the templates
  Camera::Ptr b;
  const bool refused2 = c.aborts([&] {
    if (m.kind == 0 && m.dist == 0) b = createCamera<PinholeCamera>(k, 640, 480);
    if (m.kind == 0 && m.dist == 1) b = createCamera<PinholeCamera, RadTanDistortion>(k, 640, 480, d);
    if (m.kind == 0 && m.dist == 2) b = createCamera<PinholeCamera, EquidistantDistortion>(k, 640, 480, d);
    if (m.kind == 0 && m.dist == 3) b = createCamera<PinholeCamera, FisheyeDistortion>(k, 640, 480, d);
    if (m.kind == 1 && m.dist == 0) b = createCamera<UnifiedProjectionCamera>(k, 640, 480);
    if (m.kind == 1 && m.dist == 1) b = Camera::construct<UnifiedProjectionCamera, RadTanDistortion>(k, 640, 480, d);
    if (m.kind == 1 && m.dist == 2) b = Camera::construct<UnifiedProjectionCamera, EquidistantDistortion>(k, 640, 480, d);
    if (m.kind == 1 && m.dist == 3) b = Camera::construct<UnifiedProjectionCamera, FisheyeDistortion>(k, 640, 480, d);
    if (m.kind == 2) b = createCamera<Camera3DLidar>(k, 640, 480);
  });
  c.check(refused2 == !ok, "factory-template", "camera %d, distortion %d, damage %d: refused %d", m.kind, m.dist, bad, (int)refused2);
  if (ok && bad == 0) {
    c.check(b->getId().isValid() && !(b->getId() == ids.v[0]), "fresh-id", "the id of a new camera");
    b->setId(ids.v[0]);
    verify(c, *b, m, ids, "a camera of the template");
    c.check(equal(*a, *b), "factory-equal", "cameras of two factories differ");
  }
  const Camera::Ptr g = build(m, ids);
  c.check(g->intrinsicsValid(k) == (ok || bad >= 7), "intrinsics-valid", "camera %d, damage %d: intrinsicsValid()", m.kind, bad);
  if (m.dist) c.check(g->getDistortion().distortionParametersValid(d) == (bad < 7), "distortion-valid", "distortion %d, damage %d: distortionParametersValid()", m.dist, bad);
}
// A camera made by setRandom() or for tests is a valid camera of its class, and printing names it.
void random_camera(Ctx& c) {
  static Ids ids;
  Model m = anything(c);
  if (c.flag("mask")) m.mask = 1;
  if (c.flag("small")) { m.w = 5; m.h = 4; }
  const Camera::Ptr a = build(m, ids);
  const CameraId before = a->getId();
  a->setRandom();
  c.check(a->isValid() && a->getId().isValid() && !(a->getId() == before) && a->getType() == kKinds[m.kind], "random", "a random camera");
  for (double x : {0.0, a->imageWidth() - 1.0}) for (double y : {0.0, a->imageHeight() - 1.0}) c.check(!a->isMasked(Eigen::Vector2d(x, y)), "random-mask", "a pixel of a random camera is masked");
  const Camera::Ptr b = createCamera(yaml(*a));
  c.check(b && equal(*a, *b), "random-yaml", "a random camera is not read back");
  std::stringstream type;
  type << a->getType();
  const char* const names[] = {"kPinhole", "kUnifiedProjection", "kLidar3D"};
  c.check(type.str() == names[m.kind], "type-name", "type %d is printed as '%s'", m.kind, type.str().c_str());
}
}  // namespace

int main(int argc, char** argv) {
  std::vector<seqx::Scenario> v;
  v.push_back({"ops", "all cameras within 3 (4) operations", ops, 3});
  v.push_back({"pairs", "all pairs of cameras up to two changes apart", pairs, 3});
  v.push_back({"damaged", "every damage of written cameras", damaged, 3});
  v.push_back({"nodes", "YAML nodes that are no cameras", nodes});
  v.push_back({"factories", "factories with valid and damaged parameters", factories, 3});
  v.push_back({"random", "random cameras", random_camera});
  return seqx::run_main(argc, argv, "S18", v);
}
