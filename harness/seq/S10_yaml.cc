// YAML: matrices, sensors and files.
#define SEQX_MAIN
#include "seqx.h"

#include <cmath>
#include <limits>
#include <unistd.h>

#include <glog/logging.h>
#include <aslam/common/sensor.h>
#include <aslam/common/yaml-serialization.h>

using seqx::Ctx;

template <class M> static std::string text(const M& m) { YAML::Emitter e; YAML::Node n; n = m; e << n; return e.c_str(); }
template <class A, class B> static bool same(const A& a, const B& b) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) if (!(a(i, j) == b(i, j)) && !(a(i, j) != a(i, j) && b(i, j) != b(i, j))) return false;
  return true;
}
// What a decoder makes of a text: 0 refused (false, exception or failed CHECK), 1 accepted.
template <class M> static int decode(const std::string& t, M* m) {
  try {
    const YAML::Node n = YAML::Load(t);
    return YAML::convert<M>::decode(n, *m) ? 1 : 0;
  } catch (const YAML::Exception&) {
  } catch (const seqx::CheckFailed&) {
  } catch (const std::bad_alloc&) {
  }
  return 0;
}
template <class M> static void fill(Ctx& c, M& m, int pattern) {
  typedef typename M::Scalar T;
  static const double values[] = {0, -1, 0.1, 1.0 / 3, 1e300, -1e-300, 5e-324, 123456789.123456789, 2.2250738585072014e-308, 1.7976931348623157e308};
  for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) {
    const int k = i * 5 + j * 3;
    m(i, j) = std::numeric_limits<T>::is_integer ? (T)(pattern == 0 ? k : pattern == 1 ? -k - 1 : pattern == 2 ? std::numeric_limits<T>::max() - k : std::numeric_limits<T>::lowest() + k)
                                                 : sizeof(T) == 4 ? (T)(pattern == 0 ? k + 0.1f : pattern == 1 ? -1.0f / (k + 3) : pattern == 2 ? 3.4e38f : 1e-38f * (k + 1)) : (T)values[(k + pattern) % 10];
  }
  (void)c;
}
template <class M, class Other> static void round_trip(Ctx& c, int rows, int cols) {
  M m(rows, cols);
  fill(c, m, c.choose(sizeof(typename M::Scalar) == 8 ? 10 : 4, "values"));
  const std::string t = text(m);
  M back;
  c.check(decode(t, &back) == 1 && same(m, back), "round-trip", "a %dx%d matrix is not read back from: %s", rows, cols, t.c_str());
  M used(rows, cols);
  used.setConstant(17);
  c.check(decode(t, &used) == 1 && same(m, used), "round-trip-used", "a %dx%d matrix is not read into a used matrix", rows, cols);
  // Through another type: exactly if the sizes fit.
  Other o;
  const bool fits = (Other::RowsAtCompileTime == Eigen::Dynamic || Other::RowsAtCompileTime == rows) && (Other::ColsAtCompileTime == Eigen::Dynamic || Other::ColsAtCompileTime == cols);
  c.check(decode(t, &o) == fits, "other-type", "a %dx%d matrix is %s by another type", rows, cols, fits ? "refused" : "accepted");
  if (fits) c.check(same(m, o), "other-value", "a %dx%d matrix is read differently by another type", rows, cols);
  YAML::Node n;
  n["m"] = m;
  M got;
  c.check(YAML::safeGet(n, "m", &got) && same(m, got), "safe-get", "safeGet of a matrix");
  c.check(YAML::hasKey(n, "m") && !YAML::hasKey(n, "x") && !YAML::safeGet(n, "x", &got), "safe-get-missing", "safeGet of a missing key");
  c.check(!YAML::hasKey(n["m"]["rows"], "x") && !YAML::safeGet(n["m"]["rows"], "x", &got), "safe-get-scalar", "safeGet from a scalar");
  std::string wrong;
  c.check(!YAML::safeGet(n, "m", &wrong), "safe-get-type", "safeGet of a matrix as a string");
  const std::string f = seqx::fmt("yaml-%d", (int)getpid());
  M loaded;
  unlink(f.c_str());
  c.check(!YAML::Load(f, &loaded), "load-missing", "a missing file was loaded");
  c.check(YAML::Save(m, f) && YAML::Load(f, &loaded) && same(m, loaded), "file", "a matrix is not read back from a file");
  unlink(f.c_str());
}
typedef Eigen::Matrix<double, -1, -1> MD;
typedef Eigen::Matrix<int, -1, -1> MI;
static void matrices(Ctx& c) {
  const int which = c.choose(13, "type");
  const int r = which < 6 ? c.range(1, 5, "rows") : 0, k = which < 4 ? c.range(1, 5, "cols") : 0;
  switch (which) {
    case 0: round_trip<MD, Eigen::Matrix<double, 3, -1>>(c, r, k); break;
    case 1: round_trip<MD, Eigen::Matrix<double, -1, 2>>(c, r, k); break;
    case 2: round_trip<MI, Eigen::Matrix<int, 2, 2>>(c, r, k); break;
    case 3: round_trip<Eigen::Matrix<float, -1, -1>, Eigen::Matrix<float, 1, -1>>(c, r, k); break;
    case 4: round_trip<Eigen::Matrix<double, -1, 3>, Eigen::Matrix<double, 4, 3>>(c, r, 3); break;
    case 5: round_trip<Eigen::Matrix<double, 2, -1>, MD>(c, 2, r); break;
    case 6: round_trip<Eigen::Matrix<double, 3, 3>, MD>(c, 3, 3); break;
    case 7: round_trip<Eigen::Matrix<double, 4, 1>, Eigen::VectorXd>(c, 4, 1); break;
    case 8: round_trip<Eigen::Matrix<double, 1, 4>, MD>(c, 1, 4); break;
    case 9: round_trip<Eigen::Matrix<int64_t, 2, 3>, Eigen::Matrix<int64_t, -1, -1>>(c, 2, 3); break;
    case 10: round_trip<Eigen::Matrix<double, 1, 1>, MD>(c, 1, 1); break;
    case 11: round_trip<Eigen::Matrix<double, 2, 3, Eigen::RowMajor>, MD>(c, 2, 3); break;
    default: round_trip<Eigen::Matrix<float, 3, 2>, Eigen::Matrix<float, -1, -1>>(c, 3, 2); break;
  }
}
// All shapes of written data against all declared sizes: what is accepted is what was written, element by element.
template <class M> static void shape(Ctx& c, int dr, int dc, const std::vector<int>& lens, int declare) {
  std::string t = "{";
  if (!(declare & 1)) t += seqx::fmt("rows: %d, ", dr);
  if (!(declare & 2)) t += seqx::fmt("cols: %d, ", dc);
  std::vector<double> all;
  t += "data: [";
  bool scalars = true, uniform = true;
  for (size_t i = 0; i < lens.size(); ++i) {
    if (i) t += ", ";
    if (lens[i] < 0) { all.push_back(all.size() + 1.5); t += seqx::fmt("%g", all.back()); if (dc != 1) uniform = false; }
    else {
      scalars = false;
      if (lens[i] != dc) uniform = false;
      t += "[";
      for (int j = 0; j < lens[i]; ++j) { all.push_back(all.size() + 1.5); t += seqx::fmt(j ? ", %g" : "%g", all.back()); }
      t += "]";
    }
  }
  t += "]}";
  M m;
  const int got = decode(t, &m);
  const bool size_ok = (M::RowsAtCompileTime == Eigen::Dynamic || M::RowsAtCompileTime == dr) && (M::ColsAtCompileTime == Eigen::Dynamic || M::ColsAtCompileTime == dc);
  // What must be accepted: one list per row, or all elements in one list.
  const bool valid = !declare && size_ok && dr > 0 && dc > 0 && (int)all.size() == dr * dc && ((uniform && (int)lens.size() == dr) || scalars);
  if (valid) c.check(got, "refused", "refused: %s", t.c_str());
  if (got && !(dr == 0 && dc == 0)) {
    c.check(size_ok && m.rows() == dr && m.cols() == dc, "size", "%dx%d read from: %s", (int)m.rows(), (int)m.cols(), t.c_str());
    c.check((int)all.size() == dr * dc, "lost", "elements lost or invented: %s", t.c_str());
    for (int i = 0; i < dr; ++i) for (int j = 0; j < dc; ++j) c.check(m(i, j) == all[i * dc + j], "element", "(%d, %d) is %g in: %s", i, j, (double)m(i, j), t.c_str());
  }
}
static void shapes(Ctx& c) {
  const int type = c.choose(5, "type"), dr = c.range(-1, 3, "declared rows"), dc = c.range(-1, 3, "declared cols"), declare = c.pick({0, 1, 2}, "missing");
  if (declare && (dr != 2 || dc != 2)) throw seqx::Pruned();
  std::vector<int> lens;
  const int n = c.choose(5, "entries");
  for (int i = 0; i < n; ++i) lens.push_back(c.range(-1, c.thorough ? 4 : 3, "length"));
  switch (type) {
    case 0: shape<MD>(c, dr, dc, lens, declare); break;
    case 1: shape<Eigen::Matrix<double, -1, 2>>(c, dr, dc, lens, declare); break;
    case 2: shape<Eigen::Matrix<double, 2, -1>>(c, dr, dc, lens, declare); break;
    case 3: shape<Eigen::Matrix<double, 2, 2>>(c, dr, dc, lens, declare); break;
    default: shape<Eigen::Matrix<double, 3, 1>>(c, dr, dc, lens, declare); break;
  }
}
// Every prefix and every replaced byte of a written matrix: refused, or a matrix of the right size.
static void damaged(Ctx& c) {
  Eigen::Matrix<double, 2, 2> m;
  m << 1.5, 2.25, -3, 4e10;
  std::string t = text(m);
  if (c.flag("replace")) {
    const int i = c.choose(t.size(), "at");
    t[i] = c.pick({' ', '\n', ':', '-', '[', ']', '{', '}', ',', '"', '\'', '0', '9', 'x', '#', '&', '*', '!', '\t', '.', 'e', '?', '|', '%'}, "byte");
  } else {
    t = t.substr(0, c.choose(t.size(), "length"));
  }
  Eigen::Matrix<double, 2, 2> a;
  MD b;
  const int got = decode(t, &a), gotd = decode(t, &b);
  if (gotd) c.check(b.rows() >= 0 && b.cols() >= 0 && b.rows() * b.cols() <= 100, "damaged-size", "a %dx%d matrix from: %s", (int)b.rows(), (int)b.cols(), t.c_str());
  if (got && gotd) c.check(same(a, b), "damaged-differs", "fixed and dynamic matrices differ: %s", t.c_str());
  if (got && !gotd) c.fail("damaged-accept", "accepted by the fixed size matrix only: %s", t.c_str());
}
// Sensors.
struct TestSensor : public aslam::Sensor {
  int payload = 0, randoms = 0;
  bool valid = true, load_ok = true;
  uint8_t type = aslam::SensorType::kUnknown;
  TestSensor() {}
  template <class... A> explicit TestSensor(const aslam::SensorId& id, A... a) : aslam::Sensor(id, a...) {}
  aslam::Sensor::Ptr cloneAsSensor() const override { return aslam::Sensor::Ptr(new TestSensor(*this)); }
  uint8_t getSensorType() const override { return type; }
  std::string getSensorTypeString() const override { return "TEST"; }
  bool isValidImpl() const override { return valid; }
  void setRandomImpl() override { ++randoms; }
  bool isEqualImpl(const aslam::Sensor& o, const bool) const override { return payload == dynamic_cast<const TestSensor&>(o).payload; }
  bool loadFromYamlNodeImpl(const YAML::Node& n) override { return load_ok && YAML::safeGet(n, "payload", &payload); }
  void saveToYamlNodeImpl(YAML::Node* n) const override { (*n)["payload"] = payload; }
};
static const std::vector<std::string>& strings() {
  static const std::vector<std::string> v = {"", "/cam0/image", "a b", " leading", "trailing ", "a: b", "#x", "x #y", "'q'", "\"q\"", "- a", "[a", "{a}", "null", "~", "true", "12", "1e3", "0x1F",
                                             "line\nbreak", "tab\there", "back\\slash", "\xc3\xa9t\xc3\xa9", "%d", "&a", "*a", "!t", "|", ">", "?", ",", "---", "...", "@", "`"};
  return v;
}
static aslam::SensorId id_of(int k) {
  static const char* const hex[] = {"00000000000000000000000000000001", "ffffffffffffffffffffffffffffffff", "0123456789abcdef0fedcba987654321", "12345678901234567890123456789012", "00000000000000000e12000000000000"};
  aslam::SensorId id;
  if (!id.fromHexString(hex[k])) abort();
  return id;
}
static void sensors(Ctx& c) {
  const std::string topic = c.pick(strings(), "topic"), desc = c.pick(strings(), "description");
  TestSensor a(id_of(c.choose(5, "id")), topic, desc);
  a.payload = 42;
  c.check(a.getTopic() == topic && a.getDescription() == desc, "fields", "topic or description of the constructor");
  TestSensor b, d;
  const std::string f = seqx::fmt("sensor-%d", (int)getpid());
  a.serializeToFile(f);
  c.check(b.deserializeFromFile(f), "file", "a sensor file is refused");
  unlink(f.c_str());
  c.check(b.getId() == a.getId() && b.getTopic() == topic && b.getDescription() == desc && b.payload == 42 && a == b && b == a && !(a != b), "round-trip",
          "sensor %s, topic '%s', description '%s' read back as %s, '%s', '%s'", a.getId().hexString().c_str(), topic.c_str(), desc.c_str(), b.getId().hexString().c_str(), b.getTopic().c_str(), b.getDescription().c_str());
  YAML::Node n;
  a.serialize(&n);
  c.check(n["sensor_type"].as<std::string>() == "TEST", "type", "sensor type");
  c.check(d.deserialize(n) && d == a, "node", "a sensor is not read back from its node");
  const aslam::Sensor::Ptr cl = a.cloneAsSensor();
  c.check(*cl == a && cl.get() != &a, "clone", "a clone differs");
  TestSensor as;
  as.aslam::Sensor::operator=(a);
  as.payload = 42;
  c.check(as == a, "assign", "an assigned sensor differs");
}
// Equality: exactly if all parts are equal; missing fields; wrong nodes.
static void sensor_parts(Ctx& c) {
  TestSensor a(id_of(0), "t", "d"), b(id_of(0), "t", "d");
  const int diff = c.choose(6, "differs");
  if (diff == 1) b.setId(id_of(1));
  if (diff == 2) b.setTopic("u");
  if (diff == 3) b.setDescription("e");
  if (diff == 4) b.payload = 1;
  if (diff == 5) b.type = aslam::SensorType::kCamera;
  c.check((a == b) == (diff == 0) && (b == a) == (diff == 0) && (a != b) == (diff != 0) && a.isEqual(b) == (diff == 0), "equal", "equality of sensors that differ in part %d", diff);
  const int missing = c.choose(32, "missing");
  YAML::Node n, m;
  a.payload = 5;
  a.serialize(&n);
  static const char* const fields[] = {"id", "topic", "description", "payload", "sensor_type"};
  m = YAML::Node(YAML::NodeType::Map);
  for (int i = 0; i < 5; ++i) if (!(missing >> i & 1)) m[fields[i]] = n[fields[i]];
  TestSensor r(id_of(2), "old", "older");
  const aslam::SensorId before = r.getId();
  const bool ok = r.deserialize(m);
  c.check(ok == !(missing & 8), "missing", "fields missing: %d", missing);
  c.check(missing & 1 ? r.getId().isValid() && r.getId() != before : r.getId() == a.getId(), "missing-id", "id after reading without (%d) one", missing & 1);
  c.check(r.getTopic() == (missing & 2 ? "old" : "t") && r.getDescription() == (missing & 4 ? "older" : "d"), "missing-text", "topic or description after reading with fields missing: %d", missing);
}
static void sensor_errors(Ctx& c) {
  TestSensor s(id_of(2), "t", "d");
  const TestSensor before(s);
  const int k = c.choose(9, "case");
  bool refused = false;
  const std::string f = seqx::fmt("sensor-%d", (int)getpid());
  if (k == 0) refused = !s.deserialize(YAML::Node());
  if (k == 1) refused = !s.deserialize(YAML::Load("[1, 2]"));
  if (k == 2) refused = !s.deserialize(YAML::Load("x"));
  if (k == 3) refused = !s.deserializeFromFile("does-not-exist");
  if (k == 4) { FILE* o = fopen(f.c_str(), "w"); fputs("{a: [", o); fclose(o); refused = !s.deserializeFromFile(f); unlink(f.c_str()); }
  if (k == 5) refused = !s.deserialize(YAML::Load("~"));
  if (k == 6) { YAML::Node n; s.serialize(&n); const YAML::Node m = n; refused = !s.deserialize(m["nothing"]); }
  if (k == 7) { aslam::SensorId none; refused = c.aborts([&] { s.setId(none); }) && c.aborts([&] { TestSensor t(none); }) && c.aborts([&] { TestSensor t(none, "x"); }) && c.aborts([&] { TestSensor t(none, "x", "y"); }); }
  if (k == 8) {
    const std::string bad = c.pick({"", "1234", "g0000000000000000000000000000000", "00000000000000000000000000000000", "0123456789abcdef0fedcba98765432", "0123456789abcdef0fedcba9876543210"}, "id");
    YAML::Node n;
    s.serialize(&n);
    n["id"] = bad;
    TestSensor t;
    refused = c.aborts([&] { if (!t.deserialize(n)) throw seqx::CheckFailed{"false"}; });
  }
  c.check(refused, "accepted", "case %d was accepted", k);
  c.check(s == before, "changed", "case %d changed the sensor", k);
  c.check(s.isValid(), "valid", "a valid sensor is invalid");
  s.valid = false;
  c.check(!s.isValid(), "invalid", "an invalid sensor is valid");
  const aslam::SensorId id = s.getId();
  s.setRandom();
  c.check(s.randoms == 1 && s.getId().isValid() && s.getId() != id, "random", "setRandom()");
  TestSensor x, y;
  c.check(x.getId().isValid() && y.getId().isValid() && x.getId() != y.getId() && x != y && x.getTopic().empty() && x.getDescription().empty(), "default", "default constructed sensors");
}
int main(int argc, char** argv) {
  return seqx::run_main(argc, argv, "S10", {
    {"matrices", "all matrices up to 5x5 of 13 types and up to 10 patterns of values, through nodes and files", matrices, 6},
    {"shapes", "all written shapes of up to 4 entries against all declared sizes, 5 types", shapes, 5},
    {"damaged", "every prefix and every byte replaced by 24 others", damaged, 1},
    {"sensors", "all pairs of 35 topics and descriptions, 5 ids", sensors, 8},
    {"sensor-parts", "all combinations of differing and missing fields", sensor_parts, 1},
    {"sensor-errors", "wrong nodes, files and ids", sensor_errors, 1},
  });
}
