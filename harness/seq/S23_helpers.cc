// The small helpers of aslam_cv_common: image comparison, hashes, covariances, numerical Jacobians, aligned memory.
#define SEQX_MAIN
#include "seqx.h"

#include <cmath>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

#include <Eigen/Dense>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#include <opencv2/core/core.hpp>

#include <aslam/common/covariance-helpers.h>
#include <aslam/common/crtp-clone.h>
#include <aslam/common/eigen-hash.h>
#include <aslam/common/macros.h>
#include <aslam/common/memory.h>
#include <aslam/common/numdiff-jacobian-tester.h>
#include <aslam/common/opencv-predicates.h>
#include <aslam/common/pose-types.h>
#include <aslam/common/predicates.h>
#include <aslam/detectors/line.h>

using seqx::Ctx;
namespace {
// ---------------------------------------------------------------- ImagesEqual
bool integral(int depth) { return depth < CV_32F; }
double step(int depth, int which) {  // a difference to try
  const double i[] = {1, 2, 3}, f[] = {1e-12, 1e-3, .5};
  return integral(depth) ? i[which] : f[which];
}
void put(cv::Mat* m, int r, int c, int ch, double v) {
  const int n = m->channels();
  switch (m->depth()) {
    case CV_8U: m->ptr<uint8_t>(r)[c * n + ch] = v; break;
    case CV_8S: m->ptr<int8_t>(r)[c * n + ch] = v; break;
    case CV_16U: m->ptr<uint16_t>(r)[c * n + ch] = v; break;
    case CV_16S: m->ptr<int16_t>(r)[c * n + ch] = v; break;
    case CV_32S: m->ptr<int32_t>(r)[c * n + ch] = v; break;
    case CV_32F: m->ptr<float>(r)[c * n + ch] = v; break;
    case CV_64F: m->ptr<double>(r)[c * n + ch] = v; break;
  }
}
// Images that differ in one value: they are equal exactly if it differs by no more than the tolerance.
void images(Ctx& c) {
  static const int depths[] = {CV_8U, CV_8S, CV_16U, CV_16S, CV_32S, CV_32F, CV_64F};
  const int depth = depths[c.choose(7, "depth")];
  const int channels = 1 + c.choose(c.thorough ? 4 : 3, "channels");
  const int rows = 1 + c.choose(3, "rows"), cols = 1 + c.choose(c.thorough ? 5 : 4, "cols");
  const bool part = c.flag("part of a larger image");
  const int type = CV_MAKETYPE(depth, channels);
  cv::Mat big_a(rows + 2, cols + 3, type, cv::Scalar::all(1)), big_b(rows + 2, cols + 3, type, cv::Scalar::all(2));
  cv::Mat a = part ? big_a(cv::Rect(1, 1, cols, rows)) : cv::Mat(rows, cols, type);
  cv::Mat b = part ? big_b(cv::Rect(1, 1, cols, rows)) : cv::Mat(rows, cols, type);
  const double start = c.pick({3., 0., 100.}, "values");
  for (int r = 0; r < rows; ++r) for (int x = 0; x < cols; ++x) for (int ch = 0; ch < channels; ++ch) {
    put(&a, r, x, ch, start + r + 2 * x + ch);
    put(&b, r, x, ch, start + r + 2 * x + ch);
  }
  const cv::Mat copy_a = a.clone();
  c.check((bool)gtest_catkin::ImagesEqual(a, b), "equal", "equal images are different: depth %d, %d channels, %dx%d", depth, channels, rows, cols);
  c.check((bool)gtest_catkin::ImagesEqual(a, b, 0.), "equal", "equal images are different with tolerance 0: depth %d, %d channels, %dx%d", depth, channels, rows, cols);
  c.check((bool)gtest_catkin::ImagesEqual(a, a, 0.), "equal", "an image is different from itself");
  const int r = c.choose(rows, "row"), x = c.choose(cols, "col"), ch = c.choose(channels, "channel");
  const int size = c.choose(3, "difference");
  const double value = start + r + 2 * x + ch, d = step(depth, size) * (value >= 100 ? -1 : 1);
  put(&b, r, x, ch, value + d);
  double real = std::abs(d);
  if (depth == CV_32F) real = std::abs((double)(float)(value + d) - (double)(float)value);
  if (depth == CV_64F) real = std::abs((value + d) - value);
  const bool differs = real > 0;
  const double tolerances[] = {0, real * .5, real * 1.5, 10};
  for (double t : tolerances) {
    const bool want = real <= t;
    for (bool swap : {false, true}) {
      const bool got = (bool)(swap ? gtest_catkin::ImagesEqual(b, a, t) : gtest_catkin::ImagesEqual(a, b, t));
      c.check(got == want, "tolerance", "images of depth %d, %d channels, %dx%d that differ by %g at (%d, %d, %d) are %s with tolerance %g", depth, channels, rows, cols, real, r, x, ch,
              got ? "equal" : "different", t);
    }
  }
  if (!differs || integral(depth) || size > 0) {
    const bool got = (bool)gtest_catkin::ImagesEqual(a, b);
    c.check(got == !differs, "default", "images of depth %d, %d channels, %dx%d that differ by %g at (%d, %d, %d) are %s", depth, channels, rows, cols, real, r, x, ch, got ? "equal" : "different");
  }
  c.check(cv::norm(a, copy_a, cv::NORM_INF) == 0, "unchanged", "the image was changed");
  if (!integral(depth)) {
    for (double bad : {std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity()}) {
      put(&b, r, x, ch, bad);
      c.check(!gtest_catkin::ImagesEqual(a, b, 1e300) && !gtest_catkin::ImagesEqual(b, a, 1e300), "not finite", "an image with a value of %g equals one without", bad);
    }
  }
}
void sizes(Ctx& c) {
  static const int depths[] = {CV_8U, CV_8S, CV_16U, CV_16S, CV_32S, CV_32F, CV_64F};
  const int da = depths[c.choose(7, "depth")], db = depths[c.choose(7, "other depth")];
  const int ca = 1 + c.choose(3, "channels"), cb = 1 + c.choose(3, "other channels");
  const int ra = c.choose(3, "rows"), rb = c.choose(3, "other rows"), xa = c.choose(3, "cols"), xb = c.choose(3, "other cols");
  cv::Mat a(ra, xa, CV_MAKETYPE(da, ca), cv::Scalar::all(5)), b(rb, xb, CV_MAKETYPE(db, cb), cv::Scalar::all(5));
  const bool got = (bool)gtest_catkin::ImagesEqual(a, b, 1e9);
  c.check(got == (da == db && ca == cb && ra == rb && xa == xb), "sizes", "images of type %d/%d, %dx%d and type %d/%d, %dx%d are %s", da, ca, ra, xa, db, cb, rb, xb, got ? "equal" : "different");
}
// ---------------------------------------------------------------- hashes of matrices
template <typename M>
void hashes(Ctx& c, int n, M m) {
  typedef typename M::Scalar S;
  const S values[] = {S(0), S(1), S(-1), S(2.5), S(-0.0)};
  M other = m;
  for (int i = 0; i < n; ++i) m.data()[i] = values[c.choose(5, "value")];
  for (int i = 0; i < n; ++i) other.data()[i] = m.data()[i] == S(0) && c.flag("sign of zero") ? -m.data()[i] : m.data()[i];
  const std::hash<M> h;
  c.check(m == other, "equal", "equal matrices");
  c.check(h(m) == h(other), "hash", "equal matrices have different hashes");
  std::unordered_map<M, int, std::hash<M>, std::equal_to<M>, Eigen::aligned_allocator<std::pair<const M, int>>> map;
  map[m] = 7;
  c.check(map.count(other) == 1 && map[other] == 7, "map", "a matrix is not found under its equal");
  for (int i = 0; i < n; ++i) {
    M changed = m;
    changed.data()[i] += S(1);
    c.check(map.count(changed) == 0, "map", "another matrix is found");
    c.check(h(changed) != h(m), "spread", "a matrix that differs in element %d has the same hash", i);
  }
  if (n > 1 && m.data()[0] != m.data()[n - 1]) {
    M swapped = m;
    std::swap(swapped.data()[0], swapped.data()[n - 1]);
    c.check(h(swapped) != h(m), "spread", "a matrix with two elements exchanged has the same hash");
  }
}
void hash(Ctx& c) {
  switch (c.choose(6, "type")) {
    case 0: hashes(c, 3, Eigen::Vector3d()); break;
    case 1: hashes(c, 4, Eigen::Matrix2d()); break;
    case 2: hashes(c, 2, Eigen::Vector2f()); break;
    case 3: hashes(c, 3, Eigen::Vector3i()); break;
    case 4: hashes(c, 3, Eigen::VectorXd(3)); break;
    case 5: hashes(c, 4, Eigen::MatrixXd(2, 2)); break;
  }
}
// ---------------------------------------------------------------- rotateCovariance
void covariance(Ctx& c) {
  // rotations by quarter turns permute and negate rows and columns: the result is exact
  Eigen::Matrix3d R = Eigen::Matrix3d::Identity();
  const Eigen::Vector3d axes[] = {Eigen::Vector3d::UnitX(), Eigen::Vector3d::UnitY(), Eigen::Vector3d::UnitZ()};
  for (int i = 0; i < 3; ++i) R = R * Eigen::AngleAxisd(M_PI / 2 * c.choose(4, "quarters"), axes[i]).toRotationMatrix();
  const double more = c.pick({0., .3, 1e-9}, "angle");
  if (more != 0) R = R * Eigen::AngleAxisd(more, Eigen::Vector3d(1, 2, -2) / 3).toRotationMatrix();
  const Eigen::Quaterniond q(R);
  aslam::Transformation T(aslam::Quaternion(q), Eigen::Vector3d(c.pick({0., 5.}, "position"), -7, 11));
  aslam::TransformationCovariance A;
  const int kind = c.choose(4, "matrix");
  for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j)
    A(i, j) = kind == 0 ? (i == j) : kind == 1 ? (i == j ? i + 1 : 0) : kind == 2 ? 1. / (1 + i + j) + (i == j) : std::cos(i * j + 1. + (i > j ? j : 0));
  const aslam::TransformationCovariance before = A;
  aslam::TransformationCovariance B = aslam::TransformationCovariance::Constant(99);
  aslam::common::rotateCovariance(T, A, &B);
  const Eigen::Matrix3d Rt = T.getRotationMatrix();
  for (int bi = 0; bi < 2; ++bi) for (int bj = 0; bj < 2; ++bj)
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
      long double sum = 0;
      for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l) sum += (long double)Rt(i, k) * A(3 * bi + k, 3 * bj + l) * Rt(j, l);
      c.check(std::abs((double)(sum - B(3 * bi + i, 3 * bj + j))) < 1e-12, "covariance", "element (%d, %d) is %g instead of %g", 3 * bi + i, 3 * bj + j, B(3 * bi + i, 3 * bj + j), (double)sum);
    }
  c.check(A == before, "unchanged", "the covariance was changed");
  aslam::TransformationCovariance same = A, back;
  aslam::common::rotateCovariance(T, same, &same);
  c.check((same - B).cwiseAbs().maxCoeff() < 1e-12, "in place", "another result in place");
  aslam::common::rotateCovariance(T.inverse(), B, &back);
  c.check((back - A).cwiseAbs().maxCoeff() < 1e-9, "back", "the way back gives another covariance");
}
// ---------------------------------------------------------------- numerical Jacobians
struct Poly : public aslam::common::NumDiffFunctor<2, 3> {
  int degree[2][3];
  mutable int calls = 0, fail_at = -1;
  bool functional(const InputType& x, ValueType& f, JacobianType* J) const override {
    for (int r = 0; r < 2; ++r) {
      f(r) = 0;
      for (int i = 0; i < 3; ++i) f(r) += (r + 1) * std::pow(x(i), degree[r][i]);
      if (J) for (int i = 0; i < 3; ++i) (*J)(r, i) = degree[r][i] == 0 ? 0 : (r + 1) * degree[r][i] * std::pow(x(i), degree[r][i] - 1);
    }
    return calls++ != fail_at;
  }
};
template <aslam::common::NumericalDiffMode mode>
void numdiff(Ctx& c, int exact_degree, int evaluations) {
  Poly f;
  const int top = c.thorough ? 6 : 4;
  for (int i = 0; i < 3; ++i) f.degree[0][i] = c.choose(top, "degree");
  f.degree[1][0] = f.degree[0][2]; f.degree[1][1] = 1; f.degree[1][2] = f.degree[0][0];
  Poly::InputType x;
  x << c.pick({0., 1., -2., 1000.}, "x"), c.pick({.5, 0., -3.}, "y"), c.pick({-1., 2.}, "z");
  const double eps = c.pick({1e-4, 1e-6, 0.}, "step");
  const Poly::InputType before = x;
  Poly::JacobianType want, got;
  const int fail = c.choose(evaluations * 3 + 1, "failing evaluation");
  c.check(f.getJacobian(x, &want), "success", "the analytical Jacobian failed");
  f.calls = 0;
  f.fail_at = fail - 1;
  aslam::common::NumericalDiff<Poly, mode> d(f, eps);
  const bool ok = d.getJacobianNumerical(x, got);
  c.check(ok == (fail == 0), "success", "evaluation %d failed and the Jacobian is a %s", fail, ok ? "success" : "failure");
  c.check(x == before, "unchanged", "the evaluation point was changed");
  for (int r = 0; r < 2; ++r) for (int i = 0; i < 3; ++i) {
    const double h = std::sqrt(std::max(eps, std::numeric_limits<double>::epsilon())) * (x(i) == 0 ? 1 : std::abs(x(i)));
    const int p = f.degree[r][i];
    // truncation: the first derivative that the scheme does not cancel
    double truncation = 0;
    if (p > exact_degree) {
      const double big = std::abs(x(i)) + 2 * h;
      double deriv = 1;
      for (int k = 0; k <= exact_degree; ++k) deriv *= p - k;
      truncation = 2 * (r + 1) * deriv * std::pow(big, p - exact_degree - 1) * std::pow(h, exact_degree);
    }
    double values = 0;
    for (int k = 0; k < 3; ++k) values += (r + 1) * std::pow(std::abs(x(k)) * 1.1 + 1, f.degree[r][k]);
    const double rounding = 20 * std::numeric_limits<double>::epsilon() * (values / h + std::abs(want(r, i)) * (1 + std::abs(x(i)) / h));
    c.check(std::abs(got(r, i) - want(r, i)) <= truncation + rounding, "jacobian", "element (%d, %d) of x^%d at %g is %.17g instead of %.17g (allowed %g)", r, i, p, x(i), got(r, i), want(r, i),
            truncation + rounding);
  }
}
// ---------------------------------------------------------------- aligned memory, clones, shared pointers, lines
struct Counted {
  static std::set<const void*> alive;
  static int constructed;
  static int throw_at;
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  Eigen::Vector4d big;
  int value;
  explicit Counted(int v) : value(v) { begin(); }
  Counted(int v, std::unique_ptr<int> moved, int& by_reference) : value(v + *moved) { ++by_reference; begin(); }
  Counted(const Counted& o) : big(o.big), value(o.value) { begin(); }
  virtual ~Counted() { alive.erase(this); }
  void begin() {
    if (constructed++ == throw_at) throw std::runtime_error("constructor");
    big.setConstant(value);
    alive.insert(this);
  }
  virtual Counted* clone() const { return new Counted(*this); }
  virtual int kind() const { return 0; }
};
std::set<const void*> Counted::alive;
int Counted::constructed = 0, Counted::throw_at = -1;
struct Derived : public aslam::Cloneable<Counted, Derived> {
  explicit Derived(int v) : Base(v) {}
  int more = 5;
  int kind() const override { return 1; }
};
struct Other { virtual ~Other() {} double pad[3]; };
struct Second : public Other, public Counted { explicit Second(int v) : Counted(v) {} int kind() const override { return 2; } };
void memory(Ctx& c) {
  Counted::alive.clear();
  Counted::constructed = 0;
  Counted::throw_at = c.choose(4, "throwing constructor") - 1;
  int what_of[3];
  for (int& what : what_of) what = c.choose(7, "what");
  const size_t allocated = __sanitizer_get_current_allocated_bytes();
  {
    std::vector<std::shared_ptr<Counted>> shared;
    std::vector<AlignedUniquePtr<Counted>> unique;
    std::vector<int> s, u, sk, uk;
    int references = 0;
    for (int n = 0; n < 3; ++n) {
      const int what = what_of[n];
      const int before = Counted::constructed;
      const bool throws = Counted::constructed == Counted::throw_at && what < 6;
      bool thrown = false;
      try {
        switch (what) {
          case 0: shared.push_back(aligned_shared<Counted>(n)); s.push_back(n); sk.push_back(0); break;
          case 1: shared.push_back(aligned_shared<Derived>(n)); s.push_back(n); sk.push_back(1); break;
          case 2: unique.push_back(aligned_unique<Counted>(n)); u.push_back(n); uk.push_back(0); break;
          case 3: unique.push_back(aligned_unique<Derived>(n)); u.push_back(n); uk.push_back(1); break;
          case 4: shared.push_back(aligned_unique<Counted>(n, std::unique_ptr<int>(new int(10)), references)); s.push_back(n + 10); sk.push_back(0); break;
          case 5: unique.push_back(aligned_unique<Second>(n)); u.push_back(n); uk.push_back(2); break;
          case 6:
            if (!unique.empty()) { unique.erase(unique.begin()); u.erase(u.begin()); uk.erase(uk.begin()); }
            else if (!shared.empty()) { shared.erase(shared.begin()); s.erase(s.begin()); sk.erase(sk.begin()); }
            break;
        }
      } catch (const std::runtime_error&) { thrown = true; }
      c.check(thrown == throws, "throw", "an exception of the constructor %s", thrown ? "appeared" : "was lost");
      c.check(Counted::constructed == before + (what < 6), "constructed", "%d objects constructed", Counted::constructed - before);
      c.check(Counted::alive.size() == s.size() + u.size(), "alive", "%zu objects alive instead of %zu", Counted::alive.size(), s.size() + u.size());
      for (size_t i = 0; i < s.size(); ++i) c.check(shared[i]->value == s[i] && shared[i]->big(3) == s[i] && shared[i]->kind() == sk[i], "value", "object %zu", i);
      for (size_t i = 0; i < u.size(); ++i) c.check(unique[i]->value == u[i] && unique[i]->big(3) == u[i] && unique[i]->kind() == uk[i], "value", "object %zu", i);
    }
  }
  c.check(Counted::alive.empty(), "destroyed", "%zu objects never destroyed", Counted::alive.size());
  c.check(__sanitizer_get_current_allocated_bytes() == allocated, "freed", "%zd bytes are never freed", (ssize_t)(__sanitizer_get_current_allocated_bytes() - allocated));
  Counted::throw_at = -1;
  {
    Derived d(3);
    d.more = 8;
    std::unique_ptr<Counted> copy(static_cast<const Counted&>(d).clone());
    c.check(copy->kind() == 1 && copy->value == 3 && static_cast<Derived*>(copy.get())->more == 8 && copy.get() != &d, "clone", "a clone differs");
    d.more = 1; d.value = 1;
    c.check(copy->value == 3 && static_cast<Derived*>(copy.get())->more == 8, "clone", "a clone changed with its original");
  }
  std::shared_ptr<int> p[] = {nullptr, std::make_shared<int>(1), std::make_shared<int>(1), std::make_shared<int>(2)};
  for (auto& a : p) for (auto& b : p) {
    const bool want = a && b ? *a == *b : !a && !b;
    c.check(aslam::checkSharedEqual(a, b) == want, "shared", "two shared pointers");
  }
  const aslam::Line line(c.pick({1., -2.}, "x"), 2, 3, 4);
  const aslam::Line other(line.start_point, line.end_point);
  c.check(other.start_point == line.start_point && line.start_point(1) == 2 && line.end_point == Eigen::Vector2d(3, 4) && other.end_point == line.end_point, "line", "the ends of a line");
}
}  // namespace
int main(int argc, char** argv) {
  std::vector<seqx::Scenario> v;
  v.push_back({"images", "images of every type that differ in one value, at every place", images, 8});
  v.push_back({"sizes", "images of different types and sizes", sizes, 4});
  v.push_back({"hash", "equal matrices have equal hashes, others are told apart", hash, 2});
  v.push_back({"covariance", "rotations of covariances", covariance, 2});
  v.push_back({"numdiff-forward", "forward differences", [](Ctx& c) { numdiff<aslam::common::Forward>(c, 1, 2); }, 4});
  v.push_back({"numdiff-central", "central differences", [](Ctx& c) { numdiff<aslam::common::Central>(c, 2, 2); }, 4});
  v.push_back({"numdiff-second", "central differences of second order", [](Ctx& c) { numdiff<aslam::common::CentralSecond>(c, 4, 4); }, 4});
  v.push_back({"memory", "every object of aligned_shared() and aligned_unique() is destroyed once and its memory freed", memory, 4});
  return seqx::run_main(argc, argv, "S23", v);
}
