// Stand-in for minkindr (not installed here): the part of its interface that aslam_cv2 uses.
#ifndef MC_STANDIN_KINDR_ROTATION_QUATERNION_H_
#define MC_STANDIN_KINDR_ROTATION_QUATERNION_H_
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <glog/logging.h>
#include <ostream>
namespace kindr {
namespace minimal {
template <typename Scalar>
using AngleAxisTemplate = Eigen::AngleAxis<Scalar>;
typedef AngleAxisTemplate<double> AngleAxis;

template <typename Scalar>
class RotationQuaternionTemplate {
 public:
  typedef Eigen::Quaternion<Scalar> Implementation;
  typedef Eigen::Matrix<Scalar, 3, 1> Vector3;
  typedef Eigen::Matrix<Scalar, 3, 3> RotationMatrix;
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  RotationQuaternionTemplate() : q_(Implementation::Identity()) {}
  RotationQuaternionTemplate(Scalar w, Scalar x, Scalar y, Scalar z) : q_(w, x, y, z) {}
  explicit RotationQuaternionTemplate(const Implementation& q) : q_(q) {}
  explicit RotationQuaternionTemplate(const RotationMatrix& m) : q_(m) {}
  explicit RotationQuaternionTemplate(const Eigen::AngleAxis<Scalar>& a) : q_(a) {}
  explicit RotationQuaternionTemplate(const Vector3& v) { *this = exp(v); }
  Scalar w() const { return q_.w(); }
  Scalar x() const { return q_.x(); }
  Scalar y() const { return q_.y(); }
  Scalar z() const { return q_.z(); }
  Eigen::Matrix<Scalar, 4, 1> vector() const { return Eigen::Matrix<Scalar, 4, 1>(w(), x(), y(), z()); }
  RotationQuaternionTemplate& setIdentity() { q_.setIdentity(); return *this; }
  RotationQuaternionTemplate& setRandom() {
    Eigen::Matrix<Scalar, 4, 1> v;
    do { v.setRandom(); } while (v.norm() < Scalar(0.1) || v.norm() > Scalar(1));
    v.normalize();
    q_ = Implementation(v(0), v(1), v(2), v(3));
    return *this;
  }
  RotationQuaternionTemplate inverse() const { return RotationQuaternionTemplate(q_.conjugate()); }
  RotationQuaternionTemplate operator*(const RotationQuaternionTemplate& o) const { return RotationQuaternionTemplate(Implementation(q_ * o.q_)); }
  Vector3 rotate(const Vector3& v) const { return q_ * v; }
  Vector3 inverseRotate(const Vector3& v) const { return q_.conjugate() * v; }
  Eigen::Matrix<Scalar, 3, Eigen::Dynamic> rotateVectorized(const Eigen::Matrix<Scalar, 3, Eigen::Dynamic>& v) const {
    return q_.toRotationMatrix() * v;
  }
  RotationMatrix getRotationMatrix() const { return q_.toRotationMatrix(); }
  const Implementation& toImplementation() const { return q_; }
  static RotationQuaternionTemplate exp(const Vector3& v) {
    const Scalar n = v.norm();
    return n == Scalar(0) ? RotationQuaternionTemplate() : RotationQuaternionTemplate(Eigen::AngleAxis<Scalar>(n, v / n));
  }
  Vector3 log() const { const Eigen::AngleAxis<Scalar> a(q_); return a.angle() * a.axis(); }
  bool operator==(const RotationQuaternionTemplate& o) const { return q_.coeffs() == o.q_.coeffs(); }

 private:
  Implementation q_;
};
template <typename Scalar>
std::ostream& operator<<(std::ostream& out, const RotationQuaternionTemplate<Scalar>& q) {
  return out << q.vector().transpose();
}
typedef RotationQuaternionTemplate<double> RotationQuaternion;
}  // namespace minimal
}  // namespace kindr
#endif
