// Stand-in for minkindr (not installed here): the part of its interface that aslam_cv2 uses.
#ifndef MC_STANDIN_KINDR_QUAT_TRANSFORMATION_H_
#define MC_STANDIN_KINDR_QUAT_TRANSFORMATION_H_
#include <kindr/minimal/position.h>
#include <kindr/minimal/rotation-quaternion.h>
namespace kindr {
namespace minimal {
template <typename Scalar>
class QuatTransformationTemplate {
 public:
  typedef Eigen::Matrix<Scalar, 3, 1> Vector3;
  typedef PositionTemplate<Scalar> Position;
  typedef RotationQuaternionTemplate<Scalar> Rotation;
  typedef Eigen::Matrix<Scalar, 4, 4> TransformationMatrix;
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  QuatTransformationTemplate() : p_(Position::Zero()) {}
  QuatTransformationTemplate(const Rotation& q, const Position& p) : q_(q), p_(p) {}
  QuatTransformationTemplate(const Position& p, const Rotation& q) : q_(q), p_(p) {}
  QuatTransformationTemplate(const Eigen::Quaternion<Scalar>& q, const Position& p) : q_(q), p_(p) {}
  explicit QuatTransformationTemplate(const TransformationMatrix& T)
      : q_(Eigen::Matrix<Scalar, 3, 3>(T.template topLeftCorner<3, 3>())), p_(T.template topRightCorner<3, 1>()) {}
  QuatTransformationTemplate& setIdentity() { q_.setIdentity(); p_.setZero(); return *this; }
  QuatTransformationTemplate& setRandom() { q_.setRandom(); p_.setRandom(); return *this; }
  QuatTransformationTemplate& setRandom(Scalar norm) { q_.setRandom(); p_.setRandom(); p_ = p_.normalized() * norm; return *this; }
  const Position& getPosition() const { return p_; }
  Position& getPosition() { return p_; }
  const Rotation& getRotation() const { return q_; }
  Rotation& getRotation() { return q_; }
  const Eigen::Quaternion<Scalar>& getEigenQuaternion() const { return q_.toImplementation(); }
  Eigen::Matrix<Scalar, 3, 3> getRotationMatrix() const { return q_.getRotationMatrix(); }
  TransformationMatrix getTransformationMatrix() const {
    TransformationMatrix T = TransformationMatrix::Identity();
    T.template topLeftCorner<3, 3>() = getRotationMatrix();
    T.template topRightCorner<3, 1>() = p_;
    return T;
  }
  QuatTransformationTemplate inverse() const { const Rotation i = q_.inverse(); return QuatTransformationTemplate(i, -i.rotate(p_)); }
  QuatTransformationTemplate operator*(const QuatTransformationTemplate& o) const { return QuatTransformationTemplate(q_ * o.q_, p_ + q_.rotate(o.p_)); }
  Vector3 operator*(const Vector3& v) const { return q_.rotate(v) + p_; }
  Vector3 transform(const Vector3& v) const { return q_.rotate(v) + p_; }
  Vector3 inverseTransform(const Vector3& v) const { return q_.inverseRotate(v - p_); }
  Eigen::Matrix<Scalar, 3, Eigen::Dynamic> transformVectorized(const Eigen::Matrix<Scalar, 3, Eigen::Dynamic>& v) const {
    return (getRotationMatrix() * v).colwise() + p_;
  }
  bool operator==(const QuatTransformationTemplate& o) const { return q_ == o.q_ && p_ == o.p_; }
  bool operator!=(const QuatTransformationTemplate& o) const { return !(*this == o); }

 private:
  Rotation q_;
  Position p_;
};
template <typename Scalar>
std::ostream& operator<<(std::ostream& out, const QuatTransformationTemplate<Scalar>& T) {
  return out << T.getTransformationMatrix();
}
typedef QuatTransformationTemplate<double> QuatTransformation;
}  // namespace minimal
}  // namespace kindr
#endif
