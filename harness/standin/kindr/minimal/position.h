// Stand-in for minkindr (not installed here): the part of its interface that aslam_cv2 uses.
#ifndef MC_STANDIN_KINDR_POSITION_H_
#define MC_STANDIN_KINDR_POSITION_H_
#include <Eigen/Core>
namespace kindr {
namespace minimal {
template <typename Scalar>
using PositionTemplate = Eigen::Matrix<Scalar, 3, 1>;
typedef PositionTemplate<double> Position;
}  // namespace minimal
}  // namespace kindr
#endif
