// Stand-in for opengv (not installed here): the interface aslam_cv2 uses.  What RANSAC finds is decided by the explorer (opengv::standin::stage), and
// what it was given is recorded.
#ifndef MC_STANDIN_OPENGV_TYPES_HPP_
#define MC_STANDIN_OPENGV_TYPES_HPP_
#include <memory>
#include <set>
#include <vector>
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <Eigen/StdVector>
namespace opengv {
typedef Eigen::Vector3d translation_t;
typedef Eigen::Matrix3d rotation_t;
typedef Eigen::Matrix<double, 3, 4> transformation_t;
typedef Eigen::Vector3d bearingVector_t;
typedef Eigen::Vector3d point_t;
typedef std::vector<bearingVector_t, Eigen::aligned_allocator<bearingVector_t>> bearingVectors_t;
typedef std::vector<point_t, Eigen::aligned_allocator<point_t>> points_t;
typedef std::vector<translation_t, Eigen::aligned_allocator<translation_t>> translations_t;
typedef std::vector<rotation_t, Eigen::aligned_allocator<rotation_t>> rotations_t;
typedef std::vector<int> camCorrespondences_t;
namespace standin {
struct Run {  // one call of computeModel()
  int kind = -1;  // 0: rotation only, 1: translation only, 2: absolute pose
  bool central = false, random_seed = false;
  int algorithm = -1;
  double threshold = 0;
  int max_iterations = 0;
  bearingVectors_t b1, b2;
  rotation_t R12 = rotation_t::Zero();
  points_t points;
  camCorrespondences_t cameras;
  translations_t offsets;
  rotations_t rotations;
};
struct Stage {
  std::vector<int> inliers[3];
  std::vector<double> distances;
  bool success = true;
  int iterations = 0;
  transformation_t model = transformation_t::Zero(), refined = transformation_t::Zero();
  std::vector<Run> runs;
  std::vector<std::vector<int>> refinements;
  bool refined_the_model = true;
};
extern Stage* stage;
}  // namespace standin
}  // namespace opengv
#endif
