#ifndef MC_STANDIN_OPENGV_RANSAC_
#define MC_STANDIN_OPENGV_RANSAC_
#include <opengv/types.hpp>
namespace opengv { namespace sac {
template <typename PROBLEM_T>
class Ransac {
 public:
  typedef PROBLEM_T problem_t;
  typedef typename problem_t::model_t model_t;
  Ransac(int maxIterations = 1000, double threshold = 1.0, double probability = 0.99)
      : max_iterations_(maxIterations), iterations_(0), threshold_(threshold), probability_(probability) { model_coefficients_.setZero(); }
  bool computeModel(int /*debug_verbosity_level*/ = 0) {
    standin::Stage& s = *standin::stage;
    standin::Run r;
    r.threshold = threshold_;
    r.max_iterations = max_iterations_;
    sac_model_->record(&r);
    inliers_ = s.inliers[problem_t::kind()];
    if (problem_t::kind() == 2) inlier_distances_to_model_ = s.distances;
    iterations_ = s.iterations;
    sac_model_->model(&model_coefficients_);
    s.runs.push_back(r);
    return s.success;
  }
  int max_iterations_, iterations_;
  double threshold_, probability_;
  model_t model_coefficients_;
  std::vector<int> model_, inliers_;
  std::vector<double> inlier_distances_to_model_;
  std::shared_ptr<problem_t> sac_model_;
};
} }
#endif
