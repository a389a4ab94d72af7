#ifndef MC_STANDIN_OPENGV_APSP_
#define MC_STANDIN_OPENGV_APSP_
#include <opengv/absolute_pose/AbsoluteAdapterBase.hpp>
namespace opengv { namespace sac_problems { namespace absolute_pose {
class AbsolutePoseSacProblem {
 public:
  typedef transformation_t model_t;
  typedef opengv::absolute_pose::AbsoluteAdapterBase adapter_t;
  typedef enum Algorithm { TWOPT = 0, KNEIP = 1, GAO = 2, EPNP = 3, GP3P = 4 } algorithm_t;
  AbsolutePoseSacProblem(adapter_t& adapter, algorithm_t algorithm, bool randomSeed = true) : adapter_(adapter), algorithm_(algorithm), random_(randomSeed) {}
  void record(standin::Run* r) const {
    r->kind = 2;
    r->random_seed = random_;
    r->algorithm = algorithm_;
    adapter_.record(r);
  }
  void model(model_t* m) const { *m = standin::stage->model; }
  static int kind() { return 2; }
  void optimizeModelCoefficients(const std::vector<int>& inliers, const model_t& model, model_t& optimized) {
    standin::stage->refinements.push_back(inliers);
    if (model != standin::stage->model) standin::stage->refined_the_model = false;
    optimized = standin::stage->refined;
  }
 private:
  adapter_t& adapter_;
  algorithm_t algorithm_;
  bool random_;
};
} } }
#endif
