#ifndef MC_STANDIN_OPENGV_RotationOnly_
#define MC_STANDIN_OPENGV_RotationOnly_
#include <opengv/relative_pose/CentralRelativeAdapter.hpp>
namespace opengv { namespace sac_problems { namespace relative_pose {
class RotationOnlySacProblem {
 public:
  typedef rotation_t model_t;
  typedef opengv::relative_pose::RelativeAdapterBase adapter_t;
  RotationOnlySacProblem(adapter_t& adapter, bool randomSeed = true) : adapter_(adapter), random_(randomSeed) {}
  void record(standin::Run* r) const {
    r->kind = 0;
    r->random_seed = random_;
    r->b1 = adapter_.b1();
    r->b2 = adapter_.b2();
    r->R12 = adapter_.getR12();
  }
  void model(model_t*) const {}
  static int kind() { return 0; }
 private:
  adapter_t& adapter_;
  bool random_;
};
} } }
#endif
