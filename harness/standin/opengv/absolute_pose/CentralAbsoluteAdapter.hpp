#ifndef MC_STANDIN_OPENGV_CAA_
#define MC_STANDIN_OPENGV_CAA_
#include <opengv/absolute_pose/AbsoluteAdapterBase.hpp>
namespace opengv { namespace absolute_pose {
class CentralAbsoluteAdapter : public AbsoluteAdapterBase {
 public:
  CentralAbsoluteAdapter(const bearingVectors_t& b, const points_t& p) : b_(b), p_(p) {}
  void record(standin::Run* r) const override { r->central = true; r->b1 = b_; r->points = p_; }
 private:
  const bearingVectors_t& b_;
  const points_t& p_;
};
} }
#endif
