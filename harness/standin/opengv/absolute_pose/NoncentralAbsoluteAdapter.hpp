#ifndef MC_STANDIN_OPENGV_NAA_
#define MC_STANDIN_OPENGV_NAA_
#include <opengv/absolute_pose/AbsoluteAdapterBase.hpp>
namespace opengv { namespace absolute_pose {
class NoncentralAbsoluteAdapter : public AbsoluteAdapterBase {
 public:
  typedef std::vector<int> camCorrespondences_t;
  NoncentralAbsoluteAdapter(const bearingVectors_t& b, const camCorrespondences_t& c, const points_t& p, const translations_t& o, const rotations_t& R)
      : b_(b), c_(c), p_(p), o_(o), R_(R) {}
  void record(standin::Run* r) const override { r->central = false; r->b1 = b_; r->points = p_; r->cameras = c_; r->offsets = o_; r->rotations = R_; }
 private:
  const bearingVectors_t& b_;
  const camCorrespondences_t& c_;
  const points_t& p_;
  const translations_t& o_;
  const rotations_t& R_;
};
} }
#endif
