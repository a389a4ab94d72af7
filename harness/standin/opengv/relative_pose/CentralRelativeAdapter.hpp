#ifndef MC_STANDIN_OPENGV_CRA_
#define MC_STANDIN_OPENGV_CRA_
#include <opengv/types.hpp>
namespace opengv { namespace relative_pose {
class RelativeAdapterBase {
 public:
  RelativeAdapterBase(const rotation_t& R12) : R12_(R12) {}
  virtual ~RelativeAdapterBase() {}
  virtual const bearingVectors_t& b1() const = 0;
  virtual const bearingVectors_t& b2() const = 0;
  rotation_t getR12() const { return R12_; }
 protected:
  rotation_t R12_;
};
class CentralRelativeAdapter : public RelativeAdapterBase {  // like opengv's it keeps references to the vectors
 public:
  CentralRelativeAdapter(const bearingVectors_t& b1, const bearingVectors_t& b2) : RelativeAdapterBase(rotation_t::Identity()), b1_(b1), b2_(b2) {}
  CentralRelativeAdapter(const bearingVectors_t& b1, const bearingVectors_t& b2, const rotation_t& R12) : RelativeAdapterBase(R12), b1_(b1), b2_(b2) {}
  const bearingVectors_t& b1() const override { return b1_; }
  const bearingVectors_t& b2() const override { return b2_; }
  size_t getNumberCorrespondences() const { return b2_.size(); }
 private:
  const bearingVectors_t& b1_;
  const bearingVectors_t& b2_;
};
} }
#endif
