#ifndef MC_STANDIN_OPENGV_AAB_
#define MC_STANDIN_OPENGV_AAB_
#include <opengv/types.hpp>
namespace opengv { namespace absolute_pose {
class AbsoluteAdapterBase {
 public:
  virtual ~AbsoluteAdapterBase() {}
  virtual void record(standin::Run* r) const = 0;
};
} }
#endif
