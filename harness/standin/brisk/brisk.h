// Stand-in for brisk, see scripted-feature2d.h.
#pragma once
#include <brisk/scripted-feature2d.h>

namespace brisk {
struct HarrisScoreCalculator {};
template <class Score> struct ScaleSpaceFeatureDetector : featurestandin::Scripted {
  ScaleSpaceFeatureDetector(size_t octaves, double uniformity_radius, double absolute_threshold = 0, size_t max_num_kpt = size_t(-1))
      : Scripted(featurestandin::fmt("harris %.17g %.17g %.17g %.17g", octaves, uniformity_radius, absolute_threshold, max_num_kpt)) {}
};
struct BriskFeatureDetector : featurestandin::Scripted {
  explicit BriskFeatureDetector(int threshold, int octaves = 3, bool = true) : Scripted(featurestandin::fmt("agast %g %g", threshold, octaves)) {}
};
struct BriskDescriptorExtractor : featurestandin::Scripted {
  BriskDescriptorExtractor(bool rotation_invariant = true, bool scale_invariant = true) : Scripted(featurestandin::fmt("brisk %g %g", rotation_invariant, scale_invariant)) {}
};
}  // namespace brisk
