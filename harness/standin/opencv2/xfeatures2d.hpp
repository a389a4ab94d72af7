// Stand-in for opencv_xfeatures2d, see brisk/scripted-feature2d.h.
#pragma once
#include <brisk/scripted-feature2d.h>

namespace cv {
namespace xfeatures2d {
class SURF : public featurestandin::Scripted {
 public:
  using Scripted::Scripted;
  static Ptr<SURF> create(double hessianThreshold = 100, int nOctaves = 4, int nOctaveLayers = 3, bool extended = false, bool upright = false) {
    return makePtr<SURF>(featurestandin::fmt("surf %.17g %g %g", hessianThreshold, nOctaves, nOctaveLayers) + (extended ? " extended" : "") + (upright ? " upright" : ""));
  }
};
typedef SURF SurfFeatureDetector;
class FREAK : public featurestandin::Scripted {
 public:
  using Scripted::Scripted;
  static Ptr<FREAK> create(bool orientationNormalized = true, bool scaleNormalized = true, float patternScale = 22.0f, int nOctaves = 4,
                           const std::vector<int>& selectedPairs = std::vector<int>()) {
    return makePtr<FREAK>(featurestandin::fmt("freak %g %g %.9g %g", orientationNormalized, scaleNormalized, patternScale, nOctaves) + (selectedPairs.empty() ? "" : " pairs"));
  }
};
}  // namespace xfeatures2d
}  // namespace cv
