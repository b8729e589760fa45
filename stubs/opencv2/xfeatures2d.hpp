#ifndef STUB_XFEATURES2D_H_
#define STUB_XFEATURES2D_H_
#include <opencv2/core/core.hpp>
#include <opencv2/features2d/features2d.hpp>
namespace cv {
namespace xfeatures2d {
class SurfFeatureDetector : public cv::Feature2D {
 public:
  static cv::Ptr<SurfFeatureDetector> create(double t = 100, int o = 4, int l = 3, bool e = false, bool u = false);
};
class FREAK : public cv::Feature2D {
 public:
  static cv::Ptr<FREAK> create(bool orientation_normalized = true, bool scale_normalized = true,
                               float pattern_scale = 22.0f, int octaves = 4);
};
}  // namespace xfeatures2d
}  // namespace cv
#endif
