#ifndef STUB_BRISK_H_
#define STUB_BRISK_H_
#include <opencv2/core/core.hpp>
#include <opencv2/features2d/features2d.hpp>
namespace brisk {
struct HarrisScoreCalculator {};
template <class Score>
class ScaleSpaceFeatureDetector : public cv::Feature2D {
 public:
  ScaleSpaceFeatureDetector(size_t octaves, double uniformity_radius, double absolute_threshold, size_t max_keypoints);
};
class BriskDescriptorExtractor : public cv::Feature2D {
 public:
  BriskDescriptorExtractor(bool rotation_invariant, bool scale_invariant);
};
class BriskFeatureDetector : public cv::Feature2D {
 public:
  explicit BriskFeatureDetector(int);
};
}  // namespace brisk
#endif
