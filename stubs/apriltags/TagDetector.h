#ifndef STUB_APRILTAGS_H_
#define STUB_APRILTAGS_H_
#include <utility>
#include <vector>
#include <Eigen/Core>
#include <opencv2/core/core.hpp>
namespace AprilTags {
struct TagCodes {
  int bits;
};
extern const TagCodes tagCodes36h11;
struct TagDetection {
  bool good;
  int id;
  int hammingDistance;
  std::pair<float, float> p[4];
  std::pair<float, float> cxy;
  static bool sortByIdCompare(const TagDetection& a, const TagDetection& b);
  void draw(cv::Mat& image) const;
};
class TagDetector {
 public:
  TagDetector(const TagCodes& codes, const size_t black_border);
  std::vector<TagDetection> extractTags(const cv::Mat& image) const;
};
}  // namespace AprilTags
#endif
