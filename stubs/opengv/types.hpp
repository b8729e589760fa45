#ifndef STUB_OPENGV_H_
#define STUB_OPENGV_H_
#include <memory>
#include <vector>
#include <Eigen/Core>
#include <Eigen/StdVector>
namespace opengv {
typedef Eigen::Vector3d bearingVector_t;
typedef std::vector<bearingVector_t, Eigen::aligned_allocator<bearingVector_t>> bearingVectors_t;
typedef Eigen::Vector3d point_t;
typedef std::vector<point_t, Eigen::aligned_allocator<point_t>> points_t;
typedef Eigen::Matrix3d rotation_t;
typedef std::vector<rotation_t, Eigen::aligned_allocator<rotation_t>> rotations_t;
typedef Eigen::Vector3d translation_t;
typedef std::vector<translation_t, Eigen::aligned_allocator<translation_t>> translations_t;
typedef Eigen::Matrix<double, 3, 4> transformation_t;
namespace relative_pose {
class CentralRelativeAdapter {
 public:
  CentralRelativeAdapter(const bearingVectors_t&, const bearingVectors_t&, const rotation_t&);
};
}  // namespace relative_pose
namespace absolute_pose {
class AbsoluteAdapterBase {};
class CentralAbsoluteAdapter : public AbsoluteAdapterBase {
 public:
  CentralAbsoluteAdapter(const bearingVectors_t&, const points_t&);
};
class NoncentralAbsoluteAdapter : public AbsoluteAdapterBase {
 public:
  NoncentralAbsoluteAdapter(const bearingVectors_t&, const std::vector<int>&, const points_t&, const translations_t&,
                            const rotations_t&);
};
}  // namespace absolute_pose
namespace sac_problems {
namespace relative_pose {
struct RotationOnlySacProblem {
  typedef rotation_t model_t;
  RotationOnlySacProblem(opengv::relative_pose::CentralRelativeAdapter&, bool);
};
struct TranslationOnlySacProblem {
  typedef transformation_t model_t;
  TranslationOnlySacProblem(opengv::relative_pose::CentralRelativeAdapter&, bool);
};
}  // namespace relative_pose
namespace absolute_pose {
struct AbsolutePoseSacProblem {
  typedef transformation_t model_t;
  enum Algorithm { TWOPT, KNEIP, GAO, EPNP, GP3P };
  AbsolutePoseSacProblem(opengv::absolute_pose::AbsoluteAdapterBase&, Algorithm, bool);
  void optimizeModelCoefficients(const std::vector<int>&, const model_t&, model_t&);
  void getSelectedDistancesToModel(const model_t&, const std::vector<int>&, std::vector<double>&);
};
}  // namespace absolute_pose
}  // namespace sac_problems
namespace sac {
template <class P>
class Ransac {
 public:
  Ransac();
  bool computeModel(int debug_verbosity_level = 0);
  std::shared_ptr<P> sac_model_;
  double threshold_;
  int max_iterations_;
  int iterations_;
  std::vector<int> inliers_;
  std::vector<double> inlier_distances_to_model_;
  typename P::model_t model_coefficients_;
};
}  // namespace sac
}  // namespace opengv
#endif
