// Instantiates the header-only parts of aslam_cv_common so that their bodies are analysed as type-checked code.
#include <cstdint>
#include <deque>
#include <memory>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#include <opencv2/core/core.hpp>
#include <opencv2/imgproc/imgproc.hpp>
#include <Eigen/Dense>
#include <glog/logging.h>
#include <yaml-cpp/yaml.h>

#ifndef CV_FILLED
#define CV_FILLED -1
#endif

#include <aslam/common/descriptor-utils.h>
#include <aslam/common/eigen-hash.h>
#include <aslam/common/feature-descriptor-ref.h>
#include <aslam/common/hamming.h>
#include <aslam/common/hash-id.h>
#include <aslam/common/memory.h>
#include <aslam/common/occupancy-grid.h>
#include <aslam/common/opencv-predicates.h>
#include <aslam/common/predicates.h>
#include <aslam/common/statistics/accumulator.h>
#include <aslam/common/stl-helpers.h>
#include <aslam/common/unique-id.h>
#include <aslam/common/yaml-serialization.h>
#include <aslam/common/yaml-file-serialization.h>

template class aslam::common::WeightedOccupancyGrid<>;
template class aslam::common::WeightedOccupancyGrid<aslam::common::WeightedKeypoint<int, float, size_t>>;
template class statistics::Accumulator<double, double, 50>;
template class statistics::Accumulator<double, double, statistics::kInfiniteWindowSize>;
template class aslam::UniqueId<aslam::FrameId>;
template class aslam::UniqueId<aslam::NFramesId>;
template struct std::hash<Eigen::Matrix<double, 3, 1>>;
template struct std::hash<Eigen::Matrix<int, 2, 2>>;

namespace verif_driver {
using namespace aslam::common;  // NOLINT

template <typename Container>
void erase(Container* c) {
  std::vector<size_t> i;
  stl_helpers::eraseIndicesFromContainer(i, 3u, c);
}

void stl() {
  std::vector<std::vector<int>> nested;
  countNumberOfElementsInNestedList(nested);
  std::vector<double> v, w;
  median(v.begin(), v.end());
  mean(v.begin(), v.end());
  stddev(v.begin(), v.end());
  drawNRandomElements(3u, v, &w);
  keepOnlyNSortedElements(3u, std::greater<double>(), &v);
  keepOnlyNSortedElements(3u, std::greater<double>(), &v, [](const double&) {});
  eraseIndicesFromVector(v, std::vector<size_t>());
  Aligned<std::vector, Eigen::Vector3d> va;
  eraseIndicesFromVector(va, std::vector<size_t>());
  convertEigenToStlVector<3>(Eigen::Matrix3Xd(), &va);
  Eigen::Matrix2Xd a;
  Eigen::VectorXd b;
  Eigen::MatrixXi dyn;
  erase(&a);
  erase(&b);
  erase(&v);
  erase(&va);
  typedef stl_helpers::OneDimensionAdapter<int, stl_helpers::kColumns> Cols;
  typedef stl_helpers::OneDimensionAdapter<int, stl_helpers::kRows> Rows;
  Cols cols(&dyn);
  Rows rows(&dyn);
  erase(&cols);
  erase(&rows);
  std::unordered_map<int, std::string> m;
  std::shared_ptr<int> p, q;
  aslam::checkSharedEqual(p, q);
}

void descriptors() {
  using namespace descriptor_utils;  // NOLINT
  DescriptorsType ds;
  DescriptorType d;
  size_t index;
  getBit(1u, d);
  setBit(1u, &d);
  descriptorMeanRoundedToBinaryValue(ds, &d);
  getIndexOfDescriptorClosestToMedian(ds, &index);
  descriptorMeanAbsoluteDeviation(ds);
  Eigen::VectorXd md;
  Eigen::VectorXf mf;
  floatDescriptorMean(ds, &md);
  floatDescriptorMean(ds, &mf);
  differenceToMeanSquaredNorm(d, mf);
  descriptorMeanStandardDeviation(ds);
  pairwiseEuclidianDistances(ds, &d);
  unsigned char raw[48];
  FeatureDescriptorRef ref(raw, 48u, false), own(48u), none;
  FeatureDescriptorConstRef c(raw, 48u), k(ref.ToConstRef());
  ref = own;
  FeatureDescriptorRef copy(own);
  own.SetZero();
  own.SetRandom(1);
  SetBit(1u, &own);
  GetBit(1u, c);
  FlipBit(1u, &own);
  FlipNRandomBits(3u, &own);
  GetNumBitsDifferent(c, k);
  GetNumBitsDifferent(own, ref);
  std::vector<FeatureDescriptorRef*> rs;
  DescriptorMean(rs, &own);
  c = k;
  (void)(c == k);
  (void)(own == ref);
  (void)c[0u];
  (void)own[0u];
  Hamming()(raw, raw, 48);
}

void images(const cv::Mat& a, const cv::Mat& b) {
  gtest_catkin::ImagesEqual(a, b);
}

template <typename T>
void yaml(T* t) {
  YAML::Node n;
  YAML::convert<T>::encode(*t);
  YAML::convert<T>::decode(n, *t);
  YAML::safeGet(n, "key", t);
  YAML::Save(*t, "file");
  YAML::Load(std::string("file"), t);
}

void yamls() {
  Eigen::MatrixXd m;
  Eigen::VectorXd v;
  Eigen::Vector3d v3;
  Eigen::Matrix2f m2;
  Eigen::Matrix3Xd m3x;
  Eigen::MatrixX2d mx2;
  Eigen::RowVectorXd r;
  yaml(&m);
  yaml(&v);
  yaml(&v3);
  yaml(&m2);
  yaml(&m3x);
  yaml(&mx2);
  yaml(&r);
  YAML::hasKey(YAML::Node(), "key");
}

void ids() {
  aslam::SensorId a, b;
  aslam::FrameId f;
  aslam::NFramesId n;
  aslam::Id i;
  aslam::generateId(&a);
  aslam::generateId(&f);
  aslam::generateId(&n);
  aslam::generateId(&i);
  aslam::HashId h;
  a.fromHashId(h);
  a.toHashId(&h);
  a.deserialize(aslam::proto::Id());
  aslam::proto::Id p;
  a.serialize(&p);
  a.hexString();
  a.fromHexString("");
  a.printString();
  (void)(a == b);
  (void)(a != b);
  (void)(a < b);
  (void)(a == i);
  (void)(a != i);
  (void)(a < i);
  (void)(i == a.toIdType<aslam::Id>());
  std::unordered_set<aslam::SensorId> s1;
  std::unordered_set<aslam::FrameId> s2;
  std::unordered_set<aslam::Id> s3;
  s1.insert(a);
  s2.insert(f);
  s3.insert(i);
  std::stringstream ss;
  ss << a << f << n << i;
}
}  // namespace verif_driver
