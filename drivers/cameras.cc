// Instantiates the camera, distortion and frame templates.
#include <memory>
#include <string>
#include <vector>

#include <aslam/cameras/camera-3d-lidar.h>
#include <aslam/cameras/camera-factory.h>
#include <aslam/cameras/camera-pinhole.h>
#include <aslam/cameras/camera-unified-projection.h>
#include <aslam/cameras/camera.h>
#include <aslam/cameras/distortion-equidistant.h>
#include <aslam/cameras/distortion-fisheye.h>
#include <aslam/cameras/distortion-null.h>
#include <aslam/cameras/distortion-radtan.h>
#include <aslam/cameras/ncamera.h>
#include <aslam/cameras/random-camera-generator.h>
#include <aslam/common/channel-external-declaration.h>
#include <aslam/common/yaml-serialization.h>
#include <aslam/frames/visual-frame.h>
#include <aslam/frames/visual-nframe.h>

namespace verif_external {
DECLARE_EXTERNAL_CHANNEL_WITH_SWAP(VerifLandmarks, Eigen::VectorXi)
DECLARE_EXTERNAL_CHANNEL(VerifFlag, double)
}  // namespace verif_external

namespace verif_driver_cameras {
using namespace aslam;  // NOLINT

template <typename C, typename D>
void camera() {
  Eigen::VectorXd i, d;
  createCamera<C, D>(i, 1u, 1u, d);
  createCamera<C>(i, 1u, 1u);
  Camera::construct<C, D>(i, 1u, 1u, d);
  C::template createTestCamera<D>();
  C::template createTestCameraUnique<D>();
}

// a number with a derivative, as ceres has it
template <typename T, int N>
struct Dual {
  Dual(const T& value, const T& derivative) : a(value), v(derivative) {}
  T a;
  T v;
};
void duals(const Dual<double, 1>& d) {
  jet_trigonometric::tan(d);
  jet_trigonometric::atan(d);
  jet_trigonometric::tan(d.a);
  jet_trigonometric::atan(d.a);
}

void cameras(const Camera& c, const PinholeCamera& p, const Camera3DLidar& l) {
  camera<PinholeCamera, RadTanDistortion>();
  camera<PinholeCamera, EquidistantDistortion>();
  camera<UnifiedProjectionCamera, FisheyeDistortion>();
  Camera3DLidar::createTestCamera<NullDistortion>();
  createIntrinsicsPinholeTestCamera<EquidistantDistortion>();
  Eigen::Vector2d k;
  c.isKeypointVisible(k);
  c.isKeypointVisibleWithMargin(k, 1.0);
  Eigen::Vector2f kf;
  c.isKeypointVisible(kf);
  Eigen::Vector3d x;
  Eigen::VectorXd i, d;
  p.project3Functional<double, FisheyeDistortion>(x, i, d, &k);
  p.project3Functional<double, NullDistortion>(x, i, d, &k);
  l.project3Functional<double, NullDistortion>(x, i, d, &k);
  std::stringstream ss;
  ss << Camera::Type::kPinhole;
}

void frames(VisualFrame* f) {
  Eigen::VectorXi v;
  f->getChannelData<Eigen::VectorXi>("x");
  f->getChannelDataMutable<Eigen::VectorXi>("x");
  f->setChannelData<Eigen::VectorXi>("x", v);
  f->swapChannelData<Eigen::VectorXi>("x", &v);
  f->addChannel<Eigen::VectorXi>("x");
  VisualFrame::DescriptorsT ds;
  f->setDescriptors(ds);
  f->setDescriptors(ds, 1u, 1);
  verif_external::getVerifLandmarks(*f);
  verif_external::setVerifLandmarks(v, f);
  verif_external::addVerifLandmarks(f);
  verif_external::swapVerifLandmarks(&v, f);
  verif_external::setVerifFlag(1.0, f);
}

template <typename T>
void yaml(const T& t) {
  YAML::Save(t, std::string("file"));
}
}  // namespace verif_driver_cameras
