S, SH = "aslam_cv_common/src/sensor.cc", "aslam_cv_common/include/aslam/common/sensor.h"
D, DH = "aslam_cv_cameras/src/distortion.cc", "aslam_cv_cameras/include/aslam/cameras/distortion.h"
SRC = [D] + ["aslam_cv_cameras/src/distortion-%s.cc" % x for x in ("equidistant", "fisheye", "radtan")]
SENSOR = r'''#include <cstdio>
#include <cstdlib>
#include <memory>
#include <string>
#include <aslam/common/sensor.h>
#define REQUIRE(x) do { if (!(x)) { std::printf("failed: %s\n", #x); std::exit(1); } } while (0)
class Thermometer : public aslam::Sensor {
 public:
  using aslam::Sensor::Sensor;
  Thermometer() {}
  Thermometer(const Thermometer&) = default;
  Thermometer& operator=(const Thermometer&) = default;
  Sensor::Ptr cloneAsSensor() const override { return Sensor::Ptr(new Thermometer(*this)); }
  uint8_t getSensorType() const override { return 7; }
  std::string getSensorTypeString() const override { return "THERMOMETER"; }
  bool isValidImpl() const override { return true; }
  void setRandomImpl() override {}
  bool loadFromYamlNodeImpl(const YAML::Node&) override { return true; }
  void saveToYamlNodeImpl(YAML::Node*) const override {}
  bool isEqualImpl(const aslam::Sensor& other, const bool) const override {
    return offset == static_cast<const Thermometer&>(other).offset;
  }
  double offset = 0;
};
aslam::SensorId id(const char* hex) {
  aslam::SensorId i;
  i.fromHexString(hex);
  return i;
}
const char* kA = "0123456789abcdef0123456789abcdef";
const char* kB = "fedcba9876543210fedcba9876543210";
'''
DIST = r'''#include <cstdio>
#include <cstdlib>
#include <memory>
#include <aslam/cameras/distortion-equidistant.h>
#include <aslam/cameras/distortion-radtan.h>
#define REQUIRE(x) do { if (!(x)) { std::printf("failed: %s\n", #x); std::exit(1); } } while (0)
using namespace aslam;
Eigen::VectorXd four(double a, double b, double c, double d) {
  Eigen::VectorXd v(4);
  v << a, b, c, d;
  return v;
}
'''
SEEDS = [
    dict(id="co-assignment-keeps-old-topic", property="P22", edits=[
        (SH, "    topic_ = other.topic_;\n", "    if (!other.topic_.empty()) {\n      topic_ = other.topic_;\n    }\n")],
        demo=SENSOR + r'''
int main() {
  Thermometer a(id(kA), "old", "x"), b(id(kB), "", "y");
  static_cast<aslam::Sensor&>(a) = b;
  REQUIRE(a.getId() == b.getId());
  REQUIRE(a.getDescription() == "y");
  REQUIRE(a.getTopic() == b.getTopic());
  return 0;
}
''', needs="an object with a topic to which one without is assigned", breaks="the assigned object keeps its old topic"),
    dict(id="co-equal-without-topic", property="P22", edits=[
        (S, "  is_equal &= topic_ == other.topic_;\n", "  is_equal &= topic_.compare(0, other.topic_.size(), other.topic_) == 0;\n")],
        demo=SENSOR + r'''
int main() {
  Thermometer a(id(kA), "imu0", "x"), b(id(kA), "imu", "x");
  REQUIRE(a.isEqual(a));
  REQUIRE(!b.isEqual(a));
  REQUIRE(!a.isEqual(b));
  return 0;
}
''', needs="a topic that begins with the other one's", breaks="sensors of different topics are called equal"),
    dict(id="co-equal-part-replaces", property="P22", edits=[
        (S, """  // optimize to avoid unncessary comparisons
  if (is_equal) {
    is_equal &= isEqualImpl(other, verbose);
  }
""", """  if (is_equal || verbose) {
    is_equal = isEqualImpl(other, verbose);
  }
""")],
        demo=SENSOR + r'''
int main() {
  Thermometer a(id(kA), "t", "x"), b(id(kB), "t", "x");
  REQUIRE(!a.isEqual(b));
  REQUIRE(a == a);
  REQUIRE(!(a == b));
  b = a;
  b.offset = 1;
  REQUIRE(!(a == b));
  return 0;
}
''', needs="a verbose comparison (as ==) of sensors whose derived parts agree", breaks="sensors with different identifiers are called equal"),
    dict(id="co-distortion-model-ignored", property="P22", srcs=SRC, edits=[
        (D, "  if (typeid(*this) != typeid(rhs))\n    return false;\n", "  if (distortion_type_ == Type::kNoDistortion && typeid(*this) != typeid(rhs))\n    return false;\n")],
        demo=DIST + r'''
int main() {
  RadTanDistortion r(four(0.1, 0.01, 0.001, 0.001)), s(four(0.1, 0.01, 0.001, 0.002));
  EquidistantDistortion e(four(0.1, 0.01, 0.001, 0.001));
  REQUIRE(!(r == s));
  REQUIRE(r == r);
  REQUIRE(!(static_cast<Distortion&>(r) == static_cast<Distortion&>(e)));
  return 0;
}
''', needs="two models with the same coefficients", breaks="distortions of different models are called equal"),
    dict(id="co-distortion-copy-clamped", property="P22", srcs=SRC, edits=[
        (DH, "  Distortion(const Distortion&) = default;", """  Distortion(const Distortion& other)
      : distortion_coefficients_(other.distortion_coefficients_.cwiseMax(-1.0)),
        distortion_type_(other.distortion_type_) {}""")],
        demo=DIST + r'''
int main() {
  RadTanDistortion r(four(-1.2, 0.9, 0.001, 0.001)), s(four(-0.2, 0.1, 0.001, 0.001));
  std::unique_ptr<Distortion> a(r.clone()), b(s.clone());
  REQUIRE(b->getParameters() == s.getParameters());
  REQUIRE(a->getParameters() == r.getParameters());
  return 0;
}
''', needs="a coefficient below -1", breaks="the clone has another coefficient than the original"),
]
