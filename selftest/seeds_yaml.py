E = "aslam_cv_common/include/aslam/common/yaml-serialization-eigen.h"
Y = "aslam_cv_common/include/aslam/common/yaml-serialization.h"
F = "aslam_cv_common/include/aslam/common/yaml-file-serialization.h"
S = "aslam_cv_common/src/sensor.cc"
HEAD = r'''#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <string>
#include <Eigen/Core>
#include <glog/logging.h>
#include <aslam/common/yaml-serialization.h>
#include <aslam/common/yaml-file-serialization.h>
#define REQUIRE(x) do { if (!(x)) { std::printf("failed: %s\n", #x); std::exit(1); } } while (0)
'''
SENSOR = r'''
#include <aslam/common/sensor.h>
class Thermometer : public aslam::Sensor {
 public:
  Thermometer() {}
  Thermometer(const aslam::SensorId& id, const std::string& t, const std::string& d) : aslam::Sensor(id, t, d) {}
  Sensor::Ptr cloneAsSensor() const override { return nullptr; }
  aslam::Sensor* cloneAs() const { return nullptr; }
  uint8_t getSensorType() const override { return 200u; }
  std::string getSensorTypeString() const override { return "THERMOMETER"; }
  double offset = 0.0;
 private:
  bool isValidImpl() const override { return true; }
  void setRandomImpl() override {}
  bool isEqualImpl(const aslam::Sensor&, const bool) const override { return true; }
  bool loadFromYamlNodeImpl(const YAML::Node& n) override { return YAML::safeGet(n, std::string("offset"), &offset); }
  void saveToYamlNodeImpl(YAML::Node* n) const override { (*n)["offset"] = offset; }
};
'''
LIB = dict(libs="-laslam_cv_common")
SEEDS = [
    dict(id="ye-flat-iterator-per-row", property="P18", edits=[
        (E, "          }\n          ++it;\n        }\n      }\n    } else if", "          }\n        }\n        ++it;\n      }\n    } else if")],
        demo=HEAD + r'''
int main() {
  Eigen::MatrixXd m;
  YAML::Node n = YAML::Load("{rows: 2, cols: 2, data: [1, 2, 3, 4]}");
  REQUIRE(YAML::convert<Eigen::MatrixXd>::decode(n, m));
  REQUIRE(m(0, 0) == 1 && m(0, 1) == 2 && m(1, 0) == 3 && m(1, 1) == 4);
  return 0;
}
''', needs="a matrix of several columns stored as one flat list", breaks="entries of a row all get the value of the first"),
    dict(id="ye-wide-matrix-digits", property="P18", edits=[
        (E, "        ith_row << YAML::Flow;\n", "        ith_row << YAML::Flow << YAML::DoublePrecision(9);\n")],
        demo=HEAD + r'''
int main() {
  Eigen::Matrix2d m, r;
  m << 0.5, 0.25, 1.0 / 3.0, 2.0;
  YAML::Node n;
  n["m"] = m;
  std::string text = YAML::Dump(n);
  REQUIRE(YAML::safeGet(YAML::Load(text), std::string("m"), &r));
  REQUIRE(m == r);
  return 0;
}
''', needs="entries with more than nine digits, in more than one column", breaks="digits are lost"),
    dict(id="ye-row-too-long", property="P18", edits=[
        (E, "CHECK(static_cast<int>(it->size()) == cols)", "CHECK(static_cast<int>(it->size()) >= cols)")],
        demo=HEAD + r'''
#include <sys/wait.h>
#include <unistd.h>
int main() {
  pid_t p = fork();
  if (p == 0) {
    Eigen::MatrixXd m;
    bool ok = false;
    try {
      ok = YAML::convert<Eigen::MatrixXd>::decode(YAML::Load("{rows: 2, cols: 2, data: [[1, 2, 3], [4, 5]]}"), m);
    } catch (...) {}
    _exit(ok ? 1 : 0);
  }
  int s = 0;
  waitpid(p, &s, 0);
  REQUIRE(!(WIFEXITED(s) && WEXITSTATUS(s) == 1));
  return 0;
}
''', needs="a file with a row that is too long", breaks="a malformed matrix is read as if it were fine"),
    dict(id="ye-safeget-true-on-wrong-type", property="P18", edits=[
        (Y, "        *value = sub_node.as<ValueType>();\n        success = true;", "        success = true;\n        *value = sub_node.as<ValueType>();")],
        demo=HEAD + r'''
int main() {
  int v = 7;
  REQUIRE(!YAML::safeGet(YAML::Load("{a: text}"), std::string("a"), &v));
  REQUIRE(v == 7);
  REQUIRE(YAML::safeGet(YAML::Load("{a: 3}"), std::string("a"), &v) && v == 3);
  return 0;
}
''', needs="a key whose value has another type", breaks="success is reported although nothing was read"),
    dict(id="ye-load-wrong-type-raises", property="P18", edits=[
        (Y, """  catch (const std::exception& e) {  // NOLINT
    LOG(ERROR) << "Encountered exception while reading""", """  catch (const YAML::ParserException& e) {  // NOLINT
    LOG(ERROR) << "Encountered exception while reading""")],
        demo=HEAD + r'''
#include <unistd.h>
int main() {
  char dir[] = "/tmp/ye-demo-XXXXXX";
  REQUIRE(mkdtemp(dir));
  std::string file = std::string(dir) + "/f.yaml";
  { std::ofstream o(file); o << "text\n"; }
  int v = 7;
  bool ok = true, raised = false;
  try { ok = YAML::Load(file, &v); } catch (...) { raised = true; }
  unlink(file.c_str());
  rmdir(dir);
  REQUIRE(!raised && !ok && v == 7);
  return 0;
}
''', needs="a file that holds something else than the object", breaks="an exception of the YAML library reaches the caller"),
    dict(id="ye-sensor-id-replaced", property="P18", edits=[
        (S, """    LOG(WARNING) << "Unable to find an ID field. Generating a new random id.";
    generateId(&id_);
  }
  CHECK(id_.isValid());
""", """    LOG(WARNING) << "Unable to find an ID field.";
  }
  if (topic_.empty()) {
    generateId(&id_);
  }
  CHECK(id_.isValid());
""")],
        demo=HEAD + SENSOR + r'''
int main() {
  aslam::SensorId id;
  generateId(&id);
  Thermometer a(id, "/t", "room"), b;
  YAML::Node n;
  a.serialize(&n);
  REQUIRE(b.deserialize(n));
  REQUIRE(b.getId() == id);
  return 0;
}
''', needs="a sensor that had no topic before it is read", breaks="the id of the file is replaced by a random one", **LIB),
    dict(id="ye-sensor-own-failure-dropped", property="P18", edits=[
        (S, "  return loadFromYamlNodeImpl(sensor_node);", """  if (!loadFromYamlNodeImpl(sensor_node)) {
    LOG(WARNING) << "Unable to read all values of sensor " << id_;
  }
  return isValid();""")],
        demo=HEAD + SENSOR + r'''
int main() {
  aslam::SensorId id;
  generateId(&id);
  Thermometer a(id, "/t", "room"), b;
  YAML::Node n;
  a.serialize(&n);
  REQUIRE(b.deserialize(n));
  n.remove("offset");
  Thermometer c;
  REQUIRE(!c.deserialize(n));
  return 0;
}
''', needs="a sensor file in which the derived sensor's value is missing", breaks="the failure is not reported", **LIB),
]
