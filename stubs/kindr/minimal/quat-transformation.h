// Stand-in for minikindr: not available offline; declarations only, for parsing (nothing is run).
#ifndef STUB_KINDR_H_
#define STUB_KINDR_H_
#include <cmath>
#include <ostream>
#include <Eigen/Core>
#include <Eigen/Geometry>
namespace kindr {
namespace minimal {
template <class S> using PositionTemplate = Eigen::Matrix<S, 3, 1>;
typedef PositionTemplate<double> Position;
template <class S>
class AngleAxisTemplate {
 public:
  AngleAxisTemplate();
  AngleAxisTemplate(S, const Eigen::Matrix<S, 3, 1>&);
  explicit AngleAxisTemplate(const Eigen::Matrix<S, 3, 1>&);
  S angle() const;
  Eigen::Matrix<S, 3, 1> axis() const;
};
typedef AngleAxisTemplate<double> AngleAxis;
template <class S>
class RotationQuaternionTemplate {
 public:
  typedef Eigen::Matrix<S, 3, 1> Vector3;
  typedef Eigen::Matrix<S, 4, 1> Vector4;
  typedef Eigen::Matrix<S, 3, 3> RotationMatrix;
  RotationQuaternionTemplate();
  RotationQuaternionTemplate(S w, S x, S y, S z);
  explicit RotationQuaternionTemplate(const RotationMatrix&);
  explicit RotationQuaternionTemplate(const AngleAxisTemplate<S>&);
  explicit RotationQuaternionTemplate(const Eigen::Quaternion<S>&);
  explicit RotationQuaternionTemplate(const Vector3&);
  S w() const; S x() const; S y() const; S z() const;
  RotationQuaternionTemplate inverse() const;
  Vector3 rotate(const Vector3&) const;
  Eigen::Matrix<S, 3, Eigen::Dynamic> rotateVectorized(const Eigen::Matrix<S, 3, Eigen::Dynamic>&) const;
  Vector3 inverseRotate(const Vector3&) const;
  RotationMatrix getRotationMatrix() const;
  Eigen::Quaternion<S> toImplementation() const;
  RotationQuaternionTemplate operator*(const RotationQuaternionTemplate&) const;
  RotationQuaternionTemplate& setIdentity();
  bool operator==(const RotationQuaternionTemplate&) const;
};
typedef RotationQuaternionTemplate<double> RotationQuaternion;
template <class S>
class QuatTransformationTemplate {
 public:
  typedef Eigen::Matrix<S, 3, 1> Vector3;
  typedef Eigen::Matrix<S, 3, 3> RotationMatrix;
  typedef Eigen::Matrix<S, 4, 4> TransformationMatrix;
  typedef RotationQuaternionTemplate<S> Rotation;
  typedef PositionTemplate<S> Position;
  QuatTransformationTemplate();
  QuatTransformationTemplate(const Rotation&, const Position&);
  QuatTransformationTemplate(const Position&, const Rotation&);
  explicit QuatTransformationTemplate(const TransformationMatrix&);
  Position& getPosition();
  const Position& getPosition() const;
  Rotation& getRotation();
  const Rotation& getRotation() const;
  RotationMatrix getRotationMatrix() const;
  TransformationMatrix getTransformationMatrix() const;
  QuatTransformationTemplate inverse() const;
  Vector3 transform(const Vector3&) const;
  Eigen::Matrix<S, 3, Eigen::Dynamic> transformVectorized(const Eigen::Matrix<S, 3, Eigen::Dynamic>&) const;
  Vector3 inverseTransform(const Vector3&) const;
  QuatTransformationTemplate operator*(const QuatTransformationTemplate&) const;
  Vector3 operator*(const Vector3&) const;
  QuatTransformationTemplate& setRandom();
  QuatTransformationTemplate& setRandom(S, S);
  QuatTransformationTemplate& setIdentity();
  bool operator==(const QuatTransformationTemplate&) const;
};
typedef QuatTransformationTemplate<double> QuatTransformation;
template <class S> std::ostream& operator<<(std::ostream&, const QuatTransformationTemplate<S>&);
template <class S> std::ostream& operator<<(std::ostream&, const RotationQuaternionTemplate<S>&);
}  // namespace minimal
}  // namespace kindr
#endif
