Q = "aslam_cv_cameras/src/distortion-equidistant.cc"
F = "aslam_cv_cameras/src/distortion-fisheye.cc"
R = "aslam_cv_cameras/src/distortion-radtan.cc"
D = "aslam_cv_cameras/src/distortion.cc"
HEAD = r'''#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <Eigen/Core>
#include <aslam/cameras/distortion-equidistant.h>
#include <aslam/cameras/distortion-fisheye.h>
#include <aslam/cameras/distortion-radtan.h>
#define REQUIRE(x) do { if (!(x)) { std::printf("failed: %s\n", #x); std::exit(1); } } while (0)
using namespace aslam;
Eigen::VectorXd vec(std::initializer_list<double> l) {
  Eigen::VectorXd v(l.size());
  int i = 0;
  for (double x : l) v(i++) = x;
  return v;
}
// numerical derivative of distort with respect to the point
Eigen::Matrix2d numeric(const Distortion& d, const Eigen::VectorXd* k, const Eigen::Vector2d& p, double h) {
  Eigen::Matrix2d J;
  for (int i = 0; i < 2; ++i) {
    Eigen::Vector2d a = p, b = p;
    a(i) += h;
    b(i) -= h;
    d.distortUsingExternalCoefficients(k, &a, nullptr);
    d.distortUsingExternalCoefficients(k, &b, nullptr);
    J.col(i) = (a - b) / (2 * h);
  }
  return J;
}
Eigen::Matrix<double, 2, Eigen::Dynamic> numericParameters(const Distortion& d, const Eigen::VectorXd& k, const Eigen::Vector2d& p, double h) {
  Eigen::Matrix<double, 2, Eigen::Dynamic> J(2, k.size());
  for (int i = 0; i < k.size(); ++i) {
    Eigen::VectorXd up = k, down = k;
    up(i) += h;
    down(i) -= h;
    Eigen::Vector2d a = p, b = p;
    d.distortUsingExternalCoefficients(&up, &a, nullptr);
    d.distortUsingExternalCoefficients(&down, &b, nullptr);
    J.col(i) = (a - b) / (2 * h);
  }
  return J;
}
'''
SRC = [D, Q, F, R]
SEEDS = [
    dict(id="di-radtan-cross-term", property="P19", srcs=SRC, edits=[
        (R, "                          + 2.0 * p1 * x\n                          + 2.0 * p2 * y;\n\n    const double dvf_du",
         "                          + 2.0 * p2 * x\n                          + 2.0 * p1 * y;\n\n    const double dvf_du")],
        demo=HEAD + r'''
int main() {
  RadTanDistortion d(vec({-0.2, 0.1, 0.03, -0.02}));
  Eigen::Vector2d p(0.3, -0.4), q = p;
  Eigen::Matrix2d J;
  d.distort(&q, &J);
  REQUIRE((J - numeric(d, nullptr, p, 1e-6)).norm() < 1e-6);
  return 0;
}
''', needs="tangential coefficients that differ, a point off the axes", breaks="mixed entries of the Jacobian are wrong"),
    dict(id="di-own-coefficients-in-parameter-jacobian", property="P19", srcs=SRC, edits=[
        (F, """  CHECK_NOTNULL(out_jacobian);

  const double& w = (*dist_coeffs)(0);
""", """  CHECK_NOTNULL(out_jacobian);

  const double& w = distortion_coefficients_(0);
""")],
        demo=HEAD + r'''
int main() {
  FisheyeDistortion d(vec({0.9}));
  Eigen::VectorXd k = vec({1.3});
  Eigen::Vector2d p(0.3, -0.4);
  Eigen::Matrix<double, 2, Eigen::Dynamic> J;
  d.distortParameterJacobian(&k, p, &J);
  REQUIRE((J - numericParameters(d, k, p, 1e-6)).norm() < 1e-6);
  return 0;
}
''', needs="coefficients given from outside that differ from the model's own (calibration)", breaks="the parameter Jacobian is taken at another place"),
    dict(id="di-undistort-own-coefficients", property="P19", srcs=SRC, edits=[
        (Q, "    distortUsingExternalCoefficients(&dist_coeffs, &y_tmp, &F);", "    distortUsingExternalCoefficients(nullptr, &y_tmp, &F);")],
        demo=HEAD + r'''
int main() {
  EquidistantDistortion d(vec({0.0, 0.0, 0.0, 0.0}));
  Eigen::VectorXd k = vec({0.2, -0.1, 0.05, 0.01});
  Eigen::Vector2d p(0.3, -0.4), q = p;
  d.distortUsingExternalCoefficients(&k, &q, nullptr);
  d.undistortUsingExternalCoefficients(k, &q);
  REQUIRE((p - q).norm() < 1e-3);
  return 0;
}
''', needs="undistortion with coefficients from outside", breaks="the model's own coefficients are used instead"),
    dict(id="di-fisheye-near-centre-scale", property="P19", srcs=SRC, edits=[
        (F, "      // The coordinates get multiplied by an expression not depending on r_u.\n      *out_jacobian *= (2. * tanwhalf / w);\n",
         "      // The coordinates get multiplied by an expression not depending on r_u.\n      *out_jacobian *= (2. * tanwhalf * w);\n")],
        demo=HEAD + r'''
int main() {
  FisheyeDistortion d(vec({1.2}));
  Eigen::Vector2d p(1e-4, 2e-4), q = p;
  Eigen::Matrix2d J;
  d.distort(&q, &J);
  REQUIRE((J - numeric(d, nullptr, p, 1e-6)).norm() < 1e-4);
  return 0;
}
''', needs="a point within a few pixels of the image centre", breaks="the Jacobian there has the wrong scale"),
    dict(id="di-radtan-y-after-x", property="P19", srcs=SRC, edits=[
        (R, "  y += y * rad_dist_u + 2.0 * p2 * mxy_u + p1 * (rho2_u + 2.0 * my2_u);", "  y += y * rad_dist_u + 2.0 * p2 * x * y + p1 * (rho2_u + 2.0 * my2_u);")],
        demo=HEAD + r'''
int main() {
  RadTanDistortion d(vec({-0.2, 0.1, 0.03, -0.02}));
  Eigen::Vector2d p(0.5, -0.4), q = p;
  Eigen::Matrix2d J;
  d.distort(&q, &J);
  REQUIRE((J - numeric(d, nullptr, p, 1e-6)).norm() < 1e-6);
  return 0;
}
''', needs="tangential distortion", breaks="y is distorted with the x that is already distorted"),
    dict(id="di-negative-fisheye-width", property="P19", srcs=SRC, edits=[
        (F, "std::abs(w) < 1e-16 || (w >= kMinValidW && w <= kMaxValidW)", "std::abs(w) < 1e-16 || (std::abs(w) >= kMinValidW && w <= kMaxValidW)")],
        demo=HEAD + r'''
int main() {
  REQUIRE(FisheyeDistortion::areParametersValid(vec({FisheyeDistortion::getMinValidW()})));
  REQUIRE(FisheyeDistortion::areParametersValid(vec({0.0})));
  REQUIRE(!FisheyeDistortion::areParametersValid(vec({-FisheyeDistortion::getMaxValidW()})));
  return 0;
}
''', needs="a negative parameter", breaks="parameters outside the declared range are valid"),
    dict(id="di-newton-result-distorted", property="P19", srcs=SRC, edits=[
        (R, "  y = ybar;", "  y = y_tmp;")],
        demo=HEAD + r'''
int main() {
  RadTanDistortion d(vec({-0.2, 0.1, 0.03, -0.02}));
  Eigen::Vector2d p(0.5, -0.4), q = p;
  d.distort(&q);
  d.undistort(&q);
  REQUIRE((p - q).norm() < 1e-3);
  return 0;
}
''', needs="an undistortion away from the centre", breaks="the distorted point is returned"),
]
