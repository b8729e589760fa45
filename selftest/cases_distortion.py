Q = "aslam_cv_cameras/src/distortion-equidistant.cc"
F = "aslam_cv_cameras/src/distortion-fisheye.cc"
R = "aslam_cv_cameras/src/distortion-radtan.cc"
D = "aslam_cv_cameras/src/distortion.cc"
FH = "aslam_cv_cameras/include/aslam/cameras/distortion-fisheye.h"
RI = "aslam_cv_cameras/include/aslam/cameras/distortion-radtan-inl.h"
NH = "aslam_cv_cameras/include/aslam/cameras/distortion-null.h"
RH = "aslam_cv_cameras/include/aslam/cameras/distortion-radtan.h"
CASES = []


def fire(name, *edits):
    CASES.append(("dist: " + name, "P19", "fire", list(edits)))


def quiet(name, *edits):
    CASES.append(("dist: " + name, "P19", "quiet", list(edits)))


# ---- Jacobians
fire("radtan mixed entry", (R, "+ 2.0 * p1 * x\n                          + 2.0 * p2 * y;\n\n    const double dvf_du", "+ 2.0 * p2 * x\n                          + 2.0 * p1 * y;\n\n    const double dvf_du"))
fire("radtan factor", (R, "+ 6.0 * p1 * y;", "+ 4.0 * p1 * y;"))
fire("radtan Jacobian after the point moved", (R, "  double mx2_u = x * x;", "  const double x_in = x;\n  double mx2_u = x_in * x_in + 0.0 * k1;"), (R, "+ 6.0 * p2 * x;", "+ 6.0 * p2 * y;"))
fire("radtan point", (R, "y += y * rad_dist_u + 2.0 * p2 * mxy_u", "y += y * rad_dist_u + 2.0 * p1 * mxy_u"))
fire("radtan y uses the new x", (R, "y += y * rad_dist_u + 2.0 * p2 * mxy_u", "y += y * rad_dist_u + 2.0 * p2 * x * y"))
fire("equidistant power", (Q, "double theta7 = theta6 * theta;", "double theta7 = theta5 * theta;"))
fire("equidistant transposed sign", (Q, "    - x * y * theta * 1.0 / pow(x2 + y2, 3.0 / 2.0)\n    * (k1 * theta2 + k2 * theta4 + k3 * theta6 + k4 * theta8 + 1.0);\n\n    const double dvf_du",
                                     "    - x * y * theta * 1.0 / pow(x2 + y2, 2.0 / 2.0)\n    * (k1 * theta2 + k2 * theta4 + k3 * theta6 + k4 * theta8 + 1.0);\n\n    const double dvf_du"))
fire("equidistant polynomial", (Q, "double theta6 = theta2 * theta4;", "double theta6 = theta2 * theta2;"))
fire("equidistant near the centre", (Q, "      out_jacobian->setIdentity();", "      out_jacobian->setZero();"))
fire("equidistant parameter power", (Q, "const double dvf_dk3 = y * pow(theta, 7.0)", "const double dvf_dk3 = y * pow(theta, 6.0)"))
fire("equidistant parameter axis", (Q, "const double dvf_dk4 = y * pow", "const double dvf_dk4 = x * pow"))
fire("fisheye Jacobian entry", (F, "                - (v * v * atan_wrd) / (w * r_u_cubed)\n", "                - (u * v * atan_wrd) / (w * r_u_cubed)\n"))
fire("fisheye near the centre", (F, "      *out_jacobian *= (2. * tanwhalf / w);\n", ""))
fire("fisheye cube", (F, "const double r_u_cubed = r_u * r_u * r_u;", "const double r_u_cubed = r_u * r_u;"))
fire("fisheye parameter near the centre", (F, "*out_jacobian << u * dscale_d_w, v * dscale_d_w;", "*out_jacobian << u * dscale_d_w, u * dscale_d_w;"))
fire("fisheye parameter sine", (F, "(w - sin(w)) /", "(w - tan(w)) /"))
fire("fisheye parameter", (F, "          - (v * atan_wrd) / (w * w * r_u);", "          - (v * atan_wrd) / (w * r_u);"))
fire("fisheye coefficient two", (F, "const double atan_wrd = atan(2. * tanwhalf * r_u);\n  double r_rd;", "const double atan_wrd = atan(tanwhalf * r_u);\n  double r_rd;"))
fire("rows of the Jacobian", (R, "*out_jacobian << duf_du, duf_dv,\n                     dvf_du, dvf_dv;\n  }\n\n  x +=", "*out_jacobian << dvf_du, dvf_dv,\n                     duf_du, duf_dv;\n  }\n\n  x +="))
fire("parameter Jacobian order", (R, "(*out_jacobian) << duf_dk1, duf_dk2, duf_dp1, duf_dp2,", "(*out_jacobian) << duf_dk1, duf_dk2, duf_dp2, duf_dp1,"))
fire("null Jacobian", (NH, "      out_jacobian->setIdentity();", "      out_jacobian->setZero();"))
# ---- template
# ---- the template for other scalars
FI = "aslam_cv_cameras/include/aslam/cameras/distortion-fisheye-inl.h"
fire("template near the centre", (FI, "      r_rd = mul2tanwby2byw;", "      r_rd = mul2tanwby2;"))
fire("template angle", (FI, "jet_trigonometric::tan(w / 2.0)", "jet_trigonometric::tan(w / 4.0)"))
fire("template distorts the output", (FI, "  *out_point = point;\n  *out_point *= r_rd;", "  *out_point *= r_rd;"))
fire("dual tangent", (FI, "const T tmp = T(1.0) + tan_a * tan_a;", "const T tmp = T(1.0) + f.a * f.a;"))
fire("dual arc tangent", (FI, "const T tmp = T(1.0) / (T(1.0) + f.a * f.a);", "const T tmp = T(1.0) / (T(1.0) - f.a * f.a);"))
quiet("template in one expression", (FI, "  *out_point = point;\n  *out_point *= r_rd;", "  *out_point = point * r_rd;"))
quiet("dual tangent by the cosine", (FI, "const T tmp = T(1.0) + tan_a * tan_a;", "const T tmp = T(1.0) / (std::cos(f.a) * std::cos(f.a));"))
# ---- coefficients
fire("parameter Jacobian ignores given ones", (F, """  // Use internal params if dist_coeffs==nullptr
  if (!dist_coeffs) {
    dist_coeffs = &distortion_coefficients_;
  }
  CHECK_EQ(dist_coeffs->size(), kNumOfParams) << "dist_coeffs: invalid size!";
  CHECK_NOTNULL(out_jacobian);
""", """  dist_coeffs = &distortion_coefficients_;
  CHECK_EQ(dist_coeffs->size(), kNumOfParams) << "dist_coeffs: invalid size!";
  CHECK_NOTNULL(out_jacobian);
"""))
fire("always own", (Q, "  if(!dist_coeffs)\n    dist_coeffs = &distortion_coefficients_;\n", "  dist_coeffs = &distortion_coefficients_;\n"))
fire("number not tested", (Q, """    dist_coeffs = &distortion_coefficients_;
  CHECK_EQ(dist_coeffs->size(), kNumOfParams) << "dist_coeffs: invalid size!";""", """    dist_coeffs = &distortion_coefficients_;"""))
fire("number tested loosely", (R, "bool RadTanDistortion::areParametersValid(const Eigen::VectorXd& parameters) {\n  // Just check the vector size.\n  if (parameters.size() != kNumOfParams)",
                               "bool RadTanDistortion::areParametersValid(const Eigen::VectorXd& parameters) {\n  // Just check the vector size.\n  if (parameters.size() < kNumOfParams)"))
fire("undistort with own coefficients", (R, "distortUsingExternalCoefficients(&dist_coeffs, &y_tmp, &F);", "distortUsingExternalCoefficients(nullptr, &y_tmp, &F);"))
fire("wrapper undistorts with others", (D, "  distortUsingExternalCoefficients(nullptr, out_point, nullptr);", "  Eigen::VectorXd zero = Eigen::VectorXd::Zero(getParameterSize());\n  distortUsingExternalCoefficients(&zero, out_point, nullptr);"))
fire("wrapper forgets the Jacobian", (D, "  distortUsingExternalCoefficients(nullptr, point, out_jacobian);", "  distortUsingExternalCoefficients(nullptr, point, nullptr);"))
fire("wrapper forgets the point", (D, "  *out_point = point;\n  undistortUsing", "  undistortUsing"))
fire("wrapper distorts", (D, "  undistortUsingExternalCoefficients(distortion_coefficients_, point);", "  distortUsingExternalCoefficients(&distortion_coefficients_, point, nullptr);"))
fire("setParameters keeps all", (D, '  CHECK(distortionParametersValid(dist_coeffs)) << "Distortion parameters invalid!";\n', '  LOG_IF(WARNING, !distortionParametersValid(dist_coeffs)) << "Distortion parameters invalid!";\n'))
fire("equal without type", (D, "  if (typeid(*this) != typeid(rhs))\n    return false;\n\n", ""))
fire("equal without coefficients", (D, "  if (distortion_coefficients_ != rhs.distortion_coefficients_)\n    return false;\n\n", ""))
fire("constructor accepts all", (F, ": Base(dist_coeffs, Distortion::Type::kFisheye) {\n  CHECK(distortionParametersValid(dist_coeffs)) << dist_coeffs.transpose();", ": Base(dist_coeffs, Distortion::Type::kFisheye) {"))
fire("constructor's type", (F, "Distortion::Type::kFisheye", "Distortion::Type::kEquidistant"))
fire("range above", (F, "(w >= kMinValidW && w <= kMaxValidW)", "(w >= kMinValidW || w <= kMaxValidW)"))
fire("range of the magnitude", (F, "(w >= kMinValidW && w <= kMaxValidW)", "(std::abs(w) >= kMinValidW && w <= kMaxValidW)"))
# ---- undistortion
fire("fisheye inverse factor", (F, "r_u = tan(r_d * w) / (r_d * mul2tanwby2);", "r_u = tan(r_d * w) / (r_d * w * mul2tanwby2);"))
fire("fisheye inverse angle", (F, "double mul2tanwby2 = tan(w / 2.0) * 2.0;", "double mul2tanwby2 = tan(w) * 2.0;"))
fire("newton residual sign", (R, "Eigen::Vector2d e(y - y_tmp);", "Eigen::Vector2d e(y_tmp - y);"))
fire("newton starts each round", (Q, "    y_tmp = ybar;\n", "    y_tmp = y;\n"))
fire("newton transposed", (Q, "(F.transpose() * F).inverse() * F.transpose() * e", "(F * F.transpose()).inverse() * F.transpose() * e"))
fire("newton result", (Q, "  y = ybar;", "  y = y_tmp;"))
fire("newton leaves at once", (R, "if (e.dot(e) <= FLAGS_acv_inv_distortion_tolerance)", "if (e.dot(e) >= FLAGS_acv_inv_distortion_tolerance)"))
# ---- the same in other words
quiet("radtan local names and order", (R, "  double mx2_u = x * x;\n  double my2_u = y * y;\n", "  double my2_u = y * y;\n  double mx2_u = x * x;\n"))
quiet("radtan horner", (R, "double rad_dist_u = k1 * rho2_u + k2 * rho2_u * rho2_u;", "double rad_dist_u = rho2_u * (k1 + k2 * rho2_u);"))
quiet("radtan into temporaries", (R, "  x += x * rad_dist_u + 2.0 * p1 * mxy_u + p2 * (rho2_u + 2.0 * mx2_u);\n  y += y * rad_dist_u + 2.0 * p2 * mxy_u + p1 * (rho2_u + 2.0 * my2_u);",
                                  "  const double new_x = x * (1.0 + rad_dist_u) + 2.0 * p1 * mxy_u + p2 * (rho2_u + 2.0 * mx2_u);\n  const double new_y = y * (1.0 + rad_dist_u) + 2.0 * p2 * mxy_u + p1 * (rho2_u + 2.0 * my2_u);\n  *point << new_x, new_y;"))
quiet("equidistant scaling first", (Q, "  if(out_jacobian) {\n    double theta3", "  const double scaling = (r > 1e-8) ? thetad / r : 1.0;\n  if(out_jacobian) {\n    double theta3"), (Q, "  double scaling = (r > 1e-8) ? thetad / r : 1.0;\n", ""))
quiet("equidistant norm", (Q, "  double r = sqrt(x2 + y2);\n\n  // Handle special case", "  double r = point->norm();\n\n  // Handle special case"))
quiet("equidistant pow", (Q, "double theta8 = theta4 * theta4;", "double theta8 = pow(theta, 8.0);"))
quiet("equidistant factored Jacobian", (Q, "    const double dvf_du = y * theta * 1.0 / r * (", "    const double dvf_du = y * theta / r * 1.0 * ("))
quiet("fisheye helper", (F, "void FisheyeDistortion::distortUsingExternalCoefficients(const Eigen::VectorXd* dist_coeffs,\n", "namespace {\ndouble tangent_of_half(const double w) { return tan(w / 2.); }\n}  // namespace\n\nvoid FisheyeDistortion::distortUsingExternalCoefficients(const Eigen::VectorXd* dist_coeffs,\n"),
      (F, "const double tanwhalf = tan(w / 2.);\n  const double tanwhalfsq = tanwhalf * tanwhalf;\n  const double atan_wrd", "const double tanwhalf = tangent_of_half(w);\n  const double tanwhalfsq = tanwhalf * tanwhalf;\n  const double atan_wrd"))
quiet("fisheye branches turned", (F, """  if (w * w < 1e-5) {
    // Limit w > 0.
    r_rd = 1.0;
  } else {
    if (r_u * r_u < 1e-5) {
      // Limit r_u > 0.
      r_rd = 2. * tanwhalf / w;
    } else {
      r_rd = atan_wrd / (r_u * w);
    }
  }""", """  const bool small_w = w * w < 1e-5;
  const bool small_r = r_u * r_u < 1e-5;
  if (!small_w && !small_r) {
    r_rd = atan_wrd / (w * r_u);
  } else if (!small_w) {
    r_rd = 2. * tanwhalf / w;
  } else {
    r_rd = 1.0;
  }"""))
quiet("fisheye inverse rewritten", (F, "    r_u = tan(r_d * w) / (r_d * mul2tanwby2);\n", "    const double angle = w * r_d;\n    r_u = sin(angle) / cos(angle) / mul2tanwby2 / r_d;\n"))
quiet("newton solved with the inverse", (R, "Eigen::Vector2d du = (F.transpose() * F).inverse() * F.transpose() * e;", "const Eigen::Vector2d du = F.inverse() * e;"))
quiet("newton while", (Q, "  for (i = 0; i < n; ++i) {\n    y_tmp = ybar;", "  i = 0;\n  for (; i < n; ++i) {\n    y_tmp = ybar;"))
quiet("newton leaves before the step", (R, "    Eigen::Vector2d du = (F.transpose() * F).inverse() * F.transpose() * e;\n    ybar += du;\n    if (e.dot(e) <= FLAGS_acv_inv_distortion_tolerance)\n      break;",
                                      "    if (e.squaredNorm() <= FLAGS_acv_inv_distortion_tolerance)\n      break;\n    ybar += (F.transpose() * F).inverse() * F.transpose() * e;"))
quiet("coefficients by reference", (R, """  if (!dist_coeffs) {
    dist_coeffs = &distortion_coefficients_;
  }
  CHECK_EQ(dist_coeffs->size(), kNumOfParams) << "dist_coeffs: invalid size!";
  CHECK_NOTNULL(out_jacobian);""", """  const Eigen::VectorXd& coefficients = (dist_coeffs == nullptr) ? distortion_coefficients_ : *dist_coeffs;
  CHECK_EQ(coefficients.size(), kNumOfParams) << "dist_coeffs: invalid size!";
  CHECK_NOTNULL(out_jacobian);"""))
quiet("equal in one expression", (D, """  if (typeid(*this) != typeid(rhs))
    return false;

  if (distortion_coefficients_ != rhs.distortion_coefficients_)
    return false;

  return true;""", """  return typeid(*this) == typeid(rhs) && distortion_coefficients_ == rhs.distortion_coefficients_;"""))
quiet("wrapper through the other", (D, "  CHECK_NOTNULL(out_point);\n  *out_point = point;\n  distortUsingExternalCoefficients(nullptr, out_point, nullptr);", "  CHECK_NOTNULL(out_point);\n  *out_point = point;\n  distort(out_point);"))
quiet("valid in one expression", (Q, "  if (parameters.size() != kNumOfParams)\n    return false;\n", "  const bool right_size = (parameters.size() == kNumOfParams);\n  if (!right_size) {\n    return false;\n  }\n"))
quiet("entries of the Jacobian one by one", (R, "    *out_jacobian << duf_du, duf_dv,\n                     dvf_du, dvf_dv;\n  }\n\n  x +=", "    (*out_jacobian)(0, 0) = duf_du;\n    (*out_jacobian)(0, 1) = duf_dv;\n    (*out_jacobian)(1, 0) = dvf_du;\n    (*out_jacobian)(1, 1) = dvf_dv;\n  }\n\n  x +="))
quiet("parameter Jacobian by columns", (F, "*out_jacobian << u * dscale_d_w, v * dscale_d_w;", "*out_jacobian = point * dscale_d_w;"))
CASES = [c for c in CASES if c]
