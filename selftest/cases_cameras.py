P = "aslam_cv_cameras/src/camera-pinhole.cc"
U = "aslam_cv_cameras/src/camera-unified-projection.cc"
C = "aslam_cv_cameras/src/camera.cc"
L = "aslam_cv_cameras/src/camera-3d-lidar.cc"
PI = "aslam_cv_cameras/include/aslam/cameras/camera-pinhole-inl.h"
LI = "aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar-inl.h"
CI = "aslam_cv_cameras/include/aslam/cameras/camera-inl.h"
CASES = []


def fire(name, *edits):
    CASES.append(("cam: " + name, "P20", "fire", list(edits)))


def quiet(name, *edits):
    CASES.append(("cam: " + name, "P20", "quiet", list(edits)))


# ---- Jacobians
fire("pinhole: distortion Jacobian transposed", (P, "const double duf_dy =  fu * J_distortion(0, 1) * rz;", "const double duf_dy =  fu * J_distortion(1, 0) * rz;"))
fire("pinhole: focal length", (P, "const double dvf_dx =  fv * J_distortion(1, 0) * rz;", "const double dvf_dx =  fu * J_distortion(1, 0) * rz;"))
fire("pinhole: sign by depth", (P, "const double dvf_dz = -fv", "const double dvf_dz = fv"))
fire("pinhole: depth squared", (P, "(x * J_distortion(0, 0) + y * J_distortion(0, 1)) * rz2;", "(x * J_distortion(0, 0) + y * J_distortion(0, 1)) * rz;"))
fire("pinhole: mixed coordinates", (P, "-fv * (x * J_distortion(1, 0) + y * J_distortion(1, 1))", "-fv * (x * J_distortion(1, 1) + y * J_distortion(1, 0))"))
fire("pinhole: intrinsics Jacobian of the undistorted point", (P, "const double duf_dfu = (*out_keypoint)[0];", "const double duf_dfu = x * rz;"))
fire("pinhole: intrinsics Jacobian columns", (P, "(*out_jacobian_intrinsics) << duf_dfu, duf_dfv, duf_dcu, duf_dcv,", "(*out_jacobian_intrinsics) << duf_dfu, duf_dfv, duf_dcv, duf_dcu,"))
fire("pinhole: coefficients' Jacobian unscaled row", (P, "    out_jacobian_distortion->row(1) *= fv;\n", ""))
fire("pinhole: coefficients' Jacobian at the distorted point",
     (P, """    distortion_->distortParameterJacobian(distortion_coefficients,
                                          *out_keypoint,
                                          out_jacobian_distortion);
    out_jacobian_distortion->row(0) *= fu;
    out_jacobian_distortion->row(1) *= fv;
  }
""", "  }\n"), (P, "  // Calculate the Jacobian w.r.t to the intrinsic", """  if(out_jacobian_distortion) {
    distortion_->distortParameterJacobian(distortion_coefficients, *out_keypoint, out_jacobian_distortion);
    out_jacobian_distortion->row(0) *= fu;
    out_jacobian_distortion->row(1) *= fv;
  }
  // Calculate the Jacobian w.r.t to the intrinsic"""))
fire("unified: product of the mirror", (U, "J(1, 0) = -rz2 * xi * x * y;", "J(1, 0) = -rz2 * x * y;"))
fire("unified: overwritten too early", (U, "    J(1, 0) = fv * (J(0, 0) * J_distortion(1, 0) + J(1, 0) * J_distortion(1, 1));\n    J(0, 0) = rz2;\n", "    J(0, 0) = rz2;\n    J(1, 0) = fv * (J(0, 0) * J_distortion(1, 0) + J(1, 0) * J_distortion(1, 1));\n"))
fire("unified: last column", (U, "rz2 = rz2 * (-xi * z - d);", "rz2 = rz2 * (-xi * z + d);"))
fire("unified: mirror parameter's derivative", (U, "Jxi[1] = -y * rz * d * rz;", "Jxi[1] = -y * rz * rz;"))
fire("unified: distortion left out of the mirror's derivative", (U, "(*out_jacobian_intrinsics).col(0) = J_distortion * Jxi;", "(*out_jacobian_intrinsics).col(0) << fu * Jxi[0], fv * Jxi[1];"))
fire("unified: only asked for the point", (U, "if (out_jacobian_point || out_jacobian_intrinsics) {", "if (out_jacobian_point) {"))
fire("unified: centre's column", (U, "(*out_jacobian_intrinsics)(1, 4) = 1;", "(*out_jacobian_intrinsics)(1, 3) = 1;"))
fire("unified: invalid projection's Jacobian left", (U, "      out_jacobian_intrinsics->setZero(2, kNumOfParams);\n    }\n    if (out_jac", "      out_jacobian_intrinsics->setOnes(2, kNumOfParams);\n    }\n    if (out_jac"))
# ---- the keypoint
fire("pinhole: not distorted without the Jacobian", (P, """    // Distortion active but Jacobian NOT wanted.
    distortion_->distortUsingExternalCoefficients(distortion_coefficients,
                                                  out_keypoint,
                                                  nullptr);
""", "    if (distortion_coefficients_external) distortion_->distortUsingExternalCoefficients(distortion_coefficients, out_keypoint, nullptr);\n"))
fire("pinhole: own coefficients when asked for no Jacobian", (P, """    // Distortion active but Jacobian NOT wanted.
    distortion_->distortUsingExternalCoefficients(distortion_coefficients,
                                                  out_keypoint,
                                                  nullptr);
""", "    distortion_->distort(out_keypoint);\n"))
fire("pinhole: own centre in spite of external intrinsics", (P, "(*out_keypoint)[1] = fv * (*out_keypoint)[1] + cv;", "(*out_keypoint)[1] = fv * (*out_keypoint)[1] + this->cv();"))
fire("unified: own coefficients' Jacobian", (U, "distortion_->distortParameterJacobian(distortion_coefficients,", "distortion_->distortParameterJacobian(nullptr,"))
fire("pinhole: swapped intrinsics", (P, "const double& cu = (*intrinsics)[2];\n  const double& cv = (*intrinsics)[3];", "const double& cu = (*intrinsics)[3];\n  const double& cv = (*intrinsics)[2];"))
fire("pinhole: template's centre", (PI, "(*out_keypoint)[0] = fu * keypoint[0] + cu;", "(*out_keypoint)[0] = fu * keypoint[0] + cv;"))
fire("pinhole: template undistorted", (PI, "(*out_keypoint)[1] = fv * keypoint[1] + cv;", "(*out_keypoint)[1] = fv * point_3d[1] * rz + cv;"))
fire("pinhole: number of intrinsics", (P, "  CHECK_EQ(intrinsics->size(), kNumOfParams) << \"intrinsics: invalid size!\";\n", ""))
fire("pinhole: number of intrinsics at least", (PI, "CHECK_EQ(intrinsics_external.size(), kNumOfParams)", "CHECK_LE(intrinsics_external.size(), kNumOfParams)"))
fire("lidar: own centre", (LI, "intrinsics_external[Parameters::kVerticalCenterRad]) /", "verticalCenter()) /"))
# ---- back projection
fire("pinhole: back projection's focal length", (P, "kp[1] = (kp[1] - cv()) / fv();", "kp[1] = (kp[1] - cv()) / fu();"))
fire("pinhole: back projection without undistorting", (P, "  distortion_->undistort(&kp);\n", ""))
fire("pinhole: back projection distorts", (P, "distortion_->undistort(&kp);", "distortion_->distort(&kp);"))
fire("unified: back projection's depth", (U, "1 - xi() * (rho2_d + 1) / (xi() + sqrt(tmpD));", "1 - xi() * (rho2_d + 1) / (1 + sqrt(tmpD));"))
fire("unified: back projection's root", (U, "std::max(1 + (1 - xi()*xi()) * rho2_d, 0.0)", "std::max(1 + (1 - xi()) * rho2_d, 0.0)"))
# ---- what is reported
fire("visible up to the border", (CI, "&& keypoint[0] < static_cast<Scalar>(imageWidth())", "&& keypoint[0] <= static_cast<Scalar>(imageWidth())"))
fire("visible: dimensions swapped", (CI, "&& keypoint[1] < static_cast<Scalar>(imageHeight());", "&& keypoint[1] < static_cast<Scalar>(imageWidth());"))
fire("margin on one side", (CI, "&& keypoint[1] < (static_cast<Scalar>(imageHeight()) - margin);", "&& keypoint[1] < static_cast<Scalar>(imageHeight());"))
fire("pinhole: visible behind the camera", (PI, "if (visibility && (point_3d[2] > kMinimumDepth))", "if (visibility)"))
fire("unified: visible too near", (U, "if (visibility && (d2 > minDepth2))", "if (visibility)"))
fire("lidar: outcome swapped", (LI, "if (is_visible && is_outside_min_depth) {", "if (!is_visible && is_outside_min_depth) {"),
     (LI, "} else if (!is_visible && is_outside_min_depth) {", "} else if (is_visible && is_outside_min_depth) {"))
fire("unified: invalid projection called outside", (U, "out_keypoint->setZero();\n    return ProjectionResult(ProjectionResult::Status::PROJECTION_INVALID);", "out_keypoint->setZero();\n    return ProjectionResult(ProjectionResult::Status::KEYPOINT_VISIBLE);"))
# ---- wrappers
fire("project3 drops the Jacobian", (C, "out_keypoint, out_jacobian,\n      nullptr,   // J_intrinsic", "out_keypoint, nullptr,\n      nullptr,   // J_intrinsic"))
fire("project3Functional drops the coefficients", (C, "      point_3d, intrinsics_external, distortion_coefficients_external,\n", "      point_3d, intrinsics_external, nullptr,\n"))
fire("project4: Jacobian's sign", (C, "out_jacobian->topLeftCorner<2, 3>() = -Je;", "out_jacobian->topLeftCorner<2, 3>() = Je;"))
fire("project4: point's sign", (C, "    point_3d = -point_4d.head<3>();\n  else\n    point_3d = point_4d.head<3>();\n\n  return", "    point_3d = point_4d.head<3>();\n  else\n    point_3d = point_4d.head<3>();\n\n  return"))
fire("project4: last column", (C, "  out_jacobian->setZero();\n", "  out_jacobian->setOnes();\n"))
fire("backProject4: a point instead of a direction", (C, "(*out_point4d) << point_3d, 0.0;", "(*out_point4d) << point_3d, 1.0;"))
fire("backProject4: always succeeds", (C, "(*out_point4d) << point_3d, 0.0;\n\n  return success;", "(*out_point4d) << point_3d, 0.0;\n\n  return true || success;"))

# ---- behaviour kept
quiet("pinhole: temporaries", (P, "const double dvf_dx =  fv * J_distortion(1, 0) * rz;", "const double scale_v = rz * fv;\n    const double dvf_dx =  scale_v * J_distortion(1, 0);"))
quiet("pinhole: division", (P, "(*out_keypoint)[0] = x * rz;", "(*out_keypoint)[0] = x / z;"))
quiet("pinhole: matrix product", (P, """    (*out_jacobian_point) << duf_dx, duf_dy, duf_dz,
                             dvf_dx, dvf_dy, dvf_dz;""", """    (*out_jacobian_point)(1, 2) = dvf_dz;
    (*out_jacobian_point)(0, 0) = duf_dx;
    (*out_jacobian_point)(0, 1) = duf_dy;
    (*out_jacobian_point)(0, 2) = duf_dz;
    (*out_jacobian_point)(1, 0) = dvf_dx;
    (*out_jacobian_point)(1, 1) = dvf_dy;"""))
quiet("pinhole: one call", (P, """  if(out_jacobian_point) {
    // Distortion active and we want the Jacobian.
    distortion_->distortUsingExternalCoefficients(distortion_coefficients,
                                                  out_keypoint,
                                                  &J_distortion);
  } else {
    // Distortion active but Jacobian NOT wanted.
    distortion_->distortUsingExternalCoefficients(distortion_coefficients,
                                                  out_keypoint,
                                                  nullptr);
  }
""", """  distortion_->distortUsingExternalCoefficients(
      distortion_coefficients, out_keypoint, out_jacobian_point ? &J_distortion : nullptr);
"""))
quiet("pinhole: helper for the pick", (P, """  const Eigen::VectorXd* intrinsics;
  if (!intrinsics_external)
    intrinsics = &getParameters();
  else
    intrinsics = intrinsics_external;
""", "  const Eigen::VectorXd* intrinsics = intrinsics_external != nullptr ? intrinsics_external : &getParameters();\n"))
quiet("pinhole: helper function", (P, "const ProjectionResult PinholeCamera::project3Functional(", "namespace {\ninline double toPixels(double f, double k, double c) {\n  return k * f + c;\n}\n}\n\nconst ProjectionResult PinholeCamera::project3Functional("),
      (P, "(*out_keypoint)[0] = fu * (*out_keypoint)[0] + cu;", "(*out_keypoint)[0] = toPixels(fu, (*out_keypoint)[0], cu);"))
quiet("unified: reordered", (U, "    (*out_jacobian_intrinsics)(0, 1) = (*out_keypoint)[0];\n    (*out_jacobian_intrinsics)(0, 3) = 1;\n", "    (*out_jacobian_intrinsics)(0, 3) = 1;\n    (*out_jacobian_intrinsics)(0, 1) = (*out_keypoint)[0];\n"))
quiet("unified: squares", (U, "J(0, 0) = rz2 * (d * z + xi * (y * y + z * z));", "const double yz = y * y + z * z;\n    J(0, 0) = rz2 * d * z + rz2 * xi * yz;"))
quiet("unified: norm by hand", (U, "const double d = point_3d.norm();", "const double d = sqrt(x * x + y * y + z * z);"))
quiet("unified: back projection over the root", (U, "const double rho2_d = kp[0] * kp[0] + kp[1] * kp[1];\n  const double tmpD", "const double rho2_d = kp.squaredNorm();\n  const double tmpD"))
quiet("pinhole: back projection in one expression", (P, "kp[0] = (kp[0] - cu()) / fu();", "const double inverse_fu = 1.0 / fu();\n  kp[0] = inverse_fu * (kp[0] - cu());"))
quiet("visible: nested", (CI, "  return keypoint[0] >= static_cast<Scalar>(0.0)\n      && keypoint[1] >= static_cast<Scalar>(0.0)\n", "  if (keypoint[0] < static_cast<Scalar>(0.0)) {\n    return false;\n  }\n  return !(keypoint[1] < static_cast<Scalar>(0.0))\n"))
quiet("pinhole: outcome's order", (PI, """  if (visibility && (point_3d[2] > kMinimumDepth))
    return ProjectionResult(ProjectionResult::Status::KEYPOINT_VISIBLE);
  else if (!visibility && (point_3d[2] > kMinimumDepth))
    return ProjectionResult(ProjectionResult::Status::KEYPOINT_OUTSIDE_IMAGE_BOX);
  else if""", """  if (point_3d[2] > kMinimumDepth)
    return ProjectionResult(visibility ? ProjectionResult::Status::KEYPOINT_VISIBLE
                                       : ProjectionResult::Status::KEYPOINT_OUTSIDE_IMAGE_BOX);
  else if"""))
quiet("project4 through a helper", (C, """  Eigen::Vector3d point_3d;
  if (point_4d[3] < 0)
    point_3d = -point_4d.head<3>();
  else
    point_3d = point_4d.head<3>();

  return project3(point_3d, out_keypoint);""", """  const double sign = point_4d[3] < 0 ? -1.0 : 1.0;
  const Eigen::Vector3d point_3d = sign * point_4d.head<3>();
  return project3(point_3d, out_keypoint);"""))
quiet("backProject4 by parts", (C, "(*out_point4d) << point_3d, 0.0;", "out_point4d->head<3>() = point_3d;\n  (*out_point4d)[3] = 0.0;"))
quiet("statement that does nothing", (P, "const double rz = 1.0 / z;", "const double rz = 1.0 / z;\n  (void)rz;"))
quiet("lidar: atan2 of the point", (LI, "std::atan2(bearing_vector.x(), bearing_vector.z())", "std::atan2(bearing_vector[0], bearing_vector[2])"))
