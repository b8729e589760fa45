F, NF = "aslam_cv_frames/src/visual-frame.cc", "aslam_cv_frames/src/visual-nframe.cc"
N, C, CH = "aslam_cv_cameras/src/ncamera.cc", "aslam_cv_cameras/src/camera.cc", "aslam_cv_cameras/include/aslam/cameras/camera.h"
P, U, L = ("aslam_cv_cameras/src/camera-%s.cc" % x for x in ("pinhole", "unified-projection", "3d-lidar"))
D, S, SH = "aslam_cv_cameras/src/distortion.cc", "aslam_cv_common/src/sensor.cc", "aslam_cv_common/include/aslam/common/sensor.h"
DH = "aslam_cv_cameras/include/aslam/cameras/distortion.h"
K = "aslam_cv_common/include/aslam/common/crtp-clone.h"
CASES = []


def fire(name, *edits):
    CASES.append(("copy: " + name, "P22", "fire", list(edits)))


def quiet(name, *edits):
    CASES.append(("copy: " + name, "P22", "quiet", list(edits)))


# ---- copies
fire("frame: time forgotten", (F, "  timestamp_nanoseconds_ = other.timestamp_nanoseconds_;\n", ""))
fire("frame: validity forgotten", (F, "  is_valid_ = other.is_valid_;\n", ""))
fire("frame: shared channels", (F, "channels_ = channels::cloneChannelGroup(other.channels_);", "channels_ = other.channels_;"))
fire("frame: own channels", (F, "channels::cloneChannelGroup(other.channels_);", "channels::cloneChannelGroup(channels_);"))
fire("frame: raw geometry from the other", (F, "raw_camera_geometry_ = other.raw_camera_geometry_;", "raw_camera_geometry_ = other.camera_geometry_;"))
fire("frame: valid unless the other is not set", (F, "  is_valid_ = other.is_valid_;", "  is_valid_ = other.is_valid_ && is_valid_;"))
fire("frame: only with geometry", (F, "  raw_camera_geometry_ = other.raw_camera_geometry_;", "  if (other.raw_camera_geometry_) raw_camera_geometry_ = other.raw_camera_geometry_;"))
fire("nframe: shared frames", (NF, "new VisualFrame(*other_frame.get())", "other_frame"))
fire("nframe: frames assigned", (NF, """  frames_.clear();
  frames_.reserve(other.frames_.size());
  for (const VisualFrame::Ptr& other_frame : other.frames_) {
    if (other_frame) {
      frames_.emplace_back(new VisualFrame(*other_frame.get()));
    } else {
      frames_.emplace_back(nullptr);
    }
  }
  return *this;""", "  frames_ = other.frames_;\n  return *this;"))
fire("nframe: unset frames skipped", (NF, """    } else {
      frames_.emplace_back(nullptr);
    }
  }
  return *this;""", "    }\n  }\n  return *this;"))
fire("nframe: frames added", (NF, "  frames_.clear();\n  frames_.reserve(other", "  frames_.reserve(other"))
fire("nframe: self assignment", (NF, "  if (this == &other) {\n    return *this;\n  }\n", ""))
fire("nframe: rig forgotten", (NF, "  camera_rig_ = other.camera_rig_;\n", ""))
fire("rig: cameras shared", (N, "cameras_.emplace_back(other.getCamera(idx).clone());", "cameras_.emplace_back(other.cameras_[idx]);"))
fire("rig: first camera twice", (N, "cameras_.emplace_back(other.getCamera(idx).clone());", "cameras_.emplace_back(other.getCamera(0).clone());"))
fire("rig: first camera left out", (N, "  for (size_t idx = 0u; idx < other.getNumCameras(); ++idx) {\n    cameras_.emplace", "  for (size_t idx = 1u; idx < other.getNumCameras(); ++idx) {\n    cameras_.emplace"))
fire("rig: covariance flag", (N, """      has_T_G_B_fixed_localization_covariance_(
          other.has_T_G_B_fixed_localization_covariance_) {
  // Clone""", """      has_T_G_B_fixed_localization_covariance_(false) {
  // Clone"""))
fire("rig: new sensor", (N, "    : Sensor(other),\n      T_C_B_(other.T_C_B_),", "    : Sensor(other.id_),\n      T_C_B_(other.T_C_B_),"))
fire("camera: mask shared", (CH, "mask_(other.mask_.clone()),", "mask_(other.mask_),"))
fire("camera: width twice", (CH, "image_height_(other.image_height_),", "image_height_(other.image_width_),"))
fire("camera: no distortion", (CH, "    distortion_.reset(other.distortion_->clone());\n", ""))
fire("camera: compressed lost", (CH, "is_compressed_(other.is_compressed_),", "is_compressed_(false),"))
fire("sensor: copy without topic", (SH, "      : id_(other.id_),\n        topic_(other.topic_),", "      : id_(other.id_),"))
fire("sensor: assignment without description", (SH, "    description_ = other.description_;\n", ""))
fire("sensor: assignment keeps its identifier", (SH, "    id_ = other.id_;\n", "    if (!id_.isValid()) id_ = other.id_;\n"))
fire("distortion: copy with one coefficient less", (DH, "  Distortion(const Distortion&) = default;", "  Distortion(const Distortion& o) : distortion_coefficients_(o.distortion_coefficients_.size()), distortion_type_(o.distortion_type_) {}"))
fire("clone of the wrong object", (K, "return new DerivedType(static_cast<const DerivedType&>(*this));", "return const_cast<DerivedType*>(static_cast<const DerivedType*>(this));"))
# ---- equality
fire("frames equal without validity", (F, "  same &= is_valid_ == other.is_valid_;\n  return same;\n}\n\nbool VisualFrame::compare", "  return same;\n}\n\nbool VisualFrame::compare"))
fire("frames equal: last one wins", (F, "  same &= is_valid_ == other.is_valid_;\n  return same;\n}\n\nbool VisualFrame::compare", "  same = is_valid_ == other.is_valid_;\n  return same;\n}\n\nbool VisualFrame::compare"))
fire("frames equal: one without geometry", (F, "  same &= static_cast<bool>(camera_geometry_) ==\n      static_cast<bool>(other.camera_geometry_);\n", ""))
fire("frames equal: channels of itself", (F, "  same &= channels::isChannelGroupEqual(channels_, other.channels_);\n  same &= static", "  same &= channels::isChannelGroupEqual(channels_, channels_);\n  same &= static"))
fire("frames without geometry: time", (F, "WithoutCameraGeometry(const VisualFrame& other) const {\n  bool same = true;\n  same &= timestamp_nanoseconds_ == other.timestamp_nanoseconds_;", "WithoutCameraGeometry(const VisualFrame& other) const {\n  bool same = true;\n  same |= timestamp_nanoseconds_ == other.timestamp_nanoseconds_;"))
fire("nframes equal: number", (NF, "  same &= frames_.size() == other.frames_.size();\n  if(same) {\n    for(size_t i = 0; i < frames_.size(); ++i) {\n      same &= *CHECK", "  if(same) {\n    for(size_t i = 0; i < frames_.size() && i < other.frames_.size(); ++i) {\n      same &= *CHECK"))
fire("nframes equal: first", (NF, "    for(size_t i = 0; i < frames_.size(); ++i) {\n      same &= *CHECK", "    for(size_t i = 1; i < frames_.size(); ++i) {\n      same &= *CHECK"))
fire("nframes equal: last decides", (NF, "      same &= *CHECK", "      same = *CHECK"))
fire("nframes equal: rig", (NF, "  same &= aslam::checkSharedEqual(camera_rig_, other.camera_rig_);\n", ""))
fire("nframes without rig: identifier", (NF, "WithoutCameraSystem(const VisualNFrame& other) const {\n  bool same = true;\n  same &= id_ == other.id_;\n", "WithoutCameraSystem(const VisualNFrame& other) const {\n  bool same = true;\n"))
fire("rigs equal: either", (N, "is_equal &= is_same_camera && has_same_camera_extrinsics;", "is_equal &= is_same_camera || has_same_camera_extrinsics;"))
fire("rigs equal: far extrinsics", (N, ".maxCoeff() < common::macros::kEpsilon);", ".maxCoeff() > common::macros::kEpsilon);"))
fire("rigs equal: first extrinsics", (N, "          other_ncamera->T_C_B_[i].getTransformationMatrix())", "          other_ncamera->T_C_B_[0].getTransformationMatrix())"))
fire("rigs equal: not all", (N, "  const size_t num_cameras = cameras_.size();\n  if (num_cameras != other_ncamera->cameras_.size()) {", "  const size_t num_cameras = std::min(cameras_.size(), other_ncamera->cameras_.size());\n  if (num_cameras > other_ncamera->cameras_.size()) {"))
fire("cameras equal: height", (C, "      (this->image_height_ == other.image_height_) &&\n", ""))
fire("cameras equal: delay or width", (C, "(this->line_delay_nanoseconds_ == other.line_delay_nanoseconds_) &&", "(this->line_delay_nanoseconds_ == other.line_delay_nanoseconds_) ||"))
fire("pinhole equal without the base", (P, "  if (!isEqualCameraImpl(*other_camera, verbose)) {\n    return false;\n  }\n", ""))
fire("unified equal without distortion", (U, "  if (!(*(this->distortion_) == *(other_camera->distortion_))) {\n    return false;\n  }\n", ""))
fire("lidar equal: result ignored", (L, "    LOG_IF(ERROR, verbose) << \"Base camera is not the same!\";\n    return false;", "    if (verbose) return false;"))
fire("sensors equal: topic", (S, "  is_equal &= topic_ == other.topic_;\n", ""))
fire("sensors equal: type", (S, "  is_equal &= getSensorType() == other.getSensorType();\n", ""))
fire("sensors equal: the rest only if verbose", (S, "  if (is_equal) {\n    is_equal &= isEqualImpl(", "  if (is_equal && verbose) {\n    is_equal &= isEqualImpl("))
fire("sensors equal: the rest decides alone", (S, "  if (is_equal) {\n    is_equal &= isEqualImpl(other, verbose);", "  {\n    is_equal = isEqualImpl(other, verbose);"))
fire("sensors equal: the rest ignored", (S, "    is_equal &= isEqualImpl(other, verbose);", "    isEqualImpl(other, verbose);"))
fire("distortions equal: other models", (D, "  if (typeid(*this) != typeid(rhs))\n    return false;\n", ""))
fire("distortions equal: coefficients", (D, "  if (distortion_coefficients_ != rhs.distortion_coefficients_)\n    return false;\n", "  if (distortion_coefficients_.size() != rhs.distortion_coefficients_.size())\n    return false;\n"))
# ---- the same otherwise
quiet("frame: initialisers", (F, "VisualFrame::VisualFrame(const VisualFrame& other) {\n  *this = other;\n}", """VisualFrame::VisualFrame(const VisualFrame& other)
    : timestamp_nanoseconds_(other.timestamp_nanoseconds_), id_(other.id_),
      camera_geometry_(other.camera_geometry_), raw_camera_geometry_(other.raw_camera_geometry_), is_valid_(other.is_valid_) {
  channels_ = channels::cloneChannelGroup(other.channels_);
}"""))
quiet("frame: order and guard", (F, "  timestamp_nanoseconds_ = other.timestamp_nanoseconds_;\n  id_ = other.id_;\n", "  if (&other == this) return *this;\n  id_ = other.id_;\n  timestamp_nanoseconds_ = other.timestamp_nanoseconds_;\n"))
quiet("frame: early returns", (F, "  same &= timestamp_nanoseconds_ == other.timestamp_nanoseconds_;\n  same &= channels::isChannelGroupEqual(channels_, other.channels_);\n  same &= static", "  if (timestamp_nanoseconds_ != other.timestamp_nanoseconds_) return false;\n  if (!channels::isChannelGroupEqual(channels_, other.channels_)) return false;\n  same &= static"))
quiet("frame: one expression", (F, """  bool same = true;
  same &= timestamp_nanoseconds_ == other.timestamp_nanoseconds_;
  same &= channels::isChannelGroupEqual(channels_, other.channels_);
  same &= is_valid_ == other.is_valid_;
  return same;""", "  return is_valid_ == other.is_valid_ && other.timestamp_nanoseconds_ == timestamp_nanoseconds_ && channels::isChannelGroupEqual(other.channels_, channels_);"))
quiet("frame: shared equality", (F, """  same &= static_cast<bool>(camera_geometry_) ==
      static_cast<bool>(other.camera_geometry_);
  if (static_cast<bool>(camera_geometry_) &&
      static_cast<bool>(other.camera_geometry_)) {
    same &= (*camera_geometry_) == (*other.camera_geometry_);
  }""", "  same &= aslam::checkSharedEqual(camera_geometry_, other.camera_geometry_);"), (F, "#include <aslam/common/time.h>", "#include <aslam/common/predicates.h>\n#include <aslam/common/time.h>"))
quiet("nframe: index loop", (NF, "  for (const VisualFrame::Ptr& other_frame : other.frames_) {\n    if (other_frame) {", "  for (size_t i = 0; i < other.frames_.size(); ++i) {\n    const VisualFrame::Ptr& other_frame = other.frames_[i];\n    if (other_frame) {"))
quiet("nframe: resized", (NF, """  frames_.clear();
  frames_.reserve(other.frames_.size());
  for (const VisualFrame::Ptr& other_frame : other.frames_) {
    if (other_frame) {
      frames_.emplace_back(new VisualFrame(*other_frame.get()));
    } else {
      frames_.emplace_back(nullptr);
    }
  }
  return *this;""", """  frames_.clear();
  frames_.resize(other.frames_.size());
  for (size_t i = 0; i < other.frames_.size(); ++i) {
    if (other.frames_[i]) {
      frames_[i].reset(new VisualFrame(*other.frames_[i]));
    }
  }
  return *this;"""))
quiet("nframe: ternary", (NF, """    if (other_frame) {
      frames_.emplace_back(new VisualFrame(*other_frame.get()));
    } else {
      frames_.emplace_back(nullptr);
    }
  }
  return *this;""", """    frames_.emplace_back(other_frame ? new VisualFrame(*other_frame) : nullptr);
  }
  return *this;"""))
quiet("nframe: temporary", (NF, """  frames_.clear();
  frames_.reserve(other.frames_.size());
  for (const VisualFrame::Ptr& other_frame : other.frames_) {
    if (other_frame) {
      frames_.emplace_back(new VisualFrame(*other_frame.get()));
    } else {
      frames_.emplace_back(nullptr);
    }
  }
  return *this;""", """  std::vector<VisualFrame::Ptr> copies;
  copies.reserve(other.frames_.size());
  for (const VisualFrame::Ptr& other_frame : other.frames_) {
    if (other_frame) {
      copies.push_back(std::make_shared<VisualFrame>(*other_frame));
    } else {
      copies.push_back(nullptr);
    }
  }
  frames_.swap(copies);
  return *this;"""))
LOOP = """  frames_.clear();
  frames_.reserve(other.frames_.size());
  for (const VisualFrame::Ptr& other_frame : other.frames_) {
    if (other_frame) {
      frames_.emplace_back(new VisualFrame(*other_frame.get()));
    } else {
      frames_.emplace_back(nullptr);
    }
  }
  return *this;"""
HELP = """namespace {
std::vector<VisualFrame::Ptr> cloneFrames(const std::vector<VisualFrame::Ptr>& frames) {
  std::vector<VisualFrame::Ptr> copies;
  for (size_t i = 0u; i < frames.size(); ++i) {
    copies.push_back(frames[i] ? VisualFrame::Ptr(new VisualFrame(*frames[i])) : VisualFrame::Ptr());
  }
  return copies;
}
}  // namespace

VisualNFrame& VisualNFrame::operator=(const VisualNFrame& other) {
"""
quiet("nframe: helper", (NF, "VisualNFrame& VisualNFrame::operator=(const VisualNFrame& other) {\n", HELP), (NF, LOOP, "  frames_ = cloneFrames(other.frames_);\n  return *this;"))
quiet("nframe: helper and move", (NF, "VisualNFrame& VisualNFrame::operator=(const VisualNFrame& other) {\n", HELP), (NF, LOOP, "  std::vector<VisualFrame::Ptr> copies = cloneFrames(other.frames_);\n  frames_ = std::move(copies);\n  return *this;"))
quiet("nframe: helper and swap", (NF, "VisualNFrame& VisualNFrame::operator=(const VisualNFrame& other) {\n", HELP), (NF, LOOP, "  std::vector<VisualFrame::Ptr> copies = cloneFrames(other.frames_);\n  std::swap(frames_, copies);\n  return *this;"))
fire("nframe: helper of its own frames", (NF, "VisualNFrame& VisualNFrame::operator=(const VisualNFrame& other) {\n", HELP), (NF, LOOP, "  frames_ = cloneFrames(frames_);\n  return *this;"))
quiet("nframe: break", (NF, """      same &= *CHECK_NOTNULL(frames_[i].get()) == *CHECK_NOTNULL(other.frames_[i].get());
""", """      if (!(*CHECK_NOTNULL(frames_[i].get()) == *CHECK_NOTNULL(other.frames_[i].get()))) {
        same = false;
        break;
      }
"""))
quiet("rig: range loop", (N, "  for (size_t idx = 0u; idx < other.getNumCameras(); ++idx) {\n    cameras_.emplace_back(other.getCamera(idx).clone());\n  }", "  cameras_.reserve(other.cameras_.size());\n  for (const Camera::Ptr& camera : other.cameras_) {\n    cameras_.emplace_back(CHECK_NOTNULL(camera.get())->clone());\n  }"))
quiet("rig: helper", (N, "bool NCamera::isEqualImpl(const", "namespace {\nbool closeTo(const aslam::Transformation& a, const aslam::Transformation& b) {\n  return (a.getTransformationMatrix() - b.getTransformationMatrix()).cwiseAbs().maxCoeff() < common::macros::kEpsilon;\n}\n}  // namespace\n\nbool NCamera::isEqualImpl(const"),
      (N, """        ((T_C_B_[i].getTransformationMatrix() -
          other_ncamera->T_C_B_[i].getTransformationMatrix())
             .cwiseAbs()
             .maxCoeff() < common::macros::kEpsilon);""", "        closeTo(T_C_B_[i], other_ncamera->T_C_B_[i]);"))
quiet("rig: early return", (N, "    is_equal &= is_same_camera && has_same_camera_extrinsics;\n", "    if (!is_same_camera || !has_same_camera_extrinsics) {\n      is_equal = false;\n    }\n"))
quiet("camera: distortion initialised", (CH, "        distortion_(nullptr) {\n    CHECK(other.distortion_);\n    distortion_.reset(other.distortion_->clone());\n  };", "        distortion_(CHECK_NOTNULL(other.distortion_.get())->clone()) {};"))
quiet("cameras equal: ifs", (C, "      (this->image_width_ == other.image_width_) &&\n", ""), (C, "  if (!is_equal) {\n    LOG_IF", "  if (image_width_ != other.image_width_) is_equal = false;\n  if (!is_equal) {\n    LOG_IF"))
quiet("sensors equal: early return", (S, "  if (is_equal) {\n    is_equal &= isEqualImpl(other, verbose);\n  }\n\n  return is_equal;", "  return is_equal && isEqualImpl(other, verbose);"))
quiet("distortions equal: one expression", (D, """  if (typeid(*this) != typeid(rhs))
    return false;

  if (distortion_coefficients_ != rhs.distortion_coefficients_)
    return false;

  return true;""", "  return typeid(rhs) == typeid(*this) && rhs.distortion_coefficients_ == distortion_coefficients_;"))
quiet("sensor: assignment guarded", (SH, "  void operator=(const Sensor& other) {\n", "  void operator=(const Sensor& other) {\n    if (this == &other) return;\n"))
