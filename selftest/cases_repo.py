I = "aslam_cv_common/include/aslam/common/"
CS = "aslam_cv_common/src/channel-serialization.cc"
CSH = I + "channel-serialization.h"
T = "aslam_cv_common/src/timer.cc"
NP = "aslam_cv_pipeline/src/visual-npipeline.cc"
NC = "aslam_cv_cameras/src/ncamera.cc"
SH = I + "stl-helpers.h"
LSD = "aslam_cv_detector/src/line-segment-detector.cc"
RAD = "aslam_cv_cameras/src/distortion-radtan.cc"
EQU = "aslam_cv_cameras/src/distortion-equidistant.cc"
P = "aslam_cv_common/src/thread-pool.cc"
FIND = """  std::unordered_map<CameraId, size_t>::const_iterator it =
      id_to_index_.find(id);
  if (it == id_to_index_.end()) {
    return -1;
  } else {
    return it->second;
  }
"""
STOP = "    Timing::Instance().AddTime(handle_, dt);\n"
ADD = """void Timing::AddTime(size_t handle, double seconds) {
  std::lock_guard<std::mutex> lock(Instance().mutex_);
"""
CASES = [
    # ---- P24
    ("lk: handle under the lock", "P24", "fire", [(T, "double Timing::GetTotalSeconds(const std::string& tag) {\n", "double Timing::GetTotalSeconds(const std::string& tag) {\n  std::lock_guard<std::mutex> lock(Instance().mutex_);\n")]),
    ("lk: print keeps the lock", "P24", "fire", [(T, "  size_t max_tag_length;\n  {\n    std::lock_guard<std::mutex> lock(Instance().mutex_);\n    tagMap = Instance().tag_map_;\n    max_tag_length = Instance().max_tag_length_;\n  }\n", "  size_t max_tag_length;\n  std::lock_guard<std::mutex> lock(Instance().mutex_);\n  tagMap = Instance().tag_map_;\n  max_tag_length = Instance().max_tag_length_;\n")]),
    ("lk: wait for the pool under the mutex", "P24", "fire", [(NP, "void VisualNPipeline::waitForAllWorkToComplete() const {\n", "void VisualNPipeline::waitForAllWorkToComplete() const {\n  std::unique_lock<std::mutex> lock(mutex_);\n")]),
    ("lk: getNext waits under two", "P24", "fire", [(P, "void ThreadPool::waitForEmptyQueue() const {\n", "static std::mutex g_wait_mutex;\nvoid ThreadPool::waitForEmptyQueue() const {\n  std::lock_guard<std::mutex> g(g_wait_mutex);\n")]),
    ("lk: opposite order", "P24", "fire", [(T, ADD, "static std::mutex g_stat;\nvoid lockOrderA() {\n  std::lock_guard<std::mutex> a(g_stat);\n  Timing::GetHandle(\"x\");\n}\n" + ADD + "  std::lock_guard<std::mutex> b(g_stat);\n")]),
    ("lk: same order twice", "P24", "quiet", [(T, ADD, "static std::mutex g_stat;\n" + ADD + "  std::lock_guard<std::mutex> b(g_stat);\n"), (T, "double Timing::GetTotalSeconds(size_t handle) {\n  std::lock_guard<std::mutex> lock(Instance().mutex_);\n", "double Timing::GetTotalSeconds(size_t handle) {\n  std::lock_guard<std::mutex> lock(Instance().mutex_);\n  std::lock_guard<std::mutex> b(g_stat);\n")]),
    ("lk: scoped then query", "P24", "quiet", [(T, "double Timing::GetTotalSeconds(const std::string& tag) {\n", "double Timing::GetTotalSeconds(const std::string& tag) {\n  {\n    std::lock_guard<std::mutex> lock(Instance().mutex_);\n    if (Instance().tag_map_.empty()) {\n      return 0.0;\n    }\n  }\n")]),
    ("lk: unlock before the query", "P24", "quiet", [(T, "double Timing::GetTotalSeconds(const std::string& tag) {\n", "double Timing::GetTotalSeconds(const std::string& tag) {\n  std::unique_lock<std::mutex> lock(Instance().mutex_);\n  const bool none = Instance().tag_map_.empty();\n  lock.unlock();\n  if (none) {\n    return 0.0;\n  }\n")]),
    # ---- P25
    ("pt: lsd unchecked", "P25", "fire", [(LSD, "CHECK_NOTNULL(lines)->clear();", "lines->clear();")]),
    ("pt: lsd check after use", "P25", "fire", [(LSD, "  CHECK_NOTNULL(image);\n  CHECK_EQ(image->channels(), 3) << \"Color image required.\";\n", "  CHECK_EQ(image->channels(), 3) << \"Color image required.\";\n  CHECK_NOTNULL(image);\n")]),
    ("pt: radtan point", "P25", "fire", [(RAD, "  CHECK_NOTNULL(point);\n", "")]),
    ("pt: keepOnly branch", "P25", "fire", [(SH, "  CHECK_NOTNULL(container);\n\n  // Special case for max_elements_to_keep == 0u: only run the action on all elements.\n", "  if (max_elements_to_keep > 0u) {\n    CHECK_NOTNULL(container);\n  }\n\n")]),
    ("pt: stl vector", "P25", "fire", [(SH, "  CHECK_NOTNULL(output);\n  size_t num_cols", "  size_t num_cols")]),
    ("pt: covariance", "P25", "fire", [(NC, "    CHECK(covariance);\n", "")]),
    ("pt: serialise size", "P25", "fire", [(CSH, "  CHECK_NOTNULL(size);\n  CHECK_NOTNULL(buffer);\n", "  CHECK_NOTNULL(buffer);\n")]),
    ("pt: helper checks", "P25", "quiet", [(LSD, "void LineSegmentDetector::detect(const cv::Mat& image, Lines* lines) {\n  CHECK_NOTNULL(lines)->clear();\n", "namespace {\ntemplate <typename T>\nT* checked(T* p) {\n  CHECK_NOTNULL(p);\n  return p;\n}\n}\nvoid LineSegmentDetector::detect(const cv::Mat& image, Lines* lines) {\n  checked(lines)->clear();\n")]),
    ("pt: clear through a reference", "P25", "quiet", [(LSD, "  CHECK_NOTNULL(lines)->clear();\n", "  Lines& out = *CHECK_NOTNULL(lines);\n  out.clear();\n")]),
    ("pt: free helper gets a checked pointer", "P25", "quiet", [(LSD, "void LineSegmentDetector::detect(", "void appendLine(const cv::Vec4i& l, Lines* lines) {\n  lines->emplace_back(static_cast<double>(l(0)), static_cast<double>(l(1)), static_cast<double>(l(2)), static_cast<double>(l(3)));\n}\nvoid LineSegmentDetector::detect("),
        (LSD, "    lines->emplace_back(static_cast<double>(raw_lines[line_idx](0)),\n                        static_cast<double>(raw_lines[line_idx](1)),\n                        static_cast<double>(raw_lines[line_idx](2)),\n                        static_cast<double>(raw_lines[line_idx](3)));\n", "    appendLine(raw_lines[line_idx], lines);\n")]),
    ("pt: fatal if", "P25", "quiet", [(LSD, "  CHECK_NOTNULL(image);\n", "  if (image == nullptr) {\n    LOG(FATAL) << \"no image\";\n  }\n")]),
    ("pt: early return", "P25", "quiet", [(LSD, "  CHECK_NOTNULL(image);\n", "  if (!image) {\n    return;\n  }\n")]),
    ("pt: check ne", "P25", "quiet", [(LSD, "  CHECK_NOTNULL(image);\n", "  CHECK(image != nullptr) << \"no image\";\n")]),
    ("pt: covariance inverted", "P25", "quiet", [(NC, "  if (has_T_G_B_fixed_localization_covariance_) {\n    CHECK(covariance);\n    *covariance = T_G_B_fixed_localization_covariance_;\n    return true;\n  }\n  return false;\n", "  if (!has_T_G_B_fixed_localization_covariance_) {\n    return false;\n  }\n  CHECK(covariance);\n  *covariance = T_G_B_fixed_localization_covariance_;\n  return true;\n")]),
    # ---- P30
    ("fd: camera index untested", "P30", "fire", [(NC, FIND, "  return id_to_index_.find(id)->second;\n")]),
    ("fd: camera index tests emptiness", "P30", "fire", [(NC, FIND, "  std::unordered_map<CameraId, size_t>::const_iterator it =\n      id_to_index_.find(id);\n  if (id_to_index_.empty()) {\n    return -1;\n  }\n  return it->second;\n")]),
    ("fd: timer handle", "P30", "fire", [(T, "  if (tag_iterator == Instance().tag_map_.end()) {", "  if (tag_iterator == Instance().tag_map_.end() && !tag.empty()) {")]),
    ("fd: pipeline lower bound", "P30", "fire", [(NP, "      if (it_processing != processing_.begin()) { --it_processing; }\n", "")]),
    ("fd: pipeline next", "P30", "fire", [(NP, "      if (++it_processing != processing_.end()) {\n", "      ++it_processing;\n      {\n")]),
    ("fd: camera index by count", "P30", "quiet", [(NC, FIND, "  if (id_to_index_.count(id) == 0u) {\n    return -1;\n  }\n  return id_to_index_.find(id)->second;\n")]),
    ("fd: camera index at", "P30", "quiet", [(NC, FIND, "  return hasCameraWithId(id) ? static_cast<int>(id_to_index_.at(id)) : -1;\n")]),
    ("fd: camera index has helper", "P30", "quiet", [(NC, FIND, "  if (!hasCameraWithId(id)) {\n    return -1;\n  }\n  return id_to_index_.find(id)->second;\n")]),
    ("fd: camera index found flag", "P30", "quiet", [(NC, FIND, "  std::unordered_map<CameraId, size_t>::const_iterator it =\n      id_to_index_.find(id);\n  const bool found = it != id_to_index_.end();\n  if (found) {\n    return it->second;\n  }\n  return -1;\n")]),
    ("fd: timer handle swapped", "P30", "quiet", [(T, "  if (tag_iterator == Instance().tag_map_.end()) {", "  if (tag_iterator != Instance().tag_map_.end()) {\n    return tag_iterator->second;\n  }\n  if (tag_iterator == Instance().tag_map_.end()) {")]),
]
