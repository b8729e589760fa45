from seeds_channels import HEAD
T = "aslam_cv_common/src/timer.cc"
S = "aslam_cv_common/src/statistics.cc"
SH = "aslam_cv_common/include/aslam/common/stl-helpers.h"
EQ = "aslam_cv_cameras/src/distortion-equidistant.cc"
HEAD2 = HEAD.replace("#include <aslam/common/channel.h>\n#include <aslam/common/channel-declaration.h>\nusing namespace aslam::channels;\n", "#include <aslam/common/stl-helpers.h>\n#include <aslam/common/timer.h>\n#include <aslam/common/statistics/statistics.h>\n")
SEEDS = [
    dict(id="timer-unknown-tag-deadlock", property="P24", edits=[
        (T, "double Timing::GetMeanSeconds(const std::string& tag) {\n  return GetMeanSeconds(GetHandle(tag));\n",
         "double Timing::GetMeanSeconds(const std::string& tag) {\n  std::lock_guard<std::mutex> lock(Instance().mutex_);\n  const map_t::const_iterator it = Instance().tag_map_.find(tag);\n  if (it != Instance().tag_map_.end()) {\n    return Instance().timers_[it->second].Mean();\n  }\n  const size_t handle = GetHandle(tag);\n  return GetMeanSeconds(handle);\n")],
        demo=HEAD2 + r'''
int main() {
  { timing::TimerImpl t("known"); }
  REQUIRE(timing::Timing::GetMeanSeconds("known") >= 0.0);
  timing::Timing::GetMeanSeconds("never used");  // must return
  return 0;
}
''', needs="the mean of a tag that was never timed", breaks="the mutex is acquired twice: the caller blocks for ever", timeout=10),
    dict(id="keep-n-zero-null", property="P25", edits=[
        (SH, "  CHECK_NOTNULL(container);\n\n  // Special case for max_elements_to_keep == 0u: only run the action on all elements.\n  if (max_elements_to_keep == 0u) {\n    for (const ElementType& element : *container) {\n      action_on_removed_elements(element);\n    }\n    container->clear();\n    return 0u;\n  }\n",
         "  // Special case for max_elements_to_keep == 0u: only run the action on all elements.\n  if (max_elements_to_keep == 0u) {\n    for (const ElementType& element : *container) {\n      action_on_removed_elements(element);\n    }\n    container->clear();\n    return 0u;\n  }\n  CHECK_NOTNULL(container);\n")],
        demo=HEAD2 + r'''
int main() {
  std::vector<int>* none = nullptr;
  const int how = ends([&]() { aslam::common::keepOnlyNSortedElements(0u, std::less<int>(), none); });
  std::fprintf(stderr, "ended with %d\n", how);
  REQUIRE(how == SIGABRT);
  std::vector<int> v{3, 1, 2};
  REQUIRE(aslam::common::keepOnlyNSortedElements(0u, std::less<int>(), &v) == 0u && v.empty());
  return 0;
}
''', needs="a null container together with zero elements to keep", breaks="the null pointer is dereferenced before it is tested"),
]
