T = "aslam_cv_common/src/timer.cc"
S = "aslam_cv_common/src/statistics.cc"
TH = "aslam_cv_common/include/aslam/common/timer.h"
SHD = "aslam_cv_common/include/aslam/common/statistics/statistics.h"
U = "aslam_cv_common/src/internal/unique-id.cc"
UH = "aslam_cv_common/include/aslam/common/internal/unique-id.h"
TM = "aslam_cv_tracker/include/aslam/tracker/track-manager.h"
NP = "aslam_cv_pipeline/src/visual-npipeline.cc"
NPH = "aslam_cv_pipeline/include/aslam/pipeline/visual-npipeline.h"
DI = "aslam_cv_cameras/include/aslam/cameras/distortion-inl.h"
L = "  std::lock_guard<std::mutex> lock(Instance().mutex_);\n"
ADD = "void Timing::AddTime(size_t handle, double seconds) {\n"
CASES = [
    ("st: add unlocked", "P12", "fire", [(T, ADD + L, ADD)]),
    ("st: reset unlocked", "P12", "fire", [(S, "void Statistics::Reset() {\n" + L, "void Statistics::Reset() {\n")]),
    ("st: has handle unlocked", "P12", "fire", [(S, "bool Statistics::HasHandle(std::string const& tag) {\n" + L, "bool Statistics::HasHandle(std::string const& tag) {\n")]),
    ("st: map by reference", "P12", "fire", [(TH, "static map_t GetTimerImpls()", "static const map_t& GetTimerImpls()")]),
    ("st: double-checked find", "P12", "fire", [(T, "size_t Timing::GetHandle(const std::string& tag) {\n", "size_t Timing::GetHandle(const std::string& tag) {\n  {\n    const map_t::const_iterator known = Instance().tag_map_.find(tag);\n    if (known != Instance().tag_map_.end()) {\n      return known->second;\n    }\n  }\n")]),
    ("st: unlock too early", "P12", "fire", [(T, "  map_t::iterator tag_iterator = Instance().tag_map_.find(tag);\n", "  map_t::iterator tag_iterator = Instance().tag_map_.find(tag);\n"), (T, "size_t Timing::GetHandle(const std::string& tag) {\n" + L, "size_t Timing::GetHandle(const std::string& tag) {\n  std::unique_lock<std::mutex> lock(Instance().mutex_);\n"), (T, "    Instance().timers_.push_back(statistics::StatisticsMapValue());\n", "    lock.unlock();\n    Instance().timers_.push_back(statistics::StatisticsMapValue());\n")]),
    ("st: own mutex per call", "P12", "fire", [(T, ADD + L, ADD + "  std::mutex mutex;\n  std::lock_guard<std::mutex> lock(mutex);\n")]),
    ("st: id unlocked", "P12", "fire", [(TM, "      std::lock_guard<std::mutex> lock(mutex_);\n      return id_++;\n", "      return id_++;\n")]),
    ("st: id read then written", "P12", "fire", [(TM, "      std::lock_guard<std::mutex> lock(mutex_);\n      return id_++;\n", "      { std::lock_guard<std::mutex> lock(mutex_); ++id_; }\n      return id_ - 1;\n")]),
    ("st: counter not atomic", "P12", "fire", [(U, "static std::atomic<uint64_t> counter;", "static uint64_t counter;")]),
    ("st: counter two steps", "P12", "fire", [(U, "  hash[1] = std::hash<uint64_t>()(++counter);\n", "  ++counter;\n  hash[1] = std::hash<uint64_t>()(counter);\n")]),
    ("st: seed not atomic", "P12", "fire", [(UH, "std::atomic<uint64_t> seed_;", "uint64_t seed_;")]),
    ("st: lazy map", "P12", "fire", [(DI, "  static const std::map<Distortion::Type, std::string> names = {\n", "  static std::string last;\n  static const std::map<Distortion::Type, std::string> names = {\n"), (DI, "it->second);\n", "last = it->second);\n")]),
    ("st: scratch buffer", "P12", "fire", [(T, "  char buffer[256];\n", "  static char buffer[256];\n  buffer[0] = 0;\n")]),
    ("st: pipeline queue unlocked", "P12", "fire", [(NP, "  std::lock_guard<std::mutex> lock(mutex_);\n  return completed_.size();\n", "  return completed_.size();\n")]),
    ("st: helper with the lock held", "P12", "quiet", [(T, ADD + L + "  timers_.at(handle).AddValue(seconds);\n", "static void addUnlocked(std::vector<statistics::StatisticsMapValue>* timers, size_t handle, double seconds) {\n  timers->at(handle).AddValue(seconds);\n}\n" + ADD + L + "  addUnlocked(&timers_, handle, seconds);\n")]),
    ("st: unique_lock", "P12", "quiet", [(T, ADD + L, ADD + "  std::unique_lock<std::mutex> lock(Instance().mutex_);\n")]),
    ("st: local reference to the instance", "P12", "quiet", [(S, "void Statistics::Reset() {\n" + L + "  Instance().tag_map_.clear();\n", "void Statistics::Reset() {\n  Statistics& instance = Instance();\n  std::lock_guard<std::mutex> lock(instance.mutex_);\n  instance.tag_map_.clear();\n")]),
    ("st: fetch_add", "P12", "quiet", [(U, "++counter", "counter.fetch_add(1u) + 1u")]),
    ("st: named result", "P12", "quiet", [(U, "  hash[1] = std::hash<uint64_t>()(++counter);\n", "  const uint64_t next = ++counter;\n  hash[1] = std::hash<uint64_t>()(next);\n")]),
    ("st: id by value", "P12", "quiet", [(TM, "      return id_++;\n", "      const IdType result = id_;\n      ++id_;\n      return result;\n")]),
    ("st: static const table", "P12", "quiet", [(T, "  char buffer[256];\n", "  static const char kFormat[] = \"%02d\";\n  static_cast<void>(kFormat);\n  char buffer[256];\n")]),
    ("st: static mutex and cache", "P12", "quiet", [(T, ADD + L, "static double lastTime(double seconds) {\n  static std::mutex mutex;\n  static double last = 0.0;\n  std::lock_guard<std::mutex> lock(mutex);\n  const double previous = last;\n  last = seconds;\n  return previous;\n}\n" + ADD + L + "  lastTime(seconds);\n")]),
    ("st: thread local", "P12", "quiet", [(T, ADD + L, ADD + "  static thread_local size_t calls = 0u;\n  ++calls;\n" + L)]),
]
