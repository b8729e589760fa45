A = "aslam_cv_common/include/aslam/common/statistics/accumulator.h"
S = "aslam_cv_common/include/aslam/common/statistics/statistics.h"
SC = "aslam_cv_common/src/statistics.cc"
T = "aslam_cv_common/src/timer.cc"
CASES = []


def fire(name, *edits):
    CASES.append(("stats: " + name, "P17", "fire", list(edits)))


def quiet(name, *edits):
    CASES.append(("stats: " + name, "P17", "quiet", list(edits)))


MAX = "    if (sample > max_) {\n      max_ = sample;\n    }\n    if (sample < min_) {\n      min_ = sample;\n    }\n"
WIN = """    if (sample_index_ < WindowSize) {
      samples_.push_back(sample);
      window_sum_ += sample;
      ++sample_index_;
    } else {
      SampleType& oldest = samples_.at(sample_index_++ % WindowSize);
      window_sum_ += sample - oldest;
      oldest = sample;
    }
"""
fire("min only compared where not a maximum", (A, MAX, MAX.replace("    }\n    if (sample < min_)", "    } else if (sample < min_)")))
fire("max compared the wrong way", (A, "sample > max_", "sample < max_"))
fire("min takes the maximum", (A, "      min_ = sample;\n", "      min_ = max_;\n"))
fire("next slot", (A, "samples_.at(sample_index_++ % WindowSize)", "samples_.at(++sample_index_ % WindowSize)"))
fire("slot not advanced", (A, "samples_.at(sample_index_++ % WindowSize)", "samples_.at(sample_index_ % WindowSize)"))
fire("window sum from the new value", (A, "      window_sum_ += sample - oldest;\n      oldest = sample;\n",
                                       "      oldest = sample;\n      window_sum_ += sample - oldest;\n"))
fire("window sum not corrected", (A, "window_sum_ += sample - oldest;", "window_sum_ += sample;"))
fire("window one too large", (A, "if (sample_index_ < WindowSize) {", "if (sample_index_ <= WindowSize) {"))
fire("window one too small", (A, "if (sample_index_ < WindowSize) {", "if (sample_index_ < WindowSize - 1) {"))
fire("slot of a smaller window", (A, "sample_index_++ % WindowSize", "sample_index_++ % (WindowSize - 1)"))
fire("sum only in the window", (A, "    sum_ += sample;\n    ++total_samples_;\n", "    ++total_samples_;\n"),
     (A, "      window_sum_ += sample;\n", "      window_sum_ += sample;\n      sum_ += sample;\n"))
fire("last is the dropped one", (A, "    most_recent_ = sample;\n", ""), (A, "      oldest = sample;\n", "      most_recent_ = sample;\n      oldest = sample;\n"))
fire("min starts at the smallest positive", (A, "max_(std::numeric_limits<SampleType>::lowest())", "max_(std::numeric_limits<SampleType>::min())"))
fire("max starts at zero", (A, "max_(std::numeric_limits<SampleType>::lowest())", "max_(0)"))
fire("mean of the window", (A, "0.0 : sum_ / total_samples_", "0.0 : window_sum_ / total_samples_"))
fire("mean over the window's number", (A, "0.0 : sum_ / total_samples_", "0.0 : sum_ / static_cast<SumType>(samples_.size())"))
fire("mean of one sample zero", (A, "(total_samples_ < 1)", "(total_samples_ < 2)"))
fire("rolling mean over all", (A, "window_sum_ / std::min(sample_index_, WindowSize)", "window_sum_ / sample_index_"))
fire("rolling mean of the total", (A, "window_sum_ / std::min(sample_index_, WindowSize)", "sum_ / std::min(sample_index_, WindowSize)"))
fire("rolling mean by the window size", (A, "window_sum_ / std::min(sample_index_, WindowSize)", "window_sum_ / WindowSize"))
fire("variance about the mean of all", (A, "SumType mean = RollingMean();", "SumType mean = Mean();"))
fire("variance by n", (A, "var /= samples_.size() - 1;", "var /= samples_.size();"))
fire("variance of one sample", (A, "samples_.size() < 2", "samples_.size() < 1"))
fire("variance from the second sample", (A, "for (unsigned int i = 0;", "for (unsigned int i = 1;"))
fire("variance without the last sample", (A, "i < samples_.size(); ++i) {\n      var", "i + 1 < samples_.size(); ++i) {\n      var"))
fire("variance divides in the loop", (A, "    }\n\n    var /= samples_.size() - 1;\n", "      var /= samples_.size() - 1;\n    }\n\n"))
fire("getters swapped", (A, "  SumType max() const {\n    return max_;", "  SumType max() const {\n    return min_;"))
quiet("extremes by std::min", (A, MAX, "    max_ = std::max(max_, sample);\n    min_ = std::min(min_, sample);\n"))
quiet("extremes from the first sample", (A, MAX, "    if (total_samples_ == 1) {\n      min_ = max_ = sample;\n    } else if (sample > max_) {\n      max_ = sample;\n    } else if (sample < min_) {\n      min_ = sample;\n    }\n")
      ) if False else None
quiet("extremes in the other order", (A, MAX, "    if (min_ > sample) {\n      min_ = sample;\n    }\n    if (max_ <= sample) {\n      max_ = sample;\n    }\n"))
quiet("window helper", (A, WIN, "    keep(sample);\n"), (A, " private:\n  std::vector<SampleType> samples_;", " private:\n  void keep(SampleType sample) {\n" + WIN + "  }\n  std::vector<SampleType> samples_;"))
quiet("window full first", (A, WIN, """    if (sample_index_ >= WindowSize) {
      const int slot = sample_index_ % WindowSize;
      window_sum_ -= samples_[slot];
      window_sum_ += sample;
      samples_[slot] = sample;
    } else {
      samples_.emplace_back(sample);
      window_sum_ = window_sum_ + sample;
    }
    sample_index_ += 1;
"""))
quiet("window by its size", (A, "if (sample_index_ < WindowSize) {", "if (static_cast<int>(samples_.size()) < WindowSize) {"))
quiet("rolling mean by the size", (A, "window_sum_ / std::min(sample_index_, WindowSize)", "window_sum_ / samples_.size()"))
quiet("mean with if", (A, "    return (total_samples_ < 1) ? 0.0 : sum_ / total_samples_;", "    if (total_samples_ == 0) {\n      return 0.0;\n    }\n    return sum_ / total_samples_;"))
quiet("variance with range for", (A, "    for (unsigned int i = 0; i < samples_.size(); ++i) {\n      var += (samples_[i] - mean) * (samples_[i] - mean);\n    }\n",
                                  "    for (const SampleType& sample : samples_) {\n      const SumType d = sample - mean;\n      var += d * d;\n    }\n"))
quiet("variance with a named count", (A, "    var /= samples_.size() - 1;\n    return var;", "    const size_t n = samples_.size();\n    return var / (n - 1u);"))
quiet("variance counts down the guard", (A, "    if (samples_.size() < 2) {", "    if (samples_.size() <= 1u) {"))
# series
AV = "    // Only calculate delta time if it has been called before.\n"
fire("stamp only at the first call", (S, "    time_last_called_ = now;\n    values_.Add(sample);\n", "    else {\n    time_last_called_ = now;\n    }\n    values_.Add(sample);\n"))
fire("stamp before the interval", (S, AV, "    std::swap(time_last_called_, now);\n" + AV) if False else
     (S, "    std::chrono::time_point<std::chrono::system_clock> now =\n        std::chrono::system_clock::now();\n\n" + AV,
      "    std::chrono::time_point<std::chrono::system_clock> now =\n        std::chrono::system_clock::now();\n    const auto before = time_last_called_;\n    time_last_called_ = now;\n" + AV),
     (S, "if (time_last_called_ != epoch_clock_) {", "if (before != epoch_clock_) {"))
fire("value only with an interval", (S, "      time_deltas_.Add(dt);\n    }\n\n    time_last_called_ = now;\n    values_.Add(sample);\n",
                                     "      time_deltas_.Add(dt);\n      values_.Add(sample);\n    }\n\n    time_last_called_ = now;\n"))
fire("interval at the first call", (S, "time_last_called_ != epoch_clock_", "time_last_called_ == epoch_clock_"))
fire("interval negative", (S, "now - time_last_called_)", "time_last_called_ - now)"))
fire("interval in milliseconds", (S, "std::chrono::duration_cast<std::chrono::nanoseconds>(\n                          now - time_last_called_)",
                                  "std::chrono::duration_cast<std::chrono::milliseconds>(\n                          now - time_last_called_)"))
fire("deltas from the values", (S, "  double MaxDeltaTime() const {\n    return time_deltas_.max();", "  double MaxDeltaTime() const {\n    return values_.max();"))
fire("min is max", (S, "    return values_.min();", "    return values_.max();"))
fire("variance of the deltas", (S, "    return values_.LazyVariance();", "    return time_deltas_.LazyVariance();"))
fire("rate of no interval", (S, "if (mean_dt != 0) {", "if (mean_dt != -1.0) {"))
fire("last value of one sample", (S, "    if (values_.total_samples()) {", "    if (values_.total_samples() > 1) {"))
quiet("last value by conditional", (S, "    if (values_.total_samples()) {\n      return values_.GetMostRecent();\n    } else {\n      return 0;\n    }", "    return values_.total_samples() > 0 ? values_.GetMostRecent() : 0.0;"))
quiet("value first", (S, "    time_last_called_ = now;\n    values_.Add(sample);\n", "    values_.Add(sample);\n    time_last_called_ = now;\n"))
quiet("interval as double seconds", (S, """      double dt = static_cast<double>(
                      std::chrono::duration_cast<std::chrono::nanoseconds>(
                          now - time_last_called_)
                          .count()) *
                  kNumSecondsPerNanosecond;
""", "      const double dt = 1.e-6 * static_cast<double>(std::chrono::duration_cast<std::chrono::microseconds>(now - time_last_called_).count());\n"))
# queries
fire("mean is total", (SC, "stats_collectors_.at(handle).Mean();", "stats_collectors_.at(handle).Sum();"))
fire("min is max query", (T, "timers_.at(handle).Min();", "timers_.at(handle).Max();"))
fire("variance of the intervals", (SC, "at(handle).LazyVariance();", "at(handle).LazyVarianceDeltaTime();"))
fire("by tag another quantity", (T, "  return GetMinSeconds(GetHandle(tag));", "  return GetMaxSeconds(GetHandle(tag));"))
fire("hz of the values", (SC, "at(handle).MeanCallsPerSec();", "at(handle).RollingMean();"))
fire("timer hz of the calls", (T, "1.0 / Instance().timers_.at(handle).RollingMean()", "Instance().timers_.at(handle).MeanCallsPerSec()"))
fire("unchecked handle", (SC, "return Instance().stats_collectors_.at(handle).Mean();", "return Instance().stats_collectors_[handle].Mean();"))
quiet("checked handle", (SC, "  return Instance().stats_collectors_.at(handle).Mean();", "  CHECK_LT(handle, Instance().stats_collectors_.size());\n  return Instance().stats_collectors_[handle].Mean();"))
quiet("series in a local", (SC, "  return Instance().stats_collectors_.at(handle).Mean();", "  const StatisticsMapValue& series = Instance().stats_collectors_.at(handle);\n  return series.Mean();"))
quiet("handle in a local", (T, "  return GetMinSeconds(GetHandle(tag));", "  const size_t handle = GetHandle(tag);\n  return GetMinSeconds(handle);"))
# handles
fire("handle from the number of tags", (SC, "size_t handle = Instance().stats_collectors_.size();", "size_t handle = Instance().tag_map_.size();"))
fire("handle after the push", (T, "    size_t handle = Instance().timers_.size();\n    Instance().tag_map_[tag] = handle;\n    Instance().timers_.push_back(statistics::StatisticsMapValue());\n",
                               "    Instance().timers_.push_back(statistics::StatisticsMapValue());\n    size_t handle = Instance().timers_.size();\n    Instance().tag_map_[tag] = handle;\n"))
fire("tag not stored", (T, "    Instance().tag_map_[tag] = handle;\n", ""))
fire("reset removes series", (T, "  Instance().tag_map_.clear();\n", "  Instance().tag_map_.clear();\n  Instance().timers_.clear();\n"))
fire("two sections", (SC, "    // If it is not there, create a tag.\n", "    lock.unlock();\n    StatisticsMapValue();\n    lock.lock();\n"),
     (SC, "size_t Statistics::GetHandle(std::string const& tag) {\n  std::lock_guard<std::mutex> lock", "size_t Statistics::GetHandle(std::string const& tag) {\n  std::unique_lock<std::mutex> lock"))
fire("tag of another handle", (SC, "    if (current_tag.second == handle) {", "    if (current_tag.second != handle) {"))
fire("asking makes the tag", (SC, "  bool tag_found = Instance().tag_map_.count(tag);\n", "  bool tag_found = Instance().tag_map_[tag] > 0u;\n"))
fire("sample to the next series", (SC, "stats_collectors_.at(handle).AddValue(seconds)", "stats_collectors_.at(handle + 1u).AddValue(seconds)"))
fire("sample twice", (SC, "  stats_collectors_.at(handle).AddValue(seconds);\n", "  stats_collectors_.at(handle).AddValue(seconds);\n  stats_collectors_.at(handle).AddValue(seconds);\n"))
quiet("handle after the push minus one", (T, "    size_t handle = Instance().timers_.size();\n    Instance().tag_map_[tag] = handle;\n    Instance().timers_.push_back(statistics::StatisticsMapValue());\n",
                                          "    Instance().timers_.push_back(statistics::StatisticsMapValue());\n    const size_t handle = Instance().timers_.size() - 1u;\n    Instance().tag_map_[tag] = handle;\n"))
quiet("handle by emplace", (T, "    Instance().tag_map_[tag] = handle;\n", "    Instance().tag_map_.emplace(tag, handle);\n"))
quiet("handle by insert", (T, "    Instance().tag_map_[tag] = handle;\n", "    Instance().tag_map_.insert(std::make_pair(tag, handle));\n"))
quiet("handle by count", (SC, "  map_t::iterator i = Instance().tag_map_.find(tag);\n  if (i == Instance().tag_map_.end()) {", "  if (Instance().tag_map_.count(tag) == 0u) {"),
      (SC, "    return i->second;\n", "    return Instance().tag_map_.at(tag);\n"))
quiet("handle known first", (SC, "  if (i == Instance().tag_map_.end()) {\n", "  if (i != Instance().tag_map_.end()) {\n    return i->second;\n  }\n  {\n"),
      (SC, "    return handle;\n  } else {\n    return i->second;\n  }\n", "    return handle;\n  }\n"))
quiet("handle with the instance in a local", (SC, "  std::lock_guard<std::mutex> lock(Instance().mutex_);\n  // Search for an existing tag.\n  map_t::iterator i = Instance().tag_map_.find(tag);\n  if (i == Instance().tag_map_.end()) {",
                                              "  Statistics& all = Instance();\n  std::lock_guard<std::mutex> lock(all.mutex_);\n  // Search for an existing tag.\n  map_t::iterator i = all.tag_map_.find(tag);\n  if (i == all.tag_map_.end()) {"))
quiet("series helper", (T, "    size_t handle = Instance().timers_.size();\n    Instance().tag_map_[tag] = handle;\n    Instance().timers_.push_back(statistics::StatisticsMapValue());\n",
                        "    const size_t handle = appendSeries(&Instance().timers_);\n    Instance().tag_map_[tag] = handle;\n"),
      (T, "// Static functions to query the timers:\n", "namespace {\nsize_t appendSeries(std::vector<statistics::StatisticsMapValue>* list) {\n  const size_t index = list->size();\n  list->push_back(statistics::StatisticsMapValue());\n  return index;\n}\n}  // namespace\n\n"))
quiet("tag by iterator", (SC, "  for (typename map_t::value_type current_tag : Instance().tag_map_) {\n    if (current_tag.second == handle) {\n      return current_tag.first;\n    }\n  }\n",
                          "  for (map_t::const_iterator it = Instance().tag_map_.begin(); it != Instance().tag_map_.end(); ++it) {\n    if (handle == it->second) {\n      tag = it->first;\n      break;\n    }\n  }\n"))
# recorders
fire("collector uses no handle", (SC, "  Statistics::Instance().AddSample(handle_, sample);\n", "  Statistics::Instance().AddSample(0u, sample);\n"))
fire("increment by zero", (SC, "AddSample(handle_, 1.0)", "AddSample(handle_, 0.0)"))
fire("collector records twice", (SC, "  Statistics::Instance().AddSample(handle_, sample);\n", "  Statistics::Instance().AddSample(handle_, sample);\n  IncrementOne();\n"))
quiet("increment by AddSample", (SC, "  Statistics::Instance().AddSample(handle_, 1.0);\n", "  AddSample(1.0);\n"))
# timers
fire("timer still runs after stop", (T, "    is_timing_ = false;\n    return dt;\n", "    return dt;\n"))
fire("restart does not take the time", (T, "  is_timing_ = true;\n  time_ = std::chrono::system_clock::now();\n", "  if (is_timing_) {\n    return;\n  }\n  is_timing_ = true;\n  time_ = std::chrono::system_clock::now();\n"))
fire("timer constructed stopped runs", (T, "  if (!construct_stopped) {\n", "  if (construct_stopped) {\n"))
fire("discard stops", (T, "void TimerImpl::Discard() {\n  is_timing_ = false;\n", "void TimerImpl::Discard() {\n  Stop();\n"))
fire("destructor does not record", (T, "  if (IsTiming()) {\n    Stop();\n  }\n", "  if (IsTiming()) {\n    Discard();\n  }\n"))
fire("time reversed", (T, "(now - time_)", "(time_ - now)"))
fire("microseconds", (T, "duration_cast<std::chrono::nanoseconds>(now - time_)", "duration_cast<std::chrono::microseconds>(now - time_)"))
fire("returns nothing", (T, "    return dt;\n  }\n  return 0.0;\n", "  }\n  return 0.0;\n"))
fire("stop records also when stopped", (T, "  if (is_timing_) {\n    std::chrono", "  {\n    std::chrono"))
fire("discard keeps running", (T, "void TimerImpl::Discard() {\n  is_timing_ = false;\n", "void TimerImpl::Discard() {\n  time_ = std::chrono::system_clock::now();\n"))
quiet("destructor just stops", (T, "  if (IsTiming()) {\n    Stop();\n  }\n", "  Stop();\n"))
quiet("start in the other order", (T, "  is_timing_ = true;\n  time_ = std::chrono::system_clock::now();\n", "  time_ = std::chrono::system_clock::now();\n  is_timing_ = true;\n"))
quiet("stop returns early", (T, "  if (is_timing_) {\n    std::chrono::time_point<std::chrono::system_clock> now =\n        std::chrono::system_clock::now();\n", "  if (!is_timing_) {\n    return 0.0;\n  }\n  is_timing_ = false;\n  {\n    const auto now = std::chrono::system_clock::now();\n"),
      (T, "    is_timing_ = false;\n    return dt;\n", "    return dt;\n"))
quiet("duration of doubles", (T, """        static_cast<double>(
            std::chrono::duration_cast<std::chrono::nanoseconds>(now - time_)
                .count()) *
        kNumSecondsPerNanosecond;
""", "        std::chrono::duration<double>(now - time_).count();\n"))
# reports
fire("min reported as max", (SC, '"  max: " << GetMax(index)', '"  max: " << GetMin(index)'))
fire("variance reported as deviation", (T, '"  std_dev: " << sqrt(GetVarianceSeconds(index))', '"  std_dev: " << GetVarianceSeconds(index)'))
fire("total reported as mean", (T, '"  mean: " << GetMeanSeconds(index)', '"  mean: " << GetTotalSeconds(index)'))
fire("min and max swapped", (T, "      double min_sec = GetMinSeconds(time_i);\n      double max_sec = GetMaxSeconds(time_i);\n", "      double min_sec = GetMaxSeconds(time_i);\n      double max_sec = GetMinSeconds(time_i);\n"))
fire("mean reported as deviation", (SC, "double stddev = sqrt(GetVariance(i));", "double stddev = sqrt(GetMean(i));"))
fire("first series for all", (SC, '"  mean: " << GetMean(index)', '"  mean: " << GetMean(0u)'))
quiet("label helper", (SC, '      output_file << "  mean: " << GetMean(index) << "\\n";\n', '      const double mean = GetMean(index);\n      output_file << "  mean: ";\n      output_file << mean << "\\n";\n'))
quiet("deviation with std", (T, '"  std_dev: " << sqrt(GetVarianceSeconds(index))', '"  std_dev: " << std::sqrt(GetVarianceSeconds(index))'))
quiet("index inline", (SC, '"  mean: " << GetMean(index)', '"  mean: " << GetMean(tag.second)'))
quiet("by tag", (SC, '"  mean: " << GetMean(index)', '"  mean: " << GetMean(tag.first)'))

fire("rolling mean without a guard", (A, "    if (samples_.empty()) {\n      return static_cast<SumType>(0.0);\n    }\n    if (WindowSize", "    if (WindowSize"))

fire("reset keeps the tags", (SC, "  Instance().tag_map_.clear();\n", ""))
fire("minutes of the day", (T, "  minutes = minutes - (hours * 60);\n", "  minutes = minutes - (hours * 100);\n"))
fire("hours of minutes", (T, "  int hours = (seconds / 3600);\n", "  int hours = (seconds / 60);\n"))
quiet("minutes by modulo", (T, "  int minutes = (seconds / 60);\n", "  int minutes = static_cast<int>(seconds / 60) % 60;\n"), (T, "  minutes = minutes - (hours * 60);\n", ""))
quiet("reset by assignment", (T, "  Instance().tag_map_.clear();\n", "  Instance().tag_map_ = map_t();\n"))

fire("tag of the next handle", (T, "    if (current_tag.second == handle) {", "    if (current_tag.second >= handle) {"))
