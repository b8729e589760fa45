A = "aslam_cv_common/include/aslam/common/statistics/accumulator.h"
S = "aslam_cv_common/include/aslam/common/statistics/statistics.h"
SC = "aslam_cv_common/src/statistics.cc"
T = "aslam_cv_common/src/timer.cc"
HEAD = r'''#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <string>
#include <thread>
#include <chrono>
#include <glog/logging.h>
#include <aslam/common/statistics/statistics.h>
#include <aslam/common/timer.h>
#define REQUIRE(x) do { if (!(x)) { std::printf("failed: %s\n", #x); std::exit(1); } } while (0)
static bool near(double a, double b) { return std::abs(a - b) < 1e-9; }
'''
LIB = dict(libs="-laslam_cv_common")
SEEDS = [
    dict(id="sa-window-not-oldest", property="P17", edits=[
        (A, "samples_.at(sample_index_++ % WindowSize)", "samples_.at(++sample_index_ % WindowSize)")],
        demo=HEAD + r'''
int main() {
  statistics::Accumulator<double, double, 5> a;
  for (int i = 0; i < 13; ++i) {
    a.Add(i);
    double sum = 0.0;
    int n = 0;
    for (int j = i; j >= 0 && j > i - 5; --j, ++n) sum += j;
    REQUIRE(near(a.RollingMean(), sum / n));
  }
  return 0;
}
''', needs="more samples than the window holds", breaks="the sample that is dropped from the window is not the oldest"),
    dict(id="sa-variance-about-total-mean", property="P17", edits=[
        (A, "SumType mean = RollingMean();", "SumType mean = Mean();")],
        demo=HEAD + r'''
int main() {
  statistics::Accumulator<double, double, 4> a;
  for (int i = 0; i < 4; ++i) a.Add(2.0 * (i % 2));
  REQUIRE(near(a.LazyVariance(), 4.0 / 3.0));
  for (int i = 0; i < 4; ++i) a.Add(10.0);
  REQUIRE(near(a.LazyVariance(), 0.0));
  return 0;
}
''', needs="more samples than the window holds, of another mean", breaks="the variance is taken about the mean of other samples"),
    dict(id="sa-first-sample-no-min", property="P17", edits=[
        (A, "    }\n    if (sample < min_) {", "    } else if (sample < min_) {")],
        demo=HEAD + r'''
int main() {
  statistics::Accumulator<double, double, 4> a, b;
  a.Add(3.0);
  a.Add(1.0);
  a.Add(2.0);
  REQUIRE(a.min() == 1.0 && a.max() == 3.0);
  b.Add(1.0);
  b.Add(2.0);
  REQUIRE(b.min() == 1.0 && b.max() == 2.0);
  return 0;
}
''', needs="samples that only grow: the first is the smallest", breaks="the minimum misses the first sample"),
    dict(id="sa-handle-after-reset", property="P17", edits=[
        (SC, "size_t handle = Instance().stats_collectors_.size();", "size_t handle = Instance().tag_map_.size();")],
        demo=HEAD + r'''
int main() {
  statistics::StatsCollectorImpl a("a"), b("b");
  REQUIRE(a.GetHandle() != b.GetHandle());
  a.AddSample(1.0);
  statistics::Statistics::Reset();
  statistics::StatsCollectorImpl c("c");
  c.AddSample(5.0);
  REQUIRE(statistics::Statistics::GetNumSamples("c") == 1u);
  REQUIRE(statistics::Statistics::GetTotal("c") == 5.0);
  REQUIRE(statistics::Statistics::GetTotal(a.GetHandle()) == 1.0);
  return 0;
}
''', needs="a new tag after Reset", breaks="the new tag shares the series of an old handle", **LIB),
    dict(id="sa-reset-drops-series", property="P17", edits=[
        (T, "void Timing::Reset() {\n  std::lock_guard<std::mutex> lock(Instance().mutex_);\n",
         "void Timing::Reset() {\n  std::lock_guard<std::mutex> lock(Instance().mutex_);\n  Instance().timers_.clear();\n")],
        demo=HEAD + r'''
int main() {
  timing::TimerImpl t("outer");
  timing::Timing::Reset();
  try {
    t.Stop();
  } catch (...) {
    std::printf("failed: the handle is gone\n");
    return 1;
  }
  REQUIRE(timing::Timing::GetNumSamples(t.GetHandle()) == 1u);
  return 0;
}
''', needs="Reset while a timer runs", breaks="handles that are in use are no longer valid", **LIB),
    dict(id="sa-restart-keeps-start", property="P17", edits=[
        (T, "  is_timing_ = true;\n  time_ = std::chrono::system_clock::now();\n",
         "  if (!is_timing_) {\n    time_ = std::chrono::system_clock::now();\n  }\n  is_timing_ = true;\n")],
        demo=HEAD + r'''
int main() {
  timing::TimerImpl t("restart");
  std::this_thread::sleep_for(std::chrono::milliseconds(400));
  t.Start();
  const double dt = t.Stop();
  REQUIRE(dt < 0.2);
  REQUIRE(timing::Timing::GetTotalSeconds("restart") < 0.2);
  return 0;
}
''', needs="Start of a timer that runs", breaks="the time is measured from an earlier start", **LIB),
    dict(id="sa-yaml-deviation", property="P17", edits=[
        (T, 'output_file << "  std_dev: " << sqrt(GetVarianceSeconds(index)) << "\\n";', 'output_file << "  std_dev: " << GetVarianceSeconds(index) << "\\n";')],
        demo=HEAD + r'''
#include <unistd.h>
int main() {
  {
    timing::TimerImpl a("work");
    std::this_thread::sleep_for(std::chrono::milliseconds(30));
  }
  {
    timing::TimerImpl b("work");
    std::this_thread::sleep_for(std::chrono::milliseconds(90));
  }
  char name[] = "/tmp/sa-yaml-XXXXXX";
  const int fd = mkstemp(name);
  REQUIRE(fd >= 0);
  close(fd);
  timing::Timing::WriteToYamlFile(name);
  std::ifstream in(name);
  std::string line;
  double deviation = -1.0;
  while (std::getline(in, line)) {
    const size_t p = line.find("std_dev: ");
    if (p != std::string::npos) deviation = std::atof(line.c_str() + p + 9);
  }
  unlink(name);
  REQUIRE(std::abs(deviation - std::sqrt(timing::Timing::GetVarianceSeconds("work"))) < 1e-3);
  return 0;
}
''', needs="two intervals of different length, written to a file", breaks="the variance is written as the deviation", **LIB),
]
