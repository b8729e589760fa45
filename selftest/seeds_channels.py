I = "aslam_cv_common/include/aslam/common/"
H = I + "channel.h"
D = I + "channel-declaration.h"
C = "aslam_cv_common/src/channel.cc"
HEAD = r'''
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <thread>
#include <sys/wait.h>
#include <unistd.h>
#include <aslam/common/channel.h>
#include <aslam/common/channel-declaration.h>
using namespace aslam::channels;
static void ms(int n) { std::this_thread::sleep_for(std::chrono::milliseconds(n)); }
#define REQUIRE(c) do { if (!(c)) { std::fprintf(stderr, "FAILED: %s\n", #c); std::_Exit(1); } } while (0)
// how a function ends: 0 returned, otherwise the signal that killed it
template <typename F>
int ends(F f) {
  const pid_t p = fork();
  if (p == 0) {
    std::freopen("/dev/null", "w", stderr);
    f();
    std::_Exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  return WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st);
}
'''
SEEDS = [
    dict(id="ch-remove-unlocked", property="P07", edits=[
        (D, "  CHECK_NOTNULL(channel_group);                                            \\\n  std::lock_guard<std::mutex> lock(channel_group->m_channels_);            \\\n  ChannelMap& channels = channel_group->channels_;                         \\\n",
         "  CHECK_NOTNULL(channel_group);                                            \\\n  { std::lock_guard<std::mutex> lock(channel_group->m_channels_); }        \\\n  ChannelMap& channels = channel_group->channels_;                         \\\n")],
        demo=HEAD + r'''
DECLARE_CHANNEL(DEMO, int)
int main() {
  // remove() must not touch the map while another thread holds the group's mutex; it may do so only afterwards.
  ChannelGroup group;
  for (int round = 0; round < 200; ++round) {
    add_DEMO_Channel(&group) = round;
    std::atomic<bool> stop(false);
    std::thread remover([&]() { ms(1); remove_DEMO_Channel(&group); });
    // take the mutex again and again: within one critical section the channel must not vanish
    bool gone = false;
    for (int k = 0; k < 4000 && !gone; ++k) {
      std::lock_guard<std::mutex> lock(group.m_channels_);
      const size_t before = group.channels_.size();
      for (volatile int spin = 0; spin < 200; ++spin) {}
      REQUIRE(before == group.channels_.size());
      gone = before == 0u;
    }
    remover.join();
  }
  return 0;
}
''', needs="another thread inside the critical section while a channel is removed", breaks="the map is changed without the group's mutex",
        flags="-fsanitize=thread", timeout=60),
    dict(id="ch-equal-skips-missing", property="P08", edits=[
        (C, "    if (it_right == right_channels.channels_.end()) {\n      return false;\n    }\n", "    if (it_right == right_channels.channels_.end()) {\n      continue;\n    }\n")],
        demo=HEAD + r'''
DECLARE_CHANNEL(ONE, int)
DECLARE_CHANNEL(TWO, int)
int main() {
  ChannelGroup a, b;
  add_ONE_Channel(&a) = 1;
  add_TWO_Channel(&b) = 1;
  REQUIRE(!isChannelGroupEqual(a, b));
  REQUIRE(!isChannelGroupEqual(b, a));
  return 0;
}
''', needs="two groups with the same number of channels under different names", breaks="different groups compare equal"),
    dict(id="ch-clone-shares-sole", property="P08", edits=[
        (C, "    cloned_group.channels_.emplace(channel.first,\n                                   std::shared_ptr<ChannelBase>(channel.second->clone()));\n",
         "    cloned_group.channels_.emplace(channel.first, channel.second.unique() ?\n        std::shared_ptr<ChannelBase>(channel.second->clone()) : channel.second);\n")],
        demo=HEAD + r'''
DECLARE_CHANNEL(ONE, int)
int main() {
  ChannelGroup a;
  add_ONE_Channel(&a) = 1;
  const ChannelGroup shallow(a);  // the copy shares the channel, a later clone must not
  auto&& deep = cloneChannelGroup(a);
  get_ONE_Data(a) = 7;
  REQUIRE(get_ONE_Data(shallow) == 7);
  REQUIRE(get_ONE_Data(deep) == 1);
  return 0;
}
''', needs="a group that was copied before it is cloned", breaks="the clone shares the channel with the original"),
    dict(id="ch-get-cast-static", property="P30", edits=[
        (D, "  CHECK(derived) << \"Channel cast to derived failed \" <<\n                    \"channel: \" << channel_name;\n  return derived->value_;\n", "  LOG_IF(ERROR, !derived) << \"Channel cast to derived failed \" <<\n                    \"channel: \" << channel_name;\n  return derived->value_;\n")],
        demo=HEAD + r'''
int main() {
  ChannelGroup a;
  addChannel<int>("X", &a) = 1;
  const int how = ends([&]() { std::printf("%f", getChannelData<double>("X", a)); });
  std::fprintf(stderr, "ended with %d\n", how);
  REQUIRE(how == SIGABRT);  // a failed check, not undefined behaviour
  return 0;
}
''', needs="a channel requested with another type than it was added with", breaks="a failed dynamic cast is dereferenced"),
]
