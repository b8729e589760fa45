I = "aslam_cv_common/include/aslam/common/"
H = I + "channel.h"
D = I + "channel-declaration.h"
C = "aslam_cv_common/src/channel.cc"
DEF = I + "channel-definitions.h"
EQ = "  for (const ChannelMap::value_type& left_channel_pair : left_channels.channels_) {\n    ChannelMap::const_iterator it_right = right_channels.channels_.find(left_channel_pair.first);\n    if (it_right == right_channels.channels_.end()) {\n      return false;\n    }\n    if (!CHECK_NOTNULL(it_right->second.get())->compare(*left_channel_pair.second)) {\n      return false;\n    }\n  }\n  return true;\n"
CL = "  for (const ChannelMap::value_type& channel : channels.channels_) {\n    CHECK(channel.second);\n    cloned_group.channels_.emplace(channel.first,\n                                   std::shared_ptr<ChannelBase>(channel.second->clone()));\n  }\n"
LK = "    std::unique_lock<std::mutex> lock(m_channels_, std::defer_lock);\n    std::unique_lock<std::mutex> lock_other(other.m_channels_, std::defer_lock);\n    std::lock(lock, lock_other);\n"
HAS = "inline bool hasChannel(const std::string& channel_name,\n                       const ChannelGroup& channel_group) {\n  std::lock_guard<std::mutex> lock(channel_group.m_channels_);\n  ChannelMap::const_iterator it = channel_group.channels_.find(channel_name);\n  return it != channel_group.channels_.end();\n"
MHAS = "  std::lock_guard<std::mutex> lock(channel_group.m_channels_);             \\\n  const ChannelMap& channels = channel_group.channels_;                    \\\n  ChannelMap::const_iterator it = channels.find(NAME##_CHANNEL);           \\\n  return it != channels.end();                                             \\\n"
MADD = "  CHECK(it == channels->end()) << \"Channelgroup already \"                  \\\n      \"contains channel \" << NAME##_CHANNEL;                               \\\n"
GET = "  std::lock_guard<std::mutex> lock(channel_group.m_channels_);\n  ChannelMap::const_iterator it = channel_group.channels_.find(channel_name);\n  CHECK(it != channel_group.channels_.end()) << \"Channelgroup does not \"\n      \"contain channel \" << channel_name;\n  typedef Channel<CHANNEL_DATA_TYPE> DerivedChannel;\n  std::shared_ptr<DerivedChannel> derived =\n      std::dynamic_pointer_cast < DerivedChannel > (it->second);\n  CHECK(derived) << \"Channel cast to derived failed \" <<\n                    \"channel: \" << channel_name;\n  return derived->value_;\n"
CASES = [
    # ---- P07
    ("ch: has unlocked", "P07", "fire", [(D, HAS, HAS.replace("  std::lock_guard<std::mutex> lock(channel_group.m_channels_);\n", ""))]),
    ("ch: macro has unlocked", "P07", "fire", [(D, MHAS, MHAS.split("\n", 1)[1])]),
    ("ch: print unlocked", "P07", "fire", [(H, "    std::lock_guard<std::mutex> lock(m_channels_);\n    if (!channels_.empty()) {", "    if (!channels_.empty()) {")]),
    ("ch: size before the lock", "P07", "fire", [(C, "  // Lock both groups", "  if (left_channels.channels_.size() != right_channels.channels_.size()) return false;\n  // Lock both groups")]),
    ("ch: copy locks in sequence", "P07", "fire", [(H, LK, "    std::lock_guard<std::mutex> lock(m_channels_);\n    std::lock_guard<std::mutex> lock_other(other.m_channels_);\n")]),
    ("ch: copy locks only the source", "P07", "fire", [(H, LK, "    std::lock_guard<std::mutex> lock_other(other.m_channels_);\n")]),
    ("ch: copy without self test", "P07", "fire", [(H, "    if (this == &other) {\n      return *this;\n    }\n", "")]),
    ("ch: compare without self test", "P07", "fire", [(C, "  if (&left_channels == &right_channels) {\n    return true;\n  }\n", "")]),
    ("ch: early unlock in clone", "P07", "fire", [(C, "  std::lock_guard<std::mutex> lock(channels.m_channels_);\n  ChannelGroup cloned_group;\n", "  ChannelGroup cloned_group;\n  {\n    std::lock_guard<std::mutex> lock(channels.m_channels_);\n    cloned_group.channels_.reserve(channels.channels_.size());\n  }\n")]),
    ("ch: nested has in get", "P07", "fire", [(D, "  std::lock_guard<std::mutex> lock(channel_group.m_channels_);\n  ChannelMap::const_iterator it = channel_group.channels_.find(channel_name);\n  return it", "  std::lock_guard<std::mutex> lock(channel_group.m_channels_);\n  std::unique_lock<std::mutex> again(channel_group.m_channels_);\n  ChannelMap::const_iterator it = channel_group.channels_.find(channel_name);\n  return it")]),
    ("ch: unique_lock", "P07", "quiet", [(D, HAS, HAS.replace("lock_guard", "unique_lock"))]),
    ("ch: locked helper", "P07", "quiet", [(D, HAS, HAS.replace("  ChannelMap::const_iterator it = channel_group.channels_.find(channel_name);\n  return it != channel_group.channels_.end();", "  return hasKeyLocked(channel_name, channel_group);")),
        (D, "inline bool hasChannel(", "inline bool hasKeyLocked(const std::string& k, const ChannelGroup& g) {\n  return g.channels_.count(k) > 0u;\n}\ninline bool hasChannel(")]),
    ("ch: std::lock with adopt", "P07", "quiet", [(H, LK, "    std::lock(m_channels_, other.m_channels_);\n    std::lock_guard<std::mutex> lock(m_channels_, std::adopt_lock);\n    std::lock_guard<std::mutex> lock_other(other.m_channels_, std::adopt_lock);\n")]),
    # ---- P08
    ("ch: get without test", "P08", "fire", [(D, GET, GET.replace("  CHECK(it != channel_group.channels_.end()) << \"Channelgroup does not \"\n      \"contain channel \" << channel_name;\n", ""))]),
    ("ch: get cast untested", "P08", "fire", [(D, GET, GET.replace("  CHECK(derived) << \"Channel cast to derived failed \" <<\n                    \"channel: \" << channel_name;\n", ""))]),
    ("ch: get static cast", "P08", "fire", [(D, "std::dynamic_pointer_cast < DerivedChannel > (it->second);\n  CHECK(derived) << \"Channel cast to derived failed \" <<\n                    \"channel: \" << channel_name;\n  return derived->value_;\n}\n\ninline bool hasChannel", "std::static_pointer_cast < DerivedChannel > (it->second);\n  CHECK(derived) << \"Channel cast to derived failed \" <<\n                    \"channel: \" << channel_name;\n  return derived->value_;\n}\n\ninline bool hasChannel")]),
    ("ch: add without test", "P08", "fire", [(D, MADD, "")]),
    ("ch: add DCHECK-like warning", "P08", "fire", [(D, MADD, "  LOG_IF(WARNING, it != channels->end()) << \"exists\";                      \\\n")]),
    ("ch: has inverted", "P08", "fire", [(D, HAS, HAS.replace("it != channel_group.channels_.end()", "it == channel_group.channels_.end()"))]),
    ("ch: has non-empty", "P08", "fire", [(D, HAS, HAS.replace("return it != channel_group.channels_.end()", "return it != channel_group.channels_.end() || !channel_group.channels_.empty()"))]),
    ("ch: remove ignores absence", "P08", "fire", [(D, "  CHECK_EQ(channels.erase(NAME##_CHANNEL), 1u)                             \\\n    << \"Channelgroup does not contain channel \" << NAME##_CHANNEL;         \\\n", "  channels.erase(NAME##_CHANNEL);                                          \\\n")]),
    ("ch: remove clears", "P08", "fire", [(D, "  ChannelMap& channels = channel_group->channels_;                         \\\n  CHECK_EQ(channels.erase", "  ChannelMap& channels = channel_group->channels_;                         \\\n  if (channels.size() == 2u) channels.clear();                             \\\n  CHECK_EQ(channels.erase")]),
    ("ch: shared key", "P08", "fire", [(D, "const std::string NAME##_CHANNEL = #NAME; ", "const std::string NAME##_CHANNEL = \"CH\"; ")]),
    ("ch: add returns other value", "P08", "fire", [(D, "  channel_group->channels_[channel_name] = derived;\n  return derived->value_;", "  channel_group->channels_[channel_name] = std::make_shared<DerivedChannel>(*derived);\n  return derived->value_;")]),
    ("ch: equal without sizes", "P08", "fire", [(C, "  if (left_channels.channels_.size() != right_channels.channels_.size()) {\n    return false;\n  }\n", "")]),
    ("ch: equal sizes lt", "P08", "fire", [(C, "left_channels.channels_.size() != right_channels.channels_.size()", "left_channels.channels_.size() > right_channels.channels_.size()")]),
    ("ch: equal first only", "P08", "fire", [(C, EQ, EQ.replace("      return false;\n    }\n  }\n  return true;", "      return false;\n    }\n    if (left_channels.channels_.size() > 8u) break;\n  }\n  return true;"))]),
    ("ch: equal skips missing", "P08", "fire", [(C, EQ, EQ.replace("channels_.end()) {\n      return false;", "channels_.end()) {\n      continue;"))]),
    ("ch: equal last wins", "P08", "fire", [(C, EQ, EQ.replace("    if (!CHECK_NOTNULL(it_right->second.get())->compare(*left_channel_pair.second)) {\n      return false;\n    }\n  }\n  return true;", "    equal = CHECK_NOTNULL(it_right->second.get())->compare(*left_channel_pair.second);\n  }\n  return equal;").replace("  for (", "  bool equal = true;\n  for (", 1))]),
    ("ch: equal compares with itself", "P08", "fire", [(C, "compare(*left_channel_pair.second)", "compare(*it_right->second)")]),
    ("ch: clone shares", "P08", "fire", [(C, CL, CL.replace("std::shared_ptr<ChannelBase>(channel.second->clone())", "channel.second"))]),
    ("ch: clone shares sole", "P08", "fire", [(C, CL, CL.replace("std::shared_ptr<ChannelBase>(channel.second->clone())", "channel.second.use_count() > 1 ? channel.second : std::shared_ptr<ChannelBase>(channel.second->clone())"))]),
    ("ch: clone skips", "P08", "fire", [(C, CL, CL.replace("    CHECK(channel.second);\n", "    if (channel.second.use_count() > 1) continue;\n"))]),
    ("ch: clone copies map", "P08", "fire", [(C, CL, "  cloned_group.channels_ = channels.channels_;\n")]),
    ("ch: channel copy drops value", "P08", "fire", [(H, "    value_ = internal::ChannelValueCloner<TYPE>::clone(other.value_);\n", "")]),
    ("ch: compare own value", "P08", "fire", [(H, "return internal::isChannelValueEqual(value_, other.value_);", "return internal::isChannelValueEqual(value_, value_);")]),
    ("ch: mat compare true", "P08", "fire", [(C, "  if (value_.size != other.value_.size || value_.type() != other.value_.type()) {\n    return false;\n  }\n", "  if (value_.size != other.value_.size || value_.type() != other.value_.type()) {\n    return true;\n  }\n")]) if False else
    ("ch: clone default", "P08", "fire", [(I + "crtp-clone.h", "new DerivedType(static_cast<const DerivedType&>(*this))", "new DerivedType()")]),
    ("ch: equal via iterators", "P08", "quiet", [(C, EQ, EQ.replace("  for (const ChannelMap::value_type& left_channel_pair : left_channels.channels_) {\n", "  for (ChannelMap::const_iterator it = left_channels.channels_.begin();\n       it != left_channels.channels_.end(); ++it) {\n    const ChannelMap::value_type& left_channel_pair = *it;\n"))]),
    ("ch: equal via all_of", "P08", "quiet", [(C, EQ, "  return std::all_of(left_channels.channels_.begin(), left_channels.channels_.end(),\n      [&right_channels](const ChannelMap::value_type& p) {\n        const auto it = right_channels.channels_.find(p.first);\n        return it != right_channels.channels_.end() && it->second->compare(*p.second);\n      });\n")]),
    ("ch: equal via helper", "P08", "quiet", [(C, EQ, EQ.replace("    if (it_right == right_channels.channels_.end()) {\n      return false;\n    }\n    if (!CHECK_NOTNULL(it_right->second.get())->compare(*left_channel_pair.second)) {\n      return false;\n    }\n", "    if (it_right == right_channels.channels_.end() ||\n        !same(*CHECK_NOTNULL(it_right->second.get()), *left_channel_pair.second)) {\n      return false;\n    }\n")), (C, "bool isChannelGroupEqual(", "static bool same(ChannelBase& a, const ChannelBase& b) { return a.compare(b); }\nbool isChannelGroupEqual(")]),
    ("ch: equal flag", "P08", "quiet", [(C, EQ, "  bool equal = true;\n" + EQ.replace("      return false;\n    }\n    if (!", "      equal = false;\n      break;\n    }\n    if (!").replace("      return false;\n    }\n  }\n  return true;", "      equal = false;\n      break;\n    }\n  }\n  return equal;"))]),
    ("ch: equal count", "P08", "quiet", [(C, EQ, EQ.replace("    ChannelMap::const_iterator it_right = right_channels.channels_.find(left_channel_pair.first);\n    if (it_right == right_channels.channels_.end()) {\n      return false;\n    }\n", "    if (right_channels.channels_.count(left_channel_pair.first) == 0u) {\n      return false;\n    }\n    ChannelMap::const_iterator it_right = right_channels.channels_.find(left_channel_pair.first);\n"))]),
    ("ch: has count", "P08", "quiet", [(D, HAS, HAS.replace("  ChannelMap::const_iterator it = channel_group.channels_.find(channel_name);\n  return it != channel_group.channels_.end();", "  return channel_group.channels_.count(channel_name) > 0u;"))]),
    ("ch: has if", "P08", "quiet", [(D, HAS, HAS.replace("  return it != channel_group.channels_.end();", "  if (it == channel_group.channels_.end()) {\n    return false;\n  }\n  return true;"))]),
    ("ch: add emplace", "P08", "quiet", [(D, "  channel_group->channels_[channel_name] = derived;\n", "  channel_group->channels_.emplace(channel_name, derived);\n")]),
    ("ch: add insert pair", "P08", "quiet", [(D, "  channel_group->channels_[channel_name] = derived;\n", "  channel_group->channels_.insert(std::make_pair(channel_name, derived));\n")]),
    ("ch: add make_shared", "P08", "quiet", [(D, "  std::shared_ptr < DerivedChannel > derived(new DerivedChannel);\n  channel_group->channels_[channel_name] = derived;\n", "  const std::shared_ptr<DerivedChannel> derived = std::make_shared<DerivedChannel>();\n  channel_group->channels_[channel_name] = derived;\n")]),
    ("ch: remove iterator", "P08", "quiet", [(D, "  CHECK_EQ(channels.erase(NAME##_CHANNEL), 1u)                             \\\n    << \"Channelgroup does not contain channel \" << NAME##_CHANNEL;         \\\n", "  const size_t num_erased = channels.erase(NAME##_CHANNEL);                \\\n  CHECK_GT(num_erased, 0u) << \"no channel \" << NAME##_CHANNEL;             \\\n")]),
    ("ch: get helper", "P08", "quiet", [(D, GET, "  std::lock_guard<std::mutex> lock(channel_group.m_channels_);\n  return lookUp<CHANNEL_DATA_TYPE>(channel_name, channel_group);\n"),
        (D, "template<typename CHANNEL_DATA_TYPE>\nCHANNEL_DATA_TYPE& getChannelData", "template<typename CHANNEL_DATA_TYPE>\nCHANNEL_DATA_TYPE& lookUp(const std::string& channel_name, const ChannelGroup& channel_group) {\n" + GET.split("\n", 1)[1] + "}\ntemplate<typename CHANNEL_DATA_TYPE>\nCHANNEL_DATA_TYPE& getChannelData")]),
    ("ch: clone with local", "P08", "quiet", [(C, CL, CL.replace("    cloned_group.channels_.emplace(channel.first,\n                                   std::shared_ptr<ChannelBase>(channel.second->clone()));", "    std::shared_ptr<ChannelBase> copy(channel.second->clone());\n    cloned_group.channels_[channel.first] = copy;"))]),
    ("ch: clone iterators", "P08", "quiet", [(C, CL, "  for (auto it = channels.channels_.begin(); it != channels.channels_.end(); ++it) {\n    CHECK(it->second);\n    cloned_group.channels_.insert(std::make_pair(it->first, std::shared_ptr<ChannelBase>(it->second->clone())));\n  }\n")]),
    ("ch: ctor init list", "P08", "quiet", [(H, "  Channel(const Channel<TYPE>& other) {\n    value_ = internal::ChannelValueCloner<TYPE>::clone(other.value_);\n  }", "  Channel(const Channel<TYPE>& other)\n      : value_(internal::ChannelValueCloner<TYPE>::clone(other.value_)) {}")]),
]
