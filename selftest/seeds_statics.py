from seeds_repo import HEAD2
U = "aslam_cv_common/src/internal/unique-id.cc"
S = "aslam_cv_common/src/statistics.cc"
HEAD3 = HEAD2 + "#include <aslam/common/unique-id.h>\n#include <set>\n#include <mutex>\n#include <string>\n#include <thread>\n#include <vector>\n#include <algorithm>\n"
SEEDS = [
    dict(id="st-handle-looked-up-twice", property="P12", edits=[
        (S, "size_t Statistics::GetHandle(std::string const& tag) {\n  std::lock_guard<std::mutex> lock(Instance().mutex_);\n",
         "size_t Statistics::GetHandle(std::string const& tag) {\n  // Known tags need no lock.\n  map_t::const_iterator known = Instance().tag_map_.find(tag);\n  if (known != Instance().tag_map_.end()) {\n    return known->second;\n  }\n  std::unique_lock<std::mutex> lock(Instance().mutex_);\n")],
        demo=HEAD3 + r'''
int main() {
  // one thread adds tags while another one looks up: the lookup must wait for the mutex
  std::atomic<bool> go(false), done(false);
  std::vector<std::string> tags;
  for (int i = 0; i < 60000; ++i) {
    tags.push_back("tag " + std::to_string((i * 7919) % 60000));
  }
  statistics::Statistics::GetHandle("known");
  std::vector<std::thread> readers;
  for (int r = 0; r < 3; ++r) {
    readers.emplace_back([&]() {
      while (!done) {
        for (int i = 0; i < 50; ++i) {
          statistics::Statistics::GetHandle("known");
          statistics::Statistics::GetHandle(tags[i]);
        }
      }
    });
  }
  for (const std::string& t : tags) {
    statistics::Statistics::GetHandle(t);
  }
  done = true;
  for (std::thread& t : readers) t.join();
  return 0;
}
''', needs="a new tag being added while another thread looks up a known one", breaks="the map is searched without the mutex: a data race",
         flags="-fsanitize=thread", srcs=["aslam_cv_common/src/statistics.cc"], timeout=200),
    dict(id="st-id-counter-not-atomic", property="P12", edits=[
        (U, "  static std::atomic<uint64_t> counter;\n", "  static std::atomic<uint64_t> counter(0u);\n"),
        (U, "  hash[1] = std::hash<uint64_t>()(++counter);\n", "  counter = counter + 1u;\n  hash[1] = std::hash<uint64_t>()(counter);\n")],
        demo=HEAD3 + r'''
extern void touch();
int main() {
  std::vector<std::vector<uint64_t> > got(8);
  std::vector<std::thread> ts;
  for (auto& g : got) {
    ts.emplace_back([&g]() {
      for (int i = 0; i < 400000; ++i) {
        uint64_t h[2];
        aslam::internal::generateUnique128BitHash(h);
        g.push_back(h[1]);
      }
    });
  }
  for (auto& t : ts) t.join();
  std::vector<uint64_t> all;
  for (auto& g : got) all.insert(all.end(), g.begin(), g.end());
  std::sort(all.begin(), all.end());
  REQUIRE(std::adjacent_find(all.begin(), all.end()) == all.end());
  return 0;
}
''', needs="two threads drawing an id at the same moment", breaks="both get the same counter value", timeout=100),
]
