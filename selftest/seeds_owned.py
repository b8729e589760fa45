I = "aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h"
HEAD = r'''#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <glog/logging.h>
#include <aslam/common/feature-descriptor-ref.h>
#define REQUIRE(x) do { if (!(x)) { std::printf("failed: %s\n", #x); std::exit(1); } } while (0)
using namespace aslam::common;
'''
SEEDS = [
    dict(id="ow-owner-becomes-view", property="P16", flags="-mssse3", edits=[
        (I, "  if (owned_ || lhs.owned_) {\n", "  if (lhs.owned_ || (owned_ && size_bytes_ == lhs.size_bytes_)) {\n")],
        demo=HEAD + r'''
int main() {
  unsigned char store[8] = {1, 2, 3, 4, 5, 6, 7, 8};
  FeatureDescriptorRef view(store, 8u, false);
  FeatureDescriptorRef same(8u), other(4u), fresh;
  same = view;
  other = view;
  fresh = view;
  REQUIRE(other.size() == 8u && same.size() == 8u && fresh.size() == 8u);
  store[0] = 100;
  REQUIRE(fresh[0] == 100);
  REQUIRE(same[0] == 1);
  REQUIRE(other[0] == 1);
  return 0;
}
''', needs="an owner that is assigned a view of another size", breaks="the owner's bytes leak and it refers to memory of somebody else"),
    dict(id="ow-allocate-keeps-larger", property="P16", flags="-mssse3", edits=[
        (I, "  if (size_bytes == size_bytes_ && owned_) {\n", "  if (size_bytes <= size_bytes_ && size_bytes > 0u && owned_) {\n")],
        demo=HEAD + r'''
int main() {
  FeatureDescriptorRef d(8u);
  d.SetZero();
  d.Allocate(8u);
  REQUIRE(d.size() == 8u);
  d.Allocate(16u);
  REQUIRE(d.size() == 16u);
  d.Allocate(4u);
  REQUIRE(d.size() == 4u);
  return 0;
}
''', needs="an owner that is given fewer bytes than it has", breaks="the size is not the one asked for"),
    dict(id="ow-empty-owner-copied", property="P16", flags="-mssse3", edits=[
        (I, "  if (lhs.owned_) {\n    Allocate(lhs.size_bytes_);", "  if (lhs.owned_ && lhs.size_bytes_ != 0u) {\n    Allocate(lhs.size_bytes_);")],
        demo=HEAD + r'''
int main() {
  FeatureDescriptorRef full(8u);
  full.SetRandom(3);
  {
    FeatureDescriptorRef copy(full);
    REQUIRE(copy == full && static_cast<const FeatureDescriptorRef&>(copy).data() != static_cast<const FeatureDescriptorRef&>(full).data());
  }
  FeatureDescriptorRef* empty = new FeatureDescriptorRef(static_cast<uint32_t>(0u));
  FeatureDescriptorRef* copy = new FeatureDescriptorRef(*empty);
  REQUIRE(empty->data() != copy->data());
  delete empty;
  delete copy;
  return 0;
}
''', needs="an owner of zero bytes that is copied", breaks="both objects free the same memory"),
]
