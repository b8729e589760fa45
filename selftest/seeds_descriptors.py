I = "aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h"
H = "aslam_cv_common/include/aslam/common/feature-descriptor-ref.h"
U = "aslam_cv_common/include/aslam/common/descriptor-utils.h"
HI = "aslam_cv_common/include/aslam/common/hamming-inl.h"
HEAD = r'''#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <glog/logging.h>
#include <aslam/common/feature-descriptor-ref.h>
#include <aslam/common/descriptor-utils.h>
#define REQUIRE(x) do { if (!(x)) { std::printf("failed: %s\n", #x); std::exit(1); } } while (0)
using namespace aslam::common;
'''
SEEDS = [
    dict(id="de-popcount-entry", property="P15", flags="-mssse3", edits=[
        (HI, "  2, 1, 2, 2, 3, 1, 2, 2, 3, 2, 3, 3, 4};\n#endif  // __GNUC__", "  2, 1, 2, 2, 3, 1, 2, 2, 3, 2, 2, 3, 4};\n#endif  // __GNUC__")],
        demo=HEAD + r'''
int main() {
  for (int v = 0; v < 256; ++v) {
    FeatureDescriptorRef a(32u), b(32u);
    a.SetZero();
    b.SetZero();
    b[5] = v;
    REQUIRE(GetNumBitsDifferent(a, b) == static_cast<size_t>(__builtin_popcount(v)));
  }
  return 0;
}
''', needs="a differing nibble of value 13", breaks="the distance is too small"),
    dict(id="de-equal-prefix", property="P15", flags="-mssse3", edits=[
        (I, "  same &= size_bytes_ == lhs.size_bytes_;\n", "  same &= size_bytes_ <= lhs.size_bytes_;\n")],
        demo=HEAD + r'''
int main() {
  FeatureDescriptorRef a(8u), b(16u), c(8u);
  a.SetRandom(1);
  c.SetRandom(1);
  b.SetZero();
  REQUIRE(a == c);
  REQUIRE(!(a == b) && !(b == a));
  for (size_t i = 0; i < 8u; ++i) b[i] = static_cast<const FeatureDescriptorRef&>(a)[i];
  REQUIRE(!(a == b) && !(b == a));
  return 0;
}
''', needs="a longer descriptor that starts with the bytes of the shorter", breaks="descriptors of different sizes compare equal"),
    dict(id="de-mean-tie", property="P15", flags="-mssse3", edits=[
        (I, "  int half = features.size() / 2;\n", "  int half = (features.size() - 1u) / 2u;\n")],
        demo=HEAD + r'''
int main() {
  for (size_t n = 1u; n <= 4u; ++n) {
    for (size_t k = 0u; k <= n; ++k) {
      std::vector<FeatureDescriptorRef> d(n);
      std::vector<FeatureDescriptorRef*> p;
      for (size_t i = 0u; i < n; ++i) {
        d[i].Allocate(2u);
        d[i].SetZero();
        if (i < k) SetBit(9u, &d[i]);
        p.push_back(&d[i]);
      }
      FeatureDescriptorRef mean(2u);
      mean.SetZero();
      DescriptorMean(p, &mean);
      REQUIRE(GetBit(9u, mean.ToConstRef()) == (2u * k > n));
      REQUIRE(!GetBit(8u, mean.ToConstRef()));
    }
  }
  return 0;
}
''', needs="an even number of descriptors, half of which have a bit", breaks="the bit is set without a majority"),
    dict(id="de-median-last-pair", property="P15", flags="-mssse3", edits=[
        (U, "  hamming_distance_matrix.colwise().sum().minCoeff(&eigen_median_descriptor_index);",
         "  hamming_distance_matrix.colwise().maxCoeff().minCoeff(&eigen_median_descriptor_index);")],
        demo=HEAD + r'''
int main() {
  // One far outlier: the sum prefers the many equal ones, the largest distance one in the middle.
  descriptor_utils::DescriptorsType d(16, 6);
  d.setZero();
  for (int k = 0; k < 16; ++k) d(k, 5) = 0xff;
  for (int k = 0; k < 8; ++k) d(k, 4) = 0xff;
  size_t index = 77u;
  descriptor_utils::getIndexOfDescriptorClosestToMedian(d, &index);
  REQUIRE(index == 0u);
  return 0;
}
''', needs="an outlier and a descriptor between it and the rest", breaks="the descriptor with the smallest largest distance is returned"),
    dict(id="de-flip-wraps", property="P15", flags="-mssse3", edits=[
        (H, "[n]()mutable {return n++;}", "[n]()mutable {return n++ & 0x1ff;}")],
        demo=HEAD + r'''
int main() {
  for (size_t bytes : {1u, 16u, 48u, 64u, 65u, 128u}) {
    FeatureDescriptorRef d(static_cast<uint32_t>(bytes));
    d.SetZero();
    FlipNRandomBits(bytes * 8u, &d);
    for (size_t i = 0; i < bytes * 8u; ++i) REQUIRE(GetBit(i, d.ToConstRef()));
  }
  return 0;
}
''', needs="a descriptor of more than 64 bytes", breaks="bits are flipped twice and the others never"),
    dict(id="de-std-deviation-bits", property="P15", flags="-mssse3", edits=[
        (U, "  for (size_t bit = 0u; bit < descriptor.size() * kBitsPerByte; ++bit) {\n    if (getBit(bit, descriptor)) {",
         "  bits_of_descriptor.setZero();\n  for (size_t bit = 0u; bit + 1u < descriptor.size() * kBitsPerByte; ++bit) {\n    if (getBit(bit, descriptor)) {")],
        demo=HEAD + r'''
#include <cmath>
int main() {
  for (int bit = 0; bit < 32; ++bit) {
    descriptor_utils::DescriptorsType d(4, 2);
    d.setZero();
    d(bit / 8, 0) = 1 << bit % 8;
    REQUIRE(std::abs(descriptor_utils::descriptorMeanStandardDeviation(d) - 0.5) < 1e-9);
    d(bit / 8, 1) = 1 << bit % 8;
    REQUIRE(std::abs(descriptor_utils::descriptorMeanStandardDeviation(d)) < 1e-9);
  }
  return 0;
}
''', needs="descriptors that have the last bit", breaks="the last bit counts as not set"),
]
