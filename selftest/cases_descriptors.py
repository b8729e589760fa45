I = "aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h"
H = "aslam_cv_common/include/aslam/common/feature-descriptor-ref.h"
U = "aslam_cv_common/include/aslam/common/descriptor-utils.h"
HA = "aslam_cv_common/include/aslam/common/hamming.h"
HI = "aslam_cv_common/include/aslam/common/hamming-inl.h"
GB = """  size_t byte = bit / 8;
  size_t bit_within_byte = bit % 8;
  CHECK_LT(byte, descriptor.size());
  return descriptor[byte] & 1 << bit_within_byte;
"""
SB = """  size_t byte = bit_position / 8;
  size_t bit_within_byte = bit_position % 8;
  CHECK_NOTNULL(descriptor);
  CHECK_LT(byte, descriptor->size());
  (*descriptor)[byte] |= 1 << bit_within_byte;
"""
EQ = """  bool same = true;
  same &= static_cast<bool>(data_) == static_cast<bool>(lhs.data_);
  same &= size_bytes_ == lhs.size_bytes_;
  if (data_ && lhs.data_ && same) {
    same &= (memcmp(data_, lhs.data_, size_bytes_) == 0);
  }
  return same;
"""
MEAN = """  for (const FeatureDescriptorRef* feature : features) {
    CHECK_EQ(feature->size(), mean->size());
    for (size_t bit = 0; bit < feature->size() * 8; ++bit) {
      if (GetBit(bit, feature->ToConstRef())) {
        ++sums[bit];
      }
    }
  }
  int half = features.size() / 2;
  for (size_t bit = 0; bit < sums.size(); ++bit) {
    if (sums[bit] > half) {
      SetBit(bit, mean);
    }
  }
"""
UM = """  for (int i = 0; i < descriptors.cols(); ++i) {
    for (size_t bit = 0u; bit < num_descriptor_bits; ++bit) {
      if (getBit(bit, descriptors.col(i))) {
        ++sums[bit];
      }
    }
  }
  const int half = descriptors.cols() / 2;
  for (size_t bit = 0u; bit < sums.size(); ++bit) {
    if (sums[bit] > half) {
      setBit(bit, median);
    }
  }
"""
TAIL = """    for (int i = num_128_bit_words * 16; i < size; ++i) {
      result += __builtin_popcount(a[i] ^ b[i]);
    }
"""
CORE = HI
CASES = [
    # bits
    ("de: get bit mod 7", "P15", "fire", [(H, "  size_t bit_within_byte = bit % 8;", "  size_t bit_within_byte = bit % 7;")]),
    ("de: get bit from the other end", "P15", "fire", [(H, "descriptor[byte] & 1 << bit_within_byte", "descriptor[byte] & 0x80 >> bit_within_byte")]),
    ("de: get bit check gone", "P15", "fire", [(U, "  CHECK_LT(byte, descriptor.rows());\n\n", "")]),
    ("de: set bit check le", "P15", "fire", [(U, "  CHECK_LT(byte, descriptor->rows());", "  CHECK_LE(byte, descriptor->rows());")]),
    ("de: set bit checks the bit", "P15", "fire", [(U, "  CHECK_LT(byte, descriptor->rows());", "  CHECK_LT(static_cast<int>(bit), descriptor->rows());")]),
    ("de: set bit overwrites", "P15", "fire", [(H, "(*descriptor)[byte] |= 1 << bit_within_byte", "(*descriptor)[byte] = 1 << bit_within_byte")]),
    ("de: set bit toggles", "P15", "fire", [(U, "(*descriptor)(byte) |= (1 << bit_in_byte)", "(*descriptor)(byte) ^= (1 << bit_in_byte)")]),
    ("de: flip sets", "P15", "fire", [(H, "(*descriptor)[byte] ^= static_cast", "(*descriptor)[byte] |= static_cast")]),
    ("de: flip cast too narrow", "P15", "fire", [(H, "static_cast<uint8_t>(1 << bit_within_byte)", "static_cast<uint8_t>((1 << bit_within_byte) & 0x7f)")]),
    ("de: quiet get bit shift form", "P15", "quiet", [(H, GB, """  const size_t byte = bit >> 3;
  CHECK_GT(descriptor.size(), byte);
  return ((descriptor[byte] >> (bit & 7u)) & 1) != 0;
""")]),
    ("de: quiet set bit helper", "P15", "quiet", [(H, "inline void SetBit(", "inline unsigned char BitMask(size_t bit) { return 1 << bit % 8; }\ninline void SetBit("), (H, SB, """  CHECK_NOTNULL(descriptor);
  const size_t byte = bit_position / 8;
  CHECK_LT(byte, descriptor->size());
  unsigned char& target = (*descriptor)[byte];
  target = target | BitMask(bit_position);
""")]),
    # equality
    ("de: equal without size", "P15", "fire", [(I, "  same &= size_bytes_ == lhs.size_bytes_;\n", "")]),
    ("de: equal without bytes", "P15", "fire", [(I, "    same &= (memcmp(data_, lhs.data_, size_bytes_) == 0);\n", "")]),
    ("de: equal part of bytes", "P15", "fire", [(I, "memcmp(data_, lhs.data_, size_bytes_)", "memcmp(data_, lhs.data_, size_bytes_ - 1)")]),
    ("de: equal self", "P15", "fire", [(I, "memcmp(data_, lhs.data_, size_bytes_)", "memcmp(data_, data_, size_bytes_)")]),
    ("de: equal strncmp", "P15", "fire", [(I, "    same &= (memcmp(data_, lhs.data_, size_bytes_) == 0);", "    same |= (memcmp(data_, lhs.data_, size_bytes_) == 0);\n    same = true;")]),
    ("de: equal null to any", "P15", "fire", [(I, "  same &= static_cast<bool>(data_) == static_cast<bool>(lhs.data_);\n", "")]),
    ("de: quiet equal early returns", "P15", "quiet", [(I, EQ, """  if (size_bytes_ != lhs.size_bytes_) {
    return false;
  }
  if ((data_ == nullptr) != (lhs.data_ == nullptr)) {
    return false;
  }
  return data_ == nullptr || memcmp(data_, lhs.data_, size_bytes_) == 0;
""")]),
    ("de: quiet equal std::equal", "P15", "quiet", [(I, EQ, """  if (size_bytes_ != lhs.size_bytes_ || !data_ != !lhs.data_) {
    return false;
  }
  if (!data_) {
    return true;
  }
  return std::equal(data_, data_ + size_bytes_, lhs.data_);
""")]),
    # means
    ("de: mean loop from one", "P15", "fire", [(I, "for (size_t bit = 0; bit < feature->size() * 8; ++bit)", "for (size_t bit = 1; bit < feature->size() * 8; ++bit)")]),
    ("de: mean loop bytes", "P15", "fire", [(I, "for (size_t bit = 0; bit < feature->size() * 8; ++bit)", "for (size_t bit = 0; bit < feature->size(); ++bit)")]),
    ("de: mean loop short", "P15", "fire", [(I, "for (size_t bit = 0; bit < feature->size() * 8; ++bit)", "for (size_t bit = 0; bit + 1 < feature->size() * 8; ++bit)")]),
    ("de: mean step two", "P15", "fire", [(I, "bit < feature->size() * 8; ++bit)", "bit < feature->size() * 8; bit += 2)")]),
    ("de: mean break", "P15", "fire", [(I, "        ++sums[bit];\n      }\n", "        ++sums[bit];\n      } else if (bit > 512u) {\n        break;\n      }\n")]),
    ("de: mean counts unset", "P15", "fire", [(I, "if (GetBit(bit, feature->ToConstRef()))", "if (!GetBit(bit, feature->ToConstRef()))")]),
    ("de: mean other counter", "P15", "fire", [(I, "++sums[bit];", "++sums[bit / 8];")]),
    ("de: mean skips first", "P15", "fire", [(I, "    CHECK_EQ(feature->size(), mean->size());\n    for", "    CHECK_EQ(feature->size(), mean->size());\n    if (feature == features[0]) {\n      continue;\n    }\n    for")]),
    ("de: mean no size check", "P15", "fire", [(I, "    CHECK_EQ(feature->size(), mean->size());\n", "")]),
    ("de: mean sums too small", "P15", "fire", [(I, "sums.resize(features[0]->size() * 8, 0);", "sums.resize(features[0]->size(), 0);")]),
    ("de: mean threshold ge", "P15", "fire", [(I, "if (sums[bit] > half)", "if (sums[bit] >= half)")]),
    ("de: mean not cleared", "P15", "fire", [(I, "  mean->SetZero();\n", "")]),
    ("de: mean half plus", "P15", "fire", [(I, "  int half = features.size() / 2;", "  int half = features.size() / 2 + 1;")]),
    ("de: mean of wrong bit", "P15", "fire", [(I, "      SetBit(bit, mean);", "      SetBit(bit + 1, mean);")]),
    ("de: utils mean not cleared", "P15", "fire", [(U, "  median->setZero();\n", "")]),
    ("de: utils mean first only", "P15", "fire", [(U, "      if (getBit(bit, descriptors.col(i))) {\n        ++sums[bit];\n      }\n    }\n  }\n  const int half", "      if (getBit(bit, descriptors.col(0))) {\n        ++sums[bit];\n      }\n    }\n  }\n  const int half")]),
    ("de: utils mean last skipped", "P15", "fire", [(U, "  for (int i = 0; i < descriptors.cols(); ++i) {\n    for (size_t bit = 0u; bit < num_descriptor_bits", "  for (int i = 0; i < descriptors.cols() - 1; ++i) {\n    for (size_t bit = 0u; bit < num_descriptor_bits")]),
    ("de: utils mean threshold", "P15", "fire", [(U, "  const int half = descriptors.cols() / 2;", "  const int half = (descriptors.cols() + 1) / 2;")]),
    ("de: utils loop to sums - 1", "P15", "fire", [(U, "  for (size_t bit = 0u; bit < sums.size(); ++bit) {\n    if (sums[bit] > half)", "  for (size_t bit = 0u; bit < sums.size() - 1; ++bit) {\n    if (sums[bit] > half)")]),
    ("de: quiet mean while", "P15", "quiet", [(I, MEAN, """  const size_t num_bits = sums.size();
  for (size_t i = 0u; i < features.size(); ++i) {
    const FeatureDescriptorRef& feature = *features[i];
    CHECK_EQ(mean->size(), feature.size());
    size_t bit = 0u;
    while (bit < num_bits) {
      if (GetBit(bit, feature.ToConstRef())) {
        sums[bit] += 1;
      }
      ++bit;
    }
  }
  const int half = features.size() / 2;
  for (size_t b = 0; b < num_bits; ++b) {
    if (half >= sums[b]) {
      continue;
    }
    SetBit(b, mean);
  }
""")]),
    ("de: quiet mean twice", "P15", "quiet", [(I, "  int half = features.size() / 2;\n", ""), (I, "    if (sums[bit] > half) {", "    if (2u * sums[bit] > features.size()) {")]),
    ("de: quiet utils swap loops", "P15", "quiet", [(U, UM, """  for (size_t bit = 0u; bit < num_descriptor_bits; ++bit) {
    for (int i = 0; i < descriptors.cols(); ++i) {
      sums[bit] += getBit(bit, descriptors.col(i)) ? 1 : 0;
    }
  }
  const int half = descriptors.cols() / 2;
  for (size_t bit = 0u; bit < num_descriptor_bits; ++bit) {
    if (sums[bit] > half) {
      setBit(bit, median);
    }
  }
""")]),
    ("de: quiet mean helper", "P15", "quiet", [(I, "template <typename TYPE, int ACCESSOR>\nvoid DescriptorMean(", """inline void CountBits(const FeatureDescriptorConstRef& descriptor, std::vector<int>* sums) {
  for (size_t bit = 0; bit < descriptor.size() * 8; ++bit) {
    if (GetBit(bit, descriptor)) {
      ++(*sums)[bit];
    }
  }
}
template <typename TYPE, int ACCESSOR>
void DescriptorMean("""), (I, """    for (size_t bit = 0; bit < feature->size() * 8; ++bit) {
      if (GetBit(bit, feature->ToConstRef())) {
        ++sums[bit];
      }
    }
""", "    CountBits(feature->ToConstRef(), &sums);\n")]),
    # flips
    ("de: flips repeat", "P15", "fire", [(H, "    FlipBit(bits_to_flip[i], descriptor);", "    FlipBit(bits_to_flip[rand() % bits_to_flip.size()], descriptor);")]),
    ("de: flips not shuffled", "P15", "fire", [(H, "  std::random_shuffle(bits_to_flip.begin(), bits_to_flip.end());\n", "")]),
    ("de: flips bytes", "P15", "fire", [(H, "const uint32_t descriptor_size_bits = descriptor_size_bytes * 8;", "const uint32_t descriptor_size_bits = descriptor_size_bytes;")]),
    ("de: flips lt", "P15", "fire", [(H, "CHECK_LE(num_bits_to_flip, bits_to_flip.size())", "CHECK_LT(num_bits_to_flip, bits_to_flip.size())")]),
    ("de: flips unchecked", "P15", "fire", [(H, "  CHECK_LE(num_bits_to_flip, bits_to_flip.size()) << \"Cannot flip more than everything.\";\n", "")]),
    ("de: flips same", "P15", "fire", [(H, "    FlipBit(bits_to_flip[i], descriptor);", "    FlipBit(bits_to_flip[0], descriptor);")]),
    ("de: flips n fixed", "P15", "fire", [(H, "[n]()mutable {return n++;}", "[n]()mutable {return n;}")]),
    ("de: flips one less", "P15", "fire", [(H, "  for (size_t i = 0; i < num_bits_to_flip; ++i) {", "  for (size_t i = 1; i < num_bits_to_flip; ++i) {")]),
    ("de: flips part shuffled", "P15", "fire", [(H, "bits_to_flip.begin(), bits_to_flip.end()", "bits_to_flip.begin(), bits_to_flip.begin() + num_bits_to_flip")]),
    ("de: quiet flips pop", "P15", "quiet", [(H, """  for (size_t i = 0; i < num_bits_to_flip; ++i) {
    FlipBit(bits_to_flip[i], descriptor);
  }
""", """  size_t flipped = 0u;
  while (flipped != num_bits_to_flip) {
    FlipBit(bits_to_flip[flipped], descriptor);
    ++flipped;
  }
""")]),
    ("de: quiet flips push back", "P15", "quiet", [(H, """  int n(0);
  std::generate_n(
      std::back_inserter(bits_to_flip), descriptor_size_bits, [n]()mutable {return n++;});
""", """  for (uint32_t bit = 0u; bit < descriptor_size_bits; ++bit) {
    bits_to_flip.push_back(bit);
  }
""")]),
    # distance
    ("de: distance size unchecked", "P15", "fire", [(H, "  CHECK_EQ(descriptor_size, descriptor2_size) << \"Cannot compare descriptors of unequal size.\";\n", "")]),
    ("de: distance to itself", "P15", "fire", [(H, "hamming(descriptor1.data(), descriptor2.data(), descriptor_size)", "hamming(descriptor1.data(), descriptor1.data(), descriptor_size)")]),
    ("de: distance words", "P15", "fire", [(H, "hamming(descriptor1.data(), descriptor2.data(), descriptor_size)", "hamming(descriptor1.data(), descriptor2.data(), descriptor_size / 16 * 16)")]),
    ("de: distance bits", "P15", "fire", [(H, "hamming(descriptor1.data(), descriptor2.data(), descriptor_size)", "hamming(descriptor1.data(), descriptor2.data(), descriptor_size * 8)")]),
    ("de: distance check le", "P15", "fire", [(H, "  CHECK_EQ(descriptor_size, descriptor2_size)", "  CHECK_LE(descriptor_size, descriptor2_size)")]),
    ("de: tail missing", "P15", "fire", [(HA, """    for (int i = num_128_bit_words * 16; i < size; ++i) {
      result += __builtin_popcount(a[i] ^ b[i]);
    }
""", "")]),
    ("de: tail starts late", "P15", "fire", [(HA, "int i = num_128_bit_words * 16;", "int i = num_128_bit_words * 16 + 1;")]),
    ("de: tail starts early", "P15", "fire", [(HA, "int i = num_128_bit_words * 16;", "int i = num_128_bit_words * 8;")]),
    ("de: tail end", "P15", "fire", [(HA, "i < size; ++i", "i < size - 1; ++i")]),
    ("de: tail beyond", "P15", "fire", [(HA, "i < size; ++i", "i <= size; ++i")]),
    ("de: tail or", "P15", "fire", [(HA, "__builtin_popcount(a[i] ^ b[i])", "__builtin_popcount(a[i] | b[i])")]),
    ("de: tail self", "P15", "fire", [(HA, "__builtin_popcount(a[i] ^ b[i])", "__builtin_popcount(a[i] ^ a[i])")]),
    ("de: tail assigned", "P15", "fire", [(HA, "      result += __builtin_popcount", "      result = __builtin_popcount")]),
    ("de: tail any", "P15", "fire", [(HA, "__builtin_popcount(a[i] ^ b[i])", "(a[i] != b[i])")]),
    ("de: words rounded up", "P15", "fire", [(HA, "const int num_128_bit_words = size / 16;", "const int num_128_bit_words = (size + 15) / 16;")]),
    ("de: words too few", "P15", "fire", [(HA, "const int num_128_bit_words = size / 16;", "const int num_128_bit_words = (size - 1) / 16;"), (HA, "int i = num_128_bit_words * 16;", "int i = size / 16 * 16;")]),
    ("de: quiet tail while", "P15", "quiet", [(HA, "    for (int i = num_128_bit_words * 16; i < size; ++i) {\n      result += __builtin_popcount(a[i] ^ b[i]);\n    }\n", "    int i = num_128_bit_words * 16;\n    while (i != size) {\n      result += __builtin_popcount(b[i] ^ a[i]);\n      ++i;\n    }\n")]),
    ("de: quiet tail helper", "P15", "quiet", [(HA, "  static ResultType evaluate(", "  static ResultType evaluateTail(\n      const unsigned char* a, const unsigned char* b, const int begin, const int end) {\n    ResultType tail = 0;\n    for (int i = begin; i < end; ++i) {\n      tail += __builtin_popcount(a[i] ^ b[i]);\n    }\n    return tail;\n  }\n  static ResultType evaluate("),
        (HA, "    for (int i = num_128_bit_words * 16; i < size; ++i) {\n      result += __builtin_popcount(a[i] ^ b[i]);\n    }\n    return result;", "    return result + evaluateTail(a, b, num_128_bit_words * 16, size);")]),
    # vector code
    ("de: table entry", "P15", "fire", [(HI, "POPCOUNT_4bit[16] = {0, 1, 1,\n  2, 1, 2, 2, 3, 1, 2, 2, 3, 2, 3, 3, 4}", "POPCOUNT_4bit[16] = {0, 1, 1,\n  2, 1, 2, 2, 3, 1, 2, 2, 3, 2, 3, 3, 3}")]),
    ("de: mask", "P15", "fire", [(HI, "0xf, 0xf, 0xf,\n   0xf}", "0xf, 0xf, 0xf,\n   0x7}")]),
    ("de: local counters not flushed", "P15", "fire", [(HI, "    xmm4 = _mm_sad_epu8(xmm4, _mm_setzero_si128());\n    xmm5 = _mm_add_epi32(xmm5, xmm4);\n    xmm4 = _mm_setzero_si128();\n  }\n", "  }\n  xmm4 = _mm_sad_epu8(xmm4, _mm_setzero_si128());\n  xmm5 = _mm_add_epi32(xmm5, xmm4);\n")]),
    ("de: local counters not cleared", "P15", "fire", [(HI, "    xmm5 = _mm_add_epi32(xmm5, xmm4);\n    xmm4 = _mm_setzero_si128();\n", "    xmm5 = _mm_add_epi32(xmm5, xmm4);\n")]),
    ("de: aligned loads", "P15", "fire", [(HI, "_mm_xor_si128(_mm_loadu_si128(signature1++), _mm_loadu_si128(signature2++))", "_mm_xor_si128(_mm_load_si128(signature1++), _mm_load_si128(signature2++))")]),
    ("de: low half only", "P15", "fire", [(HI, "  xmm0 = _mm_srli_si128(xmm5, 8);\n  xmm0 = _mm_add_epi32(xmm0, xmm5);\n", "  xmm0 = xmm5;\n")]),
    ("de: shift by 3", "P15", "fire", [(HI, "_mm_set_epi32(0, 0, 0, 4);\n  while", "_mm_set_epi32(0, 0, 0, 3);\n  while")]),
    ("de: and instead of xor", "P15", "fire", [(HI, "_mm_xor_si128(", "_mm_or_si128(")]),
    ("de: end one less", "P15", "fire", [(HI, "signature1 + numberOf128BitWords;", "signature1 + numberOf128BitWords - 1;")]),
    ("de: le end", "P15", "fire", [(HI, "while (signature1 < end)", "while (signature1 <= end)")]),
    ("de: second not advanced", "P15", "fire", [(HI, "_mm_loadu_si128(signature2++)", "_mm_loadu_si128(signature2)")]),
    ("de: high nibbles dropped", "P15", "fire", [(HI, "    xmm4 = _mm_add_epi8(xmm4, xmm3);  // Accumulator.\n", "")]),
    ("de: low nibbles twice", "P15", "fire", [(HI, "_mm_shuffle_epi8(xmm3, xmm1)", "_mm_shuffle_epi8(xmm3, xmm0)")]),
    ("de: quiet vector reorder", "P15", "quiet", [(HI, "    xmm2 = xmm7;\n    xmm3 = xmm7;  // Get popcount.\n    xmm2 = _mm_shuffle_epi8(xmm2, xmm0);  // For all nibbles.\n    xmm3 = _mm_shuffle_epi8(xmm3, xmm1);  // Using PSHUFB.\n    xmm4 = _mm_add_epi8(xmm4, xmm2);  // Update local.\n    xmm4 = _mm_add_epi8(xmm4, xmm3);  // Accumulator.\n", "    xmm3 = _mm_shuffle_epi8(xmm7, xmm1);\n    xmm2 = _mm_shuffle_epi8(xmm7, xmm0);\n    xmm4 = _mm_add_epi8(xmm3, xmm2);\n")]),
    ("de: quiet vector for", "P15", "quiet", [(HI, "  const __m128i* end = signature1 + numberOf128BitWords;\n", ""), (HI, "  while (signature1 < end) {", "  for (int word = 0; word < numberOf128BitWords; ++word) {")]),
    ("de: quiet srli", "P15", "quiet", [(HI, "    xmm1 = _mm_srl_epi16(xmm1, shiftval);", "    xmm1 = _mm_srli_epi16(xmm1, 4);")]),
    # closest
    ("de: matrix cell", "P15", "fire", [(U, "      hamming_distance_matrix(descriptor_idx_col, descriptor_idx_row) =\n          hamming_distance;\n", "")]),
    ("de: matrix same cell", "P15", "fire", [(U, "hamming_distance_matrix(descriptor_idx_col, descriptor_idx_row) =", "hamming_distance_matrix(descriptor_idx_col, descriptor_idx_col) =")]),
    ("de: matrix neighbours only", "P15", "fire", [(U, "descriptor_idx_col = descriptor_idx_row + 1;", "descriptor_idx_col = descriptor_idx_row + 2;")]),
    ("de: matrix short", "P15", "fire", [(U, "        descriptor_idx_col < num_descriptors; ++descriptor_idx_col) {", "        descriptor_idx_col < num_descriptors - 1; ++descriptor_idx_col) {")]),
    ("de: matrix max", "P15", "fire", [(U, "colwise().sum().minCoeff(", "colwise().sum().maxCoeff(")]),
    ("de: matrix nearest", "P15", "fire", [(U, "colwise().sum().minCoeff(", "colwise().maxCoeff().minCoeff(")]),
    ("de: matrix index + 1", "P15", "fire", [(U, "static_cast<size_t>(eigen_median_descriptor_index);", "static_cast<size_t>(eigen_median_descriptor_index) + 1u;")]),
    ("de: wrap one column", "P15", "fire", [(U, "&raw_descriptors.coeffRef(0, descriptor_idx)", "&raw_descriptors.coeffRef(0, 0)")]),
    ("de: wrap short", "P15", "fire", [(U, "        &raw_descriptors.coeffRef(0, descriptor_idx),\n        descriptor_size_bytes);", "        &raw_descriptors.coeffRef(0, descriptor_idx),\n        descriptor_size_bytes - 1);")]),
    ("de: quiet matrix full", "P15", "quiet", [(U, "      hamming_distance_matrix(descriptor_idx_col, descriptor_idx_row) =\n          hamming_distance;\n", ""), (U, "int descriptor_idx_col = descriptor_idx_row + 1;", "int descriptor_idx_col = 0;")]),
    # deviation
    ("de: deviation first skipped", "P15", "fire", [(U, "  for (int i = 0; i < descriptors.cols(); ++i) {\n    deviation += ", "  for (int i = 1; i < descriptors.cols(); ++i) {\n    deviation += ")]),
    ("de: deviation n-1", "P15", "fire", [(U, "  deviation /= descriptors.cols();", "  deviation /= descriptors.cols() - 2;")]),
    ("de: deviation guard", "P15", "fire", [(U, "  if (descriptors.cols() < 2) {\n    return 0.;\n  }\n\n  Eigen::VectorXd mean;", "  Eigen::VectorXd mean;"), (U, "  CHECK_GT(descriptors.rows(), 0);\n  CHECK_GT(descriptors.cols(), 0);\n", "  CHECK_GT(descriptors.rows(), 0);\n")]),
    ("de: deviation bytes", "P15", "fire", [(U, "mean.data(),\n                              descriptors.rows());", "mean.data(),\n                              descriptors.cols());")]),
    ("de: float mean integer", "P15", "fire", [(U, "static_cast<MeanType>(sums[bit]) / descriptors.cols();", "static_cast<MeanType>(sums[bit] / descriptors.cols());")]),
    ("de: diff bit inverted", "P15", "fire", [(U, "      bits_of_descriptor[bit] = 1;\n    } else {\n      bits_of_descriptor[bit] = 0;", "      bits_of_descriptor[bit] = 0;\n    } else {\n      bits_of_descriptor[bit] = 1;")]),
    ("de: diff bits short", "P15", "fire", [(U, "  for (size_t bit = 0u; bit < descriptor.size() * kBitsPerByte; ++bit) {", "  for (size_t bit = 0u; bit < descriptor.size(); ++bit) {")]),
    ("de: quiet deviation while", "P15", "quiet", [(U, "  for (int i = 0; i < descriptors.cols(); ++i) {\n    deviation += hamming_norm(descriptors.col(i).data(), mean.data(),\n                              descriptors.rows());\n  }\n  deviation /= descriptors.cols();\n  return deviation;", "  const int num = descriptors.cols();\n  int i = 0;\n  while (i < num) {\n    deviation += hamming_norm(mean.data(), descriptors.col(i).data(),\n                              mean.rows());\n    ++i;\n  }\n  return deviation / num;")]),
    # fill
    ("de: zero half", "P15", "fire", [(I, "memset(data_, 0, size_bytes_)", "memset(data_, 0, sizeof(data_))")]),
    ("de: zero not zero", "P15", "fire", [(I, "memset(data_, 0, size_bytes_)", "memset(data_, 1, size_bytes_)")]),
    ("de: random first", "P15", "fire", [(I, "for (size_t i = 0; i < size_bytes_; ++i)", "for (size_t i = 1; i < size_bytes_; ++i)")]),
    ("de: quiet zero fill", "P15", "quiet", [(I, "memset(data_, 0, size_bytes_)", "std::fill_n(data_, size_bytes_, static_cast<unsigned char>(0))")]),
]
