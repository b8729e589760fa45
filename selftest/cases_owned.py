I = "aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h"
H = "aslam_cv_common/include/aslam/common/feature-descriptor-ref.h"
S = "aslam_cv_common/include/aslam/common/stl-helpers.h"
SE = "aslam_cv_common/include/aslam/common/channel-serialization.h"
KZ = "aslam_cv_detector/src/kaze/nldiffusion_functions.cpp"
CASES = [
    ("ow: copy ctor reads owned", "P16", "fire", [(I, "    : Base(nullptr, 0), owned_(false) {\n  if (lhs", "    : Base(nullptr, 0) {\n  if (lhs")]),
    ("ow: set_data leaks", "P16", "fire", [(I, "  if (owned_ && data_ != data) {\n    delete[] data_;\n  }\n", "")]),
    ("ow: set_data frees unowned", "P16", "fire", [(I, "  if (owned_ && data_ != data) {\n", "  if (data_ != data) {\n")]),
    ("ow: set_data frees what it keeps", "P16", "fire", [(I, "  if (owned_ && data_ != data) {\n", "  if (owned_) {\n")]),
    ("ow: release keeps size", "P16", "fire", [(I, "    size_bytes_ = 0u;\n", "")]),
    ("ow: release keeps pointer", "P16", "fire", [(I, "    delete[] data_;\n    data_ = nullptr;\n    size_bytes_ = 0u;\n    owned_ = false;\n", "    delete[] data_;\n    owned_ = false;\n")]),
    ("ow: release keeps flag and pointer", "P16", "fire", [(I, "    delete[] data_;\n    data_ = nullptr;\n    size_bytes_ = 0u;\n    owned_ = false;\n", "    delete[] data_;\n")]),
    ("ow: release unowned", "P16", "fire", [(I, "  if (owned_) {\n    delete[] data_;\n", "  if (data_ != nullptr) {\n    delete[] data_;\n")]),
    ("ow: dtor forgets", "P16", "fire", [(I, "                                WriteAccessors>::~FeatureDescriptorRefBase() {\n  Release();\n", "                                WriteAccessors>::~FeatureDescriptorRefBase() {\n")]),
    ("ow: allocate does not release", "P16", "fire", [(I, "  Release();\n  owned_ = false;\n", "  owned_ = false;\n")]),
    ("ow: allocate early return for unowned", "P16", "fire", [(I, "  if (size_bytes == size_bytes_ && owned_) {\n    return;", "  if (size_bytes == size_bytes_) {\n    owned_ = true;\n    return;")]),
    ("ow: allocate keeps bigger block", "P16", "fire", [(I, "  if (size_bytes == size_bytes_ && owned_) {\n    return;", "  if (size_bytes <= size_bytes_ && owned_) {\n    size_bytes_ = size_bytes;\n    return;")]),
    ("ow: assign aliases an owner", "P16", "fire", [(I, "  if (owned_ || lhs.owned_) {", "  if (owned_) {")]),
    ("ow: assign drops own block", "P16", "fire", [(I, "  if (owned_ || lhs.owned_) {", "  if (lhs.owned_) {")]),
    ("ow: assign short copy", "P16", "fire", [(I, "    Allocate(lhs.size_bytes_);\n    CHECK_EQ(lhs.size_bytes_, size_bytes_);\n    memcpy(data_, lhs.data_, size_bytes_);\n  } else {\n    owned_ = lhs.owned_;\n    size_bytes_ = lhs.size_bytes_;\n    data_ = lhs.data_;\n  }\n  return *this;", "    const size_t bytes = std::min(size_bytes_, lhs.size_bytes_);\n    Allocate(lhs.size_bytes_);\n    memcpy(data_, lhs.data_, bytes);\n  } else {\n    owned_ = lhs.owned_;\n    size_bytes_ = lhs.size_bytes_;\n    data_ = lhs.data_;\n  }\n  return *this;")]),
    ("ow: copy ctor shares", "P16", "fire", [(I, "    : Base(nullptr, 0), owned_(false) {\n  if (lhs.owned_) {\n    Allocate(lhs.size_bytes_);\n    CHECK_EQ(lhs.size_bytes_, size_bytes_);\n    memcpy(data_, lhs.data_, size_bytes_);\n  } else {", "    : Base(nullptr, 0), owned_(false) {\n  {")]),
    ("ow: copy ctor views the owner", "P16", "fire", [(I, "    : Base(nullptr, 0), owned_(false) {\n  if (lhs.owned_) {\n    Allocate(lhs.size_bytes_);\n    CHECK_EQ(lhs.size_bytes_, size_bytes_);\n    memcpy(data_, lhs.data_, size_bytes_);\n  } else {\n    owned_ = lhs.owned_;", "    : Base(nullptr, 0), owned_(false) {\n  {")]),
    ("ow: copy of a view forgets size", "P16", "fire", [(I, "    owned_ = lhs.owned_;\n    size_bytes_ = lhs.size_bytes_;\n    data_ = lhs.data_;\n  }\n}", "    owned_ = lhs.owned_;\n    data_ = lhs.data_;\n  }\n}")]),
    ("ow: sized ctor not owner", "P16", "fire", [(I, ": Base(new unsigned char[size], size), owned_(true) {}", ": Base(new unsigned char[size], size), owned_(false) {}")]),
    ("ow: adapter copyable", "P16", "fire", [(S, "  OneDimensionAdapter(const OneDimensionAdapter&) = delete;\n", "")]),
    ("ow: adapter frees given matrix", "P16", "fire", [(S, "matrix(CHECK_NOTNULL(_matrix)), allocated_self(false)", "matrix(CHECK_NOTNULL(_matrix)), allocated_self(true)")]),
    ("ow: adapter never frees", "P16", "fire", [(S, "    if (allocated_self) {\n      delete matrix;\n    }\n", "    if (!allocated_self) {\n      return;\n    }\n")]),
    ("ow: adapter frees array", "P16", "fire", [(S, "      delete matrix;", "      delete[] matrix;")]),
    ("ow: buffer freed, kept", "P16", "fire", [(SE, "    delete[] *buffer;\n    *buffer = nullptr;\n    return false;\n  }\n  size_t offset", "    delete[] *buffer;\n    return false;\n  }\n  size_t offset")]),
    ("ow: histogram leaks", "P16", "fire", [(KZ, "  delete [] hist;", "  if (nbins > 1) delete [] hist;")]),
    ("ow: move ctor leaves pointer", "P16", "fire", [
        (H, "  inline void Release();", "  inline FeatureDescriptorRefBase(FeatureDescriptorRefBase<unsigned char, WriteAccessors>&& lhs) : Base(lhs.data_, lhs.size_bytes_), owned_(lhs.owned_) {}\n  inline void Release();")]),
    ("ow: move ctor right", "P16", "quiet", [
        (H, "  inline void Release();", "  inline FeatureDescriptorRefBase(FeatureDescriptorRefBase<unsigned char, WriteAccessors>&& lhs) : Base(lhs.data_, lhs.size_bytes_), owned_(lhs.owned_) {\n    lhs.owned_ = false;\n    lhs.data_ = nullptr;\n    lhs.size_bytes_ = 0u;\n  }\n  inline void Release();")]),
    ("ow: release reordered", "P16", "quiet", [(I, "    delete[] data_;\n    data_ = nullptr;\n    size_bytes_ = 0u;\n    owned_ = false;\n", "    unsigned char* const old_data = data_;\n    owned_ = false;\n    data_ = nullptr;\n    size_bytes_ = 0u;\n    delete[] old_data;\n")]),
    ("ow: release early return", "P16", "quiet", [(I, "  if (owned_) {\n    delete[] data_;\n    data_ = nullptr;\n    size_bytes_ = 0u;\n    owned_ = false;\n  }", "  if (!owned_) {\n    return;\n  }\n  delete[] data_;\n  data_ = nullptr;\n  size_bytes_ = 0u;\n  owned_ = false;")]),
    ("ow: assign with copy helper", "P16", "quiet", [(I, "inline FeatureDescriptorRefBase<unsigned char, WriteAccessors>&\nFeatureDescriptorRefBase<unsigned char, WriteAccessors>::\noperator=(const", "inline void copyBytes(const unsigned char* from, size_t num, unsigned char* to) {\n  std::copy(from, from + num, to);\n}\n\ninline FeatureDescriptorRefBase<unsigned char, WriteAccessors>&\nFeatureDescriptorRefBase<unsigned char, WriteAccessors>::\noperator=(const"),
        (I, "    memcpy(data_, lhs.data_, size_bytes_);\n  } else {\n    owned_ = lhs.owned_;\n    size_bytes_ = lhs.size_bytes_;\n    data_ = lhs.data_;\n  }\n  return", "    copyBytes(lhs.data_, lhs.size_bytes_, data_);\n  } else {\n    owned_ = lhs.owned_;\n    size_bytes_ = lhs.size_bytes_;\n    data_ = lhs.data_;\n  }\n  return")]),
    ("ow: assign without self test", "P16", "quiet", [(I, "operator=(const FeatureDescriptorRefBase<unsigned char, WriteAccessors>& lhs) {\n  if (this == &lhs) {\n    return *this;\n  }", "operator=(const FeatureDescriptorRefBase<unsigned char, WriteAccessors>& lhs) {")]),
    ("ow: assign branches swapped", "P16", "quiet", [(I, "  if (owned_ || lhs.owned_) {\n    Allocate(lhs.size_bytes_);\n    CHECK_EQ(lhs.size_bytes_, size_bytes_);\n    memcpy(data_, lhs.data_, size_bytes_);\n  } else {\n    owned_ = lhs.owned_;\n    size_bytes_ = lhs.size_bytes_;\n    data_ = lhs.data_;\n  }\n  return *this;", "  const bool is_view = !owned_ && !lhs.owned_;\n  if (is_view) {\n    size_bytes_ = lhs.size_bytes_;\n    data_ = lhs.data_;\n    return *this;\n  }\n  Allocate(lhs.size_bytes_);\n  memcpy(data_, lhs.data_, lhs.size_bytes_);\n  return *this;")]),
    ("ow: set_data via helper", "P16", "quiet", [(I, "  if (owned_ && data_ != data) {\n    delete[] data_;\n  }\n", "  const bool replaced = data != data_;\n  if (replaced) {\n    if (owned_) {\n      delete[] data_;\n    }\n  }\n")]),
    ("ow: copy ctor via assignment", "P16", "quiet", [(I, "    : Base(nullptr, 0), owned_(false) {\n  if (lhs.owned_) {\n    Allocate(lhs.size_bytes_);\n    CHECK_EQ(lhs.size_bytes_, size_bytes_);\n    memcpy(data_, lhs.data_, size_bytes_);\n  } else {\n    owned_ = lhs.owned_;\n    size_bytes_ = lhs.size_bytes_;\n    data_ = lhs.data_;\n  }\n", "    : Base(nullptr, 0), owned_(false) {\n  *this = lhs;\n")]),
    ("ow: adapter ternary", "P16", "quiet", [(S, "    if (allocated_self) {\n      delete matrix;\n    }\n", "    delete (allocated_self ? matrix : nullptr);\n")]),
    ("ow: local unique", "P16", "quiet", [(KZ, "  delete [] hist;", "  float* const bins = hist;\n  delete [] bins;")]),
]
