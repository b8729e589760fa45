H = "aslam_cv_common/include/aslam/common/hash-id.h"
UI = "aslam_cv_common/include/aslam/common/unique-id.h"
U = "aslam_cv_common/src/internal/unique-id.cc"
OG = "aslam_cv_common/include/aslam/common/occupancy-grid.h"
GY = "aslam_cv_matcher/src/gyro-two-frame-matcher.cc"
TR = "aslam_cv_tracker/src/feature-tracker-gyro.cc"
LS = "aslam_cv_detector/src/lsd/lsd-opencv.cc"
EQ = "    return val_.u64[0] == other.val_.u64[0] && val_.u64[1] == other.val_.u64[1];\n"
LT = """    if (val_.u64[0] == other.val_.u64[0]){
      return val_.u64[1] < other.val_.u64[1];
    }
    return val_.u64[0] < other.val_.u64[0];
"""
GT = LT.replace(" < ", " > ")
CPY = "    memcpy(&val_, &other.val_, sizeof(val_));\n"
FROM = """    memcpy(reinterpret_cast<void*>(&val_.u64),
           reinterpret_cast<const void*>(source), sizeof(val_.u64));
"""
TO = """    memcpy(reinterpret_cast<void*>(destination),
           reinterpret_cast<const void*>(&val_.u64), sizeof(val_.u64));
"""
SER = """    uint_field->Add();
    uint_field->Add();
    toUint64(uint_field->mutable_data());
"""
HEXB = """      buffer[2 * i + 1] = kHexConversion[val_.c[i] & 0xf];
      buffer[2 * i] = kHexConversion[val_.c[i] >> 4];
"""
STO = """      val_.c[i] = static_cast<unsigned char>(
          stoul(std::string(hexString, 2*i, 2), 0, 16));
"""
AB = """    if (a.p.x == b.p.x) return a.p.y < b.p.y;
    else return a.p.x < b.p.x;
"""
CASES = [
    ("va: eq first word", "P11", "fire", [(H, EQ, "    return val_.u64[0] == other.val_.u64[0];\n")]),
    ("va: eq or", "P11", "fire", [(H, EQ, EQ.replace("&&", "||"))]),
    ("va: eq same word twice", "P11", "fire", [(H, EQ, EQ.replace("val_.u64[1] == other", "val_.u64[0] == other"))]),
    ("va: eq 15 bytes", "P11", "quiet", [(H, EQ, "    return memcmp(&val_, &other.val_, sizeof(val_)) == 0;\n")]),
    ("va: eq memcmp 8", "P11", "fire", [(H, EQ, "    return memcmp(&val_, &other.val_, sizeof(val_.u64[0])) == 0;\n")]),
    ("va: eq xor", "P11", "quiet", [(H, EQ, "    return ((val_.u64[0] ^ other.val_.u64[0]) | (val_.u64[1] ^ other.val_.u64[1])) == 0;\n")]),
    ("va: eq loop", "P11", "quiet", [(H, EQ, "    for (size_t i = 0u; i < 2u; ++i) {\n      if (val_.u64[i] != other.val_.u64[i]) {\n        return false;\n      }\n    }\n    return true;\n")]),
    ("va: eq loop off by one", "P11", "fire", [(H, EQ, "    for (size_t i = 1u; i < 2u; ++i) {\n      if (val_.u64[i] != other.val_.u64[i]) {\n        return false;\n      }\n    }\n    return true;\n")]),
    ("va: ne as and", "P11", "fire", [(H, "    return !(*this == other);\n", "    return val_.u64[0] != other.val_.u64[0] && val_.u64[1] != other.val_.u64[1];\n")]),
    ("va: ne as or", "P11", "quiet", [(H, "    return !(*this == other);\n", "    return val_.u64[0] != other.val_.u64[0] || val_.u64[1] != other.val_.u64[1];\n")]),
    ("va: lt componentwise", "P11", "fire", [(H, LT, "    return val_.u64[0] < other.val_.u64[0] && val_.u64[1] < other.val_.u64[1];\n")]),
    ("va: lt or", "P11", "fire", [(H, LT, "    return val_.u64[0] < other.val_.u64[0] || val_.u64[1] < other.val_.u64[1];\n")]),
    ("va: lt or eq", "P11", "fire", [(H, LT, LT.replace("u64[1] < other", "u64[1] <= other"))]),
    ("va: lt nested", "P11", "quiet", [(H, LT, "    return val_.u64[0] < other.val_.u64[0] ||\n        (val_.u64[0] == other.val_.u64[0] && val_.u64[1] < other.val_.u64[1]);\n")]),
    ("va: lt tie", "P11", "quiet", [(H, LT, "    return std::tie(val_.u64[0], val_.u64[1]) < std::tie(other.val_.u64[0], other.val_.u64[1]);\n"), (H, "#include <random>\n", "#include <random>\n#include <tuple>\n")]),
    ("va: lt pair wrong", "P11", "fire", [(H, LT, "    return std::tie(val_.u64[0], val_.u64[1]) < std::tie(other.val_.u64[0], val_.u64[1]);\n"), (H, "#include <random>\n", "#include <random>\n#include <tuple>\n")]),
    ("va: lt second word first", "P11", "fire", [(H, LT, LT.replace("[0]", "[x]").replace("[1]", "[0]").replace("[x]", "[1]"))]),
    ("va: lt and gt second word first", "P11", "quiet", [(H, LT, LT.replace("[0]", "[x]").replace("[1]", "[0]").replace("[x]", "[1]")), (H, GT, "    return other < *this;\n")]),
    ("va: gt via lt", "P11", "quiet", [(H, GT, "    return other < *this;\n")]),
    ("va: gt not lt", "P11", "fire", [(H, GT, "    return !(*this < other);\n")]),
    ("va: unique lt reversed", "P11", "fire", [(UI, "  inline bool operator<(const Id& other) const {\n    return aslam::HashId::operator<(other);\n", "  inline bool operator<(const Id& other) const {\n    return aslam::HashId::operator>(other);\n")]),
    ("va: unique eq by hash", "P11", "fire", [(UI, "  inline bool operator==(const IdType& other) const {\n    return aslam::HashId::operator==(other);\n", "  inline bool operator==(const IdType& other) const {\n    return hashToSizeT() == other.hashToSizeT();\n")]),
    ("va: unique ne invalid", "P11", "fire", [(UI, "  inline bool operator!=(const IdType& other) const {\n    return aslam::HashId::operator!=(other);\n", "  inline bool operator!=(const IdType& other) const {\n    return !isValid() || aslam::HashId::operator!=(other);\n")]),
    ("va: unique ne via eq", "P11", "quiet", [(UI, "  inline bool operator!=(const IdType& other) const {\n    return aslam::HashId::operator!=(other);\n", "  inline bool operator!=(const IdType& other) const {\n    return !(*this == other);\n")]),
    ("va: copy one word", "P11", "fire", [(H, CPY, "    val_.u64[0] = other.val_.u64[0];\n")]),
    ("va: copy sizeof pointer", "P11", "fire", [(H, CPY, "    memcpy(&val_, &other.val_, sizeof(&val_));\n")]),
    ("va: copy wordwise", "P11", "quiet", [(H, CPY, "    val_.u64[0] = other.val_.u64[0];\n    val_.u64[1] = other.val_.u64[1];\n")]),
    ("va: copy union", "P11", "quiet", [(H, CPY, "    val_ = other.val_;\n")]),
    ("va: copy guarded self", "P11", "quiet", [(H, CPY, "    if (this != &other) {\n" + CPY + "    }\n")]),
    ("va: copy only valid", "P11", "fire", [(H, CPY, "    if (other.isValid()) {\n" + CPY + "    }\n")]),
    ("va: from swaps", "P11", "quiet", [(H, FROM, "    val_.u64[1] = source[0];\n    val_.u64[0] = source[1];\n"), (H, TO, "    destination[0] = val_.u64[1];\n    destination[1] = val_.u64[0];\n")]),
    ("va: from swaps only", "P11", "fire", [(H, FROM, "    val_.u64[1] = source[0];\n    val_.u64[0] = source[1];\n")]),
    ("va: to swaps only", "P11", "fire", [(H, TO, "    destination[0] = val_.u64[1];\n    destination[1] = val_.u64[0];\n")]),
    ("va: to half", "P11", "fire", [(H, TO, "    memcpy(destination, &val_.u64, sizeof(val_.u64[0]));\n")]),
    ("va: from copy loop", "P11", "quiet", [(H, FROM, "    for (size_t i = 0u; i < 2u; ++i) {\n      val_.u64[i] = source[i];\n    }\n")]),
    ("va: from std copy", "P11", "quiet", [(H, FROM, "    std::copy(source, source + 2, val_.u64);\n"), (H, "#include <chrono>\n", "#include <algorithm>\n#include <chrono>\n")]),
    ("va: invalid half", "P11", "fire", [(H, "    memset(&val_, 0, sizeof(val_));\n", "    memset(&val_, 0, sizeof(val_.u64[0]));\n")]),
    ("va: invalid words", "P11", "quiet", [(H, "    memset(&val_, 0, sizeof(val_));\n", "    val_.u64[0] = 0u;\n    val_.u64[1] = 0u;\n")]),
    ("va: valid and", "P11", "fire", [(H, "    return val_.u64[0] != 0 || val_.u64[1] != 0;\n", "    return val_.u64[0] != 0 && val_.u64[1] != 0;\n")]),
    ("va: valid one word", "P11", "fire", [(H, "    return val_.u64[0] != 0 || val_.u64[1] != 0;\n", "    return val_.u64[1] != 0;\n")]),
    ("va: valid or bits", "P11", "quiet", [(H, "    return val_.u64[0] != 0 || val_.u64[1] != 0;\n", "    return (val_.u64[0] | val_.u64[1]) != 0;\n")]),
    ("va: valid compare", "P11", "quiet", [(H, "    return val_.u64[0] != 0 || val_.u64[1] != 0;\n", "    return *this != HashId();\n")]),
    ("va: serialize no clear", "P11", "fire", [(UI, "    CHECK_NOTNULL(id_field)->clear_uint();\n", "    CHECK_NOTNULL(id_field);\n")]),
    ("va: serialize one", "P11", "fire", [(UI, SER, SER.replace("    uint_field->Add();\n", "", 1))]),
    ("va: serialize add words", "P11", "quiet", [(UI, SER, "    uint64_t words[2];\n    toUint64(words);\n    uint_field->Add(words[0]);\n    uint_field->Add(words[1]);\n")]),
    ("va: serialize add words swapped", "P11", "fire", [(UI, SER, "    uint64_t words[2];\n    toUint64(words);\n    uint_field->Add(words[1]);\n    uint_field->Add(words[0]);\n")]),
    ("va: serialize trim and fill", "P11", "quiet", [(UI, "    CHECK_NOTNULL(id_field)->clear_uint();\n", "    CHECK_NOTNULL(id_field);\n"), (UI, SER, "    while (uint_field->size() > 2) {\n      uint_field->RemoveLast();\n    }\n    while (uint_field->size() < 2) {\n      uint_field->Add();\n    }\n    toUint64(uint_field->mutable_data());\n")]),
    ("va: serialize fill only", "P11", "fire", [(UI, "    CHECK_NOTNULL(id_field)->clear_uint();\n", "    CHECK_NOTNULL(id_field);\n"), (UI, SER, "    while (uint_field->size() < 2) {\n      uint_field->Add();\n    }\n    toUint64(uint_field->mutable_data());\n")]),
    ("va: serialize resize", "P11", "quiet", [(UI, SER, "    uint_field->Resize(2, 0u);\n    toUint64(uint_field->mutable_data());\n")]),
    ("va: deserialize unchecked", "P11", "fire", [(UI, "    CHECK_EQ(id_field.uint_size(), 2);\n", "")]),
    ("va: deserialize at least", "P11", "fire", [(UI, "    CHECK_EQ(id_field.uint_size(), 2);\n", "    CHECK_LE(id_field.uint_size(), 2);\n")]),
    ("va: deserialize swapped", "P11", "fire", [(UI, "    fromUint64(id_field.uint().data());\n", "    const uint64_t words[2] = {id_field.uint(1), id_field.uint(0)};\n    fromUint64(words);\n")]),
    ("va: deserialize elements", "P11", "quiet", [(UI, "    fromUint64(id_field.uint().data());\n", "    const uint64_t words[2] = {id_field.uint(0), id_field.uint(1)};\n    fromUint64(words);\n")]),
    ("va: hash address", "P11", "fire", [(H, "    hash ^= val_.u64[0];\n    hash *= HashPrimeAndBase::kPrime;\n", "    hash ^= reinterpret_cast<size_t>(this);\n    hash ^= val_.u64[0];\n    hash *= HashPrimeAndBase::kPrime;\n")]),
    ("va: hash uninitialised", "P11", "fire", [(H, "  inline size_t hashToSizeTFast() const {\n    size_t hash = HashPrimeAndBase::kOffsetBasis;\n", "  inline size_t hashToSizeTFast() const {\n    size_t hash;\n")]),
    ("va: hash salted", "P11", "fire", [(H, "  inline size_t hashToSizeTFast() const {\n    size_t hash = HashPrimeAndBase::kOffsetBasis;\n", "  inline size_t hashToSizeTFast() const {\n    static size_t calls = 0u;\n    size_t hash = HashPrimeAndBase::kOffsetBasis + calls++;\n")]),
    ("va: hash loop", "P11", "quiet", [(H, "    hash ^= val_.u64[0];\n    hash *= HashPrimeAndBase::kPrime;\n    hash ^= val_.u64[1];\n    hash *= HashPrimeAndBase::kPrime;\n", "    for (size_t i = 0u; i < 2u; ++i) {\n      hash ^= val_.u64[i];\n      hash *= HashPrimeAndBase::kPrime;\n    }\n")]),
    ("va: eigen hash address", "P11", "fire", [("aslam_cv_common/include/aslam/common/eigen-hash.h", "    size_t seed = 0;\n", "    size_t seed = reinterpret_cast<size_t>(matrix.data());\n")]),
    ("va: hex nibbles swapped", "P11", "fire", [(H, HEXB, "      buffer[2 * i] = kHexConversion[val_.c[i] & 0xf];\n      buffer[2 * i + 1] = kHexConversion[val_.c[i] >> 4];\n")]),
    ("va: hex reversed", "P11", "fire", [(H, "kHexConversion[val_.c[i] >> 4]", "kHexConversion[val_.c[sizeof(val_) - 1 - i] >> 4]")]),
    ("va: hex short loop", "P11", "fire", [(H, "    for (size_t i = 0; i < sizeof(val_); ++i){\n      buffer", "    for (size_t i = 0; i < sizeof(val_) - 1; ++i){\n      buffer")]),
    ("va: hex div mod", "P11", "quiet", [(H, HEXB, "      const unsigned char byte = val_.c[i];\n      buffer[2 * i] = kHexConversion[byte / 16];\n      buffer[2 * i + 1] = kHexConversion[byte % 16];\n")]),
    ("va: hex countdown", "P11", "quiet", [(H, "    for (size_t i = 0; i < sizeof(val_); ++i){\n      buffer", "    for (size_t i = sizeof(val_); i-- > 0;){\n      buffer")]),
    ("va: hex digits wrong", "P11", "fire", [("aslam_cv_common/src/hash-id.cc", "0123456789abcdef", "0123456789abcedf")]),
    ("va: fromhex longer", "P11", "fire", [(H, "    if (hexString.size() != 2*sizeof(val_)){\n", "    if (hexString.size() < 2*sizeof(val_)){\n")]),
    ("va: fromhex decimal", "P11", "fire", [(H, STO, STO.replace("0, 16", "0, 10"))]),
    ("va: fromhex one digit", "P11", "fire", [(H, STO, STO.replace("2*i, 2)", "2*i, 1)"))]),
    ("va: fromhex substr", "P11", "quiet", [(H, STO, "      const std::string digits = hexString.substr(2 * i, 2);\n      val_.c[i] = static_cast<unsigned char>(std::stoul(digits, 0, 16));\n")]),
    ("va: fromhex resets", "P11", "fire", [(H, "    if (hexString.size() != 2*sizeof(val_)){\n      return false;\n", "    if (hexString.size() != 2*sizeof(val_)){\n      setInvalid();\n      return false;\n")]),
    ("va: id no counter", "P11", "fire", [(U, "++counter", "counter")]),
    ("va: id time in counter", "P11", "fire", [(U, "std::hash<uint64_t>()(++counter)", "std::hash<uint64_t>()(++counter) ^ std::chrono::high_resolution_clock::now().time_since_epoch().count()")]),
    ("va: id counter truncated", "P11", "fire", [(U, "std::hash<uint64_t>()(++counter)", "std::hash<uint64_t>()(++counter & 0xffff)")]),
    ("va: id counter halved", "P11", "fire", [(U, "std::hash<uint64_t>()(++counter)", "std::hash<uint64_t>()(++counter / 2)")]),
    ("va: id fetch_add", "P11", "quiet", [(U, "std::hash<uint64_t>()(++counter)", "std::hash<uint64_t>()(counter.fetch_add(1u) + 1u)")]),
    ("va: id words swapped", "P11", "quiet", [(U, "  hash[0] =\n", "  hash[1] =\n"), (U, "  hash[1] = std::hash<uint64_t>()(++counter);\n", "  hash[0] = std::hash<uint64_t>()(++counter);\n")]),
    ("va: id local result", "P11", "quiet", [(U, "  hash[1] = std::hash<uint64_t>()(++counter);\n", "  const uint64_t count = ++counter;\n  hash[1] = std::hash<uint64_t>()(count);\n")]),
    ("va: generate drops word", "P11", "fire", [(UI, "  internal::generateUnique128BitHash(hash);\n", "  internal::generateUnique128BitHash(hash);\n  hash[1] = 0u;\n")]),
    ("va: weight le", "P11", "fire", [(OG, "    return weight > other.weight;\n", "    return weight >= other.weight;\n")]),
    ("va: weight ties by row or", "P11", "fire", [(OG, "    return weight > other.weight;\n", "    return weight > other.weight || u_rows > other.u_rows;\n")]),
    ("va: weight ties by row", "P11", "quiet", [(OG, "    return weight > other.weight;\n", "    return weight != other.weight ? weight > other.weight : u_rows > other.u_rows;\n")]),
    ("va: sort lambda le", "P11", "fire", [(GY, "return lhs.measurement(1) < rhs.measurement(1);", "return lhs.measurement(1) <= rhs.measurement(1);")]),
    ("va: sort lambda self", "P11", "fire", [(GY, "return lhs.measurement(1) < rhs.measurement(1);", "return lhs.measurement(1) < rhs.measurement(0);")]),
    ("va: sort lambda two", "P11", "quiet", [(GY, "return lhs.measurement(1) < rhs.measurement(1);", "if (lhs.measurement(1) == rhs.measurement(1)) {\n                return lhs.measurement(0) < rhs.measurement(0);\n              }\n              return lhs.measurement(1) < rhs.measurement(1);")]),
    ("va: track sort ge", "P11", "fire", [(TR, "return lhs.second > rhs.second;", "return lhs.second >= rhs.second;")]),
    ("va: edge compare", "P11", "fire", [(LS, AB, "    return a.p.x < b.p.x || a.p.y < b.p.y;\n")]),
    ("va: edge compare le", "P11", "fire", [(LS, AB, AB.replace("a.p.y < b.p.y", "a.p.y <= b.p.y"))]),
    ("va: edge compare nested", "P11", "quiet", [(LS, AB, "    return a.p.x < b.p.x || (a.p.x == b.p.x && a.p.y < b.p.y);\n")]),
]
