from seeds_repo import HEAD2
from cases_values import H, UI, LT, SER
HEAD3 = HEAD2 + "#include <aslam/common/hash-id.h>\n#include <aslam/common/unique-id.h>\n#include <set>\n#include <string>\n#include <vector>\n#include <algorithm>\n"
SEEDS = [
    dict(id="id-less-than-half-ordered", property="P11", edits=[
        (H, LT, "    return val_.u64[0] < other.val_.u64[0] ||\n        (val_.u64[1] < other.val_.u64[1] && val_.u64[0] != other.val_.u64[1]);\n")],
        demo=HEAD3 + r'''
static aslam::HashId make(uint64_t a, uint64_t b) {
  const uint64_t w[2] = {a, b};
  return aslam::HashId(w);
}
int main() {
  std::vector<aslam::HashId> ids;
  for (uint64_t a = 1; a < 5; ++a) for (uint64_t b = 1; b < 5; ++b) ids.push_back(make(a, b));
  for (const auto& x : ids) for (const auto& y : ids) {
    REQUIRE(!(x < y && y < x));
    REQUIRE((x == y) == (!(x < y) && !(y < x)));
    REQUIRE((x < y) == (y > x));
  }
  return 0;
}
''', needs="two identifiers whose words are ordered the opposite way", breaks="each is less than the other: ordered containers lose identifiers"),
    dict(id="id-valid-by-one-word", property="P11", edits=[
        (H, "    return val_.u64[0] != 0 || val_.u64[1] != 0;\n", "    // The second word counts the generated identifiers.\n    return val_.u64[1] != 0;\n")],
        demo=HEAD3 + r'''
int main() {
  const uint64_t w[2] = {77u, 0u};
  aslam::HashId id(w);
  REQUIRE(id.isValid());
  REQUIRE(id != aslam::HashId());
  id.setInvalid();
  REQUIRE(!id.isValid() && id == aslam::HashId());
  return 0;
}
''', needs="an identifier whose second word is zero", breaks="a valid identifier is reported as invalid"),
    dict(id="id-serialize-appends", property="P11", edits=[
        (UI, "    CHECK_NOTNULL(id_field)->clear_uint();\n", "    CHECK_NOTNULL(id_field);\n"),
        (UI, SER, "    while (uint_field->size() < 2) {\n      uint_field->Add();\n    }\n    toUint64(uint_field->mutable_data());\n")],
        demo=HEAD3 + r'''
int main() {
  aslam::FrameId a, b;
  aslam::generateId(&a);
  aslam::proto::Id m;
  a.serialize(&m);
  REQUIRE(m.uint_size() == 2);
  b.deserialize(m);
  REQUIRE(a == b);
  aslam::proto::Id used;
  used.add_uint(1u); used.add_uint(2u); used.add_uint(3u);
  a.serialize(&used);
  REQUIRE(used.uint_size() == 2);
  b.deserialize(used);
  REQUIRE(a == b);
  return 0;
}
''', needs="a message object that is used again and holds other numbers", breaks="the old numbers stay in the message: it cannot be read back"),
    dict(id="id-unique-compare-hash", property="P11", edits=[
        (UI, "  inline bool operator==(const Id& other) const {\n    return aslam::HashId::operator==(other);\n",
         "  inline bool operator==(const Id& other) const {\n    return hashToSizeTFast() == other.hashToSizeTFast();\n")],
        demo=HEAD3 + r'''
int main() {
  const uint64_t w[2] = {3u, 5u}, x[2] = {5u, 3u};
  aslam::FrameId f;
  f.fromHashId(aslam::HashId(w));
  aslam::Id i;
  i.fromHashId(aslam::HashId(x));
  REQUIRE(!(f == i));
  REQUIRE(f != i);
  i.fromHashId(aslam::HashId(w));
  REQUIRE(f == i);
  return 0;
}
''', needs="two identifiers with the same hash", breaks="different identifiers compare equal"),
]
