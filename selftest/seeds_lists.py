H = "aslam_cv_common/include/aslam/common/stl-helpers.h"
I = "aslam_cv_common/include/aslam/common/stl-helpers-inl.h"
HEAD = r'''#include <cstdio>
#include <cstdlib>
#include <functional>
#include <set>
#include <vector>
#include <aslam/common/stl-helpers.h>
#define REQUIRE(x) do { if (!(x)) { std::printf("failed: %s\n", #x); std::exit(1); } } while (0)
using namespace aslam::common;
'''
SEEDS = [
    dict(id="li-adjacent-listed", property="P14", edits=[
        (I, "    container_block_start = ordered_indices_to_erase[i] + 1;\n",
            "    if (block_size > 0 || i == 0u) {\n      container_block_start = ordered_indices_to_erase[i] + 1;\n    }\n")],
        demo=HEAD + r'''
int main() {
  Eigen::Matrix2Xd m(2, 6);
  for (int i = 0; i < 6; ++i) m.col(i) << i, 10 * i;
  stl_helpers::eraseIndicesFromContainer(std::vector<size_t>{1u, 2u}, 6u, &m);
  REQUIRE(m.cols() == 4);
  const double want[] = {0., 3., 4., 5.};
  for (int i = 0; i < 4; ++i) REQUIRE(m(0, i) == want[i]);
  return 0;
}
''', needs="two adjacent columns are erased from a matrix", breaks="a listed column is kept and the blocks no longer fit"),
    dict(id="li-action-order", property="P14", edits=[
        (H, "  // Sort up to N greatest elements.\n  std::partial_sort(container->begin(), container->begin() + max_elements_to_keep,\n",
            "  // Sort up to N greatest elements.\n  std::partial_sort(container->begin(), container->begin() + max_elements_to_keep - num_elements % 2u,\n")],
        demo=HEAD + r'''
int main() {
  std::vector<int> v{5, 1, 4, 2, 3};
  std::multiset<int> removed;
  auto action = [&removed](const int& x) { removed.insert(x); };
  REQUIRE(keepOnlyNSortedElements(2u, std::greater<int>(), &v, action) == 2u);
  REQUIRE((std::multiset<int>(v.begin(), v.end()) == std::multiset<int>{4, 5}));
  std::vector<int> w{1, 2, 3, 4, 9, 8, 7};
  removed.clear();
  REQUIRE(keepOnlyNSortedElements(3u, std::greater<int>(), &w, action) == 3u);
  REQUIRE((std::multiset<int>(w.begin(), w.end()) == std::multiset<int>{7, 8, 9}));
  REQUIRE((removed == std::multiset<int>{1, 2, 3, 4}));
  std::vector<int> x{6, 6, 6, 1, 9, 2, 8, 3, 7};
  keepOnlyNSortedElements(4u, std::greater<int>(), &x, action);
  REQUIRE((std::multiset<int>(x.begin(), x.end()) == std::multiset<int>{6, 7, 8, 9}));
  return 0;
}
''', needs="an odd number of elements of which the last kept one is not in place by chance",
        breaks="one of the kept elements is not among the first N"),
    dict(id="li-draw-last0", property="P14", edits=[
        (H, "  std::uniform_int_distribution<size_t> distribution(0u, num_input_elements - 1u);\n",
            "  std::uniform_int_distribution<size_t> distribution(0u, std::max(n, num_input_elements - 2u));\n")],
        demo=HEAD + r'''
int main() {
  std::vector<int> in, out;
  for (int i = 0; i < 6; ++i) in.push_back(i);
  std::set<int> seen;
  for (int k = 0; k < 500; ++k) {
    drawNRandomElements(3u, in, &out, false);
    REQUIRE(out.size() == 3u);
    seen.insert(out.begin(), out.end());
  }
  REQUIRE(seen.size() == 6u);
  return 0;
}
''', needs="many draws of which one should contain the last element", breaks="the last element of the input is never drawn"),
    dict(id="li-zero-kept-no-action", property="P14", edits=[
        (H, "    for (const ElementType& element : *container) {\n      action_on_removed_elements(element);\n    }\n    container->clear();\n    return 0u;\n",
            "    std::vector<ElementType, Allocator> removed_elements;\n    container->swap(removed_elements);\n"
            "    for (const ElementType& element : *container) {\n      action_on_removed_elements(element);\n    }\n    return 0u;\n")],
        demo=HEAD + r'''
int main() {
  std::vector<int> v{5, 1, 4};
  int n = 0;
  auto action = [&n](const int&) { ++n; };
  REQUIRE(keepOnlyNSortedElements(0u, std::greater<int>(), &v, action) == 0u);
  REQUIRE(v.empty());
  REQUIRE(n == 3);
  return 0;
}
''', needs="a call that keeps nothing, with an action", breaks="the action is not run on the removed elements"),
    dict(id="li-median-stale", property="P14", edits=[
        (H, "  double target_high_value = *target_high;\n  RandAccessIter target_low = target_high - 1;\n  std::nth_element(begin, target_low, end);\n  return (target_high_value + *target_low) / 2.0;\n",
            "  RandAccessIter target_low = target_high - 1;\n  std::nth_element(begin, target_low, target_high - 1);\n  return (*target_high + *target_low) / 2.0;\n")],
        demo=HEAD + r'''
int main() {
  std::vector<double> v{4., 3., 2., 1.};
  REQUIRE(median(v.begin(), v.end()) == 2.5);
  std::vector<double> w{1., 9., 2., 8., 3., 7.};
  REQUIRE(median(w.begin(), w.end()) == 5.);
  std::vector<double> x{5., 30., 1., 2., 0., 29., 4., 3., 28., 27., 26., 25.};
  REQUIRE(median(x.begin(), x.end()) == 15.);
  std::srand(7);
  for (int k = 0; k < 200; ++k) {
    std::vector<double> y;
    for (int i = 0; i < 40; ++i) y.push_back(std::rand() % 1000);
    std::vector<double> z = y;
    std::sort(z.begin(), z.end());
    REQUIRE(median(y.begin(), y.end()) == (z[19] + z[20]) / 2.);
  }
  return 0;
}
''', needs="an even number of elements whose lower middle one is not in place after the first partial ordering",
        breaks="the median of an even number of elements is wrong"),
    dict(id="li-draw-seed", property="P14", edits=[
        (H, "  std::default_random_engine generator(seed);\n",
            "  static std::default_random_engine generator(seed);\n  if (!use_fixed_seed) {\n    generator.seed(seed);\n  }\n")],
        demo=HEAD + r'''
int main() {
  std::vector<int> in, a, b, c;
  for (int i = 0; i < 1000; ++i) in.push_back(i);
  drawNRandomElements(50u, in, &a, true);
  drawNRandomElements(50u, in, &b, true);
  drawNRandomElements(50u, in, &c, false);
  std::set<int> sa(a.begin(), a.end()), sb(b.begin(), b.end()), sc(c.begin(), c.end());
  REQUIRE(sa == sb);
  REQUIRE(sa != sc);
  return 0;
}
''', needs="two draws with a fixed seed in one process", breaks="the second draw with a fixed seed differs from the first"),
]
