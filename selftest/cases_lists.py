H = "aslam_cv_common/include/aslam/common/stl-helpers.h"
I = "aslam_cv_common/include/aslam/common/stl-helpers-inl.h"


def c(name, expect, *edits):
    return ("list: " + name, "P14", expect, [(H,) + e if len(e) == 2 else e for e in edits])


F, Q = "fire", "quiet"
BLOCK = """    if (it_block_begin != it_block_end) {
      std::copy(it_block_begin, it_block_end, std::back_inserter(reduced_vector));
    }
    it_block_begin = it_block_end + 1;
"""
LASTB = """  if (it_block_begin != data.end()) {
    std::copy(it_block_begin, data.end(), std::back_inserter(reduced_vector));
  }
"""
LOOPV = """  for (typename std::vector<size_t>::const_iterator it = mutable_indices_to_delete.begin();
      it != mutable_indices_to_delete.end(); ++it) {
    typename std::vector<ElementType, Allocator>::const_iterator it_block_end = data.begin() + *it;
"""
SORT = "  std::sort(mutable_indices_to_delete.begin(), mutable_indices_to_delete.end());\n"
LOOPC = """  for (size_t i = 0u; i < ordered_indices_to_erase.size(); ++i) {
    CHECK_GE(static_cast<int>(ordered_indices_to_erase[i]), container_block_start);
    const int block_size = ordered_indices_to_erase[i] - container_block_start;

    internal::copyMiddle(container_block_start, result_fill_index, block_size,
                         container, &result);

    result_fill_index += block_size;
    container_block_start = ordered_indices_to_erase[i] + 1;
  }
"""
DEL = """  std::vector<ElementType, Allocator> result =
      eraseIndicesFromVector(*container, ordered_indices_to_erase);
  container->swap(result);
"""
ACTION = """  typename std::vector<ElementType, Allocator>::const_iterator it =
      container->begin() + max_elements_to_keep;
  for(; it != container->end(); ++it) {
    action_on_removed_elements(*it);
  }
"""
CUT = "  container->erase(container->begin() + max_elements_to_keep, container->end());\n"
PSORT = """  std::partial_sort(container->begin(), container->begin() + max_elements_to_keep,
                    container->end(), sort_compare_functor);
"""
DRAWN = """  while (random_indices.size() < n) {
    random_indices.insert(distribution(generator));
  }
"""
COPY = """  for (const size_t idx : random_indices) {
    CHECK_LT(idx, num_input_elements);
    output->emplace_back(input[idx]);
  }
"""
MEAN = """  while (element_i != end) {
    mu += *element_i;
    ++element_i;
  }
"""
EVEN = """  double target_high_value = *target_high;
  RandAccessIter target_low = target_high - 1;
  std::nth_element(begin, target_low, end);
  return (target_high_value + *target_low) / 2.0;
"""
COLS = """  auto inserter = std::inserter(*output, output->end());
  for (size_t idx = 0; idx < num_cols; ++idx) {
    *inserter++ = input.col(idx);
  }
"""
CASES = [
    # erase: vector
    c("block begins at the listed element", F, (BLOCK, BLOCK.replace("it_block_end + 1", "it_block_end"))),
    c("unsorted list", F, (SORT, "")),
    c("sorted in descending order", F, (SORT, SORT.replace("end());", "end(), std::greater<size_t>());"))),
    c("last block only with more than one element", F, (LASTB, LASTB.replace("it_block_begin != data.end()", "data.end() - it_block_begin > 1"))),
    c("last block forgotten", F, (LASTB, "")),
    c("single elements between listed ones lost", F, (BLOCK, BLOCK.replace("it_block_begin != it_block_end", "it_block_end - it_block_begin > 1"))),
    c("unsorted original iterated", F, (LOOPV, LOOPV.replace("mutable_indices_to_delete", "indices_to_delete"))),
    c("repeated indices skip an element", F, ("    CHECK(it_block_begin <= it_block_end) << \"The indices to delete must be unique.\";\n", "")),
    c("data returned when a single index is listed", F, ("  if (indices_to_delete.empty()) {\n    return data;", "  if (indices_to_delete.size() <= 1u && data.size() <= 1u) {\n    return data;")),
    c("loop from the second listed element", F, (LOOPV, LOOPV.replace("it = mutable_indices_to_delete.begin();", "it = mutable_indices_to_delete.begin() + 1;"))),
    c("range for", Q, (LOOPV, """  for (const size_t index : mutable_indices_to_delete) {
    const typename std::vector<ElementType, Allocator>::const_iterator it_block_end = data.begin() + index;
""")),
    c("index loop", Q, (LOOPV, """  for (size_t k = 0u; k < mutable_indices_to_delete.size(); ++k) {
    const typename std::vector<ElementType, Allocator>::const_iterator it_block_end = data.begin() + mutable_indices_to_delete[k];
""")),
    c("insert instead of copy", Q, (BLOCK, BLOCK.replace("std::copy(it_block_begin, it_block_end, std::back_inserter(reduced_vector));",
                                                       "reduced_vector.insert(reduced_vector.end(), it_block_begin, it_block_end);")),
      (LASTB, "  reduced_vector.insert(reduced_vector.end(), it_block_begin, data.end());\n")),
    c("copies without tests", Q, (BLOCK, "    std::copy(it_block_begin, it_block_end, std::back_inserter(reduced_vector));\n    it_block_begin = it_block_end + 1;\n"),
      (LASTB, "  std::copy(it_block_begin, data.end(), std::back_inserter(reduced_vector));\n")),
    c("begin of the block as an index", Q, (LOOPV, LOOPV + "    CHECK_LE(it_block_begin - data.begin(), it_block_end - data.begin());\n")),
    c("step of the block in two", Q, (BLOCK, BLOCK.replace("it_block_begin = it_block_end + 1;", "it_block_begin = it_block_end;\n    ++it_block_begin;"))),
    c("helper for the copy", Q, (BLOCK, BLOCK.replace("std::copy(it_block_begin, it_block_end, std::back_inserter(reduced_vector));",
                                                    "appendBlock(it_block_begin, it_block_end, &reduced_vector);")),
      ("template<typename ElementType, typename Allocator>\ninline std::vector<ElementType, Allocator> eraseIndicesFromVector(",
       """template<typename Iterator, typename Container>
inline void appendBlock(const Iterator& first, const Iterator& end, Container* result) {
  std::copy(first, end, std::back_inserter(*result));
}

template<typename ElementType, typename Allocator>
inline std::vector<ElementType, Allocator> eraseIndicesFromVector(""")),
    c("element by element", Q, (LASTB, """  for (; it_block_begin != data.end(); ++it_block_begin) {
    reduced_vector.push_back(*it_block_begin);
  }
""")),
    # erase: matrix
    c("block starts at the listed index", F, (I, LOOPC, LOOPC.replace("ordered_indices_to_erase[i] + 1;", "ordered_indices_to_erase[i];"))),
    c("fill index not moved", F, (I, LOOPC, LOOPC.replace("    result_fill_index += block_size;\n", ""))),
    c("fill index moved too far", F, (I, LOOPC, LOOPC.replace("result_fill_index += block_size", "result_fill_index += block_size + 1"))),
    c("order unchecked", F, (I, LOOPC, LOOPC.replace("    CHECK_GE(static_cast<int>(ordered_indices_to_erase[i]), container_block_start);\n", ""))),
    c("source and destination swapped", F, (I, LOOPC, LOOPC.replace("container_block_start, result_fill_index, block_size", "result_fill_index, container_block_start, block_size"))),
    c("last listed element ignored", F, (I, LOOPC, LOOPC.replace("i < ordered_indices_to_erase.size()", "i + 1u < ordered_indices_to_erase.size()"))),
    c("last block one short", F, (I, "expected_initial_count - container_block_start;", "expected_initial_count - container_block_start - 1;")),
    c("result one larger", F, (I, "expected_initial_count - erase_count;", "expected_initial_count - erase_count + 1u;")),
    c("empty list read", F, (I, """  if (ordered_indices_to_erase.empty()) {
    return;
  }
  CHECK_LT(ordered_indices_to_erase.back(), expected_initial_count);
""", """  CHECK_LT(ordered_indices_to_erase.back(), expected_initial_count);
  if (ordered_indices_to_erase.empty()) {
    return;
  }
""")),
    c("not stored when nothing is left", F, (I, "  container->swap(result);\n}\n\ntemplate<typename El", "  if (remaining_count > 0u) {\n    container->swap(result);\n  }\n}\n\ntemplate<typename El")),
    c("expected count unchecked", F, (I, "  CHECK_EQ(internal::dynamicSize(*container), expected_initial_count);\n", "")),
    c("rows taken for columns", F, (I, """  destination->matrix->middleRows(destination_start, size) =
      source->matrix->middleRows(source_start, size);""", """  destination->matrix->middleRows(destination_start, size) =
      source->matrix->middleRows(destination_start, size);""")),
    c("adapter resized without the reference", F, (I, "matrix->matrix->resize(new_size, reference.matrix->cols());", "matrix->matrix->resize(new_size, matrix->matrix->cols());")),
    c("range for over the matrix", Q, (I, LOOPC, LOOPC.replace("for (size_t i = 0u; i < ordered_indices_to_erase.size(); ++i) {", "for (const size_t index : ordered_indices_to_erase) {").replace("ordered_indices_to_erase[i]", "index"))),
    c("leftCols of the rest", Q, (I, """  destination->middleCols(destination_start, size) =
      source->middleCols(source_start, size);""", """  destination->block(0, destination_start, destination->rows(), size) =
      source->block(0, source_start, source->rows(), size);""")),
    c("matrix assigned instead of swapped", Q, (I, "  container->swap(result);\n}\n\ntemplate<typename El", "  using std::swap;\n  container->swap(result);\n}\n\ntemplate<typename El")),
    c("fill index from the start", Q, (I, LOOPC, LOOPC.replace("    result_fill_index += block_size;\n", "    result_fill_index = result_fill_index + block_size;\n"))),
    c("early return for the empty list first", Q, (I, """  CHECK_NOTNULL(container);
  CHECK_EQ(internal::dynamicSize(*container), expected_initial_count);

  if (ordered_indices_to_erase.empty()) {
    return;
  }
""", """  CHECK_NOTNULL(container);
  if (ordered_indices_to_erase.empty()) {
    return;
  }
  CHECK_EQ(internal::dynamicSize(*container), expected_initial_count);
""")),
    # erase: delegate
    c("list overload does not store", F, (I, DEL, DEL.replace("  container->swap(result);\n", "  if (!result.empty()) {\n    container->swap(result);\n  }\n"))),
    c("list overload expects nothing", F, (I, "  CHECK_EQ(expected_initial_count, container->size());\n", "")),
    c("list overload assigns", Q, (I, DEL, "  *container = eraseIndicesFromVector(*container, ordered_indices_to_erase);\n")),
    c("list overload moves", Q, (I, DEL, DEL.replace("container->swap(result);", "*container = std::move(result);"))),
    c("list overload returns early", Q, (I, DEL, "  if (ordered_indices_to_erase.empty()) {\n    return;\n  }\n" + DEL)),
    # keep
    c("cut before the actions", F, (ACTION + "\n  // Remove the elements.\n" + CUT, CUT + ACTION)),
    c("one kept too few", F, (CUT, CUT.replace("container->begin() + max_elements_to_keep", "container->begin() + (max_elements_to_keep - 1u)"))),
    c("action skips the first removed one", F, (ACTION, ACTION.replace("container->begin() + max_elements_to_keep;", "container->begin() + max_elements_to_keep + 1;"))),
    c("action on all", F, (ACTION, ACTION.replace("container->begin() + max_elements_to_keep;", "container->begin();"))),
    c("natural order", F, (PSORT, PSORT.replace(", sort_compare_functor", ""))),
    c("half ordered", F, (PSORT, PSORT.replace("container->begin() + max_elements_to_keep,", "container->begin() + (max_elements_to_keep + 1u) / 2u,"))),
    c("unordered unless much longer", F, (PSORT, "  if (num_elements > 2u * max_elements_to_keep) {\n" + PSORT + "  }\n")),
    c("no action when nothing is kept", F, ("      action_on_removed_elements(element);\n", "")),
    c("returns the number removed", F, ("  return container->size();\n}", "  return num_elements - container->size();\n}")),
    c("limit accepted as short", F, ("  if (num_elements <= max_elements_to_keep) {", "  if (num_elements <= max_elements_to_keep + 1u) {")),
    c("sorted completely", Q, (PSORT, "  std::sort(container->begin(), container->end(), sort_compare_functor);\n")),
    c("nth_element", Q, (PSORT, PSORT.replace("partial_sort", "nth_element"))),
    c("resize", Q, (CUT, "  while (container->size() > max_elements_to_keep) {\n    container->pop_back();\n  }\n")),
    c("action by index", Q, (ACTION, """  for (size_t index = max_elements_to_keep; index < container->size(); ++index) {
    action_on_removed_elements((*container)[index]);
  }
""")),
    c("limit returned", Q, ("  return container->size();\n}", "  return max_elements_to_keep;\n}")),
    c("short list tested with the size", Q, ("  if (num_elements <= max_elements_to_keep) {", "  if (!(container->size() > max_elements_to_keep)) {")),
    c("no special case for zero", Q, ("""  if (max_elements_to_keep == 0u) {
    for (const ElementType& element : *container) {
      action_on_removed_elements(element);
    }
    container->clear();
    return 0u;
  }
""", "")),
    # draw
    c("indices in a list", F, ("  std::unordered_set<size_t> random_indices;", "  std::vector<size_t> random_indices;"), (DRAWN, DRAWN.replace("insert", "push_back"))),
    c("indices in a multiset", F, ("  std::unordered_set<size_t> random_indices;", "  std::unordered_multiset<size_t> random_indices;")),
    c("last element never drawn", F, ("distribution(0u, num_input_elements - 1u)", "distribution(0u, num_input_elements - 2u)")),
    c("first element never drawn", F, ("distribution(0u, num_input_elements - 1u)", "distribution(1u, num_input_elements - 1u)")),
    c("index outside of the input", F, ("distribution(0u, num_input_elements - 1u)", "distribution(0u, num_input_elements)")),
    c("one drawn too few", F, (DRAWN, DRAWN.replace("< n", "+ 1u < n"))),
    c("one drawn too many", F, (DRAWN, DRAWN.replace("< n", "<= n"))),
    c("output not cleared", F, ("  CHECK_NOTNULL(output)->clear();\n", "  CHECK_NOTNULL(output);\n")),
    c("whole input only when shorter", F, ("  if (num_input_elements <= n) {", "  if (num_input_elements <= n + 1u) {")),
    c("seed inverted", F, ("      use_fixed_seed ? 0u : std::random_device{}();", "      use_fixed_seed ? std::random_device{}() : 0u;")),
    c("seed always random", F, ("      use_fixed_seed ? 0u : std::random_device{}();", "      std::random_device{}();")),
    c("random seed always fixed", F, ("drawNRandomElements(n, input, output, false);", "drawNRandomElements(n, input, output, true);")),
    c("draw with another engine", Q, ("std::default_random_engine generator", "std::mt19937 generator")),
    c("draw with a for loop", Q, (COPY, COPY.replace("for (const size_t idx : random_indices) {", "for (std::unordered_set<size_t>::const_iterator it = random_indices.begin(); it != random_indices.end(); ++it) {\n    const size_t idx = *it;"))),
    c("drawn index named", Q, (DRAWN, "  for (; random_indices.size() != n;) {\n    const size_t index = distribution(generator);\n    random_indices.insert(index);\n  }\n")),
    c("whole input tested first", Q, ("  CHECK_NOTNULL(output)->clear();\n", "  CHECK_NOTNULL(output);\n  output->clear();\n")),
    c("seed with if", Q, ("""  const unsigned int seed =
      use_fixed_seed ? 0u : std::random_device{}();
""", """  unsigned int seed = 0u;
  if (!use_fixed_seed) {
    seed = std::random_device{}();
  }
""")),
    # averages
    c("mean of nothing", F, ("  CHECK(begin != end) << \"No data provided to calculate the mean.\";\n", "")),
    c("median of nothing", F, ("  CHECK(begin != end) << \"No data provided to calculate the median.\";\n", "")),
    c("mean without the first", F, ("  RandAccessIter element_i = begin;\n  while (element_i != end) {\n    mu", "  RandAccessIter element_i = begin + 1;\n  while (element_i != end) {\n    mu")),
    c("mean of every other element", F, (MEAN, MEAN.replace("++element_i;", "++element_i;\n    if (element_i != end) {\n      ++element_i;\n    }"))),
    c("mean divided by one less", F, ("  return mu / n;", "  return mu / (n - 1u);")),
    c("deviation from the first", F, ("    sum += (*element_i - mu) * (*element_i - mu);", "    sum += (*element_i - *begin) * (*element_i - mu);")),
    c("deviation not rewound", F, ("  element_i = begin;\n", "  element_i = begin + 1;\n")),
    c("sample deviation", F, ("  return sqrt(sum / n);", "  return sqrt(sum / (n > 1u ? n - 1u : n));")),
    c("median of an even number is the upper one", F, (EVEN, "  return *target_high;\n")),
    c("median reads the lower one unordered", F, (EVEN, EVEN.replace("  std::nth_element(begin, target_low, end);\n", ""))),
    c("median reads the upper one too late", F, (EVEN, EVEN.replace("  double target_high_value = *target_high;\n", "").replace("(target_high_value +", "(*target_high +"))),
    c("median parity inverted", F, ("  if (size % 2 != 0) {", "  if (size % 2 == 0) {")),
    c("median off by one", F, ("  size_t middle_idx = size / 2;", "  size_t middle_idx = (size - 1) / 2;")),
    c("mean with for", Q, (MEAN, "  for (; element_i != end; ++element_i) {\n    mu += *element_i;\n  }\n")),
    c("mean with an own sum", Q, (MEAN, MEAN.replace("mu += *element_i;", "mu = mu + *element_i;"))),
    c("difference named", Q, ("    sum += (*element_i - mu) * (*element_i - mu);", "    const double difference = *element_i - mu;\n    sum += difference * difference;")),
    c("lower one first", Q, (EVEN, """  const double high = *target_high;
  RandAccessIter target_low = begin + (middle_idx - 1);
  std::nth_element(begin, target_low, target_high);
  return 0.5 * (*target_low + high);
""")),
    c("median parity by zero", Q, ("  if (size % 2 != 0) {", "  if (size % 2 == 1) {")),
    c("median sorts", Q, ("  std::nth_element(begin, target_high, end);\n", "  std::sort(begin, end);\n"), (EVEN, EVEN.replace("  std::nth_element(begin, target_low, end);\n", ""))),
    # count, columns
    c("nested count overwritten", F, ("    num_elements += list.size();", "    num_elements = list.size();")),
    c("nested count skips short lists", F, ("    num_elements += list.size();", "    if (list.size() > 1u) {\n      num_elements += list.size();\n    }")),
    c("nested count by index", Q, ("  for (const std::vector<ElementType, Allocator>& list : nested_list) {\n    num_elements += list.size();\n", "  for (size_t k = 0u; k < nested_list.size(); ++k) {\n    num_elements += nested_list[k].size();\n")),
    c("columns appended", F, ("  output->clear();\n  output->reserve(num_cols);\n", "  output->reserve(num_cols);\n")),
    c("first column missing", F, (COLS, COLS.replace("idx = 0;", "idx = 1;"))),
    c("columns by push_back", Q, (COLS, "  for (size_t idx = 0; idx < num_cols; ++idx) {\n    output->push_back(input.col(idx));\n  }\n")),
]
