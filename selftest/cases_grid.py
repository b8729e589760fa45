G = "aslam_cv_common/include/aslam/common/occupancy-grid-inl.h"
GH = "aslam_cv_common/include/aslam/common/occupancy-grid.h"


def c(name, expect, *edits):
    return ("grid: " + name, "P13", expect, [(G,) + e if len(e) == 2 else e for e in edits])


ADD = """  cell.emplace_back(point);
  ++current_num_points_;
}"""
REPL = """    if (it_min_weight->weight < point.weight) {
      *it_min_weight = point;
      return true;
    }"""
ERASE = """    fullest_cell.erase(
        std::min_element(fullest_cell.begin(), fullest_cell.end()));
    --current_num_points_;
"""
CUT = """  size_t num_removed = cell.size() - max_points_per_cell;
  std::partial_sort(cell.begin(), cell.begin() + max_points_per_cell + 1,
                    cell.end(), std::greater<PointType>());
  cell.resize(max_points_per_cell);
  current_num_points_ -= num_removed;
  return num_removed;
"""
LOOP = """      num_removed += removeWeightedPointsFromOverfullCell(
          GridCoordinates(i_row, j_col), max_points_per_cell);
"""
RESET = """  for (std::vector<PointList>& col : grid_) {
    for (PointList& cell : col) {
      cell.clear();
    }
  }
"""
VALID = """  return (u_rows >= static_cast<CoordinatesType>(0.0)) &&
         (v_cols >= static_cast<CoordinatesType>(0.0)) &&
         (u_rows < max_input_coordinate_rows_) &&
         (v_cols < max_input_coordinate_cols_);
"""
VG = """  return (grid_.size() > grid_coordinates.i_rows) &&
         (grid_[grid_coordinates.i_rows].size() > grid_coordinates.j_cols);
"""
CONV = """  const size_t grid_row = static_cast<size_t>(std::floor(u_rows / cell_size_rows_));
  const size_t grid_col = static_cast<size_t>(std::floor(v_cols / cell_size_cols_));
"""
NUM = """  num_grid_cols_ = static_cast<size_t>(std::ceil(
      static_cast<double>(max_input_coordinate_cols) / cell_size_cols_));
"""
NEAR = """    cell.swap(reduced_cell);
    current_num_points_ -= indices_to_remove_from_cell.size();
"""
CASES = [
    c("add does not count", "fire", (ADD, ADD.replace("  ++current_num_points_;\n", ""))),
    c("counted when replaced", "fire", (REPL, REPL.replace("= point;\n", "= point;\n      ++current_num_points_;\n"))),
    c("not counted when added below the limit", "fire", ("    cell.emplace_back(point);\n    ++current_num_points_;\n    return true;", "    cell.emplace_back(point);\n    return true;")),
    c("near points: removed from the wrong list", "fire", (NEAR, NEAR.replace("indices_to_remove_from_cell.size()", "distance_violating_points.size()"))),
    c("near points: count of the new cell", "fire", (NEAR, NEAR.replace("indices_to_remove_from_cell.size()", "cell.size()"))),
    c("near points: count before swap by sizes", "quiet", (NEAR, "    current_num_points_ -= cell.size() - reduced_cell.size();\n    cell.swap(reduced_cell);\n")),
    c("near points: count after swap", "quiet", (NEAR, "    cell.swap(reduced_cell);\n    current_num_points_ += cell.size();\n    current_num_points_ -= reduced_cell.size();\n")),
    c("near points: count after swap, reversed", "fire", (NEAR, "    cell.swap(reduced_cell);\n    current_num_points_ += reduced_cell.size();\n    current_num_points_ -= cell.size();\n")),
    c("erase not counted", "fire", (ERASE, ERASE.replace("    --current_num_points_;\n", ""))),
    c("strongest erased", "fire", (ERASE, ERASE.replace("min_element", "max_element"))),
    c("erase through a local", "quiet", (ERASE, """    const auto weakest = std::min_element(fullest_cell.begin(), fullest_cell.end());
    fullest_cell.erase(weakest);
    current_num_points_ -= 1u;
""")),
    c("loop one too many", "fire", ("  while (getNumPoints() > max_total_num_points) {", "  while (getNumPoints() > max_total_num_points + 1u) {")),
    c("loop ge", "quiet", ("  while (getNumPoints() > max_total_num_points) {", "  while (getNumPoints() >= max_total_num_points + 1u) {")),
    c("loop one round", "fire", ("  while (getNumPoints() > max_total_num_points) {", "  if (getNumPoints() > max_total_num_points) {")),
    c("cut resized after", "fire", (CUT, CUT.replace("cell.resize(max_points_per_cell)", "cell.resize(max_points_per_cell + 1u)"))),
    c("cut sorted ascending", "fire", (CUT, CUT.replace("greater", "less"))),
    c("cut sorts too little", "fire", (CUT, CUT.replace("max_points_per_cell + 1", "1"))),
    c("cut sorts exactly", "quiet", (CUT, CUT.replace("max_points_per_cell + 1", "max_points_per_cell"))),
    c("cut sorts beyond the end", "fire", (CUT, CUT.replace("max_points_per_cell + 1", "max_points_per_cell + 2"))),
    c("cut by nth_element", "quiet", (CUT, CUT.replace("std::partial_sort", "std::nth_element").replace("max_points_per_cell + 1", "max_points_per_cell"))),
    c("cut by lambda", "quiet", (CUT, CUT.replace("std::greater<PointType>()", "[](const PointType& a, const PointType& b) { return a.weight > b.weight; }"))),
    c("cut by lambda the wrong way", "fire", (CUT, CUT.replace("std::greater<PointType>()", "[](const PointType& a, const PointType& b) { return a.weight < b.weight; }"))),
    c("cut by erase", "quiet", (CUT, CUT.replace("cell.resize(max_points_per_cell)", "cell.erase(cell.begin() + max_points_per_cell, cell.end())"))),
    c("cut reported late", "fire", (CUT, CUT.replace("  size_t num_removed = cell.size() - max_points_per_cell;\n", "").replace("  current_num_points_ -= num_removed", "  size_t num_removed = cell.size() - max_points_per_cell;\n  current_num_points_ -= num_removed"))),
    c("cut reports the rest", "fire", (CUT, CUT.replace("return num_removed", "return cell.size()"))),
    c("cut test one off", "fire", ("  if (cell.size() <= max_points_per_cell) {\n    return 0u;", "  if (cell.size() <= max_points_per_cell) {\n    return cell.size();")),
    c("cut in helper", "quiet", (CUT, """  const size_t before = cell.size();
  std::sort(cell.begin(), cell.end(), std::greater<PointType>());
  while (cell.size() > max_points_per_cell) {
    cell.pop_back();
    --current_num_points_;
  }
  return before - cell.size();
""")),
    c("sum overwritten", "fire", (LOOP, LOOP.replace("+=", "="))),
    c("sum by hand", "quiet", (LOOP, LOOP.replace("num_removed += ", "const size_t removed_here = ") + "      num_removed = num_removed + removed_here;\n")),
    c("loop stops after first removal", "fire", (LOOP, LOOP + "      if (num_removed > 0u) return num_removed;\n")),
    c("loop skips a row", "fire", (LOOP, "      if (i_row == 0u) continue;\n" + LOOP)),
    c("loop bound swapped", "fire", ("""  size_t num_removed = 0u;
  for (size_t i_row = 0u; i_row < num_grid_rows_; ++i_row) {
    for (size_t j_col = 0u; j_col < num_grid_cols_; ++j_col) {""", """  size_t num_removed = 0u;
  for (size_t i_row = 0u; i_row < num_grid_cols_; ++i_row) {
    for (size_t j_col = 0u; j_col < num_grid_rows_; ++j_col) {""")),
    c("loop starts at one", "fire", ("""  size_t num_removed = 0u;
  for (size_t i_row = 0u;""", """  size_t num_removed = 0u;
  for (size_t i_row = 1u;""")),
    c("reset forgets the count", "fire", ("  current_num_points_ = 0u;\n}", "}")),
    c("reset clears first column only", "fire", (RESET, RESET.replace("      cell.clear();\n", "      cell.clear();\n      break;\n"))),
    c("reset by index", "quiet", (RESET, """  for (size_t r = 0u; r < num_grid_rows_; ++r) {
    for (size_t c = 0u; c < num_grid_cols_; ++c) {
      grid_[r][c].clear();
    }
  }
""")),
    c("reset by rebuilding", "quiet", (RESET, "  grid_.clear();\n  initializeGrid();\n")),
    c("reset drops the grid", "fire", (RESET, "  grid_.clear();\n")),
    c("image test without columns", "fire", (VALID, VALID.replace("(v_cols < max_input_coordinate_cols_)", "true"))),
    c("image test inclusive", "fire", (VALID, VALID.replace("u_rows < max", "u_rows <= max"))),
    c("image test swapped", "fire", (VALID, VALID.replace("u_rows < max_input_coordinate_rows_", "u_rows < max_input_coordinate_cols_"))),
    c("image test without lower bound", "fire", (VALID, VALID.replace("(u_rows >= static_cast<CoordinatesType>(0.0)) &&\n         ", ""))),
    c("image test as early returns", "quiet", (VALID, """  if (u_rows < static_cast<CoordinatesType>(0.0) || v_cols < static_cast<CoordinatesType>(0.0)) {
    return false;
  }
""" + VALID)),
    c("grid test inclusive", "fire", (VG, VG.replace("grid_.size() >", "grid_.size() >="))),
    c("grid test without column", "fire", (VG, VG.replace("(grid_[grid_coordinates.i_rows].size() > grid_coordinates.j_cols)", "true"))),
    c("grid test by numbers", "quiet", (VG, "  return grid_coordinates.i_rows < num_grid_rows_ && grid_coordinates.j_cols < num_grid_cols_;\n")),
    c("grid test crossed", "fire", (VG, "  return grid_coordinates.i_rows < num_grid_cols_ && grid_coordinates.j_cols < num_grid_rows_;\n")),
    c("conversion swapped", "fire", (CONV, CONV.replace("u_rows / cell_size_rows_", "u_rows / cell_size_cols_"))),
    c("conversion rounds", "fire", (CONV, CONV.replace("std::floor(v", "std::round(v"))),
    c("conversion direct", "quiet", (CONV + "\n  GridCoordinates grid_coordinates(grid_row, grid_col);\n  return grid_coordinates;\n", """  return GridCoordinates(static_cast<size_t>(u_rows / cell_size_rows_),
                         static_cast<size_t>(v_cols / cell_size_cols_));
""")),
    c("coordinates crossed", "fire", ("GridCoordinates grid_coordinates(grid_row, grid_col)", "GridCoordinates grid_coordinates(grid_col, grid_row)")),
    c("columns rounded down", "fire", (NUM, NUM.replace("ceil", "floor"))),
    c("columns from row size", "fire", (NUM, NUM.replace("cell_size_cols_", "cell_size_rows_"))),
    c("columns from the image rows", "fire", (NUM, NUM.replace("max_input_coordinate_cols", "max_input_coordinate_rows"))),
    c("replacement without comparison", "fire", (REPL, "    *it_min_weight = point;\n    return true;")),
    c("replacement by equal", "fire", (REPL, REPL.replace("<", "<="))),
    c("replacement of strongest", "fire", ("= std::min_element(cell.begin(), cell.end());", "= std::max_element(cell.begin(), cell.end());")),
    c("replacement of strongest of a part", "fire", ("= std::min_element(cell.begin(), cell.end());", "= std::min_element(cell.begin() + 1, cell.end());")),
    c("replacement tested the other way around", "quiet", (REPL, REPL.replace("it_min_weight->weight < point.weight", "point.weight > it_min_weight->weight"))),
    c("all points: count as they are added", "quiet", ("      points->insert(points->end(), cell.begin(), cell.end());", "      for (const PointType& p : cell) {\n        points->push_back(p);\n      }")),
    c("all points: last row missing", "fire", ("i_row < num_grid_rows_;  ++i_row", "i_row + 1u < num_grid_rows_;  ++i_row")),
    c("access by validated accessor only", "fire", ("  CHECK(isValidGridCoordinates(grid_coordinates));\n", "")),
    c("helper extracted for add", "quiet", (ADD, """  insertIntoCell(point, &cell);
}

template<typename PointType>
void WeightedOccupancyGrid<PointType>::insertIntoCell(const PointType& point, PointList* cell) {
  cell->emplace_back(point);
  ++current_num_points_;
}"""), (GH, "  void initializeGrid();\n", "  void initializeGrid();\n  void insertIntoCell(const PointType& point, PointList* cell);\n")),
]
