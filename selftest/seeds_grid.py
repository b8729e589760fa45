G = "aslam_cv_common/include/aslam/common/occupancy-grid-inl.h"
HEAD = r'''#include <cstdio>
#include <cstdlib>
#include <set>
#include <aslam/common/occupancy-grid.h>
#define REQUIRE(x) do { if (!(x)) { std::printf("failed: %s\n", #x); std::exit(1); } } while (0)
typedef aslam::common::WeightedKeypoint<double, double, int> K;
typedef aslam::common::WeightedOccupancyGrid<K> Grid;
static size_t real(const Grid& g, double h, double w, double ch, double cw) {
  size_t n = 0u;
  for (double r = 0.1; r < h; r += ch) {
    for (double c = 0.1; c < w; c += cw) n += const_cast<Grid&>(g).getGridCell(r, c).size();
  }
  return n;
}
'''
SEEDS = [
    dict(id="gr-near-count", property="P13", flags="-DCV_FILLED=-1", edits=[
        (G, "    cell.swap(reduced_cell);\n    current_num_points_ -= indices_to_remove_from_cell.size();\n",
            "    if (!reduced_cell.empty()) {\n      current_num_points_ -= indices_to_remove_from_cell.size();\n    }\n    cell.swap(reduced_cell);\n")],
        demo=HEAD + r'''
int main() {
  Grid g(20., 20., 10., 10.);
  for (int i = 0; i < 4; ++i) g.addPointUnconditional(K(2. + i, 2. + i, 1., i));
  g.addPointOrReplaceWeakestNearestPoints(K(15., 15., 1., 10), 3.);
  REQUIRE(g.getNumPoints() == real(g, 20., 20., 10., 10.));
  g.addPointOrReplaceWeakestNearestPoints(K(15.5, 15., 9., 11), 3.);
  REQUIRE(g.getNumPoints() == real(g, 20., 20., 10., 10.));
  g.addPointOrReplaceWeakestNearestPoints(K(3., 3., 9., 12), 3.);
  REQUIRE(g.getNumPoints() == real(g, 20., 20., 10., 10.));
  g.addPointOrReplaceWeakestNearestPoints(K(9., 15., 99., 13), 9.);
  REQUIRE(g.getNumPoints() == real(g, 20., 20., 10., 10.));
  return 0;
}
''', needs="a point that replaces all points of a neighbouring cell",
        breaks="the number of points is wrong after points in a cell were replaced"),
    dict(id="gr-cut-half-sorted", property="P13", flags="-DCV_FILLED=-1", edits=[
        (G, "  std::partial_sort(cell.begin(), cell.begin() + max_points_per_cell + 1,\n",
            "  std::partial_sort(cell.begin(), cell.begin() + (max_points_per_cell + 1) / 2,\n")],
        demo=HEAD + r'''
int main() {
  Grid g(20., 20., 10., 10.);
  const double w[] = {3., 9., 1., 7., 2., 8., 6., 4.};
  for (int i = 0; i < 8; ++i) g.addPointUnconditional(K(1. + i, 2., w[i], i));
  REQUIRE(g.removeWeightedPointsFromOverfullCells(4u) == 4u);
  REQUIRE(g.getNumPoints() == 4u);
  std::multiset<double> kept;
  for (const K& k : g.getGridCell(1., 1.)) kept.insert(k.weight);
  REQUIRE((kept == std::multiset<double>{6., 7., 8., 9.}));
  return 0;
}
''', needs="a limit of at least two points per cell and an unsorted cell", breaks="heavier points are removed instead of the lightest"),
    dict(id="gr-last-column-missing", property="P13", flags="-DCV_FILLED=-1", edits=[
        (G, "  num_grid_cols_ = static_cast<size_t>(std::ceil(\n", "  num_grid_cols_ = static_cast<size_t>(std::round(\n")],
        demo=HEAD + r'''
int main() {
  Grid g(20., 44., 10., 10.);
  g.addPointUnconditional(K(3., 39., 1., 0));
  g.addPointUnconditional(K(3., 43., 1., 1));
  REQUIRE(g.getNumPoints() == 2u);
  std::vector<K> all;
  REQUIRE(g.getAllPointsInGrid(&all) == 2u);
  return 0;
}
''', needs="an image width whose remainder is less than half a cell, and a point in the last started column",
        breaks="points inside the image are refused (abort)"),
    dict(id="gr-sum-of-last-row", property="P13", flags="-DCV_FILLED=-1", edits=[
        (G, "  size_t num_removed = 0u;\n  for (size_t i_row = 0u; i_row < num_grid_rows_; ++i_row) {\n",
            "  size_t num_removed = 0u;\n  for (size_t i_row = 0u; i_row < num_grid_rows_; ++i_row) {\n    num_removed = 0u;\n")],
        demo=HEAD + r'''
int main() {
  Grid g(20., 20., 10., 10.);
  for (int i = 0; i < 4; ++i) g.addPointUnconditional(K(1. + i, 2., i, i));
  for (int i = 0; i < 3; ++i) g.addPointUnconditional(K(11. + i, 12., i, i));
  REQUIRE(g.removeWeightedPointsFromOverfullCells(1u) == 5u);
  REQUIRE(g.getNumPoints() == 2u);
  return 0;
}
''', needs="overfull cells in more than one row", breaks="the reported number of removed points counts only the last row"),
]
