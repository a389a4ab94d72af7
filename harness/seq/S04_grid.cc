// Occupancy grid: every sequence of operations against a reference model that keeps a plain list of points.
#include <algorithm>
#include <cmath>
#include <limits>
#include <map>

#include <aslam/common/occupancy-grid.h>

#define SEQX_MAIN
#include "seqx.h"
using seqx::Ctx;

namespace {
template <class CT, class WT>
struct Setup {
  typedef aslam::common::WeightedKeypoint<CT, WT, int> Pt;
  typedef aslam::common::WeightedOccupancyGrid<Pt> Grid;
};

struct Geometry {  // in the grid's coordinate type
  double rows, cols, cr, cc;
};
struct P {
  double u, v, w;
  int id;
  bool operator==(const P& o) const { return u == o.u && v == o.v && w == o.w && id == o.id; }
  bool operator<(const P& o) const { return id != o.id ? id < o.id : w < o.w; }
};
typedef std::vector<P> List;

std::pair<int, int> cell_of(const Geometry& g, const P& p) { return {(int)std::floor(p.u / g.cr), (int)std::floor(p.v / g.cc)}; }

template <class Grid>
List contents(const Grid& g) {
  typename Grid::PointList pl;
  g.getAllPointsInGrid(&pl);
  List l;
  for (auto& p : pl) l.push_back(P{(double)p.u_rows, (double)p.v_cols, (double)p.weight, p.id});
  return l;
}
List sorted(List l) { std::sort(l.begin(), l.end()); return l; }
List minus(const List& a, const List& b, bool* subset) {  // a without b; *subset: b within a
  List r = a;
  *subset = true;
  for (auto& x : b) {
    auto it = std::find(r.begin(), r.end(), x);
    if (it == r.end()) { *subset = false; continue; }
    r.erase(it);
  }
  return r;
}
std::string text(const List& l) {
  std::string s;
  for (auto& p : l) s += seqx::fmt("%d@(%g,%g)w%g ", p.id, p.u, p.v, p.w);
  return s;
}

template <class CT, class WT>
void ops(Ctx& c, const Geometry& g, const std::vector<std::pair<double, double>>& where, const std::vector<double>& weights,
         const std::vector<double>& dists, int depth) {
  typedef typename Setup<CT, WT>::Grid Grid;
  typedef typename Setup<CT, WT>::Pt Pt;
  Grid grid(g.rows, g.cols, g.cr, g.cc);
  List m;
  const int np = where.size() * weights.size();
  for (int d = 0; d < depth; ++d) {
    const int op = c.choose(7, "op");
    const List before = m;
    P p{0, 0, 0, d};
    auto point = [&]() {
      int k = c.choose(np, "point");
      p.u = where[k / weights.size()].first; p.v = where[k / weights.size()].second; p.w = weights[k % weights.size()];
      return Pt((CT)p.u, (CT)p.v, (WT)p.w, p.id);
    };
    auto in_cell = [&](const List& l, std::pair<int, int> cell) {
      List r;
      for (auto& q : l) if (cell_of(g, q) == cell) r.push_back(q);
      return r;
    };
    std::map<std::pair<int, int>, int> count;
    for (auto& q : before) ++count[cell_of(g, q)];
    if (op == 0) {
      grid.addPointUnconditional(point());
      m.push_back(p);
      c.check(sorted(contents(grid)) == sorted(m), "add", "adding %s: %s", text({p}).c_str(), text(contents(grid)).c_str());
    } else if (op == 1) {
      const int cap = c.range(1, 2, "cap");
      Pt q = point();
      const bool r = grid.addPointOrReplaceWeakestIfCellFull(q, cap);
      const List cell = in_cell(before, cell_of(g, p));
      double low = INFINITY;
      for (auto& x : cell) low = std::min(low, x.w);
      const List after = contents(grid);
      bool sub;
      if ((int)cell.size() < cap) {
        m.push_back(p);
        c.check(r && sorted(after) == sorted(m), "add-free", "the cell has room (%zu of %d) but the point was not added", cell.size(), cap);
      } else if (low < p.w) {
        List gone = minus(before, after, &sub);
        List removed = minus(before, after, &sub);
        c.check(r && after.size() == before.size() && removed.size() == 1 && removed[0].w == low && cell_of(g, removed[0]) == cell_of(g, p) &&
                    std::count(after.begin(), after.end(), p) == 1,
                "replace-weakest", "full cell: point %s; before %s; after %s", text({p}).c_str(), text(before).c_str(), text(after).c_str());
        m = after;
      } else {
        c.check(!r && sorted(after) == sorted(before), "keep-stronger", "a point that is not better than the weakest one replaced something");
      }
    } else if (op == 2) {
      const double dist = c.pick(dists, "min distance");
      Pt q = point();
      grid.addPointOrReplaceWeakestNearestPoints(q, (CT)dist);
      List set{p}, rest;
      for (auto& x : before) {
        const double du = x.u - p.u, dv = x.v - p.v;
        (du * du + dv * dv < dist * dist ? set : rest).push_back(x);
      }
      double best = -INFINITY;
      for (auto& x : set) best = std::max(best, x.w);
      bool sub;
      const List after = contents(grid);
      const List kept = minus(after, rest, &sub);
      c.check(sub, "nearest-rest", "a point that is far enough away was removed: %s -> %s (new %s, distance %g)", text(before).c_str(), text(after).c_str(), text({p}).c_str(), dist);
      c.check(kept.size() == 1 && kept[0].w == best && std::count(set.begin(), set.end(), kept[0]) == 1, "nearest-best",
              "of %s only a strongest one may stay, kept %s", text(set).c_str(), text(kept).c_str());
      m = after;
    } else if (op == 3) {
      const int cap = c.range(1, 2, "cap");
      const size_t r = grid.removeWeightedPointsFromOverfullCells(cap);
      const List after = contents(grid);
      bool sub;
      const List gone = minus(before, after, &sub);
      bool sub2;
      minus(before, gone, &sub2);
      c.check(r == gone.size() && before.size() - gone.size() == after.size(), "overfull-count", "returned %zu, removed %zu", r, gone.size());
      for (auto& kv : count) c.check((int)in_cell(after, kv.first).size() == std::min(kv.second, cap), "overfull-size", "a cell keeps %zu of %d points (limit %d)", in_cell(after, kv.first).size(), kv.second, cap);
      for (auto& x : gone) for (auto& y : after) if (cell_of(g, x) == cell_of(g, y)) c.check(x.w <= y.w, "overfull-weak", "a stronger point was removed");
      m = after;
    } else if (op == 4) {
      const int n = c.range(1, 4, "total");
      grid.removePointsFromFullestCellsUntilSize(n);
      const List after = contents(grid);
      bool sub;
      const List gone = minus(before, after, &sub);
      c.check(after.size() == std::min(before.size(), (size_t)n) && gone.size() + after.size() == before.size(), "until-size", "%zu of %zu points left, wanted %d", after.size(), before.size(), n);
      int top = 0;
      for (auto& kv : count) top = std::max(top, (int)in_cell(after, kv.first).size());
      for (auto& kv : count) {
        const int left = in_cell(after, kv.first).size();
        if (left < kv.second) c.check(left >= top - 1, "until-fullest", "a cell lost points although another one is fuller (%d left, fullest %d)", left, top);
      }
      for (auto& x : gone) for (auto& y : after) if (cell_of(g, x) == cell_of(g, y)) c.check(x.w <= y.w, "until-weak", "a stronger point was removed");
      m = after;
    } else if (op == 5) {
      const double w = c.pick(weights, "weight");
      grid.setConstantWeightForAllPointsInGrid((WT)w);
      for (auto& x : m) x.w = w;
      c.check(sorted(contents(grid)) == sorted(m), "constant", "constant weight");
    } else {
      grid.reset();
      m.clear();
      c.check(contents(grid).empty(), "reset", "points left after reset");
    }
    // queries
    c.check(grid.getNumPoints() == m.size(), "count", "getNumPoints() is %zu with %zu points", grid.getNumPoints(), m.size());
    size_t most = 0;
    const Grid& cg = grid;
    for (auto& uv : where) {
      P q{uv.first, uv.second, 0, 0};
      List want = in_cell(m, cell_of(g, q)), have;
      for (auto& x : grid.getGridCell((CT)q.u, (CT)q.v)) have.push_back(P{(double)x.u_rows, (double)x.v_cols, (double)x.weight, x.id});
      c.check(sorted(have) == sorted(want), "cell", "cell of (%g,%g)", q.u, q.v);
      c.check(&cg.getGridCell((CT)q.u, (CT)q.v) == &grid.getGridCell((CT)q.u, (CT)q.v), "cell-const", "const cell of (%g,%g)", q.u, q.v);
      most = std::max(most, want.size());
    }
    auto f = grid.getFullestGridCell();
    int full = 0;
    for (auto& x : m) full += cell_of(g, x) == std::make_pair((int)f.i_rows, (int)f.j_cols);
    c.check((size_t)full == most, "fullest", "getFullestGridCell() has %d points, the fullest cell has %zu", full, most);
    // what follows depends on the order within the cells only through ties, which ids keep apart
    if (d + 1 < depth) {
      std::string key = seqx::fmt("%d|", d);
      for (auto& x : contents(grid)) key += seqx::fmt("%d:%g,%g,%g;", x.id, x.u, x.v, x.w);
      c.seen(key);
    }
  }
}

const Geometry kEven{4, 6, 2, 3}, kOdd{5, 5, 2, 2}, kFrac{4.5, 3.5, 1.5, 1.0};
void ops_double(Ctx& c) {
  ops<double, double>(c, kEven, {{0, 0}, {1.5, 2.5}, {2, 2.5}, {2.5, 3}, {3.75, 5.75}}, {-1, 2}, {0.75, 2}, c.thorough ? 5 : 4);
}
void ops_float(Ctx& c) {
  ops<float, float>(c, kFrac, {{0.25, 0.25}, {1.25, 0.75}, {1.5, 1}, {4.25, 3.25}}, {0, 1, 3}, {0.5, 1}, c.thorough ? 5 : 4);
}
void ops_int(Ctx& c) {
  ops<int, unsigned>(c, kOdd, {{0, 0}, {1, 1}, {1, 2}, {2, 2}, {4, 4}}, {0, 3}, {1, 2}, c.thorough ? 5 : 4);
}
// Points of equal weight, including the lowest value the type has.
void ops_extreme(Ctx& c) {
  const double lo = std::numeric_limits<double>::lowest();
  ops<double, double>(c, kEven, {{0, 0}, {0.5, 0}, {2, 3}}, {lo, 0, std::numeric_limits<double>::max()}, {0.6, 2}, c.thorough ? 5 : 4);
}

// Every coordinate inside the image has a cell; every coordinate outside and every wrong argument is refused.
template <class CT>
void bounds_t(Ctx& c, const std::vector<double>& sizes, const std::vector<double>& cells) {
  typedef typename Setup<CT, double>::Grid Grid;
  typedef typename Setup<CT, double>::Pt Pt;
  const CT rows = (CT)c.pick(sizes, "rows"), cr = (CT)c.pick(cells, "cell");
  const CT cols = 4, cc = 2;
  const bool bad = !(rows > 0) || rows < cr;
  std::unique_ptr<Grid> g;
  const bool flip = c.flag("rows/cols");
  const bool refused = c.aborts([&] { g.reset(flip ? new Grid(cols, rows, cc, cr) : new Grid(rows, cols, cr, cc)); });
  c.check(refused == bad, "size-check", "a grid of size %g with cells of %g is %s", (double)rows, (double)cr, refused ? "refused" : "accepted");
  if (refused) return;
  std::vector<CT> us = {(CT)0, (CT)(rows / 2), (CT)(rows - 1), rows, (CT)(rows + 1), (CT)-1};
  if (!std::is_integral<CT>::value) {
    us.push_back(std::nextafter((double)rows, 0.0));
    us.push_back((CT)std::nextafter((float)rows, 0.0f));
    us.push_back((CT)-1e-30);
    us.push_back((CT)std::nan(""));
    for (int k = 1; k < 8; ++k) { us.push_back((CT)(k * cr)); us.push_back((CT)std::nextafter((float)(k * cr), 0.0f)); }
  }
  const CT u = us[c.choose(us.size(), "u")], v = 1;
  const bool inside = u >= 0 && u < rows;
  for (int k = 0; k < 3; ++k) {
    g->reset();
    const Pt p(flip ? v : u, flip ? u : v, 1.0, 7);
    const bool r = c.aborts([&] {
      if (k == 0) g->addPointUnconditional(p);
      if (k == 1) g->addPointOrReplaceWeakestIfCellFull(p, 1);
      if (k == 2) g->addPointOrReplaceWeakestNearestPoints(p, (CT)std::min<double>(cr, cc));
    });
    c.check(r == !inside, "inside", "coordinate %.17g of %.17g (cell size %.17g) is %s", (double)u, (double)rows, (double)cr, r ? "refused" : "accepted");
    typename Grid::PointList l;
    c.check(g->getAllPointsInGrid(&l) == (inside ? 1u : 0u) && g->getNumPoints() == l.size(), "inside-count", "a refused point was counted");
  }
}
void bounds_double(Ctx& c) { bounds_t<double>(c, {-1, 0, 0.25, 0.3, 0.7, 1, 1.1, 2.9, 3, 7, 10, 48}, {0.1, 0.2, 0.25, 0.3, 0.7, 1, 3, 10}); }
void bounds_float(Ctx& c) { bounds_t<float>(c, {-1, 0, 0.25, 0.3, 0.7, 1, 1.1, 2.9, 3, 7, 10, 48}, {0.1, 0.2, 0.25, 0.3, 0.7, 1, 3, 10}); }
void bounds_int(Ctx& c) { bounds_t<int>(c, {-1, 0, 1, 2, 3, 5, 8}, {1, 2, 3, 5}); }

// The mask covers every point's neighbourhood and every full cell, and nothing else.
void mask(Ctx& c) {
  typedef Setup<double, double>::Grid Grid;
  typedef Setup<double, double>::Pt Pt;
  const int rows = c.pick({12, 15}, "rows"), cols = c.pick({16, 18}, "cols"), cr = c.pick({4, 6}, "cell rows"), cc = c.pick({8, 6}, "cell cols");
  Grid g(rows, cols, cr, cc);
  const int n = c.choose(c.thorough ? 4 : 3, "points"), radius = c.range(1, 3, "radius"), cap = c.range(1, 2, "cap");
  std::vector<std::pair<int, int>> pts;
  for (int i = 0; i < n; ++i) {
    const int u = c.pick({0, 3, 4, 11}, "u"), v = c.pick({0, 7, 8, 15}, "v");
    pts.push_back({u, v});
    g.addPointUnconditional(Pt(u, v, 1, i));
  }
  const cv::Mat m = g.getOccupancyMask(radius, cap);
  c.check(m.rows == rows && m.cols == cols && m.type() == CV_8UC1, "mask-size", "mask size");
  for (int u = 0; u < rows; ++u) for (int v = 0; v < cols; ++v) {
    int in_cell = 0;
    bool inner = false, outer = true;
    for (auto& p : pts) {
      in_cell += p.first / cr == u / cr && p.second / cc == v / cc;
      const int du = p.first - u, dv = p.second - v;
      if (du * du + dv * dv <= (radius - 0.5) * (radius - 0.5)) inner = true;
      if (du * du + dv * dv < (radius + 1) * (radius + 1)) outer = false;
    }
    const int val = m.at<uint8_t>(u, v);
    c.check(val == 0 || val == 255, "mask-value", "mask value %d", val);
    if (in_cell >= cap || inner) c.check(val == 0, "mask-in", "pixel (%d,%d) must be masked", u, v);
    else if (outer) c.check(val == 255, "mask-out", "pixel (%d,%d) must be free", u, v);
  }
}
void refused(Ctx& c) {
  typedef Setup<double, double>::Grid Grid;
  typedef Setup<double, double>::Pt Pt;
  Grid g(4, 6, 2, 3);
  g.addPointUnconditional(Pt(0, 0, 1, 0));
  const int k = c.choose(8, "case");
  const bool r = c.aborts([&] {
    switch (k) {
      case 0: g.addPointOrReplaceWeakestIfCellFull(Pt(0, 0, 1, 1), 0); break;
      case 1: g.addPointOrReplaceWeakestNearestPoints(Pt(0, 0, 1, 1), 0); break;
      case 2: g.addPointOrReplaceWeakestNearestPoints(Pt(0, 0, 1, 1), 2.1); break;
      case 3: g.removeWeightedPointsFromOverfullCells(0); break;
      case 4: g.removePointsFromFullestCellsUntilSize(0); break;
      case 5: g.getOccupancyMask(0, 1); break;
      case 6: g.getOccupancyMask(1, 0); break;
      case 7: g.getAllPointsInGrid(nullptr); break;
    }
  });
  c.check(r, "refuse", "wrong argument (case %d) accepted", k);
  c.check(g.getNumPoints() == 1, "refuse-same", "a refused call changed the grid");
}
}  // namespace

int main(int argc, char** argv) {
  return seqx::run_main(argc, argv, "S04", {
    {"ops-double", "every operation sequence, 2x2 cells, 5 positions (on, beside and across cell borders) x 2 weights", ops_double, 7},
    {"ops-float", "every operation sequence, 3x4 cells of fractional size, 4 positions x 3 weights", ops_float, 7},
    {"ops-int", "every operation sequence, integer coordinates, unsigned weights including 0, partial last cells", ops_int, 7},
    {"ops-extreme", "every operation sequence with the lowest and highest weight of the type", ops_extreme, 7},
    {"bounds-double", "coordinates at and next to every border, all combinations of image and cell sizes", bounds_double, 4},
    {"bounds-float", "the same with float coordinates", bounds_float, 4},
    {"bounds-int", "the same with int coordinates", bounds_int, 1},
    {"mask", "masks of all placements of up to 2 points", mask, 2},
    {"refused", "wrong arguments", refused, 1},
  });
}
