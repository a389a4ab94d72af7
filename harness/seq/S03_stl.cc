// STL helpers: erasing by index, keeping the N best, drawing, counting, statistics.
#define SEQX_MAIN
#include "seqx.h"

#include <algorithm>
#include <cmath>
#include <numeric>

#include <aslam/common/memory.h>
#include <aslam/common/stl-helpers.h>

using seqx::Ctx;
namespace sc = aslam::common;
namespace sh = aslam::common::stl_helpers;

static std::vector<int> iota(int n) { std::vector<int> v(n); for (int i = 0; i < n; ++i) v[i] = 10 + i; return v; }
static std::vector<int> survivors(int n, unsigned mask) { std::vector<int> r; for (int i = 0; i < n; ++i) if (!(mask >> i & 1)) r.push_back(10 + i); return r; }
static std::vector<size_t> indices(unsigned mask, int n) { std::vector<size_t> r; for (int i = 0; i < n; ++i) if (mask >> i & 1) r.push_back(i); return r; }

// Every subset of every size, deleted in every order (all permutations up to 4 indices, rotations beyond).
static void erase_vector(Ctx& c) {
  const int n = c.choose(c.thorough ? 10 : 8, "n");
  const unsigned mask = c.choose(1 << n, "subset");
  std::vector<size_t> idx = indices(mask, n);
  if (idx.size() <= 4) {
    std::vector<size_t> rest = idx;
    idx.clear();
    while (!rest.empty()) { size_t k = c.choose(rest.size(), "next"); idx.push_back(rest[k]); rest.erase(rest.begin() + k); }
  } else {
    std::rotate(idx.begin(), idx.begin() + c.choose(idx.size(), "rotation"), idx.end());
  }
  const std::vector<int> data = iota(n), want = survivors(n, mask);
  const std::vector<size_t> idx_before = idx;
  c.check(sc::eraseIndicesFromVector(data, idx) == want, "vector", "eraseIndicesFromVector");
  c.check(data == iota(n) && idx == idx_before, "const", "an argument changed");
  std::vector<int> cont = data;
  sh::eraseIndicesFromContainer(idx, n, &cont);
  c.check(cont == want, "container-vector", "eraseIndicesFromContainer(vector)");
  Aligned<std::vector, Eigen::Vector2d> al;
  for (int v : data) al.push_back(Eigen::Vector2d(v, -v));
  Aligned<std::vector, Eigen::Vector2d> al2 = sc::eraseIndicesFromVector(al, idx);
  bool ok = al2.size() == want.size();
  for (size_t i = 0; ok && i < want.size(); ++i) ok = al2[i] == Eigen::Vector2d(want[i], -want[i]);
  c.check(ok, "aligned", "eraseIndicesFromVector(aligned)");
  std::vector<std::string> st, st2;
  for (int v : data) st.push_back(std::string(40, 'a') + std::to_string(v));
  st2 = sc::eraseIndicesFromVector(st, idx);
  ok = st2.size() == want.size();
  for (size_t i = 0; ok && i < want.size(); ++i) ok = st2[i] == std::string(40, 'a') + std::to_string(want[i]);
  c.check(ok, "strings", "eraseIndicesFromVector(strings)");
}
template <class M> static M colmat(int rows, int n) { M m; m.resize(rows, n); for (int i = 0; i < rows; ++i) for (int j = 0; j < n; ++j) m(i, j) = 10 + j + 100 * i; return m; }
template <class M> static M rowmat(int n, int cols) { M m; m.resize(n, cols); for (int i = 0; i < n; ++i) for (int j = 0; j < cols; ++j) m(i, j) = 10 + i + 100 * j; return m; }
template <class M> static bool cols_are(const M& m, int rows, const std::vector<int>& want) {
  if (m.rows() != rows || m.cols() != (int)want.size()) return false;
  for (int i = 0; i < rows; ++i) for (size_t j = 0; j < want.size(); ++j) if (m(i, j) != want[j] + 100 * i) return false;
  return true;
}
template <class M> static bool rows_are(const M& m, int cols, const std::vector<int>& want) {
  if (m.cols() != cols || m.rows() != (int)want.size()) return false;
  for (size_t i = 0; i < want.size(); ++i) for (int j = 0; j < cols; ++j) if (m(i, j) != want[i] + 100 * j) return false;
  return true;
}
static void erase_matrix(Ctx& c) {
  const int n = c.choose(c.thorough ? 11 : 9, "n");
  const unsigned mask = c.choose(1 << n, "subset");
  const std::vector<size_t> idx = indices(mask, n);
  const std::vector<int> want = survivors(n, mask);
  { auto m = colmat<Eigen::Matrix2Xd>(2, n); sh::eraseIndicesFromContainer(idx, n, &m); c.check(cols_are(m, 2, want), "cols2", "2 x N"); }
  { auto m = colmat<Eigen::Matrix<int, 1, Eigen::Dynamic>>(1, n); sh::eraseIndicesFromContainer(idx, n, &m); c.check(cols_are(m, 1, want), "cols1", "1 x N"); }
  { auto m = rowmat<Eigen::VectorXd>(n, 1); sh::eraseIndicesFromContainer(idx, n, &m); c.check(rows_are(m, 1, want), "rows1", "N x 1"); }
  { auto m = rowmat<Eigen::Matrix<int, Eigen::Dynamic, 3>>(n, 3); sh::eraseIndicesFromContainer(idx, n, &m); c.check(rows_are(m, 3, want), "rows3", "N x 3"); }
  for (int k = 0; k <= 3; ++k) {
    { auto m = colmat<Eigen::MatrixXd>(k, n); sh::OneDimensionAdapter<double, sh::kColumns> a(&m); sh::eraseIndicesFromContainer(idx, n, &a); c.check(cols_are(m, k, want), "dyn-cols", "dynamic columns"); }
    { auto m = rowmat<Eigen::MatrixXd>(n, k); sh::OneDimensionAdapter<double, sh::kRows> a(&m); sh::eraseIndicesFromContainer(idx, n, &a); c.check(rows_are(m, k, want), "dyn-rows", "dynamic rows"); }
  }
}
// Wrong arguments are refused.
static void erase_refused(Ctx& c) {
  const int n = c.choose(5, "n"), bad = c.choose(6, "index"), expected = c.choose(6, "expected");
  std::vector<int> v = iota(n);
  std::vector<size_t> idx = {(size_t)bad};
  bool r = c.aborts([&] { sc::eraseIndicesFromVector(v, idx); });
  c.check(r == (bad >= n), "range-vector", "index %d of %d elements is %s", bad, n, r ? "refused" : "accepted");
  Eigen::Matrix2Xd m = colmat<Eigen::Matrix2Xd>(2, n);
  r = c.aborts([&] { sh::eraseIndicesFromContainer(idx, expected, &m); });
  c.check(r == (bad >= n || expected != n), "range-matrix", "index %d of %d elements (expected %d) is %s", bad, n, expected, r ? "refused" : "accepted");
  r = c.aborts([&] { sh::eraseIndicesFromContainer(idx, expected, &v); });
  c.check(r == (bad >= n || expected != n), "range-container", "index %d of %d elements (expected %d)", bad, n, expected);
  r = c.aborts([&] { Eigen::Matrix2Xd q = colmat<Eigen::Matrix2Xd>(2, n); sh::eraseIndicesFromContainer(std::vector<size_t>(), expected, &q); });
  c.check(r == (expected != n), "empty-list", "empty index list with expected %d of %d", expected, n);
}
// keepOnlyNSortedElements: all vectors over {0,1,2,3} up to length 6.
static void keep_best(Ctx& c) {
  const int n = c.choose(c.thorough ? 8 : 7, "n"), keep = c.choose(9, "keep");
  std::vector<std::pair<int, int>> v;
  std::vector<int> keys;
  for (int i = 0; i < n; ++i) { keys.push_back(c.choose(4, "key")); v.push_back({keys.back(), i}); }
  const bool descending = c.flag("descending");
  auto cmp = [descending](const std::pair<int, int>& a, const std::pair<int, int>& b) { return descending ? a.first > b.first : a.first < b.first; };
  std::vector<std::pair<int, int>> w = v;
  std::vector<std::pair<int, int>> removed;
  struct Action { std::vector<std::pair<int, int>>* r; void operator()(const std::pair<int, int>& e) const { r->push_back(e); } };
  const size_t ret = sc::keepOnlyNSortedElements(keep, cmp, &w, Action{&removed});
  const size_t want = std::min(n, keep);
  c.check(ret == want && w.size() == want, "size", "%zu elements kept, returned %zu, expected %zu", w.size(), ret, want);
  c.check(removed.size() == n - want, "removed", "the action ran on %zu elements, expected %zu", removed.size(), n - want);
  std::vector<std::pair<int, int>> all = w;
  all.insert(all.end(), removed.begin(), removed.end());
  std::vector<std::pair<int, int>> sorted = v;
  std::sort(all.begin(), all.end());
  std::sort(sorted.begin(), sorted.end());
  c.check(all == sorted, "partition", "kept and removed elements are not the input");
  for (auto& k : w) for (auto& r : removed) c.check(!cmp(r, k), "best", "a removed element is better than a kept one");
  if (n <= keep) c.check(w == v, "untouched", "a container that fits was changed");
  else for (size_t i = 1; i < w.size(); ++i) c.check(!cmp(w[i], w[i - 1]), "sorted", "the kept elements are not sorted");
}
static void draw(Ctx& c) {
  const int n = c.choose(9, "n"), k = c.choose(10, "k");
  std::vector<int> in = iota(n), out = {99, 98, 97}, out2;
  if (k == 0) {
    c.check(c.aborts([&] { sc::drawNRandomElements(0, in, &out, true); }), "draw-zero", "drawing 0 elements is accepted");
    return;
  }
  c.check(c.aborts([&] { sc::drawNRandomElements(k, in, &in, true); }), "draw-alias", "drawing a vector into itself is accepted");
  const int mode = c.choose(3, "seed mode");
  if (mode == 2) sc::drawNRandomElements(k, in, &out); else sc::drawNRandomElements(k, in, &out, mode == 0);
  c.check((int)out.size() == std::min(n, k), "draw-size", "%zu of %d elements drawn, wanted %d", out.size(), n, k);
  std::set<int> s(out.begin(), out.end());
  c.check(s.size() == out.size(), "draw-distinct", "an element was drawn twice");
  for (int x : out) c.check(std::find(in.begin(), in.end(), x) != in.end(), "draw-member", "a drawn element is not in the input");
  c.check(in == iota(n), "draw-const", "the input changed");
  if (n <= k) c.check(out == in, "draw-all", "drawing all elements changed their order");
  if (mode == 0) { sc::drawNRandomElements(k, in, &out2, true); c.check(out == out2, "draw-fixed", "a fixed seed draws different elements"); }
}
// mean, median, stddev: all vectors over a small set of values.
static void stats(Ctx& c) {
  static const double vals[] = {-2.0, 0.0, 1.0, 5.0};
  const int n = 1 + c.choose(c.thorough ? 8 : 7, "n");
  std::vector<double> v;
  for (int i = 0; i < n; ++i) v.push_back(vals[c.choose(4, "x")]);
  long double sum = 0, ss = 0;
  for (double x : v) sum += x;
  const long double mu = sum / n;
  for (double x : v) ss += (x - mu) * (x - mu);
  std::vector<double> s = v, w = v;
  std::sort(s.begin(), s.end());
  const double med = n % 2 ? s[n / 2] : (s[n / 2] + s[n / 2 - 1]) / 2.0;
  c.check(std::fabs(sc::mean(v.begin(), v.end()) - (double)mu) < 1e-12, "mean", "mean of %d values", n);
  c.check(std::fabs(sc::stddev(v.begin(), v.end()) - std::sqrt((double)(ss / n))) < 1e-12, "stddev", "stddev of %d values", n);
  c.check(v == w, "stats-const", "the data changed");
  c.check(std::fabs(sc::median(w.begin(), w.end()) - med) < 1e-12, "median", "median of %d values is %g instead of %g", n, sc::median(w.begin(), w.end()), med);
  std::sort(w.begin(), w.end());
  c.check(w == s, "median-permutes", "median() lost an element");
  std::vector<int> iv;
  for (double x : v) iv.push_back((int)x);
  c.check(std::fabs(sc::median(iv.begin(), iv.end()) - med) < 1e-12, "median-int", "median of integers is %g instead of %g", sc::median(iv.begin(), iv.end()), med);
  c.check(std::fabs(sc::mean(iv.begin(), iv.end()) - (double)mu) < 1e-12, "mean-int", "mean of integers");
}
static void stats_empty(Ctx& c) {
  std::vector<double> e;
  switch (c.choose(3, "function")) {
    case 0: c.check(c.aborts([&] { sc::mean(e.begin(), e.end()); }), "mean-empty", "mean of nothing"); break;
    case 1: c.check(c.aborts([&] { sc::median(e.begin(), e.end()); }), "median-empty", "median of nothing"); break;
    default: c.check(c.aborts([&] { sc::stddev(e.begin(), e.end()); }), "stddev-empty", "stddev of nothing"); break;
  }
}
static void nested(Ctx& c) {
  const int outer = c.choose(5, "outer");
  std::vector<std::vector<int>> l(outer);
  Aligned<std::vector, Aligned<std::vector, int>> al(outer);
  size_t want = 0;
  for (int i = 0; i < outer; ++i) { int n = c.choose(4, "inner"); l[i].resize(n); al[i].resize(n); want += n; }
  c.check(sc::countNumberOfElementsInNestedList(l) == want && sc::countNumberOfElementsInNestedList(al) == want, "nested", "nested count");
}
static void eigen_to_stl(Ctx& c) {
  const int n = c.choose(6, "n"), before = c.choose(3, "before");
  Eigen::Matrix<double, 3, Eigen::Dynamic> m = colmat<Eigen::Matrix<double, 3, Eigen::Dynamic>>(3, n);
  Aligned<std::vector, Eigen::Vector3d> out(before);
  sc::convertEigenToStlVector<3>(m, &out);
  c.check((int)out.size() == n, "convert-size", "%zu vectors from %d columns", out.size(), n);
  for (int i = 0; i < n; ++i) c.check(out[i] == m.col(i), "convert", "column %d differs", i);
}
int main(int argc, char** argv) {
  return seqx::run_main(argc, argv, "S03", {
    {"erase-vector", "every index subset in every order, vectors of ints, aligned vectors, strings", erase_vector, 8},
    {"erase-matrix", "every index subset, all matrix container shapes", erase_matrix, 8},
    {"erase-refused", "out-of-range indices and wrong expected sizes", erase_refused, 1},
    {"keep-best", "every vector over 4 keys up to length 6 and every N", keep_best, 7},
    {"draw", "drawing k of n elements, all k and n", draw, 2},
    {"stats", "mean, median and stddev of every vector over 4 values up to length 7", stats, 7},
    {"stats-empty", "statistics of nothing", stats_empty, 1},
    {"nested", "all nested list shapes", nested, 1},
    {"eigen-to-stl", "matrix to vector of columns", eigen_to_stl, 1},
  });
}
