// Hamming distance and the descriptor statistics built on it, against bit-by-bit reference code.
#define SEQX_MAIN
#include "seqx.h"

#include <cmath>
#include <memory>
#include <glog/logging.h>
#include <aslam/common/descriptor-utils.h>
#include <aslam/common/feature-descriptor-ref.h>

using seqx::Ctx;
namespace ac = aslam::common;
namespace du = aslam::common::descriptor_utils;

static int pop(unsigned x) { int n = 0; for (; x; x >>= 1) n += x & 1; return n; }
static int ref_distance(const unsigned char* a, const unsigned char* b, int n) { int d = 0; for (int i = 0; i < n; ++i) d += pop(a[i] ^ b[i]); return d; }
// Exactly n bytes at the given offset from a 16 byte boundary; the sanitizer guards both ends as far as the alignment allows.
struct Bytes {
  std::unique_ptr<unsigned char[]> mem;
  unsigned char* p;
  Bytes(int n, int off) : mem(new unsigned char[n + off]), p(mem.get() + off) {}
};
static void compare(Ctx& c, const unsigned char* a, const unsigned char* b, int n, const char* what) {
  const int want = ref_distance(a, b, n);
  ac::Hamming h;
  c.check(h(a, b, n) == want && h(b, a, n) == want && ac::Hamming::evaluate(a, b, n) == want, "hamming", "%s: distance of %d bytes is %d instead of %d", what, n, h(a, b, n), want);
  if (n % 16 == 0 && n) c.check((int)ac::Hamming::PopcntofXORed(a, b, n / 16) == want, "popcnt", "%s: PopcntofXORed of %d words", what, n / 16);
  ac::FeatureDescriptorConstRef ra(a, n), rb(b, n);
  c.check((int)ac::GetNumBitsDifferent(ra, rb) == want && (int)ac::GetNumBitsDifferent(rb, ra) == want, "bits-different", "%s: GetNumBitsDifferent of %d bytes", what, n);
  c.check(ac::GetNumBitsDifferent(ra, ra) == 0, "self", "distance to itself");
  c.check((ra == rb) == (want == 0), "equality", "equality of %d bytes at distance %d", n, want);
}
// All sizes, all offsets of both operands, dense patterns.
static void sizes(Ctx& c) {
  const int n = c.choose(c.thorough ? 1200 : 600, "size"), oa = c.choose(2, "offset a"), ob = c.choose(2, "offset b");
  const int pattern = c.choose(6, "pattern");
  static const int offs[2][2] = {{0, 0}, {1, 7}};
  Bytes a(n, offs[oa][0]), b(n, offs[ob][1]);
  for (int i = 0; i < n; ++i) {
    a.p[i] = pattern == 0 ? 0 : pattern == 1 ? 0xff : pattern == 2 ? i : pattern == 3 ? i * 37 : pattern == 4 ? 0xff : 0x0f;
    b.p[i] = pattern == 0 ? 0xff : pattern == 1 ? 0xff : pattern == 2 ? 255 - i : pattern == 3 ? i * 11 + 5 : pattern == 4 ? (i % 16 ? 0xff : 0) : 0xf0;
  }
  compare(c, a.p, b.p, n, "dense");
}
// One differing bit, at every position of every size.
static void one_bit(Ctx& c) {
  const int n = c.range(1, c.thorough ? 160 : 80, "size"), bit = c.choose(n * 8, "bit");
  const int off = (n % 3) * 5;
  Bytes a(n, 0), b(n, off);
  memset(a.p, 0x5a, n);
  memset(b.p, 0x5a, n);
  b.p[bit / 8] ^= 1 << bit % 8;
  compare(c, a.p, b.p, n, "one bit");
}
// All pairs of byte values in one lane.
static void values(Ctx& c) {
  const int x = c.choose(256, "a"), y = c.choose(256, "b");
  Bytes a(32, 0), b(32, 0);
  for (int i = 0; i < 32; ++i) { a.p[i] = 0; b.p[i] = 0; }
  a.p[(x + y) % 32] = x;
  b.p[(x + y) % 32] = y;
  compare(c, a.p, b.p, 32, "byte pair");
}
static void unequal(Ctx& c) {
  const int n = c.choose(40, "n"), m = c.choose(40, "m");
  Bytes a(n, 0), b(m, 0);
  memset(a.p, 0, n);
  memset(b.p, 0, m);
  const ac::FeatureDescriptorConstRef x(a.p, n), y(b.p, m);
  c.check(c.aborts([&] { ac::GetNumBitsDifferent(x, y); }) == (n != m), "unequal", "descriptors of %d and %d bytes", n, m);
  c.check((x == y) == (n == m), "unequal-eq", "== of descriptors of %d and %d bytes", n, m);
}
// Single bits through both sets of bit functions.
static void bits(Ctx& c) {
  const int n = c.range(1, 6, "size"), bit = c.choose(64, "bit"), fill = c.pick({0, 0xff, 0xa5}, "fill");
  const bool in = bit < n * 8;
  du::DescriptorType v = du::DescriptorType::Constant(n, fill);
  Bytes d(n, 0);
  memset(d.p, fill, n);
  ac::FeatureDescriptorRef r(d.p, n, false);
  const bool was = in && fill >> (bit % 8) & 1;
  bool x = false, y = false;
  c.check(c.aborts([&] { x = du::getBit(bit, v); }) == !in && x == was, "get-bit", "getBit(%d)", bit);
  c.check(c.aborts([&] { y = ac::GetBit(bit, r.ToConstRef()); }) == !in && y == was, "GetBit", "GetBit(%d)", bit);
  const int op = c.choose(3, "op");
  unsigned char want[8];
  memset(want, fill, 8);
  if (op == 0) {
    c.check(c.aborts([&] { du::setBit(bit, &v); }) == !in, "set-range", "setBit(%d)", bit);
    if (in) want[bit / 8] |= 1 << bit % 8;
    c.check(memcmp(v.data(), want, n) == 0, "set-bit", "setBit(%d) changed other bits or not its own", bit);
  } else if (op == 1) {
    c.check(c.aborts([&] { ac::SetBit(bit, &r); }) == !in, "SetBit-range", "SetBit(%d)", bit);
    if (in) want[bit / 8] |= 1 << bit % 8;
    c.check(memcmp(d.p, want, n) == 0, "SetBit", "SetBit(%d)", bit);
  } else {
    c.check(c.aborts([&] { ac::FlipBit(bit, &r); }) == !in, "FlipBit-range", "FlipBit(%d)", bit);
    if (in) want[bit / 8] ^= 1 << bit % 8;
    c.check(memcmp(d.p, want, n) == 0, "FlipBit", "FlipBit(%d)", bit);
  }
}
static void flip_n(Ctx& c) {
  const int n = c.range(1, 6, "size"), k = c.choose(50, "bits");
  ac::FeatureDescriptorRef a(n), b(n);
  a.SetRandom(n);
  b = a;
  const bool refused = c.aborts([&] { ac::FlipNRandomBits(k, &b); });
  c.check(refused == (k >= n * 8), "flip-n-range", "flipping %d of %d bits", k, n * 8);
  c.check(ref_distance(a.data(), b.data(), n) == (refused ? 0 : k), "flip-n", "%d bits flipped instead of %d", ref_distance(a.data(), b.data(), n), k);
}
// Statistics of every list of up to N descriptors over a small alphabet of byte patterns.
static void stats(Ctx& c) {
  const int rows = c.pick({16, 1, 3, 20, 48, 64}, "bytes"), n = c.choose(c.thorough ? 7 : 6, "descriptors");
  du::DescriptorsType d(rows, n);
  static const unsigned char alphabet[] = {0x00, 0xff, 0x81, 0x3c};
  for (int j = 0; j < n; ++j) {
    const int k = c.choose(4, "pattern");
    for (int i = 0; i < rows; ++i) d(i, j) = alphabet[(k + (i == rows - 1 ? 1 : i % 2 ? 2 : 0)) % 4];
  }
  auto bit = [&](int b, int j) { return d(b / 8, j) >> (b % 8) & 1; };
  // majority
  du::DescriptorType mean = du::DescriptorType::Constant(2, 9);
  du::descriptorMeanRoundedToBinaryValue(d, &mean);
  c.check(mean.size() == rows, "mean-size", "mean of %d bytes has %d", rows, (int)mean.size());
  for (int b = 0; b < rows * 8; ++b) {
    int s = 0;
    for (int j = 0; j < n; ++j) s += bit(b, j);
    c.check((mean(b / 8) >> (b % 8) & 1) == (2 * s > n), "mean", "bit %d is set in %d of %d descriptors", b, s, n);
  }
  {
    std::vector<ac::FeatureDescriptorRef> refs(n);
    std::vector<ac::FeatureDescriptorRef*> ptrs;
    for (int j = 0; j < n; ++j) { refs[j].set_data(d.col(j).data(), false); refs[j].set_size_bytes(rows); ptrs.push_back(&refs[j]); }
    ac::FeatureDescriptorRef m(rows);
    m.SetRandom(3);
    if (n) {
      ac::DescriptorMean(ptrs, &m);
      c.check(memcmp(m.data(), mean.data(), rows) == 0, "DescriptorMean", "DescriptorMean differs");
      ac::FeatureDescriptorRef wrong(rows + 1);
      c.check(c.aborts([&] { ac::DescriptorMean(ptrs, &wrong); }), "mean-wrong", "a mean of another size is accepted");
    }
  }
  // mean absolute deviation
  double mad = 0;
  for (int j = 0; j < n; ++j) mad += ref_distance(d.col(j).data(), mean.data(), rows);
  mad = n < 2 ? 0 : mad / n;
  c.check(std::fabs(du::descriptorMeanAbsoluteDeviation(d) - mad) < 1e-9, "mad", "mean absolute deviation %g instead of %g", du::descriptorMeanAbsoluteDeviation(d), mad);
  // float mean and standard deviation
  Eigen::VectorXd fm;
  c.check(c.aborts([&] { du::floatDescriptorMean(d, &fm); }) == (n == 0), "float-mean-empty", "float mean of %d descriptors", n);
  double var = 0;
  if (n) {
    c.check(fm.size() == rows * 8, "float-mean-size", "size of the float mean");
    for (int b = 0; b < rows * 8; ++b) {
      double s = 0;
      for (int j = 0; j < n; ++j) s += bit(b, j);
      c.check(std::fabs(fm(b) - s / n) < 1e-12, "float-mean", "mean of bit %d is %g instead of %g", b, fm(b), s / n);
      for (int j = 0; j < n; ++j) var += (bit(b, j) - s / n) * (bit(b, j) - s / n);
    }
    var /= n;
  }
  c.check(std::fabs(du::descriptorMeanStandardDeviation(d) - (n < 2 ? 0 : std::sqrt(var))) < 1e-9, "stddev", "standard deviation %g instead of %g", du::descriptorMeanStandardDeviation(d), std::sqrt(var));
  // median
  size_t idx = 99;
  if (n) {
    du::getIndexOfDescriptorClosestToMedian(d, &idx);
    auto total = [&](int k) { int s = 0; for (int j = 0; j < n; ++j) s += ref_distance(d.col(k).data(), d.col(j).data(), rows); return s; };
    c.check((int)idx < n, "median-range", "index %zu of %d", idx, n);
    for (int k = 0; k < n; ++k) c.check(total(idx) <= total(k), "median", "descriptor %zu (%d) is not closest to all, %d is (%d)", idx, total(idx), k, total(k));
  }
}
int main(int argc, char** argv) {
  return seqx::run_main(argc, argv, "S07", {
    {"sizes", "every size up to 600 bytes, aligned and unaligned, 6 dense patterns", sizes, 8},
    {"one-bit", "one differing bit at every position of every size up to 80 bytes", one_bit, 8},
    {"values", "all pairs of byte values", values, 4},
    {"unequal", "descriptors of all pairs of sizes", unequal, 1},
    {"bits", "every bit of descriptors up to 6 bytes and beyond their end", bits, 1},
    {"flip-n", "flipping any number of random bits", flip_n, 1},
    {"stats", "every list of up to 5 descriptors over 4 patterns, 6 sizes", stats, 6},
  });
}
