// Channel serialization: lossless round trips, and no truncated or corrupted serialization is misread.
#define SEQX_MAIN
#include "seqx.h"

#include <cmath>
#include <limits>
#include <memory>

#include <aslam/common/channel-definitions.h>

using seqx::Ctx;
namespace ch = aslam::channels;

namespace {
typedef std::string Bytes;

template <class T> struct Bits { static std::vector<T> values() {
  typedef std::numeric_limits<T> L;
  std::vector<T> v = {T(0), T(1), L::lowest(), L::max(), L::min(), T(L::max() / 2), T(7)};
  if (L::is_signed) { v.push_back(T(-1)); v.push_back(T(-42)); }
  if (!L::is_integer) {
    for (double x : {0.1, -0.1, 1.0 / 3, 1e-7, -1e-12, 123456.789012345, 1e30, 3.0000001, 1e-38, 1e-40, 5e-324, 1e-310}) v.push_back(T(x));
    v.push_back(L::epsilon()); v.push_back(L::denorm_min()); v.push_back(std::nextafter(T(1), T(2))); v.push_back(std::nextafter(L::max(), T(0)));
    v.push_back(T(-0.0)); v.push_back(L::infinity()); v.push_back(-L::infinity()); v.push_back(L::quiet_NaN());
  } else {
    for (int k = 0; k < L::digits; ++k) { const uint64_t b = 1ull << k; v.push_back(T(b)); v.push_back(T(b - 1)); if (L::is_signed) v.push_back(T(-(int64_t)b)); }
  }
  return v;
} };
template <class T> bool same(T a, T b) { return memcmp(&a, &b, sizeof(T)) == 0 || (a != a && b != b); }

template <class C> Bytes to_string(const C& c, Ctx& x) { Bytes s("rubbish"); x.check(c.serializeToString(&s), "ser", "serializeToString failed"); return s; }
template <class C> Bytes to_buffer(const C& c, Ctx& x) {
  char* b = nullptr;
  size_t n = 0;
  x.check(c.serializeToBuffer(&b, &n) && b != nullptr, "ser-buffer", "serializeToBuffer failed");
  Bytes s(b, n);
  delete[] b;
  return s;
}
// Reads from memory that ends right after the bytes, so that the sanitizer sees every byte read beyond.
template <class C> bool from_buffer(C* c, const Bytes& s) {
  std::unique_ptr<char[]> b(new char[s.size()]);
  memcpy(b.get(), s.data(), s.size());
  return c->deSerializeFromBuffer(b.get(), s.size());
}
// True if the call refuses its input: returns false, fails a CHECK or throws.
template <class F> bool refuses(F f) {
  try { return !f(); } catch (const seqx::CheckFailed&) { return true; } catch (const std::exception&) { return true; }
}

// ---- scalars
template <class T> void scalar_t(Ctx& c) {
  const std::vector<T> v = Bits<T>::values();
  const T x = v[c.choose(v.size(), "value")];
  ch::Channel<T> a;
  a.value_ = x;
  const Bytes s = to_string(a, c), b = to_buffer(a, c);
  {
    ch::Channel<T> r;
    r.value_ = T(3);
    c.check(r.deSerializeFromString(s) && same(r.value_, x), "text", "%.20Lg -> '%s' -> %.20Lg", (long double)x, s.c_str(), (long double)r.value_);
    r.value_ = T(3);
    c.check(from_buffer(&r, b) && same(r.value_, x), "binary", "binary round trip of %.20Lg", (long double)x);
    c.check(to_string(a, c) == s && same(a.value_, x), "again", "serializing twice differs");
  }
  for (size_t n = 0; n <= b.size() + 1; ++n) {
    if (n == b.size()) continue;
    ch::Channel<T> r;
    Bytes t = b;
    t.resize(n);
    c.check(refuses([&] { return from_buffer(&r, t); }), "length", "%zu bytes accepted for a %zu-byte value", n, b.size());
  }
  ch::Channel<T> r;
  c.check(refuses([&] { return r.deSerializeFromString(""); }), "empty", "an empty string was accepted");
}
void scalar(Ctx& c) {
  switch (c.choose(10, "type")) {
    case 0: scalar_t<int8_t>(c); break;
    case 1: scalar_t<uint8_t>(c); break;
    case 2: scalar_t<int16_t>(c); break;
    case 3: scalar_t<uint16_t>(c); break;
    case 4: scalar_t<int32_t>(c); break;
    case 5: scalar_t<uint32_t>(c); break;
    case 6: scalar_t<int64_t>(c); break;
    case 7: scalar_t<uint64_t>(c); break;
    case 8: scalar_t<float>(c); break;
    default: scalar_t<double>(c); break;
  }
}
// ---- matrices
template <class T> T elem(int i, int j, int k = 0) { return T(1 + i + 16 * j + 77 * k) / (std::is_floating_point<T>::value ? T(3) : T(1)); }
template <class M> void fill(M* m, int r, int cols) {
  m->resize(r, cols);
  for (int i = 0; i < r; ++i) for (int j = 0; j < cols; ++j) (*m)(i, j) = elem<typename M::Scalar>(i, j);
}
template <class M> bool equal(const M& a, const M& b) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) if (!same(a(i, j), b(i, j))) return false;
  return true;
}
template <class T> bool equal(const std::vector<T>& a, const std::vector<T>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (!equal(a[i], b[i])) return false;
  return true;
}
bool equal(const cv::Mat& a, const cv::Mat& b) {
  if (a.rows != b.rows || a.cols != b.cols || a.type() != b.type()) return false;
  for (int i = 0; i < a.rows; ++i) if (memcmp(a.ptr(i), b.ptr(i), a.cols * a.elemSize())) return false;
  return true;
}
// Round trip through both forms, into fresh and into used channels.
template <class V, class Used> void round_trip(Ctx& c, const V& value, Used used, Bytes* bytes) {
  ch::Channel<V> a;
  a.value_ = value;
  const Bytes s = to_string(a, c), b = to_buffer(a, c);
  c.check(s == b, "forms", "the string has %zu bytes, the buffer %zu, or they differ", s.size(), b.size());
  for (int k = 0; k < 4; ++k) {
    ch::Channel<V> r;
    if (k & 1) used(&r.value_);
    const bool ok = k & 2 ? from_buffer(&r, b) : r.deSerializeFromString(s);
    c.check(ok && equal(r.value_, value), "round-trip", "the value changed (%s, %s)", k & 2 ? "buffer" : "string", k & 1 ? "used channel" : "fresh channel");
  }
  c.check(equal(a.value_, value), "source", "serializing changed the value");
  *bytes = b;
}
// Dimensions that only an empty matrix can have, and that have no serialization.
template <class M> bool huge(const M& m) { return m.rows() > 0x7fffffffll || m.cols() > 0x7fffffffll; }
template <class M> bool huge(const std::vector<M>& v) { for (auto& m : v) if (huge(m)) return true; return false; }
bool huge(const cv::Mat&) { return false; }
// A damaged serialization is refused, or it is a valid serialization of what was read.
template <class V> void damaged(Ctx& c, const Bytes& b, const char* what) {
  ch::Channel<V> r;
  bool refused = refuses([&] { return from_buffer(&r, b); });
  if (!refused) {
    Bytes again;
    const bool odd = refuses([&] { return r.serializeToString(&again); });
    c.check(huge(r.value_) || (!odd && again == b), "damaged", "%s: accepted, although it is not the serialization of the value read", what);
  }
  ch::Channel<V> q;
  const bool refused2 = refuses([&] { return q.deSerializeFromString(b); });
  c.check(refused == refused2, "damaged-forms", "%s: buffer %s, string %s", what, refused ? "refused" : "accepted", refused2 ? "refused" : "accepted");
}
template <class V> void damage(Ctx& c, const Bytes& b) {
  const int kind = c.choose(3, "damage");
  if (kind == 0) {
    const int n = c.choose(b.size() + 3, "length");
    Bytes t = b;
    t.resize(n, 'x');
    if (t.size() == b.size()) return;
    ch::Channel<V> r;
    c.check(refuses([&] { return from_buffer(&r, t); }), "truncated", "%d of %zu bytes were accepted", n, b.size());
    c.check(refuses([&] { return r.deSerializeFromString(t); }), "truncated-string", "%d of %zu bytes were accepted", n, b.size());
  } else if (kind == 1) {
    const int at = c.choose(b.size(), "byte"), to = c.choose(c.thorough ? 256 : 16, "value");
    static const unsigned char few[16] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 16, 32, 64, 127, 128, 254, 255};
    Bytes t = b;
    t[at] = c.thorough ? to : few[to];
    damaged<V>(c, t, "one byte changed");
  }
}
template <class M> void matrix_t(Ctx& c, int fixed_rows, int fixed_cols) {
  const int r = fixed_rows >= 0 ? fixed_rows : c.choose(4, "rows"), n = fixed_cols >= 0 ? fixed_cols : c.choose(4, "cols");
  M m;
  fill(&m, r, n);
  Bytes b;
  round_trip(c, m, [&](M* u) { fill(u, fixed_rows >= 0 ? fixed_rows : 2, fixed_cols >= 0 ? fixed_cols : 5); u->setConstant(9); }, &b);
  damage<M>(c, b);
}
template <class T> void matrices_t(Ctx& c) {
  switch (c.choose(7, "shape")) {
    case 0: matrix_t<Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic>>(c, -1, -1); break;
    case 1: matrix_t<Eigen::Matrix<T, 2, Eigen::Dynamic>>(c, 2, -1); break;
    case 2: matrix_t<Eigen::Matrix<T, 3, Eigen::Dynamic>>(c, 3, -1); break;
    case 3: matrix_t<Eigen::Matrix<T, Eigen::Dynamic, 1>>(c, -1, 1); break;
    case 4: matrix_t<Eigen::Matrix<T, Eigen::Dynamic, 3>>(c, -1, 3); break;
    case 5: matrix_t<Eigen::Matrix<T, 3, 2>>(c, 3, 2); break;
    default: matrix_t<Eigen::Matrix<T, 4, 1>>(c, 4, 1); break;
  }
}
void matrix(Ctx& c) {
  switch (c.choose(7, "type")) {
    case 0: matrices_t<unsigned char>(c); break;
    case 1: matrices_t<signed char>(c); break;
    case 2: matrices_t<uint16_t>(c); break;
    case 3: matrices_t<int16_t>(c); break;
    case 4: matrices_t<int>(c); break;
    case 5: matrices_t<float>(c); break;
    default: matrices_t<double>(c); break;
  }
}
// ---- lists of matrices
template <class M> void list_t(Ctx& c, int fixed_rows, int n) {
  std::vector<M> v(n);
  for (int i = 0; i < n; ++i) {
    fill(&v[i], fixed_rows >= 0 ? fixed_rows : c.choose(3, "rows"), c.choose(3, "cols"));
    if (v[i].size()) v[i](0, 0) = 100 + i;
  }
  Bytes b;
  round_trip(c, v, [](std::vector<M>* u) { u->resize(2); }, &b);
  damage<std::vector<M>>(c, b);
}
void list(Ctx& c) {
  const int k = c.choose(c.thorough ? 12 : 9, "type and length");
  switch (k % 3) {
    case 0: list_t<Eigen::Matrix<unsigned char, Eigen::Dynamic, Eigen::Dynamic>>(c, -1, k / 3); break;
    case 1: list_t<Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic>>(c, -1, k / 3); break;
    default: list_t<Eigen::Matrix<int, 2, Eigen::Dynamic>>(c, 2, k / 3); break;
  }
}
// ---- images
void image(Ctx& c) {
  static const int depths[] = {CV_8U, CV_8S, CV_16U, CV_16S, CV_32S, CV_32F, CV_64F};
  const int depth = depths[c.choose(7, "depth")], chan = c.range(1, 4, "channels"), r = c.range(1, 3, "rows"), n = c.range(1, 3, "cols");
  cv::Mat m(r, n, CV_MAKETYPE(depth, chan));
  for (int i = 0; i < r; ++i) for (size_t k = 0; k < n * m.elemSize(); ++k) m.ptr(i)[k] = 1 + 31 * i + 7 * k;
  Bytes b;
  round_trip(c, m, [&](cv::Mat* u) { *u = cv::Mat(5, 2, CV_8UC3, cv::Scalar(1)); }, &b);
  if (depth == CV_8U || depth == CV_32F) damage<cv::Mat>(c, b);
}
void image_refused(Ctx& c) {
  ch::Channel<cv::Mat> a;
  const int k = c.choose(3, "case");
  cv::Mat big(4, 6, CV_8UC1, cv::Scalar(3));
  if (k == 0) a.value_ = big(cv::Rect(1, 1, 3, 2));  // not contiguous
  if (k == 1) { int sz[3] = {2, 2, 2}; a.value_ = cv::Mat(3, sz, CV_8UC1); }
  if (k == 2) a.value_ = cv::Mat(2, 2, CV_16F);
  Bytes s;
  char* p = nullptr;
  size_t n;
  c.check(refuses([&] { return a.serializeToString(&s); }) && refuses([&] { return a.serializeToBuffer(&p, &n); }), "unsupported",
          "an image that cannot be serialized is accepted (case %d)", k);
}
// ---- headers: every combination of boundary values in two header fields
uint32_t bound(Ctx& c, const char* n) {
  static const std::vector<uint32_t> v = {0, 1, 2, 4, 6, 12, 512, 513, 1024, 1026, 65536, 1u << 30, 0x7fffffff, 0x80000000u, 0xfffffffeu, 0xffffffffu};
  return c.pick(v, n);
}
Bytes header(uint32_t rows, uint32_t cols, uint32_t depth, uint32_t chan, size_t payload) {
  Bytes s;
  for (uint32_t x : {rows, cols, depth, chan}) s.append((const char*)&x, 4);
  s.append(payload, '\5');
  return s;
}
void crafted(Ctx& c) {
  const uint32_t rows = bound(c, "rows"), cols = bound(c, "cols");
  const uint32_t chan = c.pick<uint32_t>({0, 1, 2, 16, 512, 513, 1026, 0x10001, 0xffffffffu}, "channels");
  const uint32_t depth = c.pick<uint32_t>({CV_8U, CV_32S, CV_64F, 7, 8, 0xffffffffu}, "depth");
  std::vector<size_t> sizes = {0, 8, 1026, 2052};
  const __int128 exact = (__int128)rows * cols * chan * (depth == CV_64F ? 8 : depth == CV_32S ? 4 : 1);
  if (exact < 100000) sizes.push_back((size_t)exact);
  const size_t payload = sizes[c.choose(sizes.size(), "payload")];
  const Bytes b = header(rows, cols, depth, chan, payload);
  auto one = [&](auto* r, const char* what) {
    const bool refused = refuses([&] { return from_buffer(r, b); });
    if (!refused) {
      c.check(exact == (__int128)payload, "crafted-size", "%s: %ux%u, depth %u, %u channels read from %zu bytes", what, rows, cols, depth, chan, payload);
      // The header may describe an empty value in several ways; any other value must serialize to the same bytes.
      if (payload) {
        Bytes again;
        const bool odd = refuses([&] { return r->serializeToString(&again); });
        c.check(!odd && again == b, "crafted", "%s: %ux%u, depth %u, %u channels, %zu bytes accepted but misread", what, rows, cols, depth, chan, payload);
      }
    }
  };
  if ((rows > 4096 || cols > 4096) && exact > 100000) {
    // The matrix readers allocate before they compare sizes: only sizes that cannot be allocated are worth a try.
    if ((__int128)rows * cols < ((__int128)1 << 36)) return;
  }
  { ch::Channel<cv::Mat> r; one(&r, "image"); }
  { ch::Channel<Eigen::MatrixXi> r; one(&r, "matrix"); }
  { ch::Channel<Eigen::Matrix2Xd> r; one(&r, "2xN matrix"); }
}
void crafted_list(Ctx& c) {
  typedef Eigen::Matrix<unsigned char, Eigen::Dynamic, Eigen::Dynamic> M;
  const uint64_t repeat = c.pick<uint64_t>({0, 1, 2, 3, 100, 1ull << 20, 1ull << 31, 1ull << 60, 1ull << 63, ~0ull}, "count");
  const uint32_t rows = c.pick<uint32_t>({0, 1, 2, 0xffffffffu}, "rows"), cols = c.pick<uint32_t>({0, 1, 3, 0xffffffffu}, "cols");
  const int headers = c.choose(3, "headers");
  const int payload = c.choose(8, "payload");
  Bytes b((const char*)&repeat, 8);
  for (int i = 0; i < headers; ++i) b += header(rows, cols, CV_8U, 1, payload);
  const int tail = c.choose(3, "extra bytes");
  b.append(tail * 5, 'z');
  damaged<std::vector<M>>(c, b, "crafted list");
}
}  // namespace

extern "C" const char* __asan_default_options() { return "max_allocation_size_mb=16"; }

int main(int argc, char** argv) {
  return seqx::run_main(argc, argv, "S05", {
    {"scalar", "10 scalar types, boundary values (limits, powers of two, denormals, infinities, NaN), every wrong length", scalar, 10},
    {"matrix", "7 element types x 7 shapes, all sizes up to 3x3, every prefix, every byte replaced", matrix, 7},
    {"list", "lists of up to 2 (thorough: 3) matrices of all sizes up to 2x2, every prefix, every byte replaced", list, 12},
    {"image", "7 depths x 1-4 channels, all sizes up to 3x3, every prefix, every byte replaced", image, 7},
    {"image-refused", "images that cannot be serialized", image_refused, 1},
    {"crafted", "headers of all combinations of boundary values", crafted, 16},
    {"crafted-list", "list headers of all combinations of boundary values", crafted_list, 10},
  });
}
