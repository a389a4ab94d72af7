// HashId / UniqueId values: text and protobuf round trips, order, equality, hashing, validity.
#define SEQX_MAIN
#include "seqx.h"

#include <algorithm>
#include <map>
#include <sstream>
#include <unordered_map>
#include <unordered_set>

#include <aslam/common/hash-id.h>
#include <aslam/common/unique-id.h>

using seqx::Ctx;
using aslam::HashId;

namespace other { using aslam::FrameId; UNIQUE_ID_DEFINE_IMMUTABLE_ID(TrackId, FrameId); }
UNIQUE_ID_DEFINE_ID_HASH(other::TrackId);

struct V { uint64_t u[2]; };
static std::string model_hex(const V& v) {
  std::string s;
  unsigned char b[16];
  memcpy(b, v.u, 16);
  for (int i = 0; i < 16; ++i) s += seqx::fmt("%02x", b[i]);
  return s;
}
// Byte `i` of the 128 bits set to x.
static V byte_value(int i, int x, int j = 0, int y = 0) {
  unsigned char b[16] = {0};
  b[i] = x;
  b[j] |= y;
  V v;
  memcpy(v.u, b, 16);
  return v;
}
template <class IdT> IdT make(const V& v) { HashId h(v.u); IdT t; t.fromHashId(h); return t; }

static void check_value(Ctx& c, const V& v) {
  HashId h(v.u);
  const bool zero = v.u[0] == 0 && v.u[1] == 0;
  uint64_t back[2] = {7, 7};
  h.toUint64(back);
  c.check(back[0] == v.u[0] && back[1] == v.u[1], "uint64", "toUint64 differs from fromUint64");
  c.check(h.isValid() == !zero, "valid", "isValid() of %s", model_hex(v).c_str());
  const std::string hex = h.hexString();
  c.check(hex == model_hex(v), "hex", "hexString() is '%s' instead of '%s'", hex.c_str(), model_hex(v).c_str());
  c.check(h.shortHex() == hex.substr(0, 4), "short", "shortHex()");
  HashId r = HashId(byte_value(3, 0x5a, 9, 0xa5).u);
  c.check(r.fromHexString(hex) && r == h && !(r != h), "hex-round-trip", "fromHexString(hexString()) of %s gives %s", hex.c_str(), r.hexString().c_str());
  std::string up = hex;
  for (auto& ch : up) ch = toupper(ch);
  HashId r2;
  c.check(r2.fromHexString(up) && r2 == h, "hex-upper", "fromHexString() of upper case digits");
  std::ostringstream os;
  os << h;
  c.check(os.str() == hex, "stream", "operator<<");
  HashId copy(h), assigned;
  assigned = h;
  c.check(copy == h && assigned == h, "copy", "a copy differs");
  c.check(std::hash<HashId>()(copy) == std::hash<HashId>()(h) && copy.hashToSizeT() == h.hashToSizeT() &&
              copy.hashToSizeTFast() == h.hashToSizeTFast(), "hash-copy", "equal values hash differently");
  // typed identifiers and protobuf
  aslam::FrameId f = make<aslam::FrameId>(v);
  c.check(f.hexString() == hex && f.isValid() == !zero, "typed", "a typed id shows another value");
  aslam::proto::Id p;
  p.add_uint(11); p.add_uint(12); p.add_uint(13);
  f.serialize(&p);
  c.check(p.uint_size() == 2 && p.uint(0) == v.u[0] && p.uint(1) == v.u[1], "proto", "protobuf form of %s", hex.c_str());
  aslam::FrameId g(p), g2 = make<aslam::FrameId>(byte_value(1, 1));
  g2.deserialize(p);
  c.check(g == f && g2 == f && !(g != f), "proto-round-trip", "protobuf round trip of %s", hex.c_str());
  aslam::Id raw(p);
  c.check(raw.correspondsTo(p) && f == raw && raw.toIdType<aslam::NFramesId>().hexString() == hex, "id-cast", "Id conversions");
  std::string wire;
  p.SerializeToString(&wire);
  aslam::proto::Id q;
  c.check(q.ParseFromString(wire) && aslam::FrameId(q) == f, "wire", "wire round trip");
  other::TrackId t;
  t.fromFrameId(f);
  HashId th;
  t.toHashId(&th);
  c.check(th == h, "immutable", "fromFrameId()");
  c.check(f.printString() == hex.substr(0, 4) + ".." + hex.substr(28), "print", "printString() is %s", f.printString().c_str());
  std::ostringstream os2;
  os2 << f << raw;
  c.check(os2.str() == f.printString() + f.printString(), "stream-id", "operator<< of a typed id");
  f.setInvalid();
  c.check(!f.isValid() && f.hexString() == std::string(32, '0'), "invalid", "setInvalid()");
  HashId moved(v.u);
  moved.setInvalid();
  c.check(!moved.isValid() && moved == HashId(), "invalid", "setInvalid()");
}

static void single_bytes(Ctx& c) {
  int i = c.choose(16, "byte");
  int x = c.choose(256, "value");
  check_value(c, byte_value(i, x));
}
static void two_bytes(Ctx& c) {
  int i = c.choose(16, "byte"), j = c.choose(16, "byte2");
  static const int vals[] = {0x01, 0x7f, 0x80, 0xff, 0x9a};
  check_value(c, byte_value(i, vals[c.choose(5, "value")], j, vals[c.choose(5, "value2")]));
}
// Every byte of a 32 digit string replaced by every character; every length.
static void bad_text(Ctx& c) {
  const std::string good = "0123456789abcdef00fedcba98765432";
  const int kind = c.choose(2, "kind");
  HashId h(byte_value(0, 0x42).u);
  const HashId before = h;
  if (kind == 0) {
    const int pos = c.choose(32, "position"), ch = c.choose(256, "character");
    std::string s = good;
    s[pos] = static_cast<char>(ch);
    const bool is_hex = (ch >= '0' && ch <= '9') || (ch >= 'a' && ch <= 'f') || (ch >= 'A' && ch <= 'F');
    bool ok = h.fromHexString(s);
    c.check(ok == is_hex, "hex-accept", "fromHexString() %s character %d at position %d", ok ? "accepts" : "refuses", ch, pos);
    if (ok) {
      for (auto& k : s) k = tolower(k);
      c.check(h.hexString() == s, "hex-value", "wrong value parsed");
    } else {
      c.check(h == before, "hex-unchanged", "a refused string changed the identifier");
    }
  } else {
    const int len = c.choose(70, "length");
    std::string s(len, 'a');
    bool ok = h.fromHexString(s);
    c.check(ok == (len == 32), "hex-length", "fromHexString() %s %d characters", ok ? "accepts" : "refuses", len);
    if (!ok) c.check(h == before, "hex-unchanged", "a refused string changed the identifier");
  }
}

static std::vector<V> order_set() {
  std::vector<V> s;
  const uint64_t w[] = {0, 1, 2, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull, 0x100000000ull, 255};
  for (uint64_t a : w) for (uint64_t b : w) s.push_back(V{{a, b}});
  return s;
}
// Order and equality of all pairs, transitivity over all triples, for HashId and typed ids.
static void order(Ctx& c) {
  static const std::vector<V> s = order_set();
  const V a = s[c.choose(s.size(), "a")], b = s[c.choose(s.size(), "b")];
  HashId x(a.u), y(b.u);
  const bool eq = a.u[0] == b.u[0] && a.u[1] == b.u[1];
  c.check((x == y) == eq && (x != y) == !eq, "equality", "equality of %s and %s", model_hex(a).c_str(), model_hex(b).c_str());
  c.check((x < y) + (y < x) + eq == 1, "trichotomy", "< is not a strict total order on %s, %s", model_hex(a).c_str(), model_hex(b).c_str());
  c.check((x > y) == (y < x), "greater", "> is not the converse of < on %s, %s", model_hex(a).c_str(), model_hex(b).c_str());
  aslam::FrameId f = make<aslam::FrameId>(a), g = make<aslam::FrameId>(b);
  c.check((f == g) == eq && (f != g) == !eq && (f < g) == (x < y), "typed-order", "typed ids compare differently");
  aslam::Id ig; ig.fromHashId(y);
  c.check((f == ig) == eq && (f != ig) == !eq && (f < ig) == (x < y), "id-order", "comparison with Id differs");
  aslam::Id ix; ix.fromHashId(x);
  if (eq) {
    c.check(std::hash<aslam::FrameId>()(f) == std::hash<aslam::FrameId>()(g) && std::hash<aslam::Id>()(ix) == std::hash<aslam::Id>()(ig),
            "hash-equal", "equal ids hash differently");
  } else {
    c.check(x.hexString() != y.hexString(), "hex-injective", "different ids print the same");
  }
  for (const V& w : s) {
    HashId z(w.u);
    c.check(!((x < y) && (y < z)) || (x < z), "transitivity", "< is not transitive");
  }
}
// Containers keyed by ids behave like sets over the values: all subsets of a small universe, inserted in any rotation.
static void containers(Ctx& c) {
  std::vector<V> s;
  for (int i = 0; i < 16; i += 3) s.push_back(byte_value(i, 1));
  s.push_back(V{{0, 0}}); s.push_back(V{{~0ull, 0}}); s.push_back(V{{0, ~0ull}}); s.push_back(V{{~0ull, ~0ull}});
  const int mask = c.choose(1 << s.size(), "subset");
  const int rot = c.choose(3, "rotation");
  std::unordered_set<aslam::FrameId> us;
  std::set<aslam::FrameId> os;
  std::unordered_map<HashId, int> um;
  std::set<std::string> ref;
  for (size_t k = 0; k < s.size(); ++k) {
    size_t i = (k * 7 + rot) % s.size();
    if (!(mask >> i & 1)) continue;
    us.insert(make<aslam::FrameId>(s[i])); us.insert(make<aslam::FrameId>(s[i]));
    os.insert(make<aslam::FrameId>(s[i]));
    um[HashId(s[i].u)] = i;
    ref.insert(model_hex(s[i]));
  }
  c.check(us.size() == ref.size() && os.size() == ref.size() && um.size() == ref.size(), "sets", "a container merged or split ids");
  for (size_t i = 0; i < s.size(); ++i) {
    const bool in = mask >> i & 1;
    c.check(us.count(make<aslam::FrameId>(s[i])) == in && os.count(make<aslam::FrameId>(s[i])) == in && um.count(HashId(s[i].u)) == in,
            "lookup", "lookup of %s", model_hex(s[i]).c_str());
    if (in) c.check(um[HashId(s[i].u)] == (int)i, "map-value", "a map returned another id's value");
  }
}
static void from_int(Ctx& c) {
  static const unsigned w[] = {0, 1, 2, 9, 10, 15, 16, 99, 100, 255, 256, 999, 65535, 65536, 1000000, 2147483647u, 2147483648u, 4294967295u};
  unsigned a, b;
  if (c.flag("boundary")) { a = w[c.choose(18, "a")]; b = w[c.choose(18, "b")]; }
  else { a = c.choose(300, "a"); b = c.choose(300, "b"); }
  aslam::FrameId x, y;
  aslam::generateIdFromInt(a, &x);
  aslam::generateIdFromInt(b, &y);
  c.check((x == y) == (a == b), "from-int", "generateIdFromInt(%u) and (%u)", a, b);
  std::string dec = std::to_string(a);
  c.check(x.hexString() == std::string(32 - dec.size(), '0') + dec, "from-int-value", "generateIdFromInt(%u) = %s", a, x.hexString().c_str());
}
// Sequences of generated ids: every id valid and new, ids of different generators mixed.
static void generated(Ctx& c) {
  std::set<std::string> unique_ids, random_ids;
  for (int i = 0; i < 6; ++i) {
    switch (c.choose(4, "generator")) {
      case 0: { aslam::FrameId f; aslam::generateId(&f); c.check(f.isValid() && unique_ids.insert(f.hexString()).second, "fresh", "generateId()"); break; }
      case 1: { auto f = aslam::createRandomId<aslam::NFramesId>(); c.check(f.isValid() && unique_ids.insert(f.hexString()).second, "fresh", "createRandomId()"); break; }
      case 2: { HashId h = HashId::random(); c.check(h.isValid() && random_ids.insert(h.hexString()).second, "fresh", "HashId::random()"); break; }
      default: { HashId h; h.randomize(); c.check(h.isValid() && random_ids.insert(h.hexString()).second, "fresh", "randomize()"); break; }
    }
  }
}
static void proto_shape(Ctx& c) {
  const int n = c.choose(5, "fields");
  aslam::proto::Id p;
  for (int i = 0; i < n; ++i) p.add_uint(100 + i);
  bool refused = c.aborts([&] { aslam::FrameId f(p); });
  c.check(refused == (n != 2), "proto-shape", "a protobuf id with %d words is %s", n, refused ? "refused" : "accepted");
}

int main(int argc, char** argv) {
  return seqx::run_main(argc, argv, "S01", {
    {"single-bytes", "every value with one non-zero byte: all conversions", single_bytes, 4},
    {"two-bytes", "values with two non-zero bytes out of boundary values", two_bytes, 4},
    {"bad-text", "every character at every position, every length 0..69", bad_text, 2},
    {"order", "all pairs and triples of 64 boundary values", order, 8},
    {"containers", "all subsets of 10 ids in hash and ordered containers", containers, 4},
    {"from-int", "generateIdFromInt() of all pairs", from_int, 2},
    {"generated", "all sequences of 6 calls of the generators", generated, 4},
    {"proto-shape", "protobuf ids with 0..4 words", proto_shape, 1},
  });
}
