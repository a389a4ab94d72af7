// FeatureDescriptorRef: every sequence of operations on three references, against a model of who owns what.
#define SEQX_MAIN
#include "seqx.h"

#include <memory>
#include <new>
#include <glog/logging.h>
#include <aslam/common/feature-descriptor-ref.h>

using seqx::Ctx;
namespace ac = aslam::common;
typedef ac::FeatureDescriptorRef Ref;

static long g_arrays = 0;  // living arrays
void* operator new[](size_t n) { ++g_arrays; void* p = malloc(n ? n : 1); memset(p, 0xee, n); return p; }
void operator delete[](void* p) noexcept { if (p) --g_arrays; free(p); }
void operator delete[](void* p, size_t) noexcept { if (p) --g_arrays; free(p); }

struct Model {
  bool alive = false, owned = false;
  int ext = -1;              // external buffer it refers to (not owned)
  int size = 0;
  std::vector<int> bytes;    // contents when owned; -1: not written yet
};
static const int kSlots = 3, kExt = 2, kExtSize = 3;

static void ops(Ctx& c) {
  const long base = g_arrays;
  {
    alignas(Ref) static unsigned char mem[kSlots][sizeof(Ref)];
    Ref* r[kSlots] = {};
    Model m[kSlots];
    unsigned char ext[kExt][kExtSize] = {{1, 2, 3}, {4, 5, 6}};
    auto get = [&](const Model& x, int i) -> int { return x.owned ? x.bytes[i] : ext[x.ext][i]; };
    auto create = [&](int s) { memset(mem[s], 0xff, sizeof(Ref)); };
    auto cleanup = [&]() { for (int s = 0; s < kSlots; ++s) if (r[s]) { r[s]->~Ref(); r[s] = nullptr; } };
    struct Guard { std::function<void()> f; ~Guard() { f(); } } guard{cleanup};
    auto verify = [&](const char* what) {
      long owners = 0;
      for (int s = 0; s < kSlots; ++s) {
        if (!m[s].alive) continue;
        owners += m[s].owned;
        c.check((int)r[s]->size() == m[s].size, "size", "after %s: size %u instead of %d", what, r[s]->size(), m[s].size);
        if (!m[s].owned) c.check(r[s]->data() == (m[s].ext < 0 ? nullptr : ext[m[s].ext]), "shares", "after %s: a reference that does not own points elsewhere", what);
        else for (int k = 0; k < kExt; ++k) c.check(r[s]->data() != ext[k] && r[s]->data(), "owns", "after %s: an owner points to foreign memory", what);
        for (int t = 0; t < s; ++t) if (m[t].alive && m[t].owned && m[s].owned) c.check(r[s]->data() != r[t]->data(), "unique", "after %s: two owners of the same memory", what);
        const Ref& cr = *r[s];
        for (int i = 0; i < m[s].size; ++i) {
          if (!m[s].owned && m[s].ext < 0) break;
          const int want = get(m[s], i);
          if (want >= 0) c.check(cr[i] == want && (*r[s])[i] == want && r[s]->ToConstRef()[i] == want && r[s]->data()[i] == want, "contents", "after %s: byte %d of reference %d is %d instead of %d", what, i, s, cr[i], want);
        }
        c.check(c.aborts([&] { (void)cr[m[s].size]; }) && c.aborts([&] { (*r[s])[m[s].size] = 1; }), "bounds", "after %s: index %d is accepted", what, m[s].size);
        c.check(*r[s] == *r[s], "self-equal", "a reference differs from itself");
        for (int t = 0; t < kSlots; ++t) {
          if (!m[t].alive || t == s) continue;
          bool eq = m[s].size == m[t].size && (m[s].owned || m[s].ext >= 0) == (m[t].owned || m[t].ext >= 0), known = true;
          if (eq && (m[s].owned || m[s].ext >= 0)) for (int i = 0; i < m[s].size; ++i) {
            const int a = get(m[s], i), b = get(m[t], i);
            if (a < 0 || b < 0) known = false; else if (a != b) eq = false;
          }
          if (known || !eq) c.check((*r[s] == *r[t]) == eq, "equal", "after %s: == of references %d and %d", what, s, t);
        }
      }
      c.check(g_arrays - base == owners, "leak", "after %s: %ld arrays are allocated, %ld are owned", what, g_arrays - base, owners);
    };
    const int depth = c.thorough ? 7 : 5;
    int val = 10;
    for (int d = 0; d < depth; ++d) {
      const int s = c.choose(kSlots, "slot");
      if (s > 0 && !m[s].alive && !m[s - 1].alive) throw seqx::Pruned();  // slots are interchangeable
      if (!m[s].alive) {
        const int op = c.choose(6, "create");
        create(s);
        m[s] = Model();
        m[s].alive = true;
        if (op == 0) r[s] = new (mem[s]) Ref();
        else if (op == 1) { r[s] = new (mem[s]) Ref(2u); m[s].owned = true; m[s].size = 2; m[s].bytes.assign(2, -1); }
        else if (op == 2) { r[s] = new (mem[s]) Ref(ext[0], kExtSize, false); m[s].ext = 0; m[s].size = kExtSize; }
        else if (op == 3) {
          unsigned char* p = new unsigned char[2];
          p[0] = val; p[1] = val + 1;
          r[s] = new (mem[s]) Ref(p, 2, true);
          m[s].owned = true; m[s].size = 2; m[s].bytes = {val, val + 1};
          val += 2;
        } else {
          const int t = (s + op - 3) % kSlots;
          if (!m[t].alive) { m[s].alive = false; throw seqx::Pruned(); }
          r[s] = new (mem[s]) Ref(*r[t]);
          m[s] = m[t];
        }
        verify("construction");
      } else {
        const int op = c.choose(13, "op");
        if (op == 0) { r[s]->~Ref(); r[s] = nullptr; m[s] = Model(); verify("destruction"); }
        else if (op <= 3) {
          const int t = (s + op) % kSlots;  // op 3: self
          if (!m[t].alive) throw seqx::Pruned();
          Ref* ret = &(*r[s] = *r[t]);
          c.check(ret == r[s], "assign-ref", "operator= returns another object");
          if (s != t) {
            if (m[s].owned || m[t].owned) {
              std::vector<int> b;
              for (int i = 0; i < m[t].size; ++i) b.push_back(get(m[t], i));
              m[s].owned = true; m[s].ext = -1; m[s].size = m[t].size; m[s].bytes = b;
            } else {
              m[s] = m[t];
            }
          }
          verify("assignment");
        } else if (op <= 6) {
          const int n = op - 3;  // 1..3
          const bool keep = m[s].owned && m[s].size == n;
          r[s]->Allocate(n);
          if (!keep) { m[s].owned = true; m[s].ext = -1; m[s].size = n; m[s].bytes.assign(n, -1); }
          verify("Allocate");
        } else if (op == 7) {
          if (!m[s].owned && m[s].ext < 0) throw seqx::Pruned();
          r[s]->SetZero();
          for (int i = 0; i < m[s].size; ++i) { if (m[s].owned) m[s].bytes[i] = 0; else ext[m[s].ext][i] = 0; }
          for (int i = 0; i < m[s].size; ++i) c.check(r[s]->data()[i] == 0, "zero", "SetZero");
          verify("SetZero");
        } else if (op == 8) {
          if (!m[s].owned && m[s].ext < 0) { r[s]->SetRandom(1); verify("SetRandom"); continue; }
          r[s]->SetRandom(5);
          if (m[s].owned) {
            std::vector<int> first;
            for (int i = 0; i < m[s].size; ++i) first.push_back(r[s]->data()[i]);
            r[s]->SetRandom(5);
            for (int i = 0; i < m[s].size; ++i) c.check(r[s]->data()[i] == first[i], "random", "SetRandom is not deterministic");
            m[s].bytes = first;
          }
          verify("SetRandom");
        } else if (op == 9) {
          if (!m[s].size) throw seqx::Pruned();
          const int i = m[s].size - 1;
          (*r[s])[i] = val;
          if (m[s].owned) m[s].bytes[i] = val; else ext[m[s].ext][i] = val;
          ++val;
          verify("a write");
        } else if (op == 10) {
          if (m[s].size < 1 || m[s].size > kExtSize) throw seqx::Pruned();
          r[s]->set_data(ext[1], false);
          m[s].owned = false; m[s].ext = 1; m[s].bytes.clear();
          verify("set_data");
        } else if (op == 11) {
          if (m[s].size < 1) throw seqx::Pruned();
          unsigned char* p = new unsigned char[m[s].size];
          m[s].bytes.clear();
          for (int i = 0; i < m[s].size; ++i) { p[i] = val; m[s].bytes.push_back(val++); }
          r[s]->set_data(p, true);
          m[s].owned = true; m[s].ext = -1;
          verify("set_data with ownership");
        } else {
          if (!m[s].owned) { r[s]->Release(); verify("Release of a reference that does not own"); continue; }
          r[s]->Release();
          c.check(r[s]->data() == nullptr, "release", "data() after Release()");
          r[s]->Allocate(3);
          m[s].size = 3; m[s].bytes.assign(3, -1);
          verify("Release and Allocate");
        }
      }
      if (d + 1 < depth) {
        std::string key = seqx::fmt("%d|", d);
        for (int q = 0; q < kSlots; ++q) {
          key += seqx::fmt("%d%d%d.%d:", m[q].alive, m[q].owned, m[q].ext, m[q].size);
          if (m[q].alive && (m[q].owned || m[q].ext >= 0)) for (int i = 0; i < m[q].size; ++i) key += seqx::fmt("%d,", get(m[q], i));
        }
        for (auto& e : ext) for (auto b : e) key += seqx::fmt("%d;", b);
        c.seen(key);
      }
    }
  }
  c.check(g_arrays == base, "leak-end", "%ld arrays leaked", g_arrays - base);
}
// Read-only references: copies share, compare by contents.
static void const_refs(Ctx& c) {
  unsigned char a[4] = {1, 2, 3, 4}, b[4] = {1, 2, 3, 4}, z[4] = {1, 2, 3, 5};
  const int n = c.choose(5, "size");
  ac::FeatureDescriptorConstRef x(a, n), y(b, n), w(z, n), null(nullptr, n), copy(x), assigned(w);
  assigned = x;
  assigned = assigned;
  c.check(copy.data() == a && (int)copy.size() == n && assigned.data() == a && (int)assigned.size() == n, "copy", "copies of a read-only reference");
  c.check(x == y && copy == y && (x == w) == (n < 4), "compare", "comparison by contents");
  c.check(!(x == null) && !(null == x) && null == null, "null", "comparison with a reference without data");
  for (int i = 0; i < n; ++i) c.check(x[i] == a[i], "index", "x[%d]", i);
  c.check(c.aborts([&] { (void)x[n]; }), "range", "index %d of %d accepted", n, n);
}
int main(int argc, char** argv) {
  return seqx::run_main(argc, argv, "S08", {
    {"ops", "every sequence of 5 operations (creation, copy, assignment, Allocate, Release, set_data, writes, destruction) on 3 references", ops, 1},
    {"const-refs", "read-only references", const_refs, 1},
  });
}
