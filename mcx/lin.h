// Linearizability of a short concurrent history against a sequential model.
#ifndef LIN_H_
#define LIN_H_
#include <functional>
#include <string>
#include <vector>

#include "mcx.h"

namespace lin {
template <class State>
struct History {
  struct Op {
    int inv = 0, resp = 0, thread = 0;
    std::string text;
    // Applies the operation to the model; false if the recorded result contradicts the model.
    std::function<bool(State&)> apply;
  };
  std::vector<Op> ops;
  int clock = 0;

  // Runs f (the real operation) between two points that every other thread's operations can be ordered against;
  // f returns the model step that embeds the observed result.
  template <class F>
  void run(const std::string& text, F f) {
    size_t k;
    mcx::visible(this, "invoke");
    {
      mcx::Ignore ig;
      k = ops.size();
      ops.push_back(Op());
      ops[k].inv = ++clock;
      ops[k].resp = 1 << 30;
      ops[k].thread = mcx::self();
      ops[k].text = text;
    }
    std::function<bool(State&)> a = f();
    mcx::visible(this, "respond");
    mcx::Ignore ig;
    ops[k].resp = ++clock;
    ops[k].apply = a;
  }
  // An operation that starts now and ends at close() (or never is known to end).
  int open(const std::string& text, std::function<bool(State&)> apply) {
    mcx::Ignore ig;
    ops.push_back(Op());
    Op& o = ops.back();
    o.inv = ++clock;
    o.resp = 1 << 30;
    o.thread = mcx::self();
    o.text = text;
    o.apply = apply;
    return static_cast<int>(ops.size()) - 1;
  }
  void close(int k) {
    mcx::Ignore ig;
    ops[k].resp = ++clock;
  }
  bool search(const State& s, unsigned done) const {
    if (done == (1u << ops.size()) - 1) return true;
    int first_resp = 1 << 30;
    for (size_t i = 0; i < ops.size(); ++i)
      if (!(done & (1u << i)) && ops[i].resp < first_resp) first_resp = ops[i].resp;
    for (size_t i = 0; i < ops.size(); ++i) {
      if (done & (1u << i) || ops[i].inv > first_resp) continue;
      State n = s;
      if (ops[i].apply(n) && search(n, done | (1u << i))) return true;
    }
    return false;
  }
  void check(const State& initial) const {
    mcx::Ignore ig;
    if (search(initial, 0)) return;
    std::string t;
    for (const Op& o : ops) t += " [T" + std::to_string(o.thread) + " " + o.text + " @" + std::to_string(o.inv) + "-" + std::to_string(o.resp) + "]";
    mcx::fail("no sequential order of the operations explains their results:%s", t.c_str());
  }
};
}  // namespace lin
#endif
