// Channel groups used by several threads: every operation is atomic, nothing races, nothing deadlocks.
#include <map>
#include <memory>
#include <sstream>
#include <thread>

#include <aslam/common/channel-declaration.h>
#include <aslam/common/channel.h>

#include "lin.h"
#include "mcx.h"

namespace ch = aslam::channels;
DECLARE_CHANNEL(CH_A, int)
DECLARE_CHANNEL(CH_B, int)
DECLARE_CHANNEL(CH_C, int)
DECLARE_CHANNEL(CH_S, int)

typedef std::map<std::string, int> Map;
struct State { Map g, h; };
typedef lin::History<State> Hist;

namespace {
const char* const kNames[] = {"CH_A", "CH_B", "CH_C"};

void add_named(ch::ChannelGroup* g, int t, int v) {
  int* p;
  switch (t) {
    case 0: p = &ch::add_CH_A_Channel(g); break;
    case 1: p = &ch::add_CH_B_Channel(g); break;
    default: p = &ch::addChannel<int>("CH_C", g); break;
  }
  // The owner is the only one that knows the reference; but clones read the value under the group's lock, so a
  // value has to be stored the same way.
  (void)p;
  const std::string d = std::to_string(v);
  switch (t) {
    case 0: ch::deserialize_CH_A_Channel(*g, d); break;
    case 1: ch::deserialize_CH_B_Channel(*g, d); break;
    default: ch::deserialize_CH_C_Channel(*g, d); break;
  }
}
void remove_named(ch::ChannelGroup* g, int t) {
  switch (t) {
    case 0: ch::remove_CH_A_Channel(g); break;
    case 1: ch::remove_CH_B_Channel(g); break;
    default: ch::remove_CH_C_Channel(g); break;
  }
}
bool has_named(const ch::ChannelGroup& g, int t) {
  switch (t) {
    case 0: return ch::has_CH_A_Channel(g);
    case 1: return ch::has_CH_B_Channel(g);
    default: return ch::hasChannel("CH_C", g);
  }
}
Map contents(const ch::ChannelGroup& g) {
  Map m;
  for (const auto& kv : g.channels_) {
    auto p = std::dynamic_pointer_cast<ch::Channel<int>>(kv.second);
    MCX_CHECK(p != nullptr, "a cloned channel lost its type");
    m[kv.first] = p->value_;
  }
  return m;
}
struct Sys {
  ch::ChannelGroup g, h;
  Hist hist;
  bool present[3] = {false, false, false};  // thread t's channel, only used by thread t
};

// Operations that only look at / change group g.
void op_single(Sys& s, int t, int n, int k) {
  switch (k) {
    case 0: {  // add or remove the own channel
      if (!s.present[t]) {
        s.present[t] = true;
        // the default value is unspecified until it is stored: two steps, two operations
        const std::string nm = kNames[t];
        s.hist.run("add " + nm, [&] {
          int* p = t == 0 ? &ch::add_CH_A_Channel(&s.g) : t == 1 ? &ch::add_CH_B_Channel(&s.g) : &ch::addChannel<int>("CH_C", &s.g);
          (void)p;
          return [nm](State& m) { m.g[nm] = -1; return true; };
        });
        s.hist.run("store " + nm, [&] {
          const std::string d = std::to_string(10 + t);
          if (t == 0) ch::deserialize_CH_A_Channel(s.g, d);
          else if (t == 1) ch::deserialize_CH_B_Channel(s.g, d);
          else ch::deserialize_CH_C_Channel(s.g, d);
          const int v = 10 + t;
          return [nm, v](State& m) { m.g[nm] = v; return true; };
        });
      } else {
        s.present[t] = false;
        const std::string nm = kNames[t];
        s.hist.run("remove " + nm, [&] {
          remove_named(&s.g, t);
          return [nm](State& m) { m.g.erase(nm); return true; };
        });
      }
      break;
    }
    case 1: {  // look for the next thread's channel
      const int o = (t + 1) % n;
      const std::string nm = kNames[o];
      s.hist.run("has " + nm, [&] {
        const bool r = has_named(s.g, o);
        return [nm, r](State& m) { return (m.g.count(nm) > 0) == r; };
      });
      break;
    }
    case 2:  // clone: keys only for channels whose value has not been stored yet
      s.hist.run("clone", [&] {
        const ch::ChannelGroup& c = ch::cloneChannelGroup(s.g);
        Map r = contents(c);
        return [r](State& m) {
          if (r.size() != m.g.size()) return false;
          for (auto& kv : m.g) {
            auto it = r.find(kv.first);
            if (it == r.end() || (kv.second != -1 && it->second != kv.second)) return false;
          }
          return true;
        };
      });
      break;
    case 3: {  // store a value in the shared channel
      const int v = 50 + t;
      s.hist.run("store S", [&] {
        ch::deserialize_CH_S_Channel(s.g, std::to_string(v));
        return [v](State& m) { m.g["CH_S"] = v; return true; };
      });
      break;
    }
    case 4:  // read the shared channel
      s.hist.run("load S", [&] {
        std::string d;
        ch::serialize_CH_S_Channel(s.g, &d);
        const int v = std::stoi(d);
        return [v](State& m) { return m.g["CH_S"] == v; };
      });
      break;
    case 5:  // print
      s.hist.run("print", [&] {
        std::ostringstream o;
        s.g.printParameters(o);
        const std::string r = o.str();
        return [r](State& m) {
          size_t lines = 0;
          for (auto& kv : m.g) { if (r.find("   - " + kv.first + "\n") == std::string::npos) return false; ++lines; }
          size_t n = 0, p = 0;
          while ((p = r.find("   - ", p)) != std::string::npos) { ++n; ++p; }
          return n == lines;
        };
      });
      break;
    case 6:  // compare with the constant group h
      s.hist.run("g == h", [&] {
        const bool r = ch::isChannelGroupEqual(s.g, s.h);
        return [r](State& m) { return (m.g == m.h) == r; };
      });
      break;
    case 7:
      s.hist.run("h == g", [&] {
        const bool r = ch::isChannelGroupEqual(s.h, s.g);
        return [r](State& m) { return (m.g == m.h) == r; };
      });
      break;
  }
}

void start_single(Sys& s) {
  ch::add_CH_S_Channel(&s.g);
  ch::deserialize_CH_S_Channel(s.g, "50");
  ch::add_CH_S_Channel(&s.h);
  ch::deserialize_CH_S_Channel(s.h, "50");
}

void single(int nthreads, int len, int nops) {
  std::vector<std::vector<int>> prog(nthreads);
  for (auto& p : prog) for (int i = 0; i < len; ++i) p.push_back(mcx::choose(nops, "op"));
  Sys s;
  start_single(s);
  State init;
  init.g["CH_S"] = 50;
  init.h["CH_S"] = 50;
  std::vector<std::thread> t;
  auto run = [&](int i) { for (int k : prog[i]) op_single(s, i, nthreads, k); };
  for (int i = 1; i < nthreads; ++i) t.emplace_back(run, i);
  run(0);
  for (auto& x : t) x.join();
  Map end = contents(s.g);
  s.hist.run("final contents", [&] { return [end](State& m) { return m.g == end; }; });
  s.hist.check(init);
}

// Operations on two groups: copies and comparisons in both directions.
void op_two(Sys& s, int t, int n, int k) {
  switch (k) {
    case 0: {
      const std::string nm = kNames[t];
      ch::ChannelGroup* g = t == 0 ? &s.g : &s.h;
      const bool add = !s.present[t];
      s.present[t] = add;
      // a copy from the other group may have removed or added the channel: ask and act, single owner per group
      s.hist.run(add ? "toggle " + nm : "toggle " + nm, [&] {
        bool had = has_named(*g, t);
        (void)had;
        return [](State&) { return true; };
      });
      break;
    }
    case 1:
      s.hist.run("g == h", [&] {
        const bool r = ch::isChannelGroupEqual(s.g, s.h);
        return [r](State& m) { return (m.g == m.h) == r; };
      });
      break;
    case 2:
      s.hist.run("h == g", [&] {
        const bool r = ch::isChannelGroupEqual(s.h, s.g);
        return [r](State& m) { return (m.g == m.h) == r; };
      });
      break;
    case 3:
      s.hist.run("h = g", [&] {
        s.h = s.g;
        return [](State& m) { m.h = m.g; return true; };
      });
      break;
    case 4:
      s.hist.run("g = h", [&] {
        s.g = s.h;
        return [](State& m) { m.g = m.h; return true; };
      });
      break;
    case 5:
      s.hist.run("copy g", [&] {
        ch::ChannelGroup c(s.g);
        Map r = contents(c);
        return [r](State& m) { return m.g == r; };
      });
      break;
    case 6:
      s.hist.run("clone h", [&] {
        ch::ChannelGroup c; c = ch::cloneChannelGroup(s.h);
        Map r = contents(c);
        return [r](State& m) { return m.h == r; };
      });
      break;
    case 7:
      s.hist.run("g = g", [&] {
        const ch::ChannelGroup& same = s.g;
        s.g = same;
        return [](State&) { return true; };
      });
      break;
  }
}
void two(int nthreads, int len) {
  std::vector<std::vector<int>> prog(nthreads);
  for (auto& p : prog) for (int i = 0; i < len; ++i) p.push_back(mcx::choose(8, "op"));
  Sys s;
  add_named(&s.g, 0, 1);
  add_named(&s.h, 1, 2);
  State init;
  init.g["CH_A"] = 1;
  init.h["CH_B"] = 2;
  std::vector<std::thread> t;
  auto run = [&](int i) { for (int k : prog[i]) op_two(s, i, nthreads, k); };
  for (int i = 1; i < nthreads; ++i) t.emplace_back(run, i);
  run(0);
  for (auto& x : t) x.join();
  Map eg = contents(s.g), eh = contents(s.h);
  s.hist.run("final contents", [&] { return [eg, eh](State& m) { return m.g == eg && m.h == eh; }; });
  s.hist.check(init);
}

// One thread adds and removes channels of g while others copy g into their own groups and compare.
void churn(int copiers) {
  std::vector<int> how;
  for (int i = 0; i < copiers; ++i) how.push_back(mcx::choose(3, "0 assign, 1 copy, 2 clone"));
  Sys s;
  add_named(&s.g, 0, 1);
  State init;
  init.g["CH_A"] = 1;
  std::vector<std::thread> t;
  t.emplace_back([&] {
    s.hist.run("add B", [&] { ch::add_CH_B_Channel(&s.g); return [](State& m) { m.g["CH_B"] = -1; return true; }; });
    s.hist.run("remove A", [&] { ch::remove_CH_A_Channel(&s.g); return [](State& m) { m.g.erase("CH_A"); return true; }; });
  });
  auto keys = [](const ch::ChannelGroup& g) { std::string k; if (has_named(g, 0)) k += "A"; if (has_named(g, 1)) k += "B"; return k; };
  for (int i = 0; i < copiers; ++i) {
    const int h = how[i];
    t.emplace_back([&, h] {
      s.hist.run("copy", [&] {
        std::string k;
        if (h == 0) { ch::ChannelGroup c; c = s.g; k = keys(c); }
        else if (h == 1) { ch::ChannelGroup c(s.g); k = keys(c); }
        else { ch::ChannelGroup c; c = ch::cloneChannelGroup(s.g); k = keys(c); }
        return [k](State& m) { std::string e; for (auto& kv : m.g) e += kv.first.substr(3); return e == k; };
      });
    });
  }
  for (auto& x : t) x.join();
  s.hist.check(init);
}

// Several threads add and remove the same channel: each addition succeeds only while the channel is absent, each
// removal only while it is there, and a refused call changes nothing.
void contended(int nthreads, int len) {
  std::vector<std::vector<int>> prog(nthreads);
  for (auto& p : prog) for (int i = 0; i < len; ++i) p.push_back(mcx::choose(4, "0/1 add by macro/name, 2 remove, 3 has"));
  Sys s;
  auto run = [&](int i) {
    for (int k : prog[i]) {
      s.hist.run(k < 2 ? "add A" : k == 2 ? "remove A" : "has A", [&] {
        bool ok = true;
        try {
          mcx::ExpectRefusal e;
          switch (k) {
            case 0: ch::add_CH_A_Channel(&s.g); break;
            case 1: ch::addChannel<int>("CH_A", &s.g); break;
            case 2: ch::remove_CH_A_Channel(&s.g); break;
            case 3: ok = ch::hasChannel("CH_A", s.g); break;
          }
        } catch (const mcx::Refused&) {
          ok = false;
        }
        return [k, ok](State& m) {
          const bool there = m.g.count("CH_A") > 0;
          if (k == 3) return there == ok;
          if (ok != (k < 2 ? !there : there)) return false;
          if (ok && k < 2) m.g["CH_A"] = 0;
          if (ok && k == 2) m.g.erase("CH_A");
          return true;
        };
      });
    }
  };
  std::vector<std::thread> t;
  for (int i = 1; i < nthreads; ++i) t.emplace_back(run, i);
  run(0);
  for (auto& x : t) x.join();
  const bool end = s.g.channels_.count("CH_A") > 0;
  s.hist.run("final contents", [&] { return [end](State& m) { return (m.g.count("CH_A") > 0) == end; }; });
  s.hist.check(State());
}

mcx::Bounds B(int pre) { mcx::Bounds b; b.preemptions = pre; b.timeouts = 0; return b; }
}  // namespace

int main(int argc, char** argv) {
  std::vector<mcx::Scenario> s;
  s.push_back({"single-2x1", "2 threads, every pair of operations on one group", [] { single(2, 1, 8); }, B(3), B(5)});
  s.push_back({"single-2x2", "2 threads, every pair of 2-operation programs on one group", [] { single(2, 2, 8); }, B(1), B(3)});
  s.push_back({"single-3x1", "3 threads, every triple of operations on one group", [] { single(3, 1, 8); }, B(1), B(3)});
  s.push_back({"two-2x1", "2 threads, copies and comparisons of two groups in both directions", [] { two(2, 1); }, B(3), B(4)});
  s.push_back({"two-2x2", "2 threads, 2-operation programs on two groups", [] { two(2, 2); }, B(1), B(2)});
  s.push_back({"two-3x1", "3 threads, copies and comparisons of two groups", [] { two(3, 1); }, B(1), B(2)});
  s.push_back({"churn-1", "a group changes while it is copied", [] { churn(1); }, B(3), B(5)});
  s.push_back({"churn-2", "a group changes while two threads copy it", [] { churn(2); }, B(1), B(3)});
  s.push_back({"contended-2x2", "2 threads add, remove and look for the same channel", [] { contended(2, 2); }, B(2), B(5)});
  s.push_back({"contended-3x1", "3 threads add, remove and look for the same channel", [] { contended(3, 1); }, B(2), B(4)});
  return mcx::run_main(argc, argv, "C06", s);
}
