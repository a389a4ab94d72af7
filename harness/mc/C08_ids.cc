// Identifiers generated by several threads are valid and pairwise distinct, whatever the schedule and the clock.
#include <set>
#include <string>
#include <thread>
#include <vector>

#include <aslam/common/hash-id.h>
#include <aslam/common/unique-id.h>

#include "mcx.h"

template <class IdT, class Gen>
void generate(int threads, int each, Gen gen) {
  std::vector<std::vector<IdT>> out(threads);
  std::vector<std::thread> th;
  for (int t = 0; t < threads; ++t) {
    out[t].resize(each);
    th.emplace_back([&, t] {
      for (int i = 0; i < each; ++i) {
        // The clock may stand still, advance or go back between two calls.
        const int c = mcx::choose(3, "clock");
        mcx::set_clock_ns(1000000000ll + (c == 0 ? 0 : c == 1 ? 1 : -1));
        gen(&out[t][i]);
      }
    });
  }
  for (auto& t : th) t.join();
  mcx::Ignore ig;
  std::set<std::string> seen;
  for (auto& v : out) for (auto& id : v) {
    MCX_CHECK(id.isValid(), "a generated identifier is not valid");
    MCX_CHECK(seen.insert(id.hexString()).second, "two generated identifiers are equal: %s", id.hexString().c_str());
  }
}

int main(int argc, char** argv) {
  std::vector<mcx::Scenario> s;
  auto B = [](int p) { mcx::Bounds b; b.preemptions = p; return b; };
  s.push_back({"unique-2x2", "generateId(), 2 threads, 2 ids each, clock still, forward or backward",
               [] { generate<aslam::FrameId>(2, 2, [](aslam::FrameId* i) { aslam::generateId(i); }); }, B(-1), B(-1)});
  s.push_back({"unique-3x1", "createRandomId(), 3 threads",
               [] { generate<aslam::NFramesId>(3, 1, [](aslam::NFramesId* i) { *i = aslam::createRandomId<aslam::NFramesId>(); }); },
               B(2), B(-1)});
  s.push_back({"unique-mixed", "generateId() of different id types, 2 threads",
               [] {
                 generate<aslam::Id>(2, 2, [](aslam::Id* i) {
                   if (mcx::choose(2, "type")) { aslam::SensorId s; aslam::generateId(&s); aslam::HashId h; s.toHashId(&h); i->fromHashId(h); }
                   else { aslam::generateId(i); }
                 });
               }, B(1), B(2)});
  s.push_back({"hash-2x2", "HashId::random(), 2 threads, 2 ids each",
               [] { generate<aslam::HashId>(2, 2, [](aslam::HashId* i) { *i = aslam::HashId::random(); }); }, B(2), B(-1)});
  s.push_back({"hash-3x1", "HashId::randomize(), 3 threads",
               [] { generate<aslam::HashId>(3, 1, [](aslam::HashId* i) { i->randomize(); }); }, B(1), B(2)});
  return mcx::run_main(argc, argv, "C08", s);
}
