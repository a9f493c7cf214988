// C24, concurrent part: threads read shared objects and work on objects of their own at the same time, under all schedules,
// with every memory access of the library checked for data races.
#include <thread>

#include "explore.hh"
#include "pureops.hh"

namespace {
using namespace pure;
}

int main(int argc, char **argv) {
  return mc::run(argc, argv, [&]() {
    const std::vector<Op> ops = operations();
    const int n = ops.size();
    const World world;
    std::vector<std::string> ref(n);
    for (int i = 0; i < n; ++i) ref[i] = perform(ops[i], world);
    const auto body = [&](const std::vector<std::vector<int>> &threads) {
      std::vector<std::thread> ts;
      for (const auto &t : threads)
        ts.emplace_back([&]() {
          for (int i : t) {
            sched::point("operation");
            const std::string r = perform(ops[i], world);
            sched::Ignore ig;
            if (r != ref[i]) sched::fail("wrong-result", ops[i].name + ": the result differs from that of the operation alone");
          }
        });
      for (auto &t : ts) t.join();
    };
    const auto name = [&](const std::vector<std::vector<int>> &threads) {
      std::string s;
      for (const auto &t : threads) {
        s += s.empty() ? "" : " || ";
        for (size_t i = 0; i < t.size(); ++i) s += (i ? "; " : "") + ops[t[i]].name;
      }
      return s;
    };
    mc::bounds["concurrent use"] = mc::str(n, " operations: every unordered pair in two threads (at most 2, thorough 4 preemptions); every operation in three threads at once; every operation twice against each of the following two");
    uint64_t k = 0;
    for (int a = 0; a < n; ++a)
      for (int b = a; b < n; ++b) {
        // The first executions of a pair are shared out too: one shard has the whole pair.
        if (!mc::my_shard(k++)) continue;
        const std::vector<std::vector<int>> th{{a}, {b}};
        explore::whole = true;
        explore::all_schedules(name(th), 0, mc::thorough ? 4 : 2, nullptr, [&]() { body(th); });
      }
    for (int a = 0; a < n; ++a) {
      if (!mc::my_shard(k++)) continue;
      const std::vector<std::vector<int>> th{{a}, {a}, {a}};
      explore::all_schedules(name(th), 0, mc::thorough ? 2 : 1, nullptr, [&]() { body(th); });
      const std::vector<std::vector<int>> tw{{a, a}, {(a + 1) % n, (a + 2) % n}};
      explore::all_schedules(name(tw), 0, mc::thorough ? 2 : 1, nullptr, [&]() { body(tw); });
    }
  });
}
