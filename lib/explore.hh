// Depth-first exploration of all schedules of one scenario (see sched.hh), shared out over the shards.
#pragma once
#include "mc.hh"
#include "sched.hh"

namespace explore {
struct Restart {};
inline bool whole = false;  // this shard explores whole scenarios (the caller shares them out)

// If the code under test has far more scheduling points than when the bounds were chosen, the preemption bound falls back
// to 1 after the soft limit and exploration ends at the hard one; the run then reports exhaustive = false.
inline const time_t started = ::time(nullptr);
inline int soft_limit() { return mc::thorough ? 5 * 3600 : 300; }
inline int hard_limit() { return mc::thorough ? 5 * 3600 + 1800 : 480; }
inline int elapsed() { return static_cast<int>(::time(nullptr) - started); }

inline std::string shown(const std::string &name, const std::vector<int> &prefix, const std::string &events) {
  std::string r = name + " [";
  for (int p : prefix) r += std::to_string(p);
  return r + "]" + events.substr(0, 900);
}

inline void all_schedules_once(const std::string &name, uint64_t scenario_index, int bound, const std::function<void()> &before_each, const std::function<void()> &body, const std::string &counter) {
  uint64_t count = 0;
  if (elapsed() > soft_limit() && bound > 1) {
    bound = 1;
    mc::exhaustive = false;
  }
  const auto run = [&](const std::vector<int> &prefix, bool mine) {
    if (before_each) before_each();
    mc::describe = [&]() { return shown(name, prefix, ""); };
    mc::beat();
    static bool unlock_points = false;
    sched::Outcome o = sched::execute(prefix, bound, body);
    if (o.unlock_points != unlock_points) {
      unlock_points = o.unlock_points;
      throw Restart{};
    }
    if (mine) {
      ++mc::traces;
      ++count;
      mc::transitions += o.points;
      mc::counters["memory_accesses_checked"] += o.accesses;
      for (uint64_t h : o.states) mc::state(mc::mix(mc::hash_str(name), h));
      if (!o.key.empty()) mc::violation(o.key, shown(name, o.taken, o.events), o.detail);
      mc::maybe_sample([&]() { return shown(name, o.taken, o.events); });
    }
    return o;
  };
  // All prefixes of a first few choices; shards share them out.
  std::vector<std::vector<int>> frontier{{}}, leaves;
  while (!whole && !frontier.empty() && frontier.size() + leaves.size() < 48) {
    std::vector<int> p = frontier.front();
    frontier.erase(frontier.begin());
    sched::Outcome o = run(p, false);
    if (o.arity.size() <= p.size()) {
      leaves.push_back(p);
      continue;
    }
    for (int k = 0; k < o.arity[p.size()]; ++k) {
      auto q = p;
      q.push_back(k);
      frontier.push_back(q);
    }
  }
  frontier.insert(frontier.end(), leaves.begin(), leaves.end());
  for (size_t i = 0; i < frontier.size(); ++i) {
    if (!whole && !mc::my_shard(i + scenario_index)) continue;
    const size_t frozen = frontier[i].size();
    std::vector<int> prefix = frontier[i];
    for (;;) {
      if (elapsed() > hard_limit()) {
        mc::exhaustive = false;
        return;
      }
      sched::Outcome o = run(prefix, true);
      std::vector<int> t = o.taken, a = o.arity;
      while (t.size() > frozen && t.back() + 1 >= a.back()) {
        t.pop_back();
        a.pop_back();
      }
      if (t.size() <= frozen) break;
      ++t.back();
      prefix = t;
    }
  }
  if (!counter.empty()) mc::counters[counter] += count;
}

inline void all_schedules(const std::string &name, uint64_t scenario_index, int bound, const std::function<void()> &before_each, const std::function<void()> &body, const std::string &counter = "") {
  if (!mc::only.empty() && mc::only.rfind(name + " [", 0) != 0) return;
  try {
    all_schedules_once(name, scenario_index, bound, before_each, body, counter);
  } catch (const Restart &) {
    all_schedules_once(name, scenario_index, bound, before_each, body, counter);
  }
}
}  // namespace explore
