// C01: all operation histories of the event schedule, in lock step with a reference list.
#include <algorithm>
#include <memory>
#include <optional>

#include "mc.hh"
#include "resim/time/event_schedule.hh"

namespace {
using resim::time::Duration;
using resim::time::EventSchedule;
using resim::time::Timestamp;

Timestamp at(int64_t ns) { return Timestamp(Duration(ns)); }
constexpr int64_t MIN = std::numeric_limits<int64_t>::min();
constexpr int64_t MAX = std::numeric_limits<int64_t>::max();
// A present-day time: beyond 2^53 ns, where double seconds cannot tell neighbours apart.
constexpr int64_t NOW = 1700000000123456789LL;

struct CopyPayload {
  int64_t serial = -1;
  std::string text;
  static CopyPayload make(int64_t n) { return {n, "payload number " + std::to_string(n) + " (longer than the small string buffer)"}; }
  bool is(int64_t n) const { return serial == n && text == make(n).text; }
};
struct MovePayload {
  std::unique_ptr<int64_t> serial;
  static MovePayload make(int64_t n) { return {std::make_unique<int64_t>(n)}; }
  bool is(int64_t n) const { return serial && *serial == n; }
};

struct Item {
  int64_t time;
  int64_t serial;
};

template <typename P, typename C>
struct World {
  static constexpr bool COPYABLE = std::is_copy_constructible_v<P>;
  std::optional<EventSchedule<P, C>> s;
  std::vector<Item> model;  // in scheduling order
  uint64_t scheduled = 0;
  int64_t serial = 0;
  std::string err;

  World() { s.emplace(); }

  size_t top_index() const {
    size_t best = 0;
    for (size_t i = 1; i < model.size(); ++i)
      if (model[i].time < model[best].time) best = i;  // first of equal times stays
    return best;
  }
  bool schedule(int64_t t) {
    ++mc::transitions;
    const int64_t n = serial++;
    const bool should_accept = scheduled < static_cast<uint64_t>(std::numeric_limits<C>::max());
    const bool rejected = mc::rejects([&] { s->schedule_event(at(t), P::make(n)); });
    if (rejected == should_accept) {
      err = mc::str(rejected ? "rejected" : "accepted", " event number ", scheduled + 1, " of a schedule with room for ",
                    static_cast<uint64_t>(std::numeric_limits<C>::max()));
      return false;
    }
    if (!rejected) {
      ++scheduled;
      model.push_back({t, n});
    }
    return check();
  }
  bool pop() {
    if (model.empty()) return true;  // popping an empty schedule is outside the contract
    ++mc::transitions;
    s->pop_event();
    model.erase(model.begin() + static_cast<long>(top_index()));
    return check();
  }
  bool copy() {
    ++mc::transitions;
    if constexpr (COPYABLE) {
      EventSchedule<P, C> other(*s);
      // Disturb the original: the copy must not notice.
      while (s->size() > 0) s->pop_event();
      s.emplace();
      *s = other;
    }
    return check();
  }
  bool move() {
    ++mc::transitions;
    EventSchedule<P, C> other(std::move(*s));
    s.emplace(std::move(other));
    return check();
  }
  bool check() {
    if (s->size() != model.size()) {
      err = mc::str("size is ", s->size(), ", expected ", model.size());
      return false;
    }
    if (model.empty()) return true;
    const Item &m = model[top_index()];
    const auto &top = s->top_event();
    const int64_t t = top.time.time_since_epoch().count();
    if (t != m.time || !top.payload.is(m.serial)) {
      err = mc::str("top event has time ", t, " and ", top.payload.is(m.serial) ? "the right" : "another",
                    " payload, expected time ", m.time, " payload number ", m.serial);
      return false;
    }
    return true;
  }
  uint64_t hash() const {
    uint64_t h = sizeof(C) * 2 + COPYABLE;
    const uint64_t room = static_cast<uint64_t>(std::numeric_limits<C>::max()) - scheduled;
    h = mc::mix(h, room);
    for (auto &i : model) h = mc::mix(h, static_cast<uint64_t>(i.time));
    return h;
  }
  bool drain() {
    while (!model.empty())
      if (!pop()) return false;
    return true;
  }
};

std::vector<int64_t> times;
std::string op_name(int o) {
  const int n = static_cast<int>(times.size());
  if (o < n) return mc::str("schedule(", times[static_cast<size_t>(o)], "ns)");
  return o == n ? "pop" : o == n + 1 ? "copy" : "move";
}

template <typename W>
bool apply(W &w, int o) {
  const int n = static_cast<int>(times.size());
  if (o < n) return w.schedule(times[static_cast<size_t>(o)]);
  if (o == n) return w.pop();
  return o == n + 1 ? w.copy() : w.move();
}

std::string word_text(const std::vector<int> &w) {
  std::string r;
  for (int o : w) r += (r.empty() ? "" : ",") + op_name(o);
  return r;
}

// All words of exactly `depth` operations after `prefix`, each from a fresh schedule.
template <typename P, typename C>
void words(const std::string &label, int alphabet, int depth, const std::function<bool(World<P, C> &)> &prefix) {
  const uint64_t before = mc::traces;
  uint64_t index = 0;
  mc::all_words(alphabet, depth, [&](const std::vector<int> &w) {
    if (static_cast<int>(w.size()) < depth) return true;
    if (!mc::my_shard(index++)) return false;
    mc::beat();
    mc::describe = [&] { return label + ": " + word_text(w); };
    World<P, C> world;
    ++mc::traces;
    bool ok = prefix(world);
    for (size_t i = 0; ok && i < w.size(); ++i) {
      ok = apply(world, w[i]);
      mc::state(world.hash());
    }
    if (ok) ok = world.drain();
    if (!ok) mc::violation(label, mc::describe(), world.err);
    mc::maybe_sample(mc::describe);
    return false;
  });
  mc::bounds[label] = mc::str("all ", alphabet, "^", depth, " operation words");
  mc::counters["traces: " + label] += mc::traces - before;
}

// All words of length <= p repeated until `length` operations have run: thresholds on size, count or capacity.
template <typename P, typename C>
void lassos(const std::string &label, int alphabet, int p, int length) {
  const uint64_t before = mc::traces;
  uint64_t index = 0;
  mc::all_words(alphabet, p, [&](const std::vector<int> &w) {
    if (w.empty()) return true;
    if (!mc::my_shard(index++)) return true;
    mc::beat();
    mc::describe = [&] { return mc::str(label, ": (", word_text(w), ") repeated to ", length, " operations"); };
    World<P, C> world;
    ++mc::traces;
    bool ok = true;
    for (int i = 0; ok && i < length; ++i) {
      ok = apply(world, w[static_cast<size_t>(i) % w.size()]);
      mc::state(world.hash());
    }
    if (ok) ok = world.drain();
    if (!ok) mc::violation(label, mc::describe(), world.err);
    return true;
  });
  mc::bounds[label] = mc::str("all words of length <= ", p, " over ", alphabet, " operations, repeated to ", length);
  mc::counters["traces: " + label] += mc::traces - before;
}

template <typename W>
std::function<bool(W &)> burn(uint64_t n) {
  return [n](W &w) {
    for (uint64_t i = 0; i < n; ++i) {
      w.s->schedule_event(at(5), decltype(w.s->top_event().payload)::make(0));
      w.s->pop_event();
    }
    w.scheduled += n;
    return w.check();
  };
}
template <typename W>
bool nothing(W &) {
  return true;
}
}  // namespace

int main(int argc, char **argv) {
  return mc::run(argc, argv, [] {
    const int more = mc::thorough ? 1 : 0;
    times = {10, 11};
    words<CopyPayload, uint64_t>("two-times", 5, 8 + more, nothing<World<CopyPayload, uint64_t>>);
    words<MovePayload, uint64_t>("move-only", 3, 10 + more, nothing<World<MovePayload, uint64_t>>);
    times = {NOW, NOW + 1, NOW - 1};
    words<CopyPayload, uint64_t>("present-day", 4, 8 + more, nothing<World<CopyPayload, uint64_t>>);
    times = {MIN, -1, 0, 1, NOW, MAX};
    words<CopyPayload, uint64_t>("extremes", 7, 6 + more, nothing<World<CopyPayload, uint64_t>>);
    // Exhaustion: bring the counter close to its limit, then every word.
    times = {10, 11};
    words<CopyPayload, uint8_t>("exhaustion-8bit", 5, 6 + more, burn<World<CopyPayload, uint8_t>>(252));
    words<CopyPayload, int8_t>("exhaustion-7bit", 3, 8 + more, burn<World<CopyPayload, int8_t>>(124));
    words<CopyPayload, uint64_t>("wrap-8bit", 3, 7 + more, burn<World<CopyPayload, uint64_t>>(253));
    words<MovePayload, uint16_t>("exhaustion-16bit", 3, 4, burn<World<MovePayload, uint16_t>>(65533));
    words<MovePayload, uint64_t>("wrap-16bit", 3, 4, burn<World<MovePayload, uint64_t>>(65534));
    times = {NOW, NOW + 1, 3};
    lassos<CopyPayload, uint64_t>("long", 4, mc::thorough ? 6 : 5, 150);
    lassos<CopyPayload, uint64_t>("longer", 4, mc::thorough ? 4 : 3, 1200);
    lassos<CopyPayload, uint8_t>("long-8bit", 4, 4, 400);
    times = {MIN, MAX, 0};
    lassos<MovePayload, uint32_t>("long-extremes", 4, 4, 200);
  });
}
