// C01, long lives: one schedule used for more than 2^32 events (and one with a 32-bit counter used up completely), with
// ties across every power of two of the number of events.
#include "mc.hh"
#include "resim/time/event_schedule.hh"

namespace {
using resim::time::Duration;
using resim::time::EventSchedule;
using resim::time::Timestamp;

// Every shard runs the same life with another number of events waiting and another time of the ties.
template <typename C>
bool live(uint64_t events, uint64_t lag, int64_t time, std::string &err) {
  EventSchedule<uint64_t, C> s;
  const Timestamp t{Duration{time}};
  uint64_t next = 0;
  for (uint64_t i = 0; i < events; ++i) {
    s.schedule_event(t, i);
    if (i < lag) continue;
    const auto &top = s.top_event();
    if (top.payload != next || top.time != t || s.size() != lag + 1) {
      err = mc::str("after ", i + 1, " events of equal time, ", lag + 1, " of them waiting, the top event is number ", top.payload,
                    ", expected ", next, "; size ", s.size());
      return false;
    }
    s.pop_event();
    ++next;
    if ((i & 0xffffff) == 0) mc::beat();
  }
  mc::transitions += 2 * events;
  ++mc::traces;
  if constexpr (sizeof(C) == 4) {
    const bool rejected = mc::rejects([&] { s.schedule_event(t, events); });
    if (!rejected) {
      err = mc::str("accepted event number ", events + 1);
      return false;
    }
  }
  while (s.size() > 0) {
    if (s.top_event().payload != next++) {
      err = mc::str("at the end, the top event is number ", s.top_event().payload);
      return false;
    }
    s.pop_event();
  }
  if (next != events) {
    err = mc::str(events - next, " events lost");
    return false;
  }
  return true;
}
// Events that wait while a given number of others comes and goes; then one of equal time is scheduled, which has to come
// out after the one that waited.
bool wait(const std::vector<uint64_t> &distances, std::string &err) {
  EventSchedule<uint64_t, uint64_t> s;
  const auto at = [](uint64_t t) { return Timestamp{Duration{static_cast<int64_t>(t)}}; };
  uint64_t n = 0;
  std::vector<uint64_t> rank(distances.size());
  for (size_t k = 0; k < distances.size(); ++k) s.schedule_event(at(1000 + k), n++);
  for (size_t k = 0; k < distances.size(); ++k) {
    while (n < k + distances[k]) {
      s.schedule_event(at(5), n);
      if (s.top_event().payload != n) {
        err = mc::str("event number ", n, " is the earliest but not on top");
        return false;
      }
      s.pop_event();
      if ((++n & 0xffffff) == 0) mc::beat();
    }
    rank[k] = n;
    s.schedule_event(at(1000 + k), n++);
  }
  mc::transitions += 2 * n;
  ++mc::traces;
  for (size_t k = 0; k < distances.size(); ++k) {
    for (const uint64_t want : {static_cast<uint64_t>(k), rank[k]}) {
      if (s.size() == 0 || s.top_event().payload != want) {
        err = mc::str("of two events of equal time, scheduled ", distances[k], " apart, number ",
                      s.size() ? s.top_event().payload : 0, " came when number ", want, " was expected");
        return false;
      }
      s.pop_event();
    }
  }
  return true;
}
}  // namespace

int main(int argc, char **argv) {
  return mc::run(argc, argv, [] {
    struct Life {
      bool small;
      uint64_t lag;
      int64_t time;
    };
    const std::vector<Life> lives = {{true, 1, 0}, {false, 1, 1700000000123456789LL}, {true, 2, 7}};
    for (size_t i = 0; i < lives.size(); ++i) {
      if (!mc::my_shard(i)) continue;
      const Life &l = lives[i];
      mc::describe = [&] { return mc::str(l.small ? "32-bit" : "64-bit", " counter, ", l.lag + 1, " events of equal time waiting"); };
      std::string err;
      const bool ok = l.small ? live<uint32_t>(0xffffffffULL, l.lag, l.time, err) : live<uint64_t>(0x100000000ULL + 100000, l.lag, l.time, err);
      mc::state(mc::mix(0xc01, i));
      if (!ok) mc::violation("long-life", mc::describe(), err);
    }
    mc::bounds["long-life"] = "a 64-bit schedule through 2^32 + 100000 events, two 32-bit ones used up";
    const auto waits = [](size_t index, int from, int to) {
      if (!mc::my_shard(index)) return;
      std::vector<uint64_t> distances;
      for (int k = from; k <= to; ++k)
        for (const int d : {-3, 0, 3}) distances.push_back((uint64_t{1} << k) + static_cast<uint64_t>(d + 3));
      mc::describe = [&] { return mc::str("events waiting while 2^", from, " to 2^", to, " others come and go"); };
      std::string err;
      const bool ok = wait(distances, err);
      mc::state(mc::mix(0xc01, index));
      if (!ok) mc::violation("waiting", mc::describe(), err);
    };
    waits(3, 31, 32);
    waits(4, 4, 25);
    mc::bounds["waiting"] = "pairs of equal time scheduled 2^k, 2^k + 3, 2^k + 6 apart, k = 4..25, 31, 32";
  });
}
