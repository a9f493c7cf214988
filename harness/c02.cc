// C02: timestamp interval sampling over complete boxes of (start, span, step), against exact 128-bit arithmetic.
#include <set>

#include "mc.hh"
#include "resim/time/sample_interval.hh"

namespace {
using resim::time::Duration;
using resim::time::Timestamp;
using resim::time::num_samples;
using resim::time::sample_interval;
using I = __int128;
constexpr int64_t MIN = std::numeric_limits<int64_t>::min();
constexpr int64_t MAX = std::numeric_limits<int64_t>::max();
constexpr int64_t NOW = 1700000000123456789LL;
Timestamp at(int64_t n) { return Timestamp(Duration(n)); }
I iabs(I x) { return x < 0 ? -x : x; }

struct Stop {};

void one(const char *label, int64_t start, int64_t end, int64_t dt, bool enumerate) {
  mc::beat();
  mc::describe = [=] { return mc::str(label, ": start=", start, "ns end=", end, "ns max step=", dt, "ns"); };
  ++mc::traces;
  ++mc::transitions;
  mc::state(mc::mix(mc::mix(mc::mix(1, static_cast<uint64_t>(start)), static_cast<uint64_t>(end)), static_cast<uint64_t>(dt)));
  const I span = static_cast<I>(end) - start;
  const I total = iabs(span);
  int64_t n = 0;
  const bool rejected = mc::rejects([&] { n = num_samples(at(start), at(end), Duration(dt)); });
  const bool bad_step = dt <= 0;
  const I intervals = bad_step ? 0 : (total + dt - 1) / dt;
  const bool bad_span = total > MAX || intervals + 1 > MAX;
  if (bad_step || bad_span) {
    if (!rejected) mc::violation("accepted-invalid", mc::describe(), mc::str("sample count ", n, " returned for an invalid request"));
    if (start != end && (bad_step || total > MAX)) {
      ++mc::transitions;
      uint64_t calls = 0;
      const bool r = mc::rejects([&] { sample_interval(at(start), at(end), Duration(dt), [&](Timestamp) { if (++calls > 1000) throw Stop{}; }); });
      if (!r) mc::violation("sampled-invalid", mc::describe(), "an invalid request was sampled");
    }
    return;
  }
  if (rejected) {
    mc::violation("rejected-valid-count", mc::describe(), "the sample count of a valid request was refused");
    return;
  }
  if (n != intervals + 1) {
    mc::violation("count", mc::describe(), mc::str("sample count ", n, ", expected ", static_cast<int64_t>(intervals + 1)));
    return;
  }
  if (!enumerate) return;
  ++mc::transitions;
  int64_t calls = 0;
  std::string err;
  int64_t prev = 0;
  int64_t last = 0;
  try {
    sample_interval(at(start), at(end), Duration(dt), [&](Timestamp t) {
      const int64_t x = t.time_since_epoch().count();
      if (calls >= n) {
        err = mc::str("more than ", n, " samples");
        throw Stop{};
      }
      if (calls == 0 && x != start) err = mc::str("first sample at ", x);
      const I off = static_cast<I>(x) - start;
      if (n > 1) {
        const I diff = 2 * off * (n - 1) - 2 * span * calls;
        if (iabs(diff) > n - 1) err = mc::str("sample ", calls, " at ", x, "ns is not the nearest nanosecond to its ideal position");
      }
      if (calls > 0 && ((span > 0 && x < prev) || (span < 0 && x > prev))) err = mc::str("sample ", calls, " goes backwards");
      prev = last = x;
      ++calls;
      if (!err.empty()) throw Stop{};
    });
  } catch (const Stop &) {
  } catch (const std::exception &e) {
    err = mc::str("refused a valid request after ", calls, " samples: ", e.what());
  }
  if (err.empty() && calls != n) err = mc::str(calls, " samples visited, ", n, " reported");
  if (err.empty() && last != end) err = mc::str("last sample at ", last);
  if (!err.empty()) mc::violation(span < 0 ? "sampling-descending" : "sampling-ascending", mc::describe(), err);
  mc::maybe_sample(mc::describe);
}

// Runs the case if both ends are representable; forwards and backwards.
void both(const char *label, I start, I span, I dt, bool enumerate) {
  const I end = start + span;
  if (start < MIN || start > MAX || end < MIN || end > MAX || dt < MIN || dt > MAX) return;
  one(label, static_cast<int64_t>(start), static_cast<int64_t>(end), static_cast<int64_t>(dt), enumerate);
  if (span != 0) one(label, static_cast<int64_t>(end), static_cast<int64_t>(start), static_cast<int64_t>(dt), enumerate);
}
}  // namespace

int main(int argc, char **argv) {
  return mc::run(argc, argv, [] {
    const int64_t box = mc::thorough ? 400 : 130;
    uint64_t index = 0;
    for (int64_t span = 0; span <= box; ++span) {
      if (!mc::my_shard(index++)) continue;
      for (int64_t dt = -2; dt <= box + 3; ++dt)
        for (int64_t start : {int64_t{0}, int64_t{-7}, NOW, -NOW}) both("box", start, span, dt, true);
    }
    mc::bounds["box"] = mc::str("all spans 0..", box, " ns in both directions x all steps -2..", box + 3, " x 4 starts");

    // Near the 64-bit limits: every number of intervals up to K, steps one around the exact quotient.
    std::set<int64_t> spans;
    for (int k = 20; k <= 62; ++k)
      for (int64_t j : {-2, -1, 0, 1, 2}) spans.insert((int64_t{1} << k) + j);
    for (int64_t j = 0; j < 4; ++j) spans.insert(MAX - j);
    for (int64_t p = 1000000; p < MAX / 10; p *= 10)
      for (int64_t j : {-1, 0, 1, 7}) spans.insert(p + j);
    const int K = mc::thorough ? 260 : 70;
    for (int64_t s : spans) {
      if (!mc::my_shard(index++)) continue;
      const I starts[] = {MIN, -static_cast<I>(s) / 2, 0, static_cast<I>(MAX) - s};
      for (int k = 1; k <= K; ++k)
        for (int j = -1; j <= 1; ++j)
          for (I st : starts) both("limits", st, s, (static_cast<I>(s) + k - 1) / k + j, true);
      for (I dt : {I(1), I(2), I(3), I(s) - 1, I(s), I(s) + 1, I(MAX) - 1, I(MAX), I(0), I(-1), I(MIN)})
        for (I st : starts) {
          const bool few = dt > 0 && (static_cast<I>(s) / dt) < 100;
          both("limits", st, s, dt, few);
        }
    }
    // Spans that do not fit.
    if (mc::shard == 0)
      for (I st : {I(MIN), I(MIN) + 1, I(-1), I(MIN) / 2 - 5})
        for (I en : {I(MAX), I(MAX) - 1, I(0), I(MAX) / 2 + 5, I(1)})
          for (I dt : {I(1), I(2), I(MAX) / 2, I(MAX)}) both("too-wide", st, en - st, dt, (en - st) <= 100 * dt && en - st <= MAX);
    mc::bounds["limits"] = mc::str(spans.size(), " spans around powers of two and ten up to 2^63-1, all interval counts 1..", K, " (step one around exact), 4 starts, both directions");
    // Long runs: the running remainder over many samples.
    for (int64_t s : {1000003LL, 999999937LL, 86400000000007LL})
      for (int64_t k : {997LL, 1024LL, 65537LL, 99991LL}) {
        if (!mc::my_shard(index++)) continue;
        both("long", NOW, s, (s + k - 1) / k, true);
      }
    mc::bounds["long"] = "runs of up to 100k samples";
  });
}
