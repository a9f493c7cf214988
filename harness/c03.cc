// C03: floating-point interval sampling over complete boxes, against exact rational arithmetic.
#include "mc.hh"
#include "resim/time/sample_interval.hh"

namespace {
using resim::time::num_samples;
using resim::time::sample_interval;
struct Stop {};

void one(const char *label, double start, double end, double dt, bool enumerate) {
  mc::beat();
  mc::describe = [=] { return mc::str(label, ": start=", start, "s end=", end, "s max step=", dt, "s"); };
  ++mc::traces;
  ++mc::transitions;
  mc::state(mc::mix(mc::mix(mc::mix(1, mc::bits(start)), mc::bits(end)), mc::bits(dt)));
  int64_t n = 0;
  const bool rejected = mc::rejects([&] { n = num_samples(start, end, dt); });
  const bool bad = !(dt > 0);
  if (bad) {
    if (!rejected) mc::violation("accepted-invalid", mc::describe(), mc::str("count ", n, " for an invalid step"));
    if (start != end && !mc::rejects([&] { sample_interval(start, end, dt, [](double) {}); }))
      mc::violation("accepted-invalid", mc::describe(), "sampled with an invalid step");
    return;
  }
  if (rejected) {
    mc::violation("rejected-valid", mc::describe(), "the sample count of a valid request was refused");
    return;
  }
  const long double q = fabsl(static_cast<long double>(end) - start) / dt;
  const long double eps = 4.5e-16L;
  const long double lo = std::max(ceill(q * (1 - eps)), start == end ? 0.0L : 1.0L);
  const long double hi = std::max(ceill(q * (1 + eps)), start == end ? 0.0L : 1.0L);
  if (static_cast<long double>(n) - 1 < lo || static_cast<long double>(n) - 1 > hi) {
    mc::violation("count", mc::describe(), mc::str("sample count ", n, ", expected ", static_cast<double>(lo) + 1));
    return;
  }
  if (!enumerate) return;
  ++mc::transitions;
  int64_t calls = 0;
  std::string err;
  double last = 0;
  const double scale = std::max(std::fabs(start), std::fabs(end));
  try {
    sample_interval(start, end, dt, [&](double x) {
      if (calls >= n) {
        err = mc::str("more than ", n, " samples");
        throw Stop{};
      }
      const long double ideal = n > 1 ? start + (static_cast<long double>(end) - start) * calls / (n - 1) : start;
      if (calls == 0 && x != start) err = mc::str("first sample at ", x);
      if (!(fabsl(x - ideal) <= 1e-14L * scale)) err = mc::str("sample ", calls, " at ", x, ", ideal ", static_cast<double>(ideal));
      last = x;
      ++calls;
      if (!err.empty()) throw Stop{};
    });
  } catch (const Stop &) {
  } catch (const std::exception &e) {
    err = mc::str("refused a valid request: ", e.what());
  }
  if (err.empty() && calls != n) err = mc::str(calls, " samples visited, ", n, " reported");
  if (err.empty() && last != end) err = mc::str("last sample at ", last);
  if (!err.empty()) mc::violation(end < start ? "sampling-descending" : "sampling-ascending", mc::describe(), err);
  mc::maybe_sample(mc::describe);
}
}  // namespace

int main(int argc, char **argv) {
  return mc::run(argc, argv, [] {
    uint64_t index = 0;
    const int box = mc::thorough ? 160 : 64;
    // Dyadic box: all quotients exact, exact multiples included.
    for (int a = -box; a <= box; ++a) {
      if (!mc::my_shard(index++)) continue;
      for (int b = -box; b <= box; ++b)
        for (int d = 1; d <= 2 * box + 2; d += (mc::thorough ? 1 : 2)) one("dyadic", a / 8.0, b / 8.0, d / 8.0, true);
    }
    mc::bounds["dyadic"] = mc::str("all starts, ends in [-", box, ",", box, "]/8 x all steps up to span");
    // Decimal box: nothing is exact.
    for (int a = -20; a <= 20; ++a) {
      if (!mc::my_shard(index++)) continue;
      for (int b = -20; b <= 20; ++b)
        for (int d = 1; d <= 41; ++d)
          for (double unit : {0.1, 0.01, 3e-3, 1.7e9 / 3}) one("decimal", a * unit, b * unit, d * unit * 0.1, true);
    }
    mc::bounds["decimal"] = "41 x 41 ends x 41 steps x 4 units";
    if (mc::shard == 0) {
      const double big[] = {1e6, 2147483646.0, 2147483647.0, 2147483648.0, 4294967296.0, 1e10, 1e15, 9007199254740991.0};
      for (double e : big)
        for (double d : {1.0, 2.0, 0.5, 3.0, e, 2 * e, e / 3})
          for (double s : {0.0, -1.0, e})
            if (e / d < 9e15) {
              one("large-count", s, s + e, d, e / d < 100);
              one("large-count", s + e, s, d, e / d < 100);
            }
      mc::bounds["large-count"] = "counts up to 9e15, in particular around 2^31 and 2^32";
      const double inf = std::numeric_limits<double>::infinity();
      for (double d : {0.0, -0.0, -1.0, -1e-300, -inf, std::nan("")})
        for (double s : {0.0, 1.0})
          for (double e : {2.0, -3.0}) one("bad-step", s, e, d, false);
      // Requests without a representable sample count.
      for (double s : {0.0, 1.0, -1e300})
        for (double e : {inf, -inf, std::nan(""), 1e300, 1e200})
          for (double d : {1e-3, 1.0, 1e100}) {
            mc::beat();
            mc::describe = [=] { return mc::str("no-count: start=", s, "s end=", e, "s max step=", d, "s"); };
            ++mc::traces;
            mc::transitions += 2;
            mc::state(mc::mix(mc::mix(mc::mix(2, mc::bits(s)), mc::bits(e)), mc::bits(d)));
            int64_t n = 0;
            if (!mc::rejects([&] { n = num_samples(s, e, d); }))
              mc::violation("accepted-invalid", mc::describe(), mc::str("sample count ", n));
            if (!mc::rejects([&] { sample_interval(s, e, d, [](double) { throw Stop{}; }); }))
              mc::violation("accepted-invalid", mc::describe(), "sampled");
          }
      mc::bounds["no-count"] = "infinite, not-a-number and too long spans";
      // Spans far below the step.
      for (double s : {0.0, 1.0, -1e9})
        for (double e : {std::nextafter(s, 1e300), std::nextafter(s, -1e300)})
          for (double d : {1e-300, 1.0, 4.0, 1e300})
            if (std::fabs(e - s) / d < 1e15) one("tiny-span", s, e, d, std::fabs(e - s) / d < 1000);
      mc::bounds["tiny-span"] = "spans of one unit in the last place";
      for (double d : {1e-3, 1e-4})
        for (double e : {10.0, -10.0}) one("long", 0.1, 0.1 + e, d, true);
    }
  });
}
