// C04: time conversions over complete neighbourhoods of all powers of two and ten and of zero.
#include "mc.hh"
#include "resim/time/timestamp.hh"

namespace {
using resim::time::Duration;
constexpr int64_t MIN = std::numeric_limits<int64_t>::min();
constexpr int64_t MAX = std::numeric_limits<int64_t>::max();

void one(int64_t n) {
  static int64_t current;
  current = n;
  if ((n & 1023) == 0) mc::beat();
  ++mc::traces;
  mc::transitions += 4;
  mc::state(static_cast<uint64_t>(n));
  const auto what = [&] { return mc::str("duration ", n, "ns"); };
  mc::describe = [] { return mc::str("duration ", current, "ns"); };
  const auto sn = resim::time::to_seconds_and_nanos(Duration(n));
  const __int128 back = static_cast<__int128>(sn.secs) * 1000000000 + sn.nanos;
  if (back != n) mc::violation("secs-nanos-value", what(), mc::str("became ", sn.secs, "s ", sn.nanos, "ns"));
  if (sn.nanos >= 1000000000 || sn.nanos <= -1000000000) mc::violation("secs-nanos-range", what(), mc::str("nanoseconds part ", sn.nanos));
  if ((sn.secs > 0 && sn.nanos < 0) || (sn.secs < 0 && sn.nanos > 0)) mc::violation("secs-nanos-sign", what(), mc::str(sn.secs, "s ", sn.nanos, "ns"));
  if (resim::time::from_seconds_and_nanos(sn).count() != n)
    mc::violation("secs-nanos-roundtrip", what(), mc::str("came back as ", resim::time::from_seconds_and_nanos(sn).count()));
  const double s = resim::time::as_seconds(Duration(n));
  const long double exact = static_cast<long double>(n) / 1e9L;
  if (!(fabsl(s - exact) <= fabsl(exact) * 2.3e-16L)) mc::violation("as-seconds", what(), mc::str(s, " seconds"));
  if (n > -1728000000000000 && n < 1728000000000000) {
    const int64_t b = resim::time::as_duration(s).count();
    if (b != n) mc::violation("seconds-roundtrip", what(), mc::str("came back as ", b, "ns"));
  } else if (n > -(int64_t{1} << 62) && n < (int64_t{1} << 62)) {
    const int64_t b = resim::time::as_duration(s).count();
    const long double err = fabsl(static_cast<long double>(b) - n);
    if (err > fabsl(static_cast<long double>(n)) * 3.4e-16L + 1) mc::violation("seconds-roundtrip-large", what(), mc::str("came back as ", b, "ns"));
  }
  mc::maybe_sample(what);
}
}  // namespace

int main(int argc, char **argv) {
  return mc::run(argc, argv, [] {
    uint64_t index = 0;
    const int64_t around0 = mc::thorough ? 60000000 : 3000000;
    for (int64_t b = -around0; b < around0; b += 4096) {
      if (!mc::my_shard(index++)) continue;
      for (int64_t n = b; n < b + 4096; ++n) one(n);
    }
    mc::bounds["around zero"] = mc::str("all durations within ", around0, "ns of zero");
    const int64_t r = mc::thorough ? 20000 : 1500;
    std::set<int64_t> centres;
    for (int k = 20; k <= 62; ++k) centres.insert(int64_t{1} << k);
    for (int64_t p = 1000000; p < MAX / 10; p *= 10)
      for (int m : {1, 2, 3, 5, 7, 9}) centres.insert(p * m);
    for (int64_t d = 1; d <= 40; ++d) centres.insert(d * 86400000000000LL);  // days
    for (int64_t s = 1; s <= 130; ++s) centres.insert(s * 1000000000LL);
    centres.insert(1700000000000000000LL);
    centres.insert(1000000000LL * 2147483647LL);
    centres.insert(1000000000LL * 4294967296LL);
    for (int64_t c : centres) {
      if (!mc::my_shard(index++)) continue;
      for (int64_t j = -r; j <= r; ++j) {
        one(c + j);
        one(-c + j);
      }
    }
    mc::bounds["centres"] = mc::str("all durations within ", r, "ns of +-", centres.size(), " powers of two, multiples of powers of ten, seconds and days");
    if (mc::shard == 0)
      for (int64_t j = 0; j <= r; ++j) {
        one(MAX - j);
        one(MIN + j);
      }
    // Every tick of coarser grids over the first day and the first twenty days.
    for (int64_t k = 0; k < (mc::thorough ? 20000000 : 1000000); k += 1000) {
      if (!mc::my_shard(index++)) continue;
      for (int64_t i = k; i < k + 1000; ++i) {
        one(i * 86399999);   // up to a day of co-prime ticks
        one(-i * 1000);
        one(i * 1000000);
      }
    }
    mc::bounds["grids"] = "multiples of 1us, 1ms and 86399999ns";
  });
}
