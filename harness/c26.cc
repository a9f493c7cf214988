// C26: random durations. The generator is scripted, so that the function from generator outputs to durations is observed
// directly. A function of exactly 64 random bits is uniform over the 2^64 durations only if it is one to one.
#include <random>

#include "mc.hh"
#include "resim/time/random_duration.hh"
#include "resim/utils/inout.hh"

namespace {
using resim::InOut;
using resim::time::Duration;
using resim::time::random_duration;

struct Exhausted : std::exception {};

// Emits the words of a script, then fails.
template <typename U, U MIN, U MAX>
struct Scripted {
  using result_type = U;
  static constexpr U min() { return MIN; }
  static constexpr U max() { return MAX; }
  const std::vector<U> *script;
  size_t at = 0;
  U operator()() {
    if (at >= script->size()) throw Exhausted{};
    return (*script)[at++];
  }
};

std::vector<uint64_t> corner_words() {
  std::set<uint64_t> s;
  for (int b = 0; b < 64; ++b)
    for (int d = -40; d <= 40; ++d) {
      s.insert((uint64_t{1} << b) + d);
      s.insert(~((uint64_t{1} << b) + d));
      s.insert(uint64_t(1) * d + (~uint64_t{0} << b));
    }
  for (int p = 0; p < 8; ++p)
    for (uint64_t v = 0; v < 256; ++v) {
      s.insert(v << (8 * p));
      s.insert(~(v << (8 * p)));
      s.insert(0x5555555555555555ull ^ (v << (8 * p)));
      s.insert(0x123456789abcdef0ull ^ (v << (8 * p)));
    }
  for (uint64_t k = 0; k < 65536; ++k) {
    s.insert(k << 48);
    s.insert(k);
    s.insert(k * 0x0001000100010001ull);
  }
  if (mc::thorough)
    for (uint64_t k = 0; k < 65536; ++k)
      for (int sh = 4; sh < 48; sh += 4) {
        s.insert(k << sh);
        s.insert(~(k << sh));
      }
  return {s.begin(), s.end()};
}

// Generators of w bits: every corner word, cut into 64/w outputs, must be used up exactly (first output either end).
template <typename U, U MIN, U MAX>
void bijection(const char *name, int w, const std::vector<uint64_t> &words) {
  const int n = 64 / w;
  std::map<int64_t, uint64_t> from;
  uint64_t cur = 0;
  mc::describe = [&]() { return mc::str(name, " emitting ", std::hex, cur); };
  bool low = false, high = false, neg = false, pos = false;
  for (uint64_t x : words) {
    cur = x;
    mc::beat();
    std::vector<U> script;
    for (int i = 0; i < n; ++i) script.push_back(static_cast<U>(MIN + (x >> (w * (n - 1 - i)) & (w == 64 ? ~uint64_t{0} : (uint64_t{1} << w) - 1))));
    Scripted<U, MIN, MAX> g{&script};
    ++mc::transitions;
    ++mc::traces;
    Duration d{};
    try {
      d = random_duration(InOut(g));
    } catch (const Exhausted &) {
      mc::violation("not-uniform", mc::describe(), "64 random bits were not enough: the durations cannot be equally likely");
      continue;
    }
    mc::state(mc::mix(w, d.count()));
    if (g.at != script.size()) {
      mc::violation("not-uniform", mc::describe(), mc::str("only ", g.at * w, " random bits decide a duration: not all durations can be reached"));
      continue;
    }
    const auto [it, fresh] = from.emplace(d.count(), x);
    if (!fresh) mc::violation("not-uniform", mc::describe(), mc::str("duration ", d.count(), " also comes from the outputs ", std::hex, it->second, ": not all durations can be equally likely"));
    low |= d == Duration::min();
    high |= d == Duration::max();
    neg |= d.count() < 0;
    pos |= d.count() > 0;
    // Reproducible: the same outputs give the same duration, whatever other generators did in between.
    std::vector<U> other(script.rbegin(), script.rend());
    Scripted<U, MIN, MAX> h{&other}, again{&script};
    try {
      (void)random_duration(InOut(h));
      if (random_duration(InOut(again)) != d) mc::violation("not-reproducible", mc::describe(), "the same generator outputs gave another duration");
    } catch (const Exhausted &) {
      mc::violation("not-reproducible", mc::describe(), "the second call used more outputs than the first");
    }
    mc::transitions += 2;
  }
  if (!neg || !pos) mc::violation("range", name, "durations of one sign only");
  mc::maybe_sample([&]() { return mc::describe(); });
}

// Real generators: every value of every byte equally often within 6.5 standard deviations (a fixed sequence, no chance involved).
template <typename G>
void spread(const char *name, uint64_t seed) {
  G g(seed);
  const int n = mc::thorough ? 1 << 23 : 1 << 20;
  std::vector<std::vector<int>> count(8, std::vector<int>(256));
  mc::describe = [&]() { return mc::str(name, " seeded ", seed); };
  std::vector<int64_t> first;
  for (int i = 0; i < n; ++i) {
    const int64_t d = random_duration(InOut(g)).count();
    if (i < 1000) first.push_back(d);
    for (int b = 0; b < 8; ++b) ++count[b][static_cast<uint64_t>(d) >> (8 * b) & 255];
    if (i % 1024 == 0) mc::beat();
  }
  mc::transitions += n;
  ++mc::traces;
  const double e = n / 256., sd = std::sqrt(e * 255 / 256);
  for (int b = 0; b < 8; ++b)
    for (int v = 0; v < 256; ++v)
      if (std::fabs(count[b][v] - e) > 6.5 * sd) mc::violation("not-uniform", mc::describe(), mc::str("byte ", b, " has value ", v, " ", count[b][v], " times out of ", n));
  // Two generators of equal seed, in turns: each gives the sequence of its own.
  G x(seed), y(seed);
  for (int i = 0; i < 1000; ++i) {
    const int64_t a = random_duration(InOut(x)).count(), b = random_duration(InOut(y)).count();
    if (a != first[i] || b != first[i]) {
      mc::violation("not-reproducible", mc::describe(), mc::str("draw ", i, " differs between equally seeded generators"));
      break;
    }
  }
}
}  // namespace

int main(int argc, char **argv) {
  return mc::run(argc, argv, [&]() {
    const std::vector<uint64_t> words = corner_words();
    mc::bounds["generator outputs"] = mc::str(words.size(), " words of 64 bits (neighbourhoods of all powers of two, all byte values at all positions, all 16-bit prefixes and suffixes), emitted by generators of 64, 32, 16 and 8 bits");
    if (mc::my_shard(0)) bijection<uint64_t, 0, UINT64_MAX>("generator of 64 bits", 64, words);
    if (mc::my_shard(1)) bijection<uint32_t, 0, UINT32_MAX>("generator of 32 bits", 32, words);
    if (mc::my_shard(2)) bijection<uint64_t, 0, UINT32_MAX>("generator of 32 bits in 64", 32, words);
    if (mc::my_shard(3)) bijection<uint16_t, 0, UINT16_MAX>("generator of 16 bits", 16, words);
    if (mc::my_shard(4)) bijection<uint8_t, 0, UINT8_MAX>("generator of 8 bits", 8, words);
    if (mc::my_shard(5)) bijection<uint32_t, 5, 5 + UINT16_MAX>("generator of 16 bits from 5", 16, words);
    if (mc::my_shard(6)) spread<std::mt19937_64>("mt19937_64", 1);
    if (mc::my_shard(7)) spread<std::mt19937>("mt19937", 293);
    if (mc::my_shard(6)) spread<std::minstd_rand>("minstd_rand", 7);
    if (mc::my_shard(7)) spread<std::ranlux48>("ranlux48", 7);
  });
}
