// C05: checked arithmetic on complete products of boundary neighbourhoods, against 128-bit arithmetic.
#include <algorithm>

#include "mc.hh"
#include "resim/math/safe_integer_utils.hh"

namespace {
constexpr int64_t MIN = std::numeric_limits<int64_t>::min();
constexpr int64_t MAX = std::numeric_limits<int64_t>::max();
int64_t A, B;

void check(const char *op, __int128 exact, int64_t (*f)()) {
  ++mc::transitions;
  const bool fits = exact >= MIN && exact <= MAX;
  int64_t r = 0;
  const bool rejected = mc::rejects([&] { r = f(); });
  if (rejected == fits)
    mc::violation(op, mc::describe(), fits ? "refused although the result fits" : mc::str("returned ", r, " although the result does not fit"));
  else if (fits && r != exact)
    mc::violation(op, mc::describe(), mc::str("returned ", r));
}
void pair(int64_t a, int64_t b) {
  A = a;
  B = b;
  ++mc::traces;
  mc::state(mc::mix(static_cast<uint64_t>(a), static_cast<uint64_t>(b)));
  check("sum", static_cast<__int128>(a) + b, [] { return resim::math::safe_sum(A, B); });
  check("difference", static_cast<__int128>(a) - b, [] { return resim::math::safe_difference(A, B); });
  mc::maybe_sample(mc::describe);
}
}  // namespace

int main(int argc, char **argv) {
  return mc::run(argc, argv, [] {
    mc::describe = [] { return mc::str("a=", A, " b=", B); };
    std::vector<int64_t> v;
    const int j = mc::thorough ? 6 : 2;
    for (int k = 0; k <= 62; ++k)
      for (int d = -j; d <= j; ++d) {
        v.push_back((int64_t{1} << k) + d);
        v.push_back(-(int64_t{1} << k) + d);
        // complements: sums with the above land on the limits
        v.push_back(MAX - (int64_t{1} << k) + (d < 0 || k > 8 ? d : -d));
        v.push_back(MIN + (int64_t{1} << k) + (d > 0 || k > 8 ? d : -d));
      }
    for (int d = 0; d <= 40; ++d) {
      v.push_back(MAX - d);
      v.push_back(MIN + d);
      v.push_back(MAX / 2 - 20 + d);
      v.push_back(MIN / 2 - 20 + d);
      v.push_back(d - 20);
    }
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
    uint64_t index = 0;
    for (int64_t a : v) {
      mc::beat();
      if (!mc::my_shard(index++)) continue;
      A = a;
      B = 0;
      check("abs", a < 0 ? -static_cast<__int128>(a) : a, [] { return resim::math::safe_abs(A); });
      for (int64_t b : v) pair(a, b);
      // every b whose sum or difference with a is within 3 of a limit
      for (int d = -3; d <= 3; ++d)
        for (__int128 limit : {static_cast<__int128>(MAX), static_cast<__int128>(MIN)}) {
          const __int128 bs = limit - a + d;
          const __int128 bd = a - limit + d;
          if (bs >= MIN && bs <= MAX) pair(a, static_cast<int64_t>(bs));
          if (bd >= MIN && bd <= MAX) pair(a, static_cast<int64_t>(bd));
        }
    }
    mc::bounds["pairs"] = mc::str("all pairs of ", v.size(), " boundary values (neighbourhoods of all powers of two, of the limits and their halves, of zero) plus, for each, all partners that bring the result within 3 of a limit");
  });
}
