// Stateless exhaustive exploration: a run asks for choices; all combinations are enumerated by depth-first re-execution.
#pragma once
#include <cstddef>
#include <vector>

namespace mc {
struct Chooser {
  std::vector<int> taken, arity;
  std::size_t pos = 0;
  // One of 0..n-1.
  int choose(int n) {
    if (pos == taken.size()) {
      taken.push_back(0);
      arity.push_back(n);
    }
    return taken[pos++];
  }
  void begin() { pos = 0; }
  // Moves to the next combination; false when all are done. Keeps the first `frozen` choices fixed.
  bool next(std::size_t frozen = 0) {
    taken.resize(pos);
    arity.resize(pos);
    while (taken.size() > frozen && taken.back() + 1 >= arity.back()) {
      taken.pop_back();
      arity.pop_back();
    }
    if (taken.size() <= frozen) return false;
    ++taken.back();
    return true;
  }
};
}  // namespace mc
