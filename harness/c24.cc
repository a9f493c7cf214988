// C24, sequential part: no operation leaves anything behind that changes the result of a later one. The reference result of
// each operation is the one it gives as the very first operation of a process.
#include <sys/mman.h>
#include <sys/wait.h>

#include "purefam.hh"

namespace {
using namespace pure;

// Runs f in a forked process and returns what it wrote.
std::string in_child(const std::function<std::string()> &f) {
  int p[2];
  if (pipe(p)) abort();
  const pid_t c = fork();
  if (c == 0) {
    close(p[0]);
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) signal(s, SIG_DFL);
    alarm(100);
    signal(SIGALRM, SIG_DFL);
    std::string s = "+" + f();
    for (size_t i = 0; i < s.size();) {
      const ssize_t n = write(p[1], s.data() + i, s.size() - i);
      if (n <= 0) break;
      i += n;
    }
    _exit(0);
  }
  close(p[1]);
  std::string r;
  char b[65536];
  for (;;) {
    const ssize_t n = read(p[0], b, sizeof b);
    if (n < 0 && errno == EINTR) continue;
    if (n <= 0) break;
    r.append(b, n);
  }
  close(p[0]);
  int st = 0;
  while (waitpid(c, &st, 0) < 0 && errno == EINTR) {
  }
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) return "died";
  return r;
}
// The cyclic sequence over n symbols in which every word of length k occurs exactly once.
std::vector<int> de_bruijn(int n, int k) {
  std::vector<int> a(k + 1, 0), out;
  std::function<void(int, int)> db = [&](int t, int p) {
    if (t > k) {
      if (k % p == 0) out.insert(out.end(), a.begin() + 1, a.begin() + p + 1);
      return;
    }
    a[t] = a[t - p];
    db(t + 1, p);
    for (int j = a[t - p] + 1; j < n; ++j) {
      a[t] = j;
      db(t + 1, t);
    }
  };
  db(1, 1);
  return out;
}

// Operations on arguments that are close to, or share something with, the arguments of the operation before: what a memo with
// a careless key would confuse. All ordered pairs of the variants of each argument list.
void neighbours(std::string *now) {
  uint64_t index = 0;
  for (const Family &f : families()) {
    if (!mc::my_shard(index++)) continue;
    const auto vars = variants(f);
    std::vector<std::string> ref(vars.size());
    const auto run = [&](size_t i) {
      return perform(Op{f.name, [&](const World &, Out &o) { f.run(vars[i].second, o); }}, *static_cast<const World *>(nullptr));
    };
    for (size_t i = 0; i < vars.size(); ++i) {
      *now = f.name + " " + vars[i].first;
      ref[i] = in_child([&] { return run(i); });
      mc::beat();
      if (ref[i] == "died") {
        mc::violation("crash", *now, "the operation died");
        return;
      }
      ref[i] = ref[i].substr(1);
      mc::state(mc::hash_str(ref[i] + f.name));
    }
    for (size_t i = 0; i < vars.size(); ++i)
      for (size_t j = 0; j < vars.size(); ++j) {
        *now = f.name + " " + vars[j].first + " after " + vars[i].first;
        const bool a = run(i) == ref[i], b = run(j) == ref[j];
        mc::transitions += 2;
        ++mc::traces;
        mc::beat();
        if (!a || !b) mc::violation("depends-on-history", *now, "the result differs from the one the same operation gives in a fresh process");
      }
  }
  mc::bounds["neighbours"] = mc::str(index, " operations, all ordered pairs of argument lists that differ in one number by 1 ulp to 1e-2, in sign, order or a zero");
}
}  // namespace

int main(int argc, char **argv) {
  return mc::run(argc, argv, [&]() {
    const std::vector<Op> ops = operations();
    const int n = ops.size();
    auto world = std::make_unique<World>();
    std::vector<std::string> ref(n);
    std::string now;
    mc::describe = [&]() { return now; };
    for (int i = 0; i < n; ++i) {
      now = ops[i].name;
      ref[i] = in_child([&]() { return perform(ops[i], *world); });
      mc::beat();
      if (ref[i] == "died") mc::violation("crash", now, "the operation died");
      else ref[i] = ref[i].substr(1);
      mc::state(mc::hash_str(ref[i]));
    }
    mc::bounds["operations"] = mc::str(n, " operations; every ordered pair in a process of its own; every ordered triple (thorough: quadruple of one per group) in one process; each operation 300 times in a row");
    const auto wrong = [&](int i, const std::string &after) {
      mc::violation("depends-on-history", ops[i].name + " after " + after, "the result differs from the one the same operation gives in a fresh process");
    };
    // All ordered pairs, each in a fresh process with a world of its own too (construction is part of the history).
    for (int a = 0; a < n; ++a) {
      if (!mc::my_shard(a)) continue;
      for (int b = 0; b < n; ++b) {
        now = ops[a].name + "; " + ops[b].name;
        const std::string r = in_child([&]() {
          const std::string x = perform(ops[a], *world);
          std::string y = perform(ops[b], *world);
          return std::string(x == ref[a] ? "=" : "!") + (y == ref[b] ? "=" : "!");
        });
        mc::beat();
        ++mc::traces;
        mc::transitions += 2;
        mc::state(mc::mix(a * 1000 + b, 2));
        if (r == "died") mc::violation("crash", now, "the operations died");
        else if (r[1] == '!') wrong(a, "nothing");
        else if (r[2] == '!') wrong(b, ops[a].name);
      }
    }
    // All ordered triples, one after the other: a cyclic sequence that contains each exactly once, cut into pieces.
    {
      const std::vector<int> seq = de_bruijn(n, 3);
      const size_t piece = 2000;
      for (size_t from = 0, k = 0; from < seq.size(); from += piece, ++k) {
        if (!mc::my_shard(k)) continue;
        std::string after = "(all earlier triples)";
        for (size_t at = from; at < from + piece + 2 && at < seq.size() + 2; ++at) {
          const int i = seq[at % seq.size()];
          now = ops[i].name + " after " + after;
          if (perform(ops[i], *world) != ref[i]) wrong(i, after);
          after = ops[i].name;
          mc::beat();
          ++mc::transitions;
          ++mc::traces;
          mc::state(mc::mix(at, 3));
        }
      }
    }
    neighbours(&now);
    // One operation many times (counters, pools, warm-up), then all others.
    for (int a = 0; a < n; ++a) {
      if (!mc::my_shard(a)) continue;
      now = mc::str(ops[a].name, " many times");
      for (int k = 0; k < 300; ++k) {
        if (perform(ops[a], *world) != ref[a]) wrong(a, "itself many times");
        mc::beat();
        ++mc::transitions;
      }
      for (int b = 0; b < n; ++b)
        if (perform(ops[b], *world) != ref[b]) wrong(b, ops[a].name + " many times");
      mc::transitions += n;
      ++mc::traces;
    }
    // A second world of equal content: results depend on the content only, not on which object it is.
    for (int rep = 0; rep < 3; ++rep) {
      auto other = std::make_unique<World>();
      for (int a = 0; a < n; ++a) {
        now = ops[a].name + " on another object of equal content";
        if (perform(ops[a], *other) != ref[a]) wrong(a, "construction of another object of equal content");
        ++mc::transitions;
      }
      world = std::move(other);
    }
    if (mc::thorough) {
      // All ordered quadruples over every third operation.
      for (int off = 0; off < 3; ++off) {
        std::vector<int> sel;
        for (int i = off; i < n; i += 3) sel.push_back(i);
        uint64_t idx = 0;
        for (int a : sel)
          for (int b : sel) {
            if (!mc::my_shard(idx++)) continue;
            for (int c : sel)
              for (int d : sel) {
                const int seq[4] = {a, b, c, d};
                std::string after = "(all earlier quadruples)";
                for (int i : seq) {
                  now = ops[i].name + " after " + after;
                  if (perform(ops[i], *world) != ref[i]) wrong(i, after);
                  after = ops[i].name;
                  mc::beat();
                }
                mc::transitions += 4;
                ++mc::traces;
              }
          }
      }
    }
  });
}
