// Support for the bounded exhaustive explorers in /verif/harness.
//
// Every harness enumerates a finite space of behaviours of the real code completely, in a fixed order and without
// randomness, and reports through this header: the distinct states it reached, the transitions (operations) it executed
// on the implementation, the traces (operation sequences, schedules, fault scripts) it compared with the oracle, and any
// violation together with the trace that shows it.
#pragma once
#include <signal.h>
#include <sys/time.h>
#include <unistd.h>

#include <atomic>
#include <cinttypes>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <algorithm>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define MC_ASAN 1
#endif
#if __has_feature(address_sanitizer) || __has_feature(undefined_behavior_sanitizer)
#define MC_SAN 1
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif
#endif

namespace mc {

inline std::string tier = "quick";
inline bool thorough = false;
inline int shard = 0;
inline int shards = 1;
inline std::string out_path;
inline std::string only;  // restrict to the case with this description, if the harness supports it
inline uint64_t transitions = 0;
inline uint64_t traces = 0;
inline std::unordered_set<uint64_t> state_hashes;
inline std::map<std::string, std::string> bounds;
inline std::map<std::string, uint64_t> counters;
inline std::vector<std::string> samples;
inline bool exhaustive = true;

struct Violation {
  std::string key, trace, detail;
};
inline std::vector<Violation> violations;
inline uint64_t violation_count = 0;
inline std::map<std::string, int> per_key;
inline std::string assertion_note;

// Describes the case being explored; used when the code under test crashes or hangs.
inline std::function<std::string()> describe;
inline volatile uint64_t beats = 0;
inline void beat() { beats = beats + 1; }

inline std::string json_escape(const std::string &s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += static_cast<char>(c);
    } else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else {
      r += static_cast<char>(c);
    }
  }
  return r;
}

inline void write_out(const char *ending) {
  if (out_path.empty()) {
    for (const auto &v : violations)
      fprintf(stderr, "violation [%s] %s :: %s\n", v.key.c_str(), v.trace.c_str(), v.detail.c_str());
    fprintf(stderr, "%s: states %zu transitions %" PRIu64 " traces %" PRIu64 " violations %" PRIu64 "\n", ending,
            state_hashes.size(), transitions, traces, violation_count);
    for (auto &c : counters) fprintf(stderr, "  %s = %" PRIu64 "\n", c.first.c_str(), c.second);
    return;
  }
  std::ofstream o(out_path + ".tmp");
  o << "{\"ending\":\"" << ending << "\",\"transitions\":" << transitions << ",\"traces\":" << traces
    << ",\"states\":" << state_hashes.size() << ",\"exhaustive\":" << (exhaustive ? "true" : "false")
    << ",\"violation_count\":" << violation_count << ",\"violations\":[";
  bool first = true;
  for (const auto &v : violations) {
    o << (first ? "" : ",") << "{\"key\":\"" << json_escape(v.key) << "\",\"trace\":\"" << json_escape(v.trace)
      << "\",\"detail\":\"" << json_escape(v.detail) << "\"}";
    first = false;
  }
  o << "],\"samples\":[";
  first = true;
  for (const auto &s : samples) {
    o << (first ? "" : ",") << '"' << json_escape(s) << '"';
    first = false;
  }
  o << "],\"bounds\":{";
  first = true;
  for (const auto &b : bounds) {
    o << (first ? "" : ",") << '"' << json_escape(b.first) << "\":\"" << json_escape(b.second) << '"';
    first = false;
  }
  o << "},\"counters\":{";
  first = true;
  for (const auto &b : counters) {
    o << (first ? "" : ",") << '"' << json_escape(b.first) << "\":" << b.second;
    first = false;
  }
  o << "}}\n";
  o.close();
  {
    std::ofstream h(out_path + ".states", std::ios::binary);
    for (uint64_t x : state_hashes) h.write(reinterpret_cast<const char *>(&x), 8);
  }
  rename((out_path + ".tmp").c_str(), out_path.c_str());
}

struct TooMany {};

// Record a violation. At most three traces are kept per key; exploration of this harness ends after 60 in all.
inline void violation(const std::string &key, const std::string &trace, const std::string &detail) {
  ++violation_count;
  if (++per_key[key] <= 3) violations.push_back({key, trace, detail});
  if (violation_count >= 60) throw TooMany{};
}

inline void sample(const std::string &s) {
  if (samples.size() < 6) samples.push_back(s);
}
// A sample taken at exponentially growing trace numbers, so that late traces show too.
inline void maybe_sample(const std::function<std::string()> &f) {
  static uint64_t next = 1;
  if (traces >= next && samples.size() < 6) {
    samples.push_back(f());
    next = next * 16;
  }
}

inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h ^= h >> 31;
  h *= 0xff51afd7ed558ccdULL;
  h ^= h >> 33;
  return h;
}
inline uint64_t hash_str(const std::string &s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) {
    h ^= c;
    h *= 1099511628211ULL;
  }
  return mix(h, s.size());
}
inline uint64_t bits(double d) {
  uint64_t u;
  std::memcpy(&u, &d, 8);
  return u;
}
inline void state(uint64_t h) { state_hashes.insert(h); }
inline bool new_state(uint64_t h) { return state_hashes.insert(h).second; }

inline std::atomic<bool> dying{false};
inline void die(const char *key, const char *what) {
  if (dying.exchange(true)) _exit(3);
  std::string d;
  try {
    d = describe ? describe() : std::string("(no case description)");
  } catch (...) {
    d = "(case could not be described)";
  }
  ++violation_count;
  violations.push_back({key, d, what});
  write_out("died");
}
inline void on_signal(int sig) {
  char b[64];
  snprintf(b, sizeof b, "the code under test died with signal %d", sig);
  die("crash", b);
  _exit(0);
}
inline uint64_t last_beats = 0;
inline int idle_ticks = 0;
inline int hang_seconds = 120;
inline void on_tick(int) {
  if (beats == last_beats) {
    if (++idle_ticks >= hang_seconds) {
      die("hang", "one case did not finish within the time limit");
      _exit(0);
    }
  } else {
    idle_ticks = 0;
    last_beats = beats;
  }
}
inline void on_sanitizer_death() {
  if (!dying) die("sanitizer", "the sanitizer stopped the code under test (memory error or undefined behaviour)");
}

inline void init(int argc, char **argv) {
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--tier") tier = next();
    if (a == "--out") out_path = next();
    if (a == "--shard") {
      std::string s = next();
      sscanf(s.c_str(), "%d/%d", &shard, &shards);
    }
    if (a == "--only") only = next();
  }
  thorough = tier == "thorough";
#ifdef MC_SAN
  __sanitizer_set_death_callback(on_sanitizer_death);
#endif
#ifndef MC_ASAN
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL}) signal(s, on_signal);
#endif
  signal(SIGABRT, on_signal);
  signal(SIGALRM, on_tick);
  struct itimerval tv {
    {1, 0}, { 1, 0 }
  };
  setitimer(ITIMER_REAL, &tv, nullptr);
}
inline int finish() {
  write_out("done");
  return 0;
}

// Runs the body of a harness.
inline int run(int argc, char **argv, const std::function<void()> &body) {
  init(argc, argv);
  try {
    body();
  } catch (const TooMany &) {
    exhaustive = false;
  } catch (const std::exception &e) {
    ++violation_count;
    // What describe() refers to may be gone by now.
    violations.push_back({"escaped-exception", "(an operation that must succeed was rejected)", e.what()});
  }
  return finish();
}

template <typename... T>
std::string str(const T &...t) {
  std::ostringstream o;
  o.precision(17);
  (o << ... << t);
  return o.str();
}

// Calls f, returning true if it threw an std::exception (rejection), false if it returned.
template <typename F>
bool rejects(F &&f) {
  try {
    f();
  } catch (const TooMany &) {
    throw;
  } catch (const std::exception &) {
    return true;
  }
  return false;
}

// Enumerates all words over {0..k-1} of length 0..depth in lexicographic (prefix-first) order; `visit` gets the word
// and returns whether to extend it.
inline void all_words(int k, int depth, const std::function<bool(const std::vector<int> &)> &visit) {
  std::vector<int> w;
  std::function<void()> rec = [&]() {
    if (!visit(w)) return;
    if (static_cast<int>(w.size()) == depth) return;
    for (int i = 0; i < k; ++i) {
      w.push_back(i);
      rec();
      w.pop_back();
    }
  };
  rec();
}

inline bool my_shard(uint64_t index) { return static_cast<int>(index % static_cast<uint64_t>(shards)) == shard; }

}  // namespace mc
