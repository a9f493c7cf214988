// Controlled scheduling of real threads with happens-before race detection. The code under test is compiled with
// ThreadSanitizer's instrumentation (clang -fsanitize=thread) but linked with the callbacks of sched.cc instead of TSan's
// runtime, and all pthread entry points are interposed. Exactly one thread runs at a time; at every synchronisation
// operation (mutex, rwlock, condition, once, static guard, atomic, futex, create, join, yield) of the code under test the
// scheduler may switch. One execution lives in one forked child; the parent enumerates the choices depth first.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sched {

struct Outcome {
  bool ended = false;              // the child reached its end
  std::vector<int> taken, arity;   // choices made
  std::vector<uint64_t> states;    // hashes of the states at scheduling points
  std::string key, detail;         // violation, if any
  uint64_t points = 0, accesses = 0, preemptions = 0;
  bool unlock_points = false;      // locks are tried, so unlocking has become a scheduling point: start again if this changes
  std::string events;              // human readable schedule
};

// Runs `body` in a forked child (as thread 0) under the scheduler, following `prefix` and then always choice 0.
Outcome execute(const std::vector<int> &prefix, int preemption_bound, const std::function<void()> &body);

// To be called by the code of the harness inside the child:
void point(const char *label);                                      // a scheduling point
void fail(const std::string &key, const std::string &detail);       // records a violation (first one counts)
void mix_state(uint64_t h);                                         // adds to the hash of the current state
void note(const std::string &s);                                    // adds to the readable schedule
int self();
struct Ignore {  // accesses in this scope are not checked for races and are no scheduling points
  Ignore();
  ~Ignore();
};

}  // namespace sched
