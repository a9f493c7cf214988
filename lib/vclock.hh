// Virtual time: the C library's clock and sleep entry points, replaced for the whole program (include in one file).
#pragma once
#include <errno.h>
#include <time.h>
#include <unistd.h>

#include <cstdint>

namespace vclock {
inline int64_t now_ns = 1000000000000000;  // virtual time
inline int64_t slept_ns = 0;
inline uint64_t sleeps = 0;
inline void sleep_for(int64_t ns) {
  if (ns < 0) ns = 0;
  now_ns += ns;
  slept_ns += ns;
  ++sleeps;
}
}  // namespace vclock

extern "C" {
int clock_gettime(clockid_t, struct timespec *t) noexcept {
  t->tv_sec = vclock::now_ns / 1000000000;
  t->tv_nsec = vclock::now_ns % 1000000000;
  return 0;
}
int gettimeofday(struct timeval *t, void *) noexcept {
  t->tv_sec = vclock::now_ns / 1000000000;
  t->tv_usec = vclock::now_ns % 1000000000 / 1000;
  return 0;
}
time_t time(time_t *t) noexcept {
  const time_t s = vclock::now_ns / 1000000000;
  if (t) *t = s;
  return s;
}
int nanosleep(const struct timespec *r, struct timespec *rem) {
  vclock::sleep_for(r->tv_sec * 1000000000 + r->tv_nsec);
  if (rem) *rem = {0, 0};
  return 0;
}
int clock_nanosleep(clockid_t, int flags, const struct timespec *r, struct timespec *rem) {
  const int64_t t = r->tv_sec * 1000000000 + r->tv_nsec;
  vclock::sleep_for(flags & TIMER_ABSTIME ? t - vclock::now_ns : t);
  if (rem) *rem = {0, 0};
  return 0;
}
int usleep(useconds_t us) {
  vclock::sleep_for(int64_t{us} * 1000);
  return 0;
}
unsigned sleep(unsigned s) {
  vclock::sleep_for(int64_t{s} * 1000000000);
  return 0;
}
}
