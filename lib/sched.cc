#include "sched.hh"

#include <dlfcn.h>
#include <errno.h>
#include <execinfo.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <new>

// This file must not use containers whose (weak) members could be merged with instrumented copies from other files and
// then recurse; everything in the callbacks works on plain arrays, and `busy` guards against recursion.

extern "C" char __executable_start, etext;

namespace {

constexpr int MAXT = 12;
constexpr int MAXCHOICE = 4000;
constexpr int MAXSTATES = 6000;
constexpr int MAXTEXT = 6000;

struct Shared {
  int prefix_len, bound;
  int prefix[MAXCHOICE];
  int n;
  int taken[MAXCHOICE], arity[MAXCHOICE];
  int nstates;
  uint64_t states[MAXSTATES];
  char key[64];
  char detail[3000];
  char events[MAXTEXT];
  int nevents;
  uint64_t points, accesses, preemptions;
  int ended;
  int unlock_points;  // kept over executions: someone tries locks, so the moment of unlocking is visible
};
Shared *sh;
volatile bool active = false;
thread_local int me = 0;
thread_local int busy = 0;
thread_local int ignoring = 0;

struct Clock {
  uint32_t c[MAXT];
};
enum Wait { RUN, MUTEX, RW_R, RW_W, COND, JOIN, ONCE, GUARD, FUTEX, SEM };
struct Thread {
  bool used, done, joined, detached;
  Wait wait;
  void *on;
  bool timed, timed_out, notified;
  int baton;  // futex word
  Clock vc;
  uint64_t steps;
  pthread_t real;
  void *(*fn)(void *);
  void *arg;
  const char *last;
};
Thread T[MAXT];
int nthreads = 1;
int current = 0;
int preemptions = 0;
int streak = 0;
uint64_t state_mix = 0;

long raw_syscall(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 asm("r10") = d;
  register long r8 asm("r8") = e;
  register long r9 asm("r9") = f;
  asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}

void text(char *to, int &n, int cap, const char *s) {
  while (*s && n < cap - 1) to[n++] = *s++;
  to[n] = 0;
}
void event(const char *s) {
  char b[24];
  snprintf(b, sizeof b, " %d:", current);
  text(sh->events, sh->nevents, MAXTEXT, b);
  text(sh->events, sh->nevents, MAXTEXT, s);
}

[[noreturn]] void stop() {
  active = false;
  raw_syscall(SYS_exit_group, 0, 0, 0, 0, 0, 0);
  __builtin_unreachable();
}
[[noreturn]] void violate(const char *key, const char *detail) {
  if (!sh->key[0]) {
    snprintf(sh->key, sizeof sh->key, "%s", key);
    snprintf(sh->detail, sizeof sh->detail, "%s", detail);
  }
  sh->ended = 1;
  stop();
}

// ---- synchronisation objects ----------------------------------------------------------------------------------------
struct Obj {
  void *addr;
  int kind;
  int owner;  // exclusive owner or -1
  int count;
  int readers[MAXT];
  Clock vc, rvc;
};
constexpr int MAXOBJ = 1 << 12;
Obj objs[MAXOBJ];
uint16_t obj_index[4 * MAXOBJ];
int nobjs = 0;
Obj *obj(void *a, int kind) {
  uint64_t h = (reinterpret_cast<uint64_t>(a) >> 2) * 0x9e3779b97f4a7c15ULL >> 40;
  for (int i = 0; i < 4 * MAXOBJ; ++i) {
    uint16_t &k = obj_index[(h + i) & (4 * MAXOBJ - 1)];
    if (k && objs[k].addr == a && objs[k].kind == kind) return &objs[k];
    if (!k) {
      if (nobjs + 1 >= MAXOBJ) break;
      k = static_cast<uint16_t>(++nobjs);
      objs[k].addr = a;
      objs[k].kind = kind;
      objs[k].owner = -1;
      return &objs[k];
    }
  }
  violate("harness", "too many synchronisation objects");
}
void forget(void *a, int kind) {
  Obj *o = obj(a, kind);
  o->owner = -1;
  o->count = 0;
  memset(o->readers, 0, sizeof o->readers);
  memset(&o->vc, 0, sizeof o->vc);
  memset(&o->rvc, 0, sizeof o->rvc);
}
void join_to(Clock &a, const Clock &b) {
  for (int i = 0; i < MAXT; ++i)
    if (b.c[i] > a.c[i]) a.c[i] = b.c[i];
}
void acquire(const Clock &c) { join_to(T[me].vc, c); }
void release(Clock &c) {
  join_to(c, T[me].vc);
  ++T[me].vc.c[me];
}

bool has_readers(Obj *o) {
  for (int i = 0; i < MAXT; ++i)
    if (o->readers[i]) return true;
  return false;
}
bool can_run(int t) {
  Thread &x = T[t];
  if (!x.used || x.done) return false;
  switch (x.wait) {
    case RUN: return true;
    case MUTEX: {
      Obj *o = obj(x.on, MUTEX);
      return o->owner == -1 || (o->owner == t && o->count < 0);
    }
    case RW_R: return obj(x.on, RW_R)->owner == -1;
    case RW_W: {
      Obj *o = obj(x.on, RW_R);
      return o->owner == -1 && !has_readers(o);
    }
    case COND: return x.notified;
    case FUTEX: return x.notified;
    case JOIN: return T[reinterpret_cast<intptr_t>(x.on)].done;
    case ONCE:
    case GUARD: return obj(x.on, x.wait)->owner == -1;
    case SEM: return obj(x.on, SEM)->count > 0;
  }
  return false;
}

void futex_wait(int *w) {
  while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0) raw_syscall(SYS_futex, (long)w, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  __atomic_store_n(w, 0, __ATOMIC_RELEASE);
}
void futex_wake(int *w) {
  __atomic_store_n(w, 1, __ATOMIC_RELEASE);
  raw_syscall(SYS_futex, (long)w, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

int choose(int n) {
  if (n <= 1) return 0;
  if (sh->n >= MAXCHOICE) violate("endless", "more choices than any bounded execution needs");
  int k = sh->n < sh->prefix_len ? sh->prefix[sh->n] : 0;
  if (k >= n) violate("harness", "the execution is not deterministic: a recorded choice is not available");
  sh->taken[sh->n] = k;
  sh->arity[sh->n] = n;
  ++sh->n;
  return k;
}

uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h ^= h >> 31;
  h *= 0xff51afd7ed558ccdULL;
  return h ^ (h >> 33);
}

// Gives the processor to thread t and, unless `finished`, waits to get it back.
void hand_over(int t, bool finished) {
  if (t == me && !finished) return;
  const int self = me;
  current = t;
  futex_wake(&T[t].baton);
  if (!finished) futex_wait(&T[self].baton);
}

// Picks who runs next. The calling thread has set its wait state. `yield` prefers others.
void reschedule(const char *label, bool finished, bool yield) {
  Thread &x = T[me];
  x.last = label;
  ++sh->points;
  ++x.steps;
  if (sh->points > 100000) violate("endless", "an execution does not come to an end");
  uint64_t h = state_mix;
  for (int i = 0; i < nthreads; ++i) h = mix(h, mix(T[i].steps, mix(T[i].wait, can_run(i))));
  if (sh->nstates < MAXSTATES) sh->states[sh->nstates++] = h;
  int cand[MAXT], n = 0;
  const bool mine = !finished && can_run(me);
  if (mine && !yield) cand[n++] = me;
  for (int i = 0; i < nthreads; ++i)
    if (i != me && can_run(i)) cand[n++] = i;
  if (mine && yield && n == 0) cand[n++] = me;
  if (n == 0) {
    // Timed waits time out when nothing else can happen.
    for (int i = 0; i < nthreads && n == 0; ++i)
      if (T[i].used && !T[i].done && T[i].wait != RUN && T[i].timed) {
        T[i].timed_out = true;
        T[i].wait = RUN;
        cand[n++] = i;
      }
  }
  if (n == 0) {
    if (finished) {
      bool all = true;
      for (int i = 0; i < nthreads; ++i) all &= T[i].done || !T[i].used;
      if (all) return;
    }
    char b[1500];
    int k = snprintf(b, sizeof b, "no thread can continue:");
    for (int i = 0; i < nthreads; ++i)
      if (T[i].used && !T[i].done) k += snprintf(b + k, sizeof b - k, " thread %d waits (%s);", i, T[i].last ? T[i].last : "?");
    violate("deadlock", b);
  }
  int pick = -1;
  // Returning from a join commutes with everything other threads do: no need to try other orders.
  for (int i = 0; i < n; ++i)
    if (T[cand[i]].wait == JOIN) pick = cand[i];
  if (pick >= 0) {
  } else if (mine && !yield && ++streak > 400) {
    // Fairness: a thread that spins lets the others go on.
    pick = n > 1 ? cand[1] : cand[0];
    streak = 0;
  } else if (mine && !yield && preemptions >= sh->bound) {
    pick = me;
  } else {
    pick = cand[choose(n)];
    if (mine && !yield && pick != me) {
      ++preemptions;
      ++sh->preemptions;
    }
  }
  if (pick != me) {
    streak = 0;
    event(label);
    text(sh->events, sh->nevents, MAXTEXT, "|");
  }
  hand_over(pick, finished);
}

bool from_exe(void *pc) { return pc >= static_cast<void *>(&__executable_start) && pc < static_cast<void *>(&etext); }
#define EXE() from_exe(__builtin_return_address(0))

void visible(const char *label) {
  if (!active || busy || ignoring) return;
  ++busy;
  T[me].wait = RUN;
  reschedule(label, false, false);
  --busy;
}
// Blocks the calling thread until can_run; with `prefer` set a scheduling point even if it can run at once.
bool block(Wait w, void *on, const char *label, bool prefer, bool timed) {
  Thread &x = T[me];
  x.wait = w;
  x.on = on;
  x.timed = timed;
  x.timed_out = false;
  if (prefer || !can_run(me)) reschedule(label, false, false);
  x.wait = RUN;
  return !x.timed_out;
}

// ---- shadow memory -----------------------------------------------------------------------------------------------
struct Access {
  uint32_t clk;
  uint8_t tid, mask, write, used;
  void *pc;
};
struct Cell {
  uint64_t granule;  // address / 8, 0 = free
  Access a[5];
};
constexpr uint64_t CELLS = 1 << 17;
constexpr uint64_t INDEX = 1 << 18;
Cell *cells;        // dense, so that few pages are touched; cells[0] is unused
uint32_t *index_of;  // open addressing
uint32_t ncells;
Cell *cell(uint64_t g, bool create) {
  uint64_t h = ((g >> 6) * 0x9e3779b97f4a7c15ULL >> 46) + (g & 63);
  for (uint64_t i = 0; i < INDEX; ++i) {
    uint32_t &k = index_of[(h + i) & (INDEX - 1)];
    if (k && cells[k].granule == g) return &cells[k];
    if (!k) {
      if (!create || ncells + 1 >= CELLS) return nullptr;
      k = ++ncells;
      cells[k].granule = g;
      return &cells[k];
    }
  }
  return nullptr;
}
void describe_pc(void *pc, char *b, size_t n) {
  snprintf(b, n, "+0x%lx", (unsigned long)((char *)pc - &__executable_start));
}
void one(uint64_t g, uint8_t mask, bool write, void *pc) {
  Cell *c = cell(g, true);
  if (!c) violate("harness", "shadow memory exhausted");
  const Clock &vc = T[me].vc;
  for (auto &a : c->a) {
    if (!a.used || !(a.mask & mask) || a.tid == me) continue;
    if (!(write || a.write)) continue;
    if (a.clk <= vc.c[a.tid]) continue;
    char p[40], q[40], b[300];
    describe_pc(a.pc, p, sizeof p);
    describe_pc(pc, q, sizeof q);
    snprintf(b, sizeof b, "thread %d %s at code offset %s, thread %d %s at code offset %s, address %p, without synchronisation between them",
             a.tid, a.write ? "wrote" : "read", p, me, write ? "writes" : "reads", q, reinterpret_cast<void *>(g * 8));
    violate("data-race", b);
  }
  Access *slot = nullptr;
  for (auto &a : c->a) {
    if (a.used && (a.mask & ~mask) == 0 && a.clk <= vc.c[a.tid] && (write || !a.write || a.tid == me)) {
      // Superseded, unless it is the write that a later racing read must be compared with.
      if (!write && a.write) continue;
      a.used = 0;
    }
    if (!a.used) slot = &a;
  }
  if (!slot) slot = &c->a[sh->accesses % 5];
  *slot = {vc.c[me], static_cast<uint8_t>(me), mask, static_cast<uint8_t>(write), 1, pc};
}
void access(const void *p, size_t n, bool write, void *pc) {
  if (!active || busy || ignoring || n == 0) return;
  ++busy;
  ++sh->accesses;
  uint64_t a = reinterpret_cast<uint64_t>(p), e = a + n;
  while (a < e) {
    uint64_t g = a / 8, end = (g + 1) * 8;
    if (end > e) end = e;
    one(g, static_cast<uint8_t>(((1u << (end - a)) - 1) << (a % 8)), write, pc);
    a = end;
  }
  --busy;
}
void clear(const void *p, size_t n) {
  uint64_t a = reinterpret_cast<uint64_t>(p) / 8, e = (reinterpret_cast<uint64_t>(p) + n + 7) / 8;
  for (uint64_t g = a; g < e; ++g) {
    Cell *c = cell(g, false);
    if (c) memset(c->a, 0, sizeof c->a);
  }
}

template <typename F>
F real(const char *name) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
#define REAL(name)                                    \
  static decltype(&::name) real_##name = nullptr;     \
  if (!real_##name) real_##name = real<decltype(&::name)>(#name)

pthread_key_t exit_key;
void thread_exit(void *) {
  // Runs after the destructors of thread_local objects.
  ++busy;
  T[me].done = true;
  T[me].wait = RUN;
  reschedule("exit", true, false);
}
void *thread_main(void *p) {
  int id = static_cast<int>(reinterpret_cast<intptr_t>(p));
  me = id;
  busy = 1;
  futex_wait(&T[id].baton);
  pthread_attr_t at;
  // The stack may be that of a finished thread.
  busy = 1;
  if (pthread_getattr_np(pthread_self(), &at) == 0) {
    void *lo;
    size_t sz;
    pthread_attr_getstack(&at, &lo, &sz);
    uint64_t a = reinterpret_cast<uint64_t>(lo) / 8, e = a + sz / 8;
    for (uint32_t k = 1; k <= ncells; ++k) {
      Cell &c = cells[k];
      if (c.granule >= a && c.granule < e) memset(c.a, 0, sizeof c.a);
    }
    pthread_attr_destroy(&at);
  }
  pthread_setspecific(exit_key, reinterpret_cast<void *>(1));
  busy = 0;
  void *r = T[id].fn(T[id].arg);
  return r;
}

}  // namespace

namespace sched {

void point(const char *label) {
  const int keep = ignoring;
  ignoring = 0;
  visible(label);
  ignoring = keep;
}
void fail(const std::string &key, const std::string &detail) {
  if (!sh->key[0]) {
    snprintf(sh->key, sizeof sh->key, "%s", key.c_str());
    snprintf(sh->detail, sizeof sh->detail, "%s", detail.c_str());
  }
}
void mix_state(uint64_t h) { state_mix = mix(state_mix, h); }
void note(const std::string &s) { event(s.c_str()); }
int self() { return me; }
Ignore::Ignore() { ++ignoring; }
Ignore::~Ignore() { --ignoring; }

Outcome execute(const std::vector<int> &prefix, int bound, const std::function<void()> &body) {
  ++busy;
  if (!sh) {
    sh = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    cells = static_cast<Cell *>(mmap(nullptr, CELLS * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    index_of = static_cast<uint32_t *>(mmap(nullptr, INDEX * sizeof(uint32_t), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    pthread_key_create(&exit_key, thread_exit);
  }
  sh->prefix_len = static_cast<int>(prefix.size());
  sh->bound = bound;
  for (size_t i = 0; i < prefix.size(); ++i) sh->prefix[i] = prefix[i];
  sh->n = sh->nstates = sh->nevents = sh->ended = 0;
  sh->key[0] = sh->detail[0] = sh->events[0] = 0;
  sh->points = sh->accesses = sh->preemptions = 0;
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    signal(SIGALRM, SIG_DFL);
    for (int s : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL}) signal(s, SIG_DFL);
    alarm(60);
    T[0].used = true;
    T[0].vc.c[0] = 1;
    T[0].real = pthread_self();
    nthreads = 1;
    current = 0;
    me = 0;
    busy = 0;
    active = true;
    body();
    sh->ended = 1;
    stop();
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  --busy;
  Outcome o;
  o.taken.assign(sh->taken, sh->taken + sh->n);
  o.arity.assign(sh->arity, sh->arity + sh->n);
  o.states.assign(sh->states, sh->states + sh->nstates);
  o.key = sh->key;
  o.detail = sh->detail;
  o.points = sh->points;
  o.accesses = sh->accesses;
  o.preemptions = sh->preemptions;
  o.events = sh->events;
  o.ended = sh->ended;
  o.unlock_points = sh->unlock_points;
  if (o.key.empty() && (!WIFEXITED(st) || WEXITSTATUS(st) != 0 || !sh->ended)) {
    char b[120];
    if (WIFSIGNALED(st))
      snprintf(b, sizeof b, "the process died with signal %d", WTERMSIG(st));
    else
      snprintf(b, sizeof b, "the process ended early with status %d", st);
    o.key = "crash";
    o.detail = b;
  }
  return o;
}

}  // namespace sched

// ---- interposed pthread functions -------------------------------------------------------------------------------
#define ON (active && !busy)
struct Busy {
  Busy() { ++busy; }
  ~Busy() { --busy; }
};

extern "C" {

static bool recursive(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
static int lock_impl(pthread_mutex_t *m, bool exe, bool timed) {
  if (timed) sh->unlock_points = 1;
  Busy b;
  Obj *o = obj(m, MUTEX);
  if (o->owner == me && recursive(m)) {
    ++o->count;
    return 0;
  }
  if (o->owner == me && (m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
  if (!block(MUTEX, m, "lock", exe && !ignoring, timed)) return ETIMEDOUT;
  o->owner = me;
  o->count = 1;
  acquire(o->vc);
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t *m) {
  REAL(pthread_mutex_lock);
  if (!ON) return real_pthread_mutex_lock(m);
  return lock_impl(m, EXE(), false);
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t) {
  REAL(pthread_mutex_timedlock);
  if (!ON) return real_pthread_mutex_timedlock(m, t);
  return lock_impl(m, EXE(), true);
}
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const struct timespec *t) {
  REAL(pthread_mutex_clocklock);
  if (!ON) return real_pthread_mutex_clocklock(m, c, t);
  return lock_impl(m, EXE(), true);
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
  REAL(pthread_mutex_trylock);
  if (!ON) return real_pthread_mutex_trylock(m);
  sh->unlock_points = 1;
  if (EXE()) visible("trylock");
  Busy b;
  Obj *o = obj(m, MUTEX);
  if (o->owner == me && recursive(m)) {
    ++o->count;
    return 0;
  }
  if (o->owner != -1) return EBUSY;
  o->owner = me;
  o->count = 1;
  acquire(o->vc);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  REAL(pthread_mutex_unlock);
  if (!ON) return real_pthread_mutex_unlock(m);
  if (sh->unlock_points && EXE()) visible("unlock");
  {
    Busy b;
    Obj *o = obj(m, MUTEX);
    if (o->owner != me) violate("bad-unlock", "a mutex is unlocked by a thread that does not hold it");
    if (--o->count > 0) return 0;
    o->owner = -1;
    release(o->vc);
  }
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *m) {
  REAL(pthread_mutex_destroy);
  if (!ON) return real_pthread_mutex_destroy(m);
  Busy b;
  if (obj(m, MUTEX)->owner != -1) violate("bad-destroy", "a locked mutex is destroyed");
  forget(m, MUTEX);
  return 0;
}
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
  REAL(pthread_mutex_init);
  int r = real_pthread_mutex_init(m, a);
  if (ON) {
    Busy b;
    forget(m, MUTEX);
  }
  return r;
}

static int rd_impl(pthread_rwlock_t *m, bool exe, bool timed) {
  Busy b;
  Obj *o = obj(m, RW_R);
  if (!block(RW_R, m, "rdlock", exe && !ignoring, timed)) return ETIMEDOUT;
  ++o->readers[me];
  acquire(o->vc);
  return 0;
}
static int wr_impl(pthread_rwlock_t *m, bool exe, bool timed) {
  Busy b;
  Obj *o = obj(m, RW_R);
  if (!block(RW_W, m, "wrlock", exe && !ignoring, timed)) return ETIMEDOUT;
  o->owner = me;
  acquire(o->vc);
  acquire(o->rvc);
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *m) {
  REAL(pthread_rwlock_rdlock);
  if (!ON) return real_pthread_rwlock_rdlock(m);
  return rd_impl(m, EXE(), false);
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m) {
  REAL(pthread_rwlock_wrlock);
  if (!ON) return real_pthread_rwlock_wrlock(m);
  return wr_impl(m, EXE(), false);
}
int pthread_rwlock_timedrdlock(pthread_rwlock_t *m, const struct timespec *t) {
  REAL(pthread_rwlock_timedrdlock);
  if (!ON) return real_pthread_rwlock_timedrdlock(m, t);
  return rd_impl(m, EXE(), true);
}
int pthread_rwlock_timedwrlock(pthread_rwlock_t *m, const struct timespec *t) {
  REAL(pthread_rwlock_timedwrlock);
  if (!ON) return real_pthread_rwlock_timedwrlock(m, t);
  return wr_impl(m, EXE(), true);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *m) {
  REAL(pthread_rwlock_tryrdlock);
  if (!ON) return real_pthread_rwlock_tryrdlock(m);
  sh->unlock_points = 1;
  if (EXE()) visible("tryrdlock");
  Busy b;
  Obj *o = obj(m, RW_R);
  if (o->owner != -1) return EBUSY;
  ++o->readers[me];
  acquire(o->vc);
  return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t *m) {
  REAL(pthread_rwlock_trywrlock);
  if (!ON) return real_pthread_rwlock_trywrlock(m);
  sh->unlock_points = 1;
  if (EXE()) visible("trywrlock");
  Busy b;
  Obj *o = obj(m, RW_R);
  if (o->owner != -1 || has_readers(o)) return EBUSY;
  o->owner = me;
  acquire(o->vc);
  acquire(o->rvc);
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t *m) {
  REAL(pthread_rwlock_unlock);
  if (!ON) return real_pthread_rwlock_unlock(m);
  if (sh->unlock_points && EXE()) visible("rwunlock");
  {
    Busy b;
    Obj *o = obj(m, RW_R);
    if (o->owner == me) {
      o->owner = -1;
      release(o->vc);
    } else if (o->readers[me] > 0) {
      --o->readers[me];
      release(o->rvc);
    } else {
      violate("bad-unlock", "a read-write lock is unlocked by a thread that does not hold it");
    }
  }
  return 0;
}

static int cond_impl(pthread_cond_t *c, pthread_mutex_t *m, bool timed) {
  Busy b;
  Obj *o = obj(m, MUTEX);
  if (o->owner != me) violate("bad-wait", "a condition is waited for without holding the mutex");
  const int keep = o->count;
  o->owner = -1;
  release(o->vc);
  T[me].notified = false;
  bool ok = block(COND, c, "wait", true, timed);
  T[me].notified = false;
  block(MUTEX, m, "relock", false, false);
  o->owner = me;
  o->count = keep;
  acquire(o->vc);
  acquire(obj(c, COND)->vc);
  return ok ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  REAL(pthread_cond_wait);
  if (!ON) return real_pthread_cond_wait(c, m);
  return cond_impl(c, m, false);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) {
  REAL(pthread_cond_timedwait);
  if (!ON) return real_pthread_cond_timedwait(c, m, t);
  return cond_impl(c, m, true);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) {
  REAL(pthread_cond_clockwait);
  if (!ON) return real_pthread_cond_clockwait(c, m, k, t);
  return cond_impl(c, m, true);
}
static void wake(Wait w, void *c, int max) {
  for (int left = max; left > 0; --left) {
    int cand[MAXT], n = 0;
    for (int i = 0; i < nthreads; ++i)
      if (T[i].used && !T[i].done && T[i].wait == w && T[i].on == c && !T[i].notified) cand[n++] = i;
    if (n == 0) return;
    T[cand[max >= n ? 0 : choose(n)]].notified = true;
  }
}
int pthread_cond_signal(pthread_cond_t *c) {
  REAL(pthread_cond_signal);
  if (!ON) return real_pthread_cond_signal(c);
  visible("signal");
  {
    Busy b;
    release(obj(c, COND)->vc);
    wake(COND, c, 1);
  }
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
  REAL(pthread_cond_broadcast);
  if (!ON) return real_pthread_cond_broadcast(c);
  visible("broadcast");
  {
    Busy b;
    release(obj(c, COND)->vc);
    wake(COND, c, MAXT);
  }
  return 0;
}

int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
  REAL(pthread_create);
  if (!ON) return real_pthread_create(t, a, fn, arg);
  int r;
  {
    Busy b;
    if (nthreads >= MAXT) violate("harness", "too many threads");
    int id = nthreads++;
    Thread &x = T[id];
    x.used = true;
    x.wait = RUN;
    x.fn = fn;
    x.arg = arg;
    join_to(x.vc, T[me].vc);
    x.vc.c[id] = 1;
    ++T[me].vc.c[me];
    r = real_pthread_create(&x.real, a, thread_main, reinterpret_cast<void *>(static_cast<intptr_t>(id)));
    if (r) violate("harness", "thread creation failed");
    *t = x.real;
    if (a) {
      int d = 0;
      pthread_attr_getdetachstate(a, &d);
      x.detached = d == PTHREAD_CREATE_DETACHED;
    }
  }
  return 0;
}
int pthread_join(pthread_t t, void **ret) {
  REAL(pthread_join);
  if (!ON) return real_pthread_join(t, ret);
  Busy b;
  for (int i = 0; i < nthreads; ++i)
    if (T[i].used && !T[i].joined && pthread_equal(T[i].real, t)) {
      block(JOIN, reinterpret_cast<void *>(static_cast<intptr_t>(i)), "join", true, false);
      T[i].joined = true;
      acquire(T[i].vc);
      return real_pthread_join(t, ret);
    }
  return ESRCH;
}

int pthread_once(pthread_once_t *o, void (*fn)(void)) {
  REAL(pthread_once);
  if (!ON) return real_pthread_once(o, fn);
  const bool exe = EXE();
  Obj *x;
  {
    Busy b;
    x = obj(o, ONCE);
    if (*o == 2) {
      acquire(x->vc);
      return 0;
    }
    block(ONCE, o, "once", exe && !ignoring, false);
    acquire(x->vc);
    if (*o == 2) return 0;
    x->owner = me;
  }
  struct End {
    Obj *x;
    pthread_once_t *o;
    bool ok = false;
    ~End() {
      Busy b;
      if (ok) *o = 2;
      x->owner = -1;
      release(x->vc);
    }
  } end{x, o};
  fn();
  end.ok = true;
  return 0;
}

int sched_yield() {
  REAL(sched_yield);
  if (!ON || ignoring) return real_sched_yield();
  Busy b;
  T[me].wait = RUN;
  reschedule("yield", false, true);
  return 0;
}
int nanosleep(const struct timespec *a, struct timespec *r) {
  REAL(nanosleep);
  if (!ON) return real_nanosleep(a, r);
  sched_yield();
  return 0;
}
int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *r) {
  REAL(clock_nanosleep);
  if (!ON) return real_clock_nanosleep(c, f, a, r);
  sched_yield();
  return 0;
}
int usleep(useconds_t u) {
  REAL(usleep);
  if (!ON) return real_usleep(u);
  sched_yield();
  return 0;
}
unsigned sleep(unsigned s) {
  REAL(sleep);
  if (!ON) return real_sleep(s);
  sched_yield();
  return 0;
}

int sem_init(sem_t *s, int p, unsigned v) {
  REAL(sem_init);
  if (active) {
    Busy b;
    forget(s, SEM);
    obj(s, SEM)->count = static_cast<int>(v);
  }
  return real_sem_init(s, p, v);
}
int sem_wait(sem_t *s) {
  REAL(sem_wait);
  if (!ON) return real_sem_wait(s);
  Busy b;
  block(SEM, s, "sem_wait", true, false);
  --obj(s, SEM)->count;
  acquire(obj(s, SEM)->vc);
  return 0;
}
int sem_post(sem_t *s) {
  REAL(sem_post);
  if (!ON) return real_sem_post(s);
  {
    Busy b;
    ++obj(s, SEM)->count;
    release(obj(s, SEM)->vc);
  }
  return 0;
}

long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b2 = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && ON) {
    const int op = static_cast<int>(b2) & FUTEX_CMD_MASK;
    int *w = reinterpret_cast<int *>(a);
    Busy b;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      if (*w != static_cast<int>(c)) {
        errno = EAGAIN;
        return -1;
      }
      T[me].notified = false;
      bool ok = block(FUTEX, w, "futex", true, d != 0);
      T[me].notified = false;
      if (!ok) {
        errno = ETIMEDOUT;
        return -1;
      }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      wake(FUTEX, w, c > MAXT ? MAXT : static_cast<int>(c));
      return 0;
    }
  }
  long r = raw_syscall(n, a, b2, c, d, e, f);
  if (r < 0 && r > -4096) {
    errno = static_cast<int>(-r);
    return -1;
  }
  return r;
}

// Guards of function-local statics. Byte 0: initialised; byte 1: in progress (as in the ABI).
int __cxa_guard_acquire(uint64_t *g) {
  volatile char *p = reinterpret_cast<char *>(g);
  const bool exe = EXE();
  if (!ON) {
    // Single-threaded use, or initialisation inside the runtime.
    if (p[0]) return 0;
    p[1] = 1;
    return 1;
  }
  Busy b;
  Obj *o = obj(g, GUARD);
  if (p[0]) {
    acquire(o->vc);
    return 0;
  }
  block(GUARD, g, "static", exe && !ignoring, false);
  acquire(o->vc);
  if (p[0]) return 0;
  o->owner = me;
  p[1] = 1;
  return 1;
}
void __cxa_guard_release(uint64_t *g) {
  volatile char *p = reinterpret_cast<char *>(g);
  p[0] = 1;
  p[1] = 0;
  if (!active) return;
  Busy b;
  Obj *o = obj(g, GUARD);
  o->owner = -1;
  release(o->vc);
}
void __cxa_guard_abort(uint64_t *g) {
  volatile char *p = reinterpret_cast<char *>(g);
  p[1] = 0;
  if (!active) return;
  Busy b;
  obj(g, GUARD)->owner = -1;
}

// ---- instrumentation callbacks ------------------------------------------------------------------------------------
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n)                                                                 \
  void __tsan_read##n(void *p) { access(p, n, false, PC); }                   \
  void __tsan_write##n(void *p) { access(p, n, true, PC); }                   \
  void __tsan_unaligned_read##n(void *p) { access(p, n, false, PC); }         \
  void __tsan_unaligned_write##n(void *p) { access(p, n, true, PC); }         \
  void __tsan_read_write##n(void *p) { access(p, n, true, PC); }              \
  void __tsan_unaligned_read_write##n(void *p) { access(p, n, true, PC); }    \
  void __tsan_volatile_read##n(void *p) { access(p, n, false, PC); }          \
  void __tsan_volatile_write##n(void *p) { access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, long n) { access(p, n, false, PC); }
void __tsan_write_range(void *p, long n) { access(p, n, true, PC); }
void __tsan_vptr_read(void **p) { access(p, 8, false, PC); }
void __tsan_vptr_update(void **p, void *v) {
  if (*p != v) access(p, 8, true, PC);
}

void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) {
  access(s, n, false, PC);
  access(d, n, true, PC);
  return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n) {
  access(s, n, false, PC);
  access(d, n, true, PC);
  return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, size_t n) {
  access(d, n, true, PC);
  return __real_memset(d, c, n);
}

}  // extern "C"

// Atomics. Memory order follows C++: values are sequentially consistent, happens-before follows the orders given.
namespace {
bool acq(int o) { return o == 1 || o == 2 || o == 4 || o == 5; }
bool rel(int o) { return o == 3 || o == 4 || o == 5; }
void at_load(void *p, int o) {
  if (!active || busy || ignoring) return;
  Busy b;
  if (acq(o)) acquire(obj(p, 100)->vc);
}
void at_store(void *p, int o) {
  if (!active || busy || ignoring) return;
  Busy b;
  Obj *x = obj(p, 100);
  memset(&x->vc, 0, sizeof x->vc);
  if (rel(o)) release(x->vc);
}
void at_rmw(void *p, int o) {
  if (!active || busy || ignoring) return;
  Busy b;
  Obj *x = obj(p, 100);
  if (acq(o)) acquire(x->vc);
  if (rel(o)) release(x->vc);
}
}  // namespace

#define ATOMICS(N, TY)                                                                                               \
  TY __tsan_atomic##N##_load(const volatile TY *p, int o) {                                                          \
    visible("atomic load");                                                                                          \
    TY r = *p;                                                                                                       \
    at_load((void *)p, o);                                                                                           \
    return r;                                                                                                        \
  }                                                                                                                  \
  void __tsan_atomic##N##_store(volatile TY *p, TY v, int o) {                                                       \
    visible("atomic store");                                                                                         \
    *p = v;                                                                                                          \
    at_store((void *)p, o);                                                                                          \
  }                                                                                                                  \
  TY __tsan_atomic##N##_exchange(volatile TY *p, TY v, int o) {                                                      \
    visible("atomic rmw");                                                                                           \
    TY r = *p;                                                                                                       \
    *p = v;                                                                                                          \
    at_rmw((void *)p, o);                                                                                            \
    return r;                                                                                                        \
  }                                                                                                                  \
  RMW(N, TY, fetch_add, r + v) RMW(N, TY, fetch_sub, r - v) RMW(N, TY, fetch_and, r &v) RMW(N, TY, fetch_or, r | v)  \
      RMW(N, TY, fetch_xor, r ^ v) RMW(N, TY, fetch_nand, ~(r & v)) int __tsan_atomic##N##_compare_exchange_strong(  \
          volatile TY *p, TY *e, TY v, int o, int fo) {                                                              \
    visible("atomic cas");                                                                                           \
    TY r = *p;                                                                                                       \
    if (r == *e) {                                                                                                   \
      *p = v;                                                                                                        \
      at_rmw((void *)p, o);                                                                                          \
      return 1;                                                                                                      \
    }                                                                                                                \
    at_load((void *)p, fo);                                                                                          \
    *e = r;                                                                                                          \
    return 0;                                                                                                        \
  }                                                                                                                  \
  int __tsan_atomic##N##_compare_exchange_weak(volatile TY *p, TY *e, TY v, int o, int fo) {                         \
    return __tsan_atomic##N##_compare_exchange_strong(p, e, v, o, fo);                                               \
  }                                                                                                                  \
  TY __tsan_atomic##N##_compare_exchange_val(volatile TY *p, TY e, TY v, int o, int fo) {                            \
    __tsan_atomic##N##_compare_exchange_strong(p, &e, v, o, fo);                                                     \
    return e;                                                                                                        \
  }
#define RMW(N, TY, name, expr)                                          \
  TY __tsan_atomic##N##_##name(volatile TY *p, TY v, int o) {           \
    visible("atomic rmw");                                              \
    TY r = *p;                                                          \
    *p = static_cast<TY>(expr);                                         \
    at_rmw((void *)p, o);                                               \
    return r;                                                           \
  }
extern "C" {
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int) { visible("fence"); }
void __tsan_atomic_signal_fence(int) {}
}

// Memory: freed memory has no history.
extern "C" void __libc_free(void *);
extern "C" void *__libc_realloc(void *, size_t);
extern "C" void free(void *p) {
  if (p && active && !busy) {
    Busy b;
    clear(p, malloc_usable_size(p));
  }
  __libc_free(p);
}
extern "C" void *realloc(void *p, size_t n) {
  if (p && active && !busy) {
    Busy b;
    clear(p, malloc_usable_size(p));
  }
  return __libc_realloc(p, n);
}
void *operator new(size_t n) {
  void *p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new[](size_t n) { return operator new(n); }
static inline void release_memory(void *p, void *pc) {
  if (p && active && !busy) {
    const size_t n = malloc_usable_size(p);
    if (!ignoring && from_exe(pc)) access(p, n, true, pc);
    Busy b;
    clear(p, n);
  }
  __libc_free(p);
}
void operator delete(void *p) noexcept { release_memory(p, __builtin_return_address(0)); }
void operator delete[](void *p) noexcept { release_memory(p, __builtin_return_address(0)); }
void operator delete(void *p, size_t) noexcept { release_memory(p, __builtin_return_address(0)); }
void operator delete[](void *p, size_t) noexcept { release_memory(p, __builtin_return_address(0)); }
void *operator new(size_t n, std::align_val_t a) {
  void *p = aligned_alloc(static_cast<size_t>(a), (n + static_cast<size_t>(a) - 1) / static_cast<size_t>(a) * static_cast<size_t>(a));
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void *p, std::align_val_t) noexcept { release_memory(p, __builtin_return_address(0)); }
void operator delete[](void *p, std::align_val_t) noexcept { release_memory(p, __builtin_return_address(0)); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { release_memory(p, __builtin_return_address(0)); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { release_memory(p, __builtin_return_address(0)); }
