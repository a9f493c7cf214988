// C27: several processes share one store of credentials. Each process runs the real clients under a system call trap that
// stops it before every storage operation; the explorer lets one of them perform its next operation at a time and
// enumerates the interleavings depth first by re-execution, with the death of a process at any point as a further choice.
#include <linux/futex.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>

#include <atomic>
#include <filesystem>
#include <fstream>
#include <iostream>

#include "cpr/cpr.h"
#include "faultfs.hh"
#include "mc.hh"
#include "resim/auth/device_code_client.hh"
#include "resim/visualization/client/view_client.hh"
#include "resim/visualization/view_update.hh"

namespace {
namespace fs = std::filesystem;
using cpr::stub::Request;
using resim::auth::DeviceCodeClient;
using resim::visualization::ViewClient;
using resim::visualization::ViewPrimitive;
using resim::visualization::ViewUpdate;

constexpr int MAX_PROCESSES = 3;
enum State { RUNNING, WAITING, FINISHED };
struct Process {
  std::atomic<int> state;
  std::atomic<int> go;
  std::atomic<int> ops;
  faultfs::Record record;
};
struct Shared {
  std::atomic<int> changed;  // bumped by a process when it stops or finishes
  Process p[MAX_PROCESSES];
  int issued;      // tokens issued so far (0 is the prior one)
  int valid_from;  // tokens below are expired: the view service answers 401
  int delivered;
  char problem[1024];
  int trapped;
};
Shared *sh;
int me = -1;  // index of this process, -1 in the explorer

long futex(std::atomic<int> *a, int op, int v, const timespec *t = nullptr) { return faultfs_raw(SYS_futex, reinterpret_cast<long>(a), op, v, reinterpret_cast<long>(t), 0, 0); }
void announce(State s) {
  sh->p[me].state = s;
  ++sh->changed;
  futex(&sh->changed, FUTEX_WAKE, 1);
}
void stop_here(char) {
  Process &p = sh->p[me];
  ++p.ops;
  p.go = 0;
  announce(WAITING);
  while (p.go == 0) futex(&p.go, FUTEX_WAIT, 0);
  if (p.go == 2) faultfs_raw(SYS_exit_group, 99, 0, 0, 0, 0, 0);
}

int sizes[8] = {20, 20, 20, 20, 20, 20, 20, 20};
std::string token(int n) {
  std::string s = mc::str("token-", n, "-");
  while (static_cast<int>(s.size()) < sizes[n % 8]) s += static_cast<char>('a' + (s.size() * 7 + n) % 26);
  return s + "$";
}
int token_number(const std::string &t) {
  for (int i = 0; i <= sh->issued; ++i)
    if (t == token(i)) return i;
  return -1;
}
void problem(const std::string &p) {
  if (!sh->problem[0]) snprintf(sh->problem, sizeof sh->problem, "%s", me < 0 ? p.c_str() : mc::str("process ", me, ": ", p).c_str());
}
void serve() {
  cpr::stub::handler = [](const Request &q) {
    cpr::Response r;
    const auto ends = [&](const char *s) { return q.url.size() >= strlen(s) && q.url.compare(q.url.size() - strlen(s), std::string::npos, s) == 0; };
    if (ends("/oauth/device/code")) {
      r.status_code = 200;
      r.text = "{\"device_code\":\"dc\",\"expires_in\":900,\"interval\":5}";
    } else if (ends("/oauth/token")) {
      r.status_code = 200;
      ++sh->issued;
      r.text = "{\"access_token\":\"" + token(sh->issued) + "\"}";
    } else {
      const int n = token_number(q.bearer);
      if (n < 0) problem(mc::str("a request carried '", q.bearer.substr(0, 80), "' (", q.bearer.size(), " bytes), which is no token the server issued"));
      if (n < sh->valid_from) {
        r.status_code = 401;
      } else {
        r.status_code = 201;
        if (q.url.find("/updates/") == std::string::npos)
          r.text = "\"session\"\n";
        else {
          r.text = "{}";
          ++sh->delivered;
        }
      }
    }
    return r;
  };
}
fs::path home, store;
ViewUpdate update() {
  ViewUpdate u;
  ViewPrimitive p{.id = resim::UUID("11111111-2222-4333-8444-555555555555"), .payload = resim::transforms::Frame<3>(resim::UUID("11111111-2222-4333-8444-555555555555"))};
  p.line_number = 1;
  u.primitives.push_back(p);
  return u;
}
DeviceCodeClient::Config config() { return {.server = "https://auth.example", .client_id = "id", .scope = "s", .audience = "a", .token_path = store}; }
void get(DeviceCodeClient &c) {
  try {
    const std::string t = c.get_jwt();
    if (token_number(t) < 0) problem(mc::str("get_jwt() handed out '", t.substr(0, 80), "' (", t.size(), " bytes), which is no token the server issued"));
  } catch (const std::exception &e) {
    problem(mc::str("get_jwt() failed: ", e.what()));
  }
}
void refresh(DeviceCodeClient &c) {
  try {
    c.refresh();
  } catch (const std::exception &e) {
    problem(mc::str("refresh() failed: ", e.what()));
  }
}
void send(ViewClient &c) {
  try {
    const int before = sh->delivered;
    const bool ok = c.send_view_update(update()).ok();
    if (!ok) problem("a view update failed");
    if (ok && sh->delivered == before) problem("an update was reported as sent that the server did not confirm");
  } catch (const std::exception &e) {
    problem(mc::str("a view update failed: ", e.what()));
  }
}
using Body = void (*)();
const struct {
  const char *name;
  Body body;
} BODIES[] = {
    {"log in", [] { DeviceCodeClient c(config()); get(c); get(c); }},
    {"refresh, log in", [] { DeviceCodeClient c(config()); refresh(c); get(c); }},
    {"get, refresh, get", [] { DeviceCodeClient c(config()); get(c); refresh(c); get(c); }},
    {"refresh", [] { DeviceCodeClient c(config()); refresh(c); }},
    {"view update", [] { ViewClient c("https://v"); send(c); }},
};
void after() {
  DeviceCodeClient c(config());
  get(c);
  const int before = sh->delivered;
  ViewClient v("https://v");
  send(v);
  if (sh->delivered != before + 1) problem("a later view update was not delivered");
  DeviceCodeClient d(config());
  get(d);
}
struct Scenario {
  std::vector<int> bodies;
  int prior;  // 0 none, 1 a valid token stored, 2 an expired one
  int lengths;
  std::string name() const {
    std::string s;
    for (int b : bodies) s += mc::str(s.empty() ? "" : " | ", BODIES[b].name);
    return s + (prior == 0 ? ", nothing stored" : prior == 1 ? ", a token stored" : ", an expired token stored") + (lengths == 0 ? "" : lengths == 1 ? ", tokens growing" : ", tokens shrinking");
  }
};
void setup(const Scenario &s) {
  sh->issued = 0;
  sh->valid_from = s.prior == 2 ? 1 : 0;
  sh->delivered = 0;
  sh->problem[0] = 0;
  sh->changed = 0;
  for (int i = 0; i < 8; ++i) sizes[i] = s.lengths == 0 ? 20 : s.lengths == 1 ? 20 + 25 * i : 9000 - 1100 * i;
  if (home.string().find("scratch") == std::string::npos) abort();
  fs::remove_all(home);
  fs::create_directories(home);
  if (s.prior) {
    fs::create_directories(store.parent_path());
    std::ofstream(store) << token(0);
  }
}
pid_t launch(int index, Body body, bool trap) {
  Process *const p = index < 0 ? nullptr : &sh->p[index];
  if (p) {
    p->state = RUNNING;
    p->go = 0;
    p->ops = 0;
    p->record.count = 0;
    p->record.crashed = 0;
  }
  const pid_t c = fork();
  if (c < 0) abort();
  if (c == 0) {
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) signal(s, SIG_DFL);
    struct itimerval none {};
    setitimer(ITIMER_REAL, &none, nullptr);
    signal(SIGALRM, SIG_DFL);
    alarm(60);
    me = index;
    if (trap) {
      faultfs::before = stop_here;
      sh->trapped = faultfs::install(home.c_str(), &p->record) ? 1 : -1;
    }
    serve();
    try {
      body();
    } catch (...) {
      problem("an exception escaped");
    }
    if (trap) announce(FINISHED);
    _exit(0);
  }
  return c;
}
std::string reap(pid_t c, bool killed) {
  int st = 0;
  while (waitpid(c, &st, 0) < 0 && errno == EINTR) {
  }
  if (WIFSIGNALED(st)) return mc::str("a process died with signal ", WTERMSIG(st));
  if (WEXITSTATUS(st) != (killed ? 99 : 0)) return mc::str("a process exited with status ", WEXITSTATUS(st));
  return "";
}
struct Choice {
  int process;
  bool kill;
};
struct Limits {
  int preemptions, kills;
};
// One execution: follows the prefix, then the default (go on with the process that ran last); records the alternatives.
class Search {
 public:
  Search(Scenario s, Limits l) : s_(std::move(s)), limits_(l) {}
  uint64_t runs = 0, steps = 0;
  // Which of the first-level branches are ours.
  void all(std::string *now, uint64_t *shard_index) {
    std::vector<Choice> prefix;
    std::vector<size_t> taken;  // index of the choice taken at each depth
    std::vector<std::vector<Choice>> options;
    bool first = true;
    for (;;) {
      // A subtree belongs to the shard chosen by its first two deviations from the default; the default run to shard 0.
      run(taken, &options, now);
      (void)first;
      first = false;
      // Next in depth-first order.
      while (!options.empty() && taken.back() + 1 >= options.back().size()) {
        options.pop_back();
        taken.pop_back();
      }
      if (options.empty()) return;
      ++taken.back();
      // Sharding by the deviation closest to the root.
      for (;;) {
        size_t d = 0;
        while (d < taken.size() && taken[d] == 0) ++d;
        if (d + 1 == taken.size() && d < taken.size()) {
          // A new branch at the root path: is it ours?
          if (!mc::my_shard((*shard_index)++)) {
            if (taken.back() + 1 < options.back().size()) {
              ++taken.back();
              continue;
            }
            do {
              options.pop_back();
              taken.pop_back();
            } while (!options.empty() && taken.back() + 1 >= options.back().size());
            if (options.empty()) return;
            ++taken.back();
            continue;
          }
        }
        break;
      }
    }
  }

 private:
  void run(std::vector<size_t> &taken, std::vector<std::vector<Choice>> *options, std::string *now) {
    setup(s_);
    const int n = static_cast<int>(s_.bodies.size());
    std::vector<pid_t> pid(n);
    std::vector<bool> killed(n, false), ended(n, false);
    std::string trace, died;
    const auto settle = [&](int i) {
      // Waits until the process has stopped or ended.
      for (;;) {
        const int c = sh->changed;
        if (sh->p[i].state != RUNNING) break;
        const timespec t{0, 20000000};
        futex(&sh->changed, FUTEX_WAIT, c, &t);
        if (sh->p[i].state != RUNNING) break;
        siginfo_t info{};
        if (waitid(P_PID, pid[i], &info, WEXITED | WNOHANG | WNOWAIT) == 0 && info.si_pid == pid[i]) break;  // died
      }
      mc::beat();
      if (sh->p[i].state != WAITING) {
        ended[i] = true;
        const std::string e = reap(pid[i], false);
        if (died.empty()) died = e;
      }
    };
    *now = s_.name() + ", start";
    for (int i = 0; i < n; ++i) {
      pid[i] = launch(i, BODIES[s_.bodies[i]].body, true);
      settle(i);
    }
    if (sh->trapped < 0) {
      fprintf(stderr, "system calls cannot be trapped here\n");
      exit(2);
    }
    int last = -1, preemptions = 0, kills = 0;
    for (size_t depth = 0;; ++depth) {
      std::vector<Choice> can;
      const bool last_runs = last >= 0 && !ended[last];
      if (last_runs) can.push_back({last, false});
      if (!last_runs || preemptions < limits_.preemptions)
        for (int i = 0; i < n; ++i)
          if (!ended[i] && i != last) can.push_back({i, false});
      if (kills < limits_.kills)
        for (int i = 0; i < n; ++i)
          if (!ended[i] && (i == last || !last_runs)) can.push_back({i, true});
      bool any = false;
      for (int i = 0; i < n; ++i) any = any || !ended[i];
      if (!any) break;
      if (depth == taken.size()) {
        taken.push_back(0);
        options->push_back(can);
      } else if (options->at(depth).size() != can.size()) {
        // The same choices must lead to the same state again.
        mc::counters["nondeterministic"]++;
        options->at(depth) = can;
        if (taken[depth] >= can.size()) taken[depth] = 0;
      }
      const Choice c = can[taken[depth]];
      if (last_runs && c.process != last) ++preemptions;
      last = c.process;
      trace += mc::str(" ", c.kill ? "kill" : "", c.process);
      *now = s_.name() + ", order of storage operations:" + trace;
      Process &p = sh->p[c.process];
      p.state = RUNNING;
      p.go = c.kill ? 2 : 1;
      futex(&p.go, FUTEX_WAKE, 1);
      ++steps;
      ++mc::transitions;
      if (c.kill) {
        ++kills;
        ended[c.process] = killed[c.process] = true;
        const std::string e = reap(pid[c.process], true);
        if (died.empty()) died = e;
      } else {
        settle(c.process);
      }
      uint64_t h = mc::hash_str(s_.name());
      for (int i = 0; i < n; ++i) h = mc::mix(h, sh->p[i].ops * 4 + (ended[i] ? 1 : 0) + (killed[i] ? 2 : 0));
      mc::state(mc::mix(mc::mix(h, sh->issued), last));
      if (depth > 2000) {
        mc::violation("endless", *now, "the processes do not come to an end");
        for (int i = 0; i < n; ++i)
          if (!ended[i]) {
            kill(pid[i], SIGKILL);
            waitpid(pid[i], nullptr, 0);
          }
        return;
      }
    }
    taken.resize(options->size());
    ++runs;
    ++mc::traces;
    if (!died.empty()) return mc::violation("died", *now, died);
    if (sh->problem[0]) return mc::violation("token", *now, sh->problem);
    const std::string e = reap(launch(-1, after, false), false);
    if (!e.empty()) mc::violation("died-after", *now, e);
    else if (sh->problem[0]) mc::violation("after", *now, mc::str("a later client: ", sh->problem));
    mc::maybe_sample([&] { return *now; });
  }
  Scenario s_;
  Limits limits_;
};

void explore() {
  std::string now;
  mc::describe = [&] { return now; };
  uint64_t index = 0;
  const auto go = [&](const Scenario &s, Limits l) {
    Search x(s, l);
    x.all(&now, &index);
    mc::counters["executions"] += x.runs;
    mc::bounds[s.name()] = mc::str("all interleavings of storage operations with at most ", l.preemptions, " preemptions, at most ", l.kills, " process killed at any point");
  };
  const bool t = mc::thorough;
  const int B = sizeof BODIES / sizeof *BODIES;
  for (int a = 0; a < B; ++a)
    for (int b = a; b < B; ++b)
      for (int prior = 0; prior < 3; ++prior)
        for (int lengths = 0; lengths < 3; ++lengths) {
          if (lengths && prior && !t) continue;
          go({{a, b}, prior, lengths}, {t ? 4 : 2, 0});
          if (lengths == 2) go({{a, b}, prior, lengths}, {t ? 3 : 1, 1});
        }
  for (int a = 0; a < B; ++a)
    for (int b = a; b < B; ++b)
      for (int c = b; c < B; ++c)
        if (t || a == 0) go({{a, b, c}, 0, 2}, {t ? 2 : 1, 0});
}
}  // namespace

int main(int argc, char **argv) {
  return mc::run(argc, argv, [] {
    home = fs::path(getenv("MC_SCRATCH") ? getenv("MC_SCRATCH") : "/tmp/c27-scratch") / "home";
    setenv("HOME", home.c_str(), 1);
    store = ViewClient::determine_token_root(home.c_str());
    sh = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    static struct : std::streambuf {
      int overflow(int c) override { return c; }
    } nothing;
    std::cout.rdbuf(&nothing);
    explore();
  });
}
