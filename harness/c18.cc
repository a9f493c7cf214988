// C18: credentials and crashes. The real clients run in forked processes under a system call trap; every crash point,
// every torn write and every storage fault of each scenario is explored (singly and in pairs, and crashes in two
// successive processes); after each, a fresh process must hand out a complete token and deliver a view update.
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>

#include <filesystem>
#include <iostream>

#include "cpr/cpr.h"
#include "faultfs.hh"
#include "mc.hh"
#include "resim/auth/device_code_client.hh"
#include "resim/visualization/client/view_client.hh"
#include "resim/visualization/view_update.hh"

namespace {
namespace fs = std::filesystem;
using cpr::stub::Request;
using faultfs::Fault;
using resim::auth::DeviceCodeClient;
using resim::visualization::ViewClient;
using resim::visualization::ViewPrimitive;
using resim::visualization::ViewUpdate;

constexpr int MAX_TOKENS = 64;
// What survives the processes: the server's view of the world, and findings.
struct Shared {
  faultfs::Record record;
  int issued;       // tokens issued so far (0 is the prior one)
  int valid_from;   // tokens below are expired: the view service answers 401
  int delivered;    // confirmed view updates
  char problem[1024];
  int trapped;      // the trap could be installed
};
Shared *sh;
int token_size;
std::string token(int n) {
  std::string s = mc::str("token-", n, "-");
  while (static_cast<int>(s.size()) < token_size) s += static_cast<char>('a' + (s.size() * 7 + n) % 26);
  return s + "$";
}
int token_number(const std::string &t) {
  for (int i = 0; i <= sh->issued; ++i)
    if (t == token(i)) return i;
  return -1;
}
void problem(const std::string &p) {
  if (!sh->problem[0]) snprintf(sh->problem, sizeof sh->problem, "%s", p.c_str());
}
const std::string AUTH = "https://auth.example";
void serve() {
  cpr::stub::handler = [](const Request &q) {
    cpr::Response r;
    const auto ends = [&](const char *s) { return q.url.size() >= strlen(s) && q.url.compare(q.url.size() - strlen(s), std::string::npos, s) == 0; };
    if (ends("/oauth/device/code")) {
      r.status_code = 200;
      r.text = "{\"device_code\":\"dc\",\"expires_in\":900,\"interval\":5}";
    } else if (ends("/oauth/token")) {
      r.status_code = 200;
      ++sh->issued;
      r.text = "{\"access_token\":\"" + token(sh->issued) + "\"}";
    } else {
      const int n = token_number(q.bearer);
      if (n < 0) problem(mc::str("a request carried '", q.bearer.substr(0, 80), "' (", q.bearer.size(), " bytes), which is no token the server issued"));
      if (n < sh->valid_from) {
        r.status_code = 401;
      } else {
        r.status_code = 201;
        if (q.url.find("/updates/") == std::string::npos)
          r.text = "\"session\"\n";
        else {
          r.text = "{}";
          ++sh->delivered;
        }
      }
    }
    return r;
  };
}
fs::path home, store;
ViewUpdate update() {
  ViewUpdate u;
  ViewPrimitive p{.id = resim::UUID("11111111-2222-4333-8444-555555555555"), .payload = resim::transforms::Frame<3>(resim::UUID("11111111-2222-4333-8444-555555555555"))};
  p.line_number = 1;
  u.primitives.push_back(p);
  return u;
}
DeviceCodeClient::Config config() { return {.server = AUTH, .client_id = "id", .scope = "s", .audience = "a", .token_path = store}; }
void get(DeviceCodeClient &c) {
  try {
    const std::string t = c.get_jwt();
    if (token_number(t) < 0) problem(mc::str("get_jwt() handed out '", t.substr(0, 80), "' (", t.size(), " bytes), which is no token the server issued"));
  } catch (const std::exception &) {
  }
}
void refresh(DeviceCodeClient &c) {
  try {
    c.refresh();
  } catch (const std::exception &) {
  }
}
void send(ViewClient &c) {
  try {
    const int before = sh->delivered;
    if (c.send_view_update(update()).ok() && sh->delivered != before + 1) problem("an update was reported as sent that the server did not confirm");
  } catch (const std::exception &) {
  }
}
struct Scenario {
  const char *name;
  bool prior;        // a (complete) token is stored already
  bool expired;      // which the view service no longer accepts
  std::function<void()> body;
};
std::vector<Scenario> scenarios() {
  return {
      {"login", false, false, [] { DeviceCodeClient c(config()); get(c); get(c); }},
      {"reuse", true, false, [] { DeviceCodeClient c(config()); get(c); DeviceCodeClient d(config()); get(d); }},
      {"refresh and login", true, false, [] { DeviceCodeClient c(config()); get(c); refresh(c); get(c); get(c); }},
      {"two refreshes", false, false, [] { DeviceCodeClient c(config()); get(c); refresh(c); get(c); refresh(c); get(c); }},
      {"view update", false, false, [] { ViewClient c("https://v"); send(c); send(c); }},
      {"view update with expired token", true, true, [] { ViewClient c("https://v"); send(c); send(c); }},
      {"refresh before login", true, false, [] { DeviceCodeClient c(config()); refresh(c); DeviceCodeClient d(config()); get(d); get(c); }},
  };
}
// Runs f in a child with the given faults; false if it ended in an unexpected way.
std::string in_child(const std::function<void()> &f, const std::vector<Fault> &faults, bool trap) {
  sh->record.count = 0;
  sh->record.crashed = 0;
  const pid_t p = fork();
  if (p < 0) return "fork failed";
  if (p == 0) {
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) signal(s, SIG_DFL);
    struct itimerval none {};
    setitimer(ITIMER_REAL, &none, nullptr);
    signal(SIGALRM, SIG_DFL);
    alarm(60);
    for (size_t i = 0; i < faults.size(); ++i) faultfs::plan[i] = faults[i];
    if (trap) sh->trapped = faultfs::install(home.c_str(), &sh->record) ? 1 : -1;
    serve();
    try {
      f();
    } catch (...) {
      problem("an exception escaped");
    }
    _exit(0);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
  }
  if (WIFSIGNALED(st)) return mc::str("the process died with signal ", WTERMSIG(st));
  if (WEXITSTATUS(st) != 0 && !(WEXITSTATUS(st) == 99 && sh->record.crashed)) return mc::str("the process exited with status ", WEXITSTATUS(st));
  return "";
}
// A fresh process without faults: must get a complete token and deliver an update.
void after() {
  DeviceCodeClient c(config());
  std::string t;
  try {
    t = c.get_jwt();
  } catch (const std::exception &e) {
    problem(mc::str("the next client could not get a token: ", e.what()));
    return;
  }
  if (token_number(t) < 0) return problem(mc::str("the next client handed out '", t.substr(0, 80), "' (", t.size(), " bytes), which is no token the server issued"));
  const int before = sh->delivered;
  ViewClient v("https://v");
  try {
    if (!v.send_view_update(update()).ok()) return problem("the next view update failed");
  } catch (const std::exception &e) {
    return problem(mc::str("the next view update failed: ", e.what()));
  }
  if (sh->delivered != before + 1) return problem("the next view update was not delivered");
  // And whatever is stored by now serves a further client.
  DeviceCodeClient d(config());
  try {
    if (token_number(d.get_jwt()) < 0) problem("a further client handed out something else than a token");
  } catch (const std::exception &e) {
    problem(mc::str("a further client could not get a token: ", e.what()));
  }
}
std::string show(const Fault &f) {
  static const char *names[] = {"-", "killed before", "killed after", "killed within (bytes written)", "fails (errno)", "does part (bytes)", "does part, then disk full (bytes)"};
  return mc::str("storage operation ", f.op, " ", names[f.kind], f.kind == faultfs::CRASH_BEFORE || f.kind == faultfs::CRASH_AFTER ? std::string() : mc::str(" ", f.arg));
}
void setup(const Scenario &s) {
  sh->issued = 0;
  sh->valid_from = s.expired ? 1 : 0;
  sh->delivered = 0;
  sh->problem[0] = 0;
  if (home.string().find("scratch") == std::string::npos) abort();
  fs::remove_all(home);
  fs::create_directories(home);
  if (s.prior) {
    fs::create_directories(store.parent_path());
    std::ofstream(store) << token(0);
  }
}
// All faults for the recorded operations from index `from`.
std::vector<Fault> faults_for(const faultfs::Record &r, int from, bool crashes_only, bool dense) {
  std::vector<Fault> out;
  for (int i = from; i < r.count; ++i) {
    const auto &o = r.ops[i];
    out.push_back({i, faultfs::CRASH_BEFORE, 0});
    if (i + 1 == r.count) out.push_back({i, faultfs::CRASH_AFTER, 0});
    std::vector<long> cuts;
    if (o.cls == 'w' && o.size > 0) {
      if (o.size <= 64 && dense)
        for (long k = 1; k < o.size; ++k) cuts.push_back(k);
      else
        for (long k : {1L, 6L, o.size / 2, o.size - 2, o.size - 1})
          if (k > 0 && k < o.size && std::find(cuts.begin(), cuts.end(), k) == cuts.end()) cuts.push_back(k);
    }
    for (long k : cuts) out.push_back({i, faultfs::TORN_CRASH, k});
    if (crashes_only) continue;
    std::vector<long> errs;
    switch (o.cls) {
      case 'w': errs = {ENOSPC, EIO}; break;
      case 'r': errs = {EIO}; break;
      case 'o': errs = {EACCES, EMFILE, EIO}; break;
      case 's': errs = {EACCES, EIO}; break;
      default: errs = {EACCES, ENOSPC, EIO}; break;
    }
    for (long e : errs) out.push_back({i, faultfs::FAIL, e});
    for (long k : cuts) {
      out.push_back({i, faultfs::SHORT, k});
      out.push_back({i, faultfs::SHORT_THEN_FULL, k});
    }
    if (o.cls == 'w') out.push_back({i, faultfs::SHORT_THEN_FULL, 0});
    if (o.cls == 'r' && o.size > 1) {
      out.push_back({i, faultfs::SHORT, 1});
      out.push_back({i, faultfs::SHORT, 7});
    }
  }
  return out;
}

void explore() {
  std::string now;
  mc::describe = [&] { return now; };
  uint64_t index = 0;
  for (int size : {20, 9000})
    for (const Scenario &s : scenarios()) {
      token_size = size;
      const auto judge = [&](const std::string &died) {
        ++mc::traces;
        mc::beat();
        if (!died.empty()) return mc::violation("died", now, died);
        if (sh->problem[0]) return mc::violation("token", now, sh->problem);
        const std::string e = in_child(after, {}, false);
        ++mc::transitions;
        if (!e.empty()) mc::violation("died-after", now, e);
        else if (sh->problem[0]) mc::violation("after", now, sh->problem);
      };
      // The undisturbed run tells the operations.
      now = mc::str(s.name, ", token of ", size, " bytes, undisturbed");
      setup(s);
      const std::string died = in_child(s.body, {}, true);
      if (sh->trapped < 0) {
        fprintf(stderr, "system calls cannot be trapped here\n");
        exit(2);
      }
      const faultfs::Record base = sh->record;
      if (mc::shard == 0) judge(died);
      if (base.count == 0 || base.count >= 500) {
        // Without any recorded storage operation there is nothing to explore: that is a fact worth an alarm of its own
        // only if storing is what the scenario is about, which the undisturbed run has shown above.
        mc::counters[mc::str("no_ops_", s.name)]++;
        continue;
      }
      const auto single = faults_for(base, 0, false, true);
      const bool dense = mc::thorough;
      uint64_t pairs = 0, second = 0;
      for (const Fault &f : single) {
        if (!mc::my_shard(index++)) continue;
        now = mc::str(s.name, ", token of ", size, " bytes: ", show(f));
        setup(s);
        const std::string d = in_child(s.body, {f}, true);
        mc::transitions += sh->record.count;
        const faultfs::Record after_fault = sh->record;
        const bool crashed = sh->record.crashed;
        mc::state(mc::mix(mc::hash_str(s.name), mc::mix(size * 1000 + f.op, f.kind * 100000 + f.arg)));
        judge(d);
        mc::maybe_sample([&] { return now; });
        // Pairs: a second fault or crash in what the same process does after the first.
        if (!crashed && f.kind != faultfs::SHORT) {
          if (size > 100 && !dense && f.kind != faultfs::FAIL) continue;
          for (const Fault &g : faults_for(after_fault, f.op + 1, !dense, dense)) {
            now = mc::str(s.name, ", token of ", size, " bytes: ", show(f), ", then ", show(g));
            setup(s);
            const std::string e = in_child(s.body, {f, g}, true);
            mc::transitions += sh->record.count;
            ++pairs;
            judge(e);
          }
        }
        // Crash, restart, crash again in the restarted process.
        if (crashed && (dense || f.kind != faultfs::TORN_CRASH || f.arg < 8)) {
          setup(s);
          in_child(s.body, {f}, true);
          in_child(after, {}, true);
          const faultfs::Record restart = sh->record;
          for (const Fault &g : faults_for(restart, 0, true, false)) {
            now = mc::str(s.name, ", token of ", size, " bytes: ", show(f), ", restarted: ", show(g));
            setup(s);
            in_child(s.body, {f}, true);
            const std::string e = in_child(after, {g}, true);
            mc::transitions += sh->record.count;
            ++second;
            judge(e);
          }
        }
      }
      mc::counters["pairs"] += pairs;
      mc::counters["second_crashes"] += second;
      mc::bounds[mc::str(s.name, " ", size)] = mc::str(base.count, " storage operations, ", single.size(), " single faults, plus pairs and crashes of the restarted process");
    }
}
}  // namespace

int main(int argc, char **argv) {
  return mc::run(argc, argv, [] {
    home = fs::path(getenv("MC_SCRATCH") ? getenv("MC_SCRATCH") : "/tmp/c18-scratch") / "home";
    setenv("HOME", home.c_str(), 1);
    store = ViewClient::determine_token_root(home.c_str());
    sh = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    static struct : std::streambuf {
      int overflow(int c) override { return c; }
    } nothing;
    std::cout.rdbuf(&nothing);
    explore();
  });
}
