// C17: device code authentication. All histories of get-token / refresh / new-client operations of two clients on one
// token store, times all server answer scripts, in virtual time.
#include <google/protobuf/util/json_util.h>
#include <sys/stat.h>

#include <filesystem>
#include <iostream>

#include "chooser.hh"
#include "cpr/cpr.h"
#include "mc.hh"
#include "resim/auth/device_code_client.hh"
#include "resim/auth/proto/auth_messages.pb.h"
#include "vclock.hh"

namespace {
namespace fs = std::filesystem;
using cpr::stub::Request;
using resim::auth::DeviceCodeClient;

constexpr int64_t S = 1000000000;
const std::string SERVER = "https://auth.example";
const std::string ID = "client \"id\"", SCOPE = "view:all read", AUDIENCE = "https://api.example/\xc3\xa9";

std::string json_string(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += static_cast<char>(c);
    } else if (c < 0x20) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else
      r += static_cast<char>(c);
  }
  return r + "\"";
}
std::string token_text(int n) {
  const std::string base = mc::str("token-", n);
  switch (n % 6) {
    case 1: return base;
    case 2: return base + std::string(6000, 'x') + "!";
    case 3: return base + " with spaces\nand a line end\n";
    case 4: return "\"" + base + "\\\"";
    case 5: return base + "\xc3\xa9\xe2\x82\xac\r\n\t";
    default: return " " + base + " ";
  }
}

enum Dev { D_OK, D_500, D_403, D_GARBAGE, D_DOWN, D_N };
enum Poll { P_TOKEN, P_PENDING, P_NONE, P_GARBAGE, P_DOWN, P_EMPTY, P_DENIED, P_N };
const char *DEV[] = {"ok", "500", "403", "garbage", "down"};
const char *POLL[] = {"token", "pending", "no-token", "garbage", "down", "empty-token", "denied"};

struct World {
  fs::path dir, path;
  std::unique_ptr<DeviceCodeClient> client[2];
  std::optional<std::string> memory[2], disk;
  std::vector<std::string> log;
  int issued = 0, codes = 0;
  int64_t expires = 10, interval = 5, latency = 0;
  std::function<int(int kind)> pick;  // kind 0 device, 1 poll

  std::string describe() const {
    std::string s = mc::str("store ", path.string().substr(dir.string().size() < path.string().size() ? dir.string().size() : 0), " lifetime ", expires, "s interval ", interval, "s:");
    for (const auto &l : log) s += " " + l;
    return s;
  }
  void bad(const char *key, const std::string &d) const { mc::violation(key, describe(), d); }
  DeviceCodeClient::Config config() const { return {.server = SERVER, .client_id = ID, .scope = SCOPE, .audience = AUDIENCE, .token_path = path}; }
  void fresh(int c) {
    log.push_back(mc::str("new", c));
    client[c] = std::make_unique<DeviceCodeClient>(config());
    memory[c].reset();
  }
  void refresh(int c) {
    log.push_back(mc::str("refresh", c));
    ++mc::transitions;
    cpr::stub::handler = [&](const Request &q) -> cpr::Response {
      bad("request-on-refresh", q.url);
      return {};
    };
    if (mc::rejects([&] { client[c]->refresh(); })) bad("refresh-failed", "refresh failed");
    memory[c].reset();
    disk.reset();
  }
  void get(int c) {
    log.push_back(mc::str("get", c));
    ++mc::transitions;
    mc::beat();
    const std::optional<std::string> held = memory[c] ? memory[c] : disk;
    int stage = 0;  // 0 nothing asked, 1 polling, 2 finished: no more requests
    bool granted = false, failed = false, off = false, may_fail = false;
    std::string code, token;
    int64_t dead = 0, last_poll = 0;
    int polls = 0;
    const auto wrong = [&](const char *key, const std::string &d) {
      off = true;
      bad(key, d);
    };
    cpr::stub::handler = [&](const Request &q) {
      ++mc::transitions;
      cpr::Response r;
      if (held) wrong("request-despite-token", "asked " + q.url + " although a token is held");
      if (q.method != "POST") wrong("method", q.method);
      if (q.url == SERVER + "/oauth/device/code") {
        if (stage != 0) wrong("second-code", "a device code was requested again");
        resim::auth::proto::DeviceCodeRequest m;
        if (!google::protobuf::util::JsonStringToMessage(q.body, &m).ok() || m.client_id() != ID || m.scope() != SCOPE || m.audience() != AUDIENCE || q.body.find("\"client_id\"") == std::string::npos) wrong("code-request", q.body);
        const int a = pick(0);
        log.push_back(mc::str("code:", DEV[a]));
        vclock::now_ns += latency;
        code = mc::str("code-", ++codes, "\"/");
        const std::string body = mc::str("{\"device_code\":", json_string(code), ",\"user_code\":\"ABCD\",\"verification_uri\":\"https://x\",\"expires_in\":", expires, ",\"interval\":", interval, ",\"verification_uri_complete\":\"https://x?y\"", codes % 2 ? "}" : ",\"message\":{\"text\":[\"open the page\",1,null]}}");
        stage = a == D_OK ? 1 : 2;
        failed = a != D_OK;
        dead = vclock::now_ns + expires * S;
        last_poll = vclock::now_ns;
        r.status_code = a == D_OK || a == D_GARBAGE ? 200 : a == D_500 ? 500 : a == D_403 ? 403 : 0;
        r.text = a == D_GARBAGE ? body.substr(0, body.size() / 2) : a == D_DOWN ? "" : a == D_403 ? "{}" : body;
        if (a == D_500) r.text = body;  // a complete body, but not a success
        return r;
      }
      if (q.url != SERVER + "/oauth/token") {
        wrong("url", q.url);
        r.status_code = 404;
        return r;
      }
      if (stage != 1) wrong(stage == 0 ? "poll-without-code" : "poll-after-end", "polled at the wrong time");
      resim::auth::proto::PollingRequest m;
      if (!google::protobuf::util::JsonStringToMessage(q.body, &m).ok() || m.client_id() != ID || m.device_code() != code || m.grant_type() != "urn:ietf:params:oauth:grant-type:device_code" || q.body.find("\"device_code\"") == std::string::npos)
        wrong("poll-request", q.body + " for code " + code);
      const int64_t t = vclock::now_ns;
      if (t > dead) wrong("poll-after-expiry", mc::str("polled ", (t - dead) / 1e9, "s after the code expired"));
      if (polls && t - last_poll < interval * S) wrong("poll-too-early", mc::str("polled again after ", (t - last_poll) / 1e9, "s"));
      if (t - last_poll > interval * S + S / 2) wrong("poll-too-late", mc::str("waited ", (t - last_poll) / 1e9, "s"));
      if (++polls > 2000) {
        wrong("endless", "2000 polls");
        throw std::runtime_error("too many");
      }
      const int a = pick(1);
      if (polls < 6) log.push_back(mc::str("poll:", POLL[a]));
      vclock::now_ns += latency;
      last_poll = vclock::now_ns;
      switch (a) {
        case P_TOKEN:
          token = token_text(++issued);
          r.status_code = 200;
          r.text = mc::str("{\"access_token\":", json_string(token), ",\"expires_in\":86400,\"token_type\":\"Bearer\"", issued % 3 == 1 ? "}" : issued % 3 == 2 ? ",\"scope\":\"offline_access\"}" : ",\"refresh_token\":\"r\",\"id_token\":\"x.y.z\"}");
          granted = true;
          stage = 2;
          break;
        case P_PENDING:
          r.status_code = 403;
          r.text = "{\"error\":\"authorization_pending\",\"error_description\":\"not yet\"}";
          break;
        case P_NONE:
          r.status_code = 200;
          r.text = "{\"token_type\":\"Bearer\"}";
          break;
        case P_GARBAGE:
          r.status_code = 200;
          r.text = "<html>";
          break;
        case P_DOWN:
          r.status_code = 0;
          break;
        case P_DENIED:  // refused: to be reported at once, or at the end of the lifetime
          r.status_code = 403;
          r.text = "{\"error\":\"access_denied\",\"access_token\":\"not granted\"}";
          may_fail = true;
          break;
        case P_EMPTY:
          r.status_code = 200;
          r.text = "{\"access_token\":\"\"}";
          break;
      }
      if (a != P_TOKEN && a != P_PENDING && a != P_DENIED) {
        failed = true;
        stage = 2;
      }
      return r;
    };
    std::string got, what;
    bool threw = false;
    try {
      got = client[c]->get_jwt();
    } catch (const mc::TooMany &) {
      throw;
    } catch (const std::exception &e) {
      threw = true;
      what = e.what();
    }
    if (off) return;
    if (held) {
      if (threw) bad("held-refused", what);
      else if (got != *held) bad("held-changed", mc::str("returned '", got.substr(0, 60), "', held '", held->substr(0, 60), "'"));
      memory[c] = held;
      return;
    }
    if (stage == 0 && !threw) return bad("not-requested", mc::str("returned '", got.substr(0, 60), "' without asking the server"));
    if (granted) {
      if (threw) return bad("granted-refused", what);
      if (got != token) return bad("granted-changed", mc::str("returned '", got.substr(0, 60), "', issued '", token.substr(0, 60), "'"));
      memory[c] = disk = token;
      return;
    }
    if (!threw) return bad(failed ? "error-swallowed" : "timeout-swallowed", mc::str("returned '", got.substr(0, 60), "'"));
    if (!failed && !may_fail && stage == 1) {
      // Gave up: only once the lifetime has elapsed, as far as further polls go.
      const int64_t next = polls ? last_poll + interval * S : last_poll;
      if (next < dead - S / 1000) return bad("gave-up-early", mc::str("gave up ", (dead - vclock::now_ns) / 1e9, "s before the code expired"));
    }
  }
  // The store as a later client sees it.
  void probe() {
    ++mc::transitions;
    DeviceCodeClient later(config());
    bool asked = false;
    cpr::stub::handler = [&](const Request &) {
      asked = true;
      cpr::Response r;
      return r;
    };
    std::string got;
    const bool threw = mc::rejects([&] { got = later.get_jwt(); });
    if (disk) {
      if (asked || threw || got != *disk) bad("store", mc::str("a later client ", threw ? "failed" : asked ? "asked the server" : "got another token", ", stored is '", disk->substr(0, 40), "'"));
    } else if (!threw || !asked) {
      bad("store", mc::str("a later client got '", got.substr(0, 40), "' although no token is stored"));
    }
  }
};

fs::path scratch;
void clean(const fs::path &dir) {
  fs::remove_all(dir);
  fs::create_directories(dir);
}
void start(World &w, int where) {
  w.dir = scratch / "store";
  if (w.dir.string().find("scratch") == std::string::npos) abort();
  clean(w.dir);
  if (chdir(w.dir.c_str())) abort();
  w.path = where == 0 ? w.dir / "not" / "yet" / "there" / "token" : where == 1 ? w.dir / "token" : where == 2 ? fs::path("token") : fs::path("sub/token");
  w.fresh(0);
  w.fresh(1);
  w.log.clear();
}

void histories() {
  const char *OPS[] = {"get0", "refresh0", "new0", "get1", "refresh1", "new1"};
  World *cur = nullptr;
  mc::describe = [&] { return cur ? cur->describe() : std::string(); };
  const auto apply = [](World &w, int o) {
    const int c = o / 3;
    if (o % 3 == 0) w.get(c);
    if (o % 3 == 1) w.refresh(c);
    if (o % 3 == 2) w.fresh(c);
  };
  uint64_t index = 0;
  const int depth = mc::thorough ? 6 : 5;
  // All words, each with all answer scripts. The alphabet of answers shrinks with the number of fetches.
  mc::all_words(6, depth, [&](const std::vector<int> &word) {
    if (word.empty()) return true;
    if (static_cast<int>(word.size()) < depth && word.size() > 1) return true;  // prefixes are part of the longer words
    if (!mc::my_shard(index++)) return true;
    mc::Chooser ch;
    do {
      ch.begin();
      World w;
      cur = &w;
      start(w, (index + word[0]) % 4);
      int fetches = 0;
      w.pick = [&](int kind) {
        if (kind == 0) {
          ++fetches;
          if (fetches == 1) {
            const int k = ch.choose(3);
            return k == 0 ? D_OK : k == 1 ? static_cast<int>(D_500) : static_cast<int>(D_GARBAGE);
          }
          return ch.choose(2) ? static_cast<int>(D_DOWN) : static_cast<int>(D_OK);
        }
        const int k = ch.choose(fetches == 1 ? 3 : 2);
        return k == 0 ? static_cast<int>(P_TOKEN) : k == 1 ? static_cast<int>(P_PENDING) : static_cast<int>(P_NONE);
      };
      const uint64_t before = mc::violation_count;
      for (int o : word) {
        apply(w, o);
        if (mc::violation_count != before) break;
        mc::state(mc::mix(mc::mix(mc::hash_str(w.disk.value_or("-")), mc::hash_str(w.memory[0].value_or("-"))), mc::hash_str(w.memory[1].value_or("-"))));
      }
      if (mc::violation_count == before) w.probe();
      ++mc::traces;
      mc::maybe_sample([&] { return w.describe(); });
    } while (ch.next());
    return true;
  });
  mc::bounds["histories"] = mc::str("all words of length 1 and ", depth, " over 6 operations of two clients, each with all answer scripts (first fetch: 3 code answers, 3 poll answers; later 2 and 2; up to two polls)");
}
void scripts() {
  World *cur = nullptr;
  mc::describe = [&] { return cur ? cur->describe() : std::string(); };
  // One login, all answers at every request, followed by a second get, then one by a later client.
  for (int where = 0; where < 4; ++where)
    for (int latency = 0; latency < 2; ++latency) {
      mc::Chooser ch;
      do {
        ch.begin();
        World w;
        cur = &w;
        w.expires = 16;
        w.latency = latency * S / 3;
        start(w, where);
        w.pick = [&](int kind) { return kind ? ch.choose(P_N) : ch.choose(D_N); };
        const uint64_t before = mc::violation_count;
        w.get(0);
        if (mc::violation_count == before) w.probe();
        if (mc::violation_count == before) {
          w.pick = [&](int kind) { return 0; };
          w.get(0);
        }
        if (mc::violation_count == before) {
          w.get(1);
          w.probe();
        }
        ++mc::traces;
        mc::state(mc::mix(77 + where, mc::hash_str(w.describe())));
      } while (ch.next());
    }
  mc::bounds["scripts"] = "all answer scripts of one login (5 code answers, 7 poll answers, up to 4 polls), 4 store locations, 2 latencies";
  // Timing: lifetimes, intervals, latencies, and the poll at which the token is granted.
  for (int64_t expires : {0, 1, 4, 5, 9, 10, 11, 60, 900, 1800})
    for (int64_t interval : {1, 2, 5, 7, 30, 3600})
      for (int64_t latency : {int64_t{0}, S / 1000, S * 7 / 10})
        for (int grant : {0, 1, 2, 3, 5, 8, 40, 100000}) {
          World w;
          cur = &w;
          w.expires = expires;
          w.interval = interval;
          w.latency = latency;
          start(w, 1);
          int k = 0;
          w.pick = [&](int kind) { return kind == 0 ? static_cast<int>(D_OK) : k++ == grant ? static_cast<int>(P_TOKEN) : static_cast<int>(P_PENDING); };
          const uint64_t before = mc::violation_count;
          w.get(0);
          if (mc::violation_count == before) w.probe();
          ++mc::traces;
          mc::state(mc::mix(mc::mix(expires * 10000 + interval, latency), grant));
        }
  mc::bounds["timing"] = "10 lifetimes x 6 intervals x 3 latencies x 8 granting polls";
  // Every kind of token text, stored and reread; then many logins in a row.
  World w;
  cur = &w;
  start(w, 1);
  w.pick = [](int) { return 0; };
  for (int i = 0; i < 40; ++i) {
    w.get(0);
    w.get(0);
    w.probe();
    w.fresh(1);
    w.get(1);
    w.refresh(0);
    w.fresh(1);
    w.log.clear();
    ++mc::traces;
  }
  mc::bounds["tokens"] = "40 logins in a row, 6 shapes of token text";
}
}  // namespace

int main(int argc, char **argv) {
  return mc::run(argc, argv, [] {
    scratch = getenv("MC_SCRATCH") ? getenv("MC_SCRATCH") : "/tmp/c17-scratch";
    static struct : std::streambuf {
      int overflow(int c) override { return c; }
    } nothing;
    std::cout.rdbuf(&nothing);
    if (mc::shard == mc::shards - 1) scripts();
    histories();
  });
}
