// C16: the view client's protocol. Every script of server answers to sequences of updates (depth-first over the answer
// to each request the real client makes), plus short scripts repeated over long sequences.
#include <glog/logging.h>

#include "chooser.hh"
#include "cpr/cpr.h"
#include "resim/auth/auth_client_interface.hh"
#include "resim/visualization/client/view_client.hh"
#include "serial.hh"

namespace {
using namespace serial;
using cpr::stub::Request;

const std::string BASE = "https://view.example:1234/api";

// What the client tells the user.
struct Sink : google::LogSink {
  std::string text;
  Sink() {
    google::InitGoogleLogging("c16");
    for (int s = 0; s < google::NUM_SEVERITIES; ++s) google::SetLogDestination(static_cast<google::LogSeverity>(s), "");
    FLAGS_stderrthreshold = google::NUM_SEVERITIES - 1;
    FLAGS_minloglevel = 0;
    google::AddLogSink(this);
  }
  void send(google::LogSeverity, const char *, const char *, int, const struct ::tm *, const char *message, size_t n) override { (text += std::string(message, n)) += '\n'; }
};
Sink &sink() {
  static Sink *s = new Sink;
  return *s;
}

struct Auth : resim::auth::AuthClientInterface {
  struct Shared {
    int token = 0, refreshes = 0, gets = 0;
    int fail_get_after = -1;  // get_jwt number which fails
    bool fail_refresh = false;
  };
  Shared &s;
  explicit Auth(Shared &sh) : s(sh) {}
  static std::string name(int t) { return mc::str("token-", t, "/+="); }
  std::string get_jwt() override {
    if (s.gets++ == s.fail_get_after) throw std::runtime_error("no credentials");
    return name(s.token);
  }
  void refresh() override {
    if (s.fail_refresh) throw std::runtime_error("refresh failed");
    ++s.token;
    ++s.refreshes;
  }
};

struct Answer {
  long status;
  std::string text;  // for session requests "%" stands for the session identifier
};
struct Alphabet {
  std::vector<Answer> session, update;
};

std::vector<ViewUpdate> updates() {
  std::vector<ViewUpdate> r;
  const auto add = [&](std::vector<ViewPrimitive> p) { r.push_back(ViewUpdate{.primitives = std::move(p)}); };
  const auto prim = [](decltype(ViewPrimitive::payload) payload, const char *name, int line) {
    ViewPrimitive v{.id = frame(1 + line % 5).id(), .payload = std::move(payload)};
    if (name) v.user_defined_name = name;
    v.file_name = "some/file.cc";
    v.line_number = line;
    return v;
  };
  add({prim(pose<SE3>(7, 1, {1, 2}), "first", 1)});
  add({prim(frame(2), nullptr, 2), prim(FV3(V3(1, 2, 3), frame(1)), "second", 3), prim(pose<SO3>(9, 0, {0, 0}), "third", 4)});
  add({});
  add({prim(DCurve<SE3>{SE3(V3(1, 2, 3)), SE3(V3(4, 4, 4))}, "\xc3\xa9", 5)});
  return r;
}

struct Run {
  Auth::Shared auth;
  std::vector<std::string> log;
  // What the server knows.
  int sessions = 0, links = 0;
  std::string session;  // current identifier as the client should use it
  bool has_session = false;
  std::string describe() const {
    std::string s;
    for (const auto &l : log) s += l + "; ";
    return s;
  }
};

std::string session_name(int n) { return mc::str("sess-", n, "-abcdef-", std::string(n % 2 ? 70 : 18, static_cast<char>('a' + n % 26))); }

// Executes `n` updates against answers chosen by `pick(kind, request number)`.
void run(int n, const Alphabet &alpha, const std::function<int(int kind, int arity)> &pick, Run &r, bool quiet) {
  static const std::vector<ViewUpdate> ups = updates();
  resim::visualization::ViewClient client(BASE);
  client.set_auth_client(std::make_unique<Auth>(r.auth));
  const auto bad = [&](const char *key, const std::string &d) { mc::violation(key, r.describe(), d); };
  long last_number = -1;
  for (int u = 0; u < n; ++u) {
    const ViewUpdate &up = ups[u % ups.size()];
    mc::beat();
    const int refreshes_before = r.auth.refreshes;
    const bool had_session = r.has_session;
    struct Req {
      Request req;
      Answer ans;
      int token;
      bool is_session;
    };
    std::vector<Req> reqs;
    cpr::stub::handler = [&](const Request &q) {
      ++mc::transitions;
      const bool is_session = q.url == BASE + "/view/sessions";
      const auto &al = is_session ? alpha.session : alpha.update;
      Answer a = al[pick(is_session ? 0 : 1, static_cast<int>(al.size()))];
      if (reqs.size() > 6) throw mc::TooMany{};  // a client that never stops asking
      std::string id;
      if (is_session && a.status == 201) {
        id = a.text == "EMPTY" ? "" : session_name(++r.sessions);
        std::string t;
        for (char c : a.text) t += c == '%' ? id : std::string(1, c);
        a.text = a.text == "EMPTY" ? "" : t;
        r.session = id;
        r.has_session = !id.empty();
      }
      if (!is_session && a.text.find("%") != std::string::npos) a.text.replace(a.text.find("%"), 1, mc::str(++r.links));
      reqs.push_back({q, a, r.auth.token, is_session});
      if (!quiet) r.log.push_back(mc::str(is_session ? "session" : "update", "->", a.status, a.status == 201 ? mc::str("(", a.text.substr(0, 20), ")") : std::string()));
      cpr::Response resp;
      resp.status_code = a.status;
      resp.text = a.text;
      if (a.status == 0) resp.error.code = cpr::ErrorCode::CONNECTION_FAILURE;
      return resp;
    };
    if (!quiet) r.log.push_back(mc::str("send #", u));
    bool ok = false, threw = false;
    sink().text.clear();
    try {
      ok = client.send_view_update(up).ok();
    } catch (const mc::TooMany &) {
      bad("endless", "more than six requests for one update");
      return;
    } catch (const std::exception &e) {
      threw = true;
    }
    // Walk through the requests as the protocol demands.
    size_t i = 0;
    bool failed = false, unspecified = false;
    int expected_token = r.auth.token - (r.auth.refreshes - refreshes_before);
    int refreshes = 0;
    // Returns false if the walk ends here (failed).
    const auto step = [&](bool session_step) -> bool {
      for (int attempt = 0; attempt < 2; ++attempt) {
        if (i >= reqs.size()) {
          bad(session_step ? "no-session-request" : attempt ? "no-retry" : "not-posted", mc::str("update #", u, ": the request was not made"));
          return false;
        }
        const Req &q = reqs[i++];
        if (q.is_session != session_step) {
          bad(session_step ? "session-needed" : "session-again", mc::str("update #", u, " asked for ", q.req.url));
          return false;
        }
        if (q.req.method != "POST") bad("method", q.req.method);
        if (!q.req.has_bearer || q.req.bearer != Auth::name(expected_token)) bad("token", mc::str("update #", u, " sent token '", q.req.bearer, "', current is '", Auth::name(expected_token), "'"));
        if (!session_step) {
          const std::string prefix = BASE + "/view/sessions/" + r.session + "/updates/";
          if (q.req.url.rfind(prefix, 0) != 0) {
            bad("url", mc::str("posted to ", q.req.url));
            return false;
          }
          const std::string num = q.req.url.substr(prefix.size());
          const long expected = last_number + (attempt ? 0 : 1);
          if (num != mc::str(expected)) bad("number", mc::str("update #", u, " posted as ", num, ", expected ", expected));
          if (!attempt) ++last_number;
          if (num != mc::str(last_number) && !num.empty()) last_number = atol(num.c_str());
          auto h = q.req.header.find("Content-Type");
          if (h == q.req.header.end() || h->second != "application/octet-stream") bad("content-type", "of an update");
          vp::ViewUpdate m;
          if (!m.ParseFromString(q.req.body)) bad("body", "not a view update");
          else {
            std::string d;
            if (mc::rejects([&] { d = diff(unpack(m), up); })) d = "cannot be unpacked";
            if (!d.empty()) bad("body", mc::str("update #", u, ": ", d));
          }
          if (attempt && q.req.body != reqs[i - 2].req.body) bad("retry-body", "the repeated request has another body");
        }
        if (q.ans.status == 201) return true;
        if (q.ans.status != 401 || attempt == 1) {
          failed = true;
          return false;
        }
        // Unauthorised for the first time: refresh and repeat.
        ++refreshes;
        if (r.auth.refreshes - refreshes_before < refreshes) {
          bad("no-refresh", mc::str("update #", u, ": an unauthorised answer did not lead to fresh credentials"));
          return false;
        }
        ++expected_token;
      }
      return false;
    };
    const size_t violations_before = mc::violation_count;
    bool done = true;
    if (!had_session) {
      done = step(true);
      if (done && r.session.empty()) {
        // A session without identifier: may be refused, or used as it is.
        unspecified = true;
      }
    }
    if (unspecified && i >= reqs.size()) {
      if (ok) bad("reported", "sent under a session without identifier and no request");
    } else {
      if (done) done = step(false);
      if (mc::violation_count != violations_before) return;  // the walk is off the track
      if (done && (!ok || threw)) bad("reported", mc::str("update #", u, " was confirmed by the server but reported as a failure"));
      // The link in the answer is for the user.
      if (done && reqs.back().ans.text.find("https://app.example/") != std::string::npos) {
        const std::string link = mc::str("https://app.example/", r.links, "?a=b&c={}%20#d");
        if (sink().text.find(link) == std::string::npos) bad("link", mc::str("update #", u, ": the link ", link, " was not shown, but '", sink().text, "'"));
      }
      if (failed && ok) bad("reported", mc::str("update #", u, " was not confirmed by the server but reported as sent"));
      if (failed && threw) bad("reported", mc::str("update #", u, ": failed with an exception instead of a status"));
      if (i != reqs.size()) bad("extra-requests", mc::str("update #", u, ": ", reqs.size() - i, " request(s) too many, the first to ", reqs[i].req.url));
      if (r.auth.refreshes - refreshes_before != refreshes) bad("refreshes", mc::str("update #", u, ": ", r.auth.refreshes - refreshes_before, " credential refreshes, expected ", refreshes));
    }
    if (mc::violation_count != violations_before) return;
    uint64_t h = mc::mix(u, r.has_session);
    h = mc::mix(h, last_number);
    h = mc::mix(h, r.sessions * 16 + r.auth.token);
    h = mc::mix(h, ok + 2 * threw);
    for (const auto &q : reqs) h = mc::mix(h, q.ans.status * 2 + q.is_session);
    mc::state(h);
  }
}

void explore(const char *name, int n, const Alphabet &alpha) {
  Run r;
  mc::describe = [&] { return mc::str(name, ": ", r.describe()); };
  // Shards split on the first two answers.
  static uint64_t index = 0;
  uint64_t runs = 0;
  for (size_t f = 0; f < alpha.session.size(); ++f)
    for (size_t g = 0; g < std::max(alpha.session.size(), alpha.update.size()); ++g) {
      if (!mc::my_shard(index++)) continue;
      mc::Chooser c;
      bool in_range = true;
      do {
        c.begin();
        r = Run();
        int asked = 0;
        run(n, alpha,
            [&](int, int arity) {
              ++asked;
              if (asked == 1) return static_cast<int>(f);
              if (asked == 2) {
                in_range = static_cast<int>(g) < arity;
                return in_range ? static_cast<int>(g) : 0;
              }
              return c.choose(arity);
            },
            r, false);
        if (asked < 2 && g) break;  // nothing to split on
        if (!in_range) break;       // the second request has fewer answers: covered under g = 0
        ++mc::traces;
        ++runs;
        mc::maybe_sample(mc::describe);
      } while (c.next());
    }
  mc::counters[mc::str("scripts_", name)] = runs;
  mc::bounds[name] = mc::str("all answer scripts for ", n, " updates; ", alpha.session.size(), " session answers, ", alpha.update.size(), " update answers");
}
}  // namespace

int main(int argc, char **argv) {
  return mc::run(argc, argv, [] {
    const std::string json = "{\"id\":\"i\",\"mcap\":\"https://mcap.example\",\"view\":\"https://app.example/%?a=b&c={}%20#d\"}";
    const Alphabet full{{{201, "\"%\"\n"}, {201, "%"}, {201, "\"%\""}, {201, "EMPTY"}, {401, "denied"}, {403, ""}, {404, "{}"}, {500, "oops"}, {0, ""}, {200, "\"not-created\""}, {302, ""}, {202, "\"x\""}},
                        {{201, json}, {201, ""}, {201, "not json"}, {401, ""}, {403, json}, {404, ""}, {500, json}, {0, ""}, {200, json}, {204, ""}, {302, json}, {409, ""}, {503, ""}}};
    const Alphabet mid{{{201, "\"%\"\n"}, {401, ""}, {500, ""}, {0, ""}, {403, "x"}}, {{201, json}, {201, "bad"}, {401, ""}, {500, ""}, {0, ""}}};
    const Alphabet small{{{201, "\"%\"\n"}, {401, ""}, {500, ""}}, {{201, json}, {401, ""}, {500, ""}}};
    const int s = mc::shard;
    explore("two updates, full alphabet", 2, full);
    explore("four updates, middle alphabet", mc::thorough ? 5 : 4, mid);
    explore("six updates, small alphabet", mc::thorough ? 8 : 6, small);
    if (mc::thorough) explore("three updates, full alphabet", 3, full);
    explore("one update, full alphabet", 1, full);
    if (s == 0) {
      // Short scripts repeated over long sequences, and one long undisturbed sequence.
      Run r;
      mc::describe = [&] { return r.describe(); };
      mc::all_words(3, mc::thorough ? 5 : 4, [&](const std::vector<int> &w) {
        if (w.empty()) return true;
        r = Run();
        r.log = {mc::str("answers repeated:")};
        for (int x : w) r.log.push_back(mc::str(small.update[x].status));
        size_t k = 0;
        ++mc::traces;
        run(300, small, [&](int, int) { return w[k++ % w.size()]; }, r, true);
        return true;
      });
      mc::bounds["repeated"] = "all answer words of length <= 4 (thorough 5) repeated over 300 updates";
      r = Run();
      r.log = {"70000 updates, all confirmed"};
      run(70000, small, [&](int, int) { return 0; }, r, true);
      ++mc::traces;
      mc::bounds["long"] = "70000 confirmed updates in one session";
      // Credentials that fail: an exception (or a failed status), no update reported as sent, and the next one works.
      for (int g = 0; g < 6; ++g)
        for (int first = 0; first < 3; ++first)
          for (int second = 0; second < 3; ++second)
            for (int refresh_fails = 0; refresh_fails < 2; ++refresh_fails) {
              Run q;
              q.auth.fail_get_after = refresh_fails ? -1 : g;
              q.auth.fail_refresh = refresh_fails;
              ++mc::traces;
              mc::describe = [&] { return mc::str("credentials fail at use ", g, refresh_fails ? " (refresh)" : "", ", answers ", first, second); };
              resim::visualization::ViewClient client(BASE);
              client.set_auth_client(std::make_unique<Auth>(q.auth));
              const auto ups = updates();
              int confirmed = 0, answered = 0;
              std::set<std::string> confirmed_bodies;
              cpr::stub::handler = [&](const Request &rq) {
                ++mc::transitions;
                cpr::Response resp;
                const int k = answered == 0 ? first : answered == 1 ? second : 0;
                ++answered;
                resp.status_code = k == 0 ? 201 : k == 1 ? 401 : 500;
                resp.text = "\"s\"";
                if (rq.url != BASE + "/view/sessions" && k == 0) {
                  ++confirmed;
                  confirmed_bodies.insert(rq.body);
                }
                return resp;
              };
              for (int u = 0; u < 4; ++u) {
                const int before = confirmed, gets_before = q.auth.gets;
                bool ok = false;
                const bool threw = mc::rejects([&] { ok = client.send_view_update(ups[u % 2]).ok(); });
                if (ok && confirmed != before + 1) mc::violation("reported", mc::describe(), "reported as sent without confirmation");
                if (!ok && confirmed != before) mc::violation("reported", mc::describe(), "confirmed but reported as failed");
                if (u == 3 && (!ok || threw) && gets_before > q.auth.fail_get_after && !refresh_fails) mc::violation("recovery", mc::describe(), "the client did not recover");
              }
            }
      mc::bounds["credentials"] = "credential failure at each of the first six uses x nine answer pairs";
      // No endpoint: rejected, nothing sent.
      mc::describe = [] { return std::string("empty base URL"); };
      Auth::Shared sh;
      resim::visualization::ViewClient client("");
      client.set_auth_client(std::make_unique<Auth>(sh));
      bool asked = false;
      cpr::stub::handler = [&](const Request &) {
        asked = true;
        cpr::Response resp;
        resp.status_code = 201;
        return resp;
      };
      bool ok = false;
      mc::rejects([&] { ok = client.send_view_update(updates()[0]).ok(); });
      if (ok) mc::violation("no-endpoint", mc::describe(), "an update was reported as sent without an endpoint");
    }
  });
}
