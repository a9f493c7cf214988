// C22: viewing end to end. Every short sequence of view statements, over all object types and ways of viewing, with every
// pattern of server failures, runs in its own process on the real view singleton, client and serialisation against a
// scripted server that decodes what it receives.
#include <sys/mman.h>
#include <sys/wait.h>

#include <filesystem>

#include "cpr/cpr.h"
#include "mc.hh"
#include "resim/visualization/view.hh"
#include "serial.hh"
#include "vclock.hh"
#include "c22_site.hh"

namespace {
using namespace serial;
using cpr::stub::Request;
using Payload = decltype(ViewPrimitive::payload);

// ---- objects ----
struct Objects {
  std::vector<Payload> all;
  std::vector<std::string> names;
  std::vector<int> one_per_type;
};
const Objects &objects() {
  static const Objects o = [] {
    Objects r;
    const auto add = [&](const std::string &name, Payload p, bool representative = false) {
      if (representative) r.one_per_type.push_back(static_cast<int>(r.all.size()));
      r.names.push_back(name);
      r.all.push_back(std::move(p));
    };
    add("frame", frame(1), true);
    add("null frame", Frame3::null_frame());
    add("se3", pose<SE3>(40, 1, {1, 2}), true);
    add("se3 half turn", pose<SE3>(half_turn(), 2, {0, 0}));
    add("so3", pose<SO3>(41, 0, {2, 1}), true);
    add("so3 identity", SO3::identity());
    add("dcurve", DCurve<SE3>({pose<SE3>(0, 0, {1, 2}), pose<SE3>(0, 1, {1, 2}), pose<SE3>(0, 2, {1, 2})}), true);
    add("dcurve short", DCurve<SE3>{SE3(V3(1, 2, 3)), SE3(V3(4, 4, 4))});
    add("dcurve empty", DCurve<SE3>());
    const auto jet = [](int rot, int tan, const Framing &f) { return TwoJetL<SE3>(pose<SE3>(rot, 1, f), tangent<SE3>(tan), tangent<SE3>(tan + 3)); };
    add("tcurve", TCurve<SE3>({{1.5, jet(3, 1, {1, 2})}, {2.25, jet(30, 1, {1, 2})}, {7., jet(5, 0, {1, 2})}}), true);
    add("tcurve one", TCurve<SE3>({{-3., jet(3, 1, {0, 0})}}));
    const auto trajectory = [&](int64_t ns) { return Trajectory(TCurve<SE3>({{0., jet(3, 1, {1, 2})}, {2.25, jet(30, 1, {1, 2})}}), Timestamp(std::chrono::nanoseconds(ns))); };
    add("trajectory", trajectory(1687000000123456789), true);
    add("trajectory early", trajectory(-5));
    add("framed vector", FV3(V3(1, -2, 1e300), frame(2)), true);
    add("plain vector", FV3(V3(0, 0, 0)));
    return r;
  }();
  return o;
}

// ---- a statement ----
enum Way { STREAM, MACRO_STREAM, MACRO_NAME, TEMPORARY, ELSEWHERE, ELSEWHERE_STREAM, CHAIN, NWAYS, FAR = NWAYS };
const char *WAYS[] = {"view << x", "VIEW(x) << name", "VIEW(x, name)", "VIEW(temporary, literal)", "VIEW(x, name) elsewhere", "VIEW(x) << name elsewhere", "view << x << x", "VIEW far away 0", "VIEW far away 1", "VIEW far away 2", "VIEW far away 3", "VIEW far away 4", "VIEW far away 5", "VIEW far away 6", "VIEW far away 7"};
static_assert(sizeof WAYS / sizeof *WAYS == FAR + FAR_SITES);
enum Fault { OKAY, REFUSED, NO_ANSWER, REAUTH, REAUTH_REFUSED, REAUTH_TWICE, GARBAGE, S_REFUSED, S_NO_ANSWER, S_REAUTH, S_REAUTH_TWICE, S_REAUTH_REFUSED, NFAULTS };
const char *FAULTS[] = {"ok", "update refused", "no answer", "update unauthorised once", "update unauthorised then refused", "update unauthorised twice", "ok with garbage", "session refused", "session no answer", "session unauthorised once", "session unauthorised twice", "session unauthorised then refused"};
struct Statement {
  int way, object, name;
  int fault;
};
const std::vector<std::string> &names() {
  static const std::vector<std::string> n = {"a name", "", "n\xc3\xa4me \"quoted\"\n{}%s", std::string(70000, 'x'), std::string("nul\0inside", 10)};
  return n;
}

// ---- what the child tells the parent ----
struct Shared {
  bool finished;
  uint64_t statements, requests;
  char key[64];
  char detail[2000];
};
Shared *S;
void fail(const std::string &key, const std::string &detail) {
  if (S->key[0]) return;
  snprintf(S->key, sizeof S->key, "%s", key.c_str());
  snprintf(S->detail, sizeof S->detail, "%s", detail.c_str());
}

// ---- the server ----
struct World {
  int fault = OKAY;
  bool session = false;
  int session_requests = 0, update_requests = 0;  // of the current statement
  int tokens = 0;
  std::vector<std::string> confirmed, received;   // bodies of the current statement
  std::set<std::string> ids;
};
World W;

cpr::Response answer(const Request &q) {
  ++S->requests;
  cpr::Response r;
  const auto has = [&](const char *s) { return q.url.find(s) != std::string::npos; };
  if (has("/oauth/device/code")) {
    r.status_code = 200;
    r.text = R"({"device_code":"code","user_code":"u","verification_uri":"v","verification_uri_complete":"vc","expires_in":900,"interval":5})";
  } else if (has("/oauth/token")) {
    r.status_code = 200;
    r.text = mc::str(R"({"access_token":"token-)", ++W.tokens, R"(","token_type":"Bearer","expires_in":1000})");
  } else if (has("/updates/")) {
    const int n = W.update_requests++;
    W.received.push_back(q.body);
    switch (W.fault) {
      case REFUSED: r.status_code = 500; break;
      case NO_ANSWER: r.status_code = 0; break;
      case REAUTH: r.status_code = n == 0 ? 401 : 201; break;
      case REAUTH_REFUSED: r.status_code = n == 0 ? 401 : 503; break;
      case REAUTH_TWICE: r.status_code = 401; break;
      default: r.status_code = 201;
    }
    if (r.status_code == 201) {
      W.confirmed.push_back(q.body);
      r.text = W.fault == GARBAGE ? "<html>not json" : R"({"view":"https://app.resim.ai/view"})";
    }
  } else if (has("/view/sessions")) {
    const int n = W.session_requests++;
    switch (W.fault) {
      case S_REFUSED: r.status_code = 500; break;
      case S_NO_ANSWER: r.status_code = 0; break;
      case S_REAUTH: r.status_code = n == 0 ? 401 : 201; break;
      case S_REAUTH_TWICE: r.status_code = 401; break;
      case S_REAUTH_REFUSED: r.status_code = n == 0 ? 401 : 500; break;
      default: r.status_code = 201;
    }
    if (r.status_code == 201) {
      W.session = true;
      r.text = "\"session\"\n";
    }
  } else {
    fail("url", "request to " + q.url);
    r.status_code = 404;
  }
  return r;
}

// Must the statement fail?
bool fails(int fault, bool session_before) {
  switch (fault) {
    case REFUSED:
    case NO_ANSWER:
    case REAUTH_REFUSED:
    case REAUTH_TWICE: return true;
    case S_REFUSED:
    case S_NO_ANSWER:
    case S_REAUTH_TWICE:
    case S_REAUTH_REFUSED: return !session_before;
    default: return false;
  }
}

std::string body_problem(const std::string &body, const Payload &object, const std::string &name, bool place, const char *file, int line, std::string *id) {
  vp::ViewUpdate m;
  if (!m.ParseFromString(body)) return "the body cannot be parsed";
  try {
    const ViewUpdate u = vp::unpack(m);
    if (u.primitives.size() != 1) return mc::str("the body holds ", u.primitives.size(), " objects");
    const ViewPrimitive &p = u.primitives[0];
    *id = p.id.to_string();
    if (p.id.is_null()) return "the identifier is null";
    ViewPrimitive want{.id = p.id, .payload = object, .user_defined_name = name.empty() ? std::nullopt : std::optional<std::string>(name), .file_name = place ? file : p.file_name, .line_number = place ? line : p.line_number};
    if (name.empty() && p.user_defined_name && !p.user_defined_name->empty()) return "the object has the name '" + *p.user_defined_name + "'";
    return diff(p, want);
  } catch (const std::exception &e) {
    return mc::str("the body does not unpack: ", e.what());
  }
}

void execute(const Statement &s, int index) {
  ++S->statements;
  const Payload &object = objects().all[s.object];
  std::string name = names()[s.name];
  const bool session_before = W.session;
  W.fault = s.fault;
  W.session_requests = W.update_requests = 0;
  W.confirmed.clear();
  W.received.clear();
  int line = 0;
  const char *file = __FILE__;
  bool threw = false;
  int done = 0;
  std::visit(
      [&](const auto &x) {
        using T = std::decay_t<decltype(x)>;
        try {
          switch (s.way) {
            case STREAM: resim::view << x; break;
            case MACRO_STREAM: line = __LINE__; VIEW(x) << name; break;
            case MACRO_NAME: line = __LINE__; VIEW(x, name); break;
            case TEMPORARY: {
              name = "a literal";
              line = __LINE__; VIEW(T(x), "a literal");
              break;
            }
            case ELSEWHERE: elsewhere(x, name, line, file); break;
            case ELSEWHERE_STREAM: elsewhere_streamed(x, name, line, file); break;
            default: far_away(s.way - FAR, x, name, line, file); break;
            case CHAIN:
              resim::visualization::View &v = resim::view << x;
              done = 1;
              if (&v != &resim::view) fail("chain", "streaming returns another view");
              v << x;
              break;
          }
        } catch (const std::exception &) {
          threw = true;
        }
      },
      object);
  const bool unnamed = s.way == STREAM || s.way == CHAIN;
  const auto where = [&]() { return mc::str("statement ", index, ": "); };
  const bool must_fail = fails(s.fault, session_before);
  if (threw != must_fail) fail(threw ? "spurious-error" : "error-swallowed", where() + (threw ? "an error although the server accepted it" : "no error although the server refused it"));
  const size_t expected = must_fail ? 0 : s.way == CHAIN ? 2 : 1;
  if (W.confirmed.size() != expected) fail("count", where() + mc::str("the server accepted ", W.confirmed.size(), " updates, expected ", expected));
  std::string last;
  for (const std::string &b : W.received) {
    std::string id;
    const std::string p = body_problem(b, object, unnamed ? "" : name, !unnamed, file, line, &id);
    if (!p.empty()) fail("garbled", where() + p);
    // A repeated request (after re-authentication) is the same; anything else has a new identifier.
    if (b == last) continue;
    last = b;
    if (!W.ids.insert(id).second) fail("id-reused", where() + "identifier " + id);
  }
  (void)done;
}

std::string show(const std::vector<Statement> &h) {
  std::string r;
  for (size_t i = 0; i < h.size(); ++i) {
    if (i == 6 && h.size() > 8) return r + mc::str("... (", h.size(), " statements)");
    const Statement &s = h[i];
    r += mc::str(i ? "; " : "", WAYS[s.way], " of ", objects().names[s.object], " named ", s.name, " [", FAULTS[s.fault], "]");
  }
  return r;
}

uint64_t counter = 0;
void history(const std::vector<Statement> &h, bool token_stored = true) {
  if (!mc::my_shard(counter++)) return;
  const std::string name = show(h) + (token_stored ? "" : " (first login)");
  if (!mc::only.empty() && mc::only != name) return;
  mc::describe = [&]() { return name; };
  mc::beat();
  namespace fs = std::filesystem;
  const fs::path token = fs::path(getenv("HOME")) / ".resim" / "view_token";
  fs::create_directories(token.parent_path());
  fs::remove(token);
  if (token_stored) std::ofstream(token) << "stored-token";
  memset(static_cast<void *>(S), 0, sizeof *S);
  const pid_t c = fork();
  if (c == 0) {
    signal(SIGALRM, SIG_DFL);
    mc::violations.clear();
    mc::describe = [&]() { return name; };
    W = World{};
    for (size_t i = 0; i < h.size(); ++i) execute(h[i], static_cast<int>(i));
    S->finished = true;
    _exit(0);
  }
  int st = 0;
  while (waitpid(c, &st, 0) < 0 && errno == EINTR) {
  }
  ++mc::traces;
  mc::transitions += S->statements;
  mc::counters["requests"] += S->requests;
  uint64_t k = token_stored;
  for (const Statement &s : h) k = mc::mix(k, ((s.way * 100 + s.object) * 10 + s.name) * 100 + s.fault);
  mc::state(k);
  if (S->key[0]) mc::violation(S->key, name, S->detail);
  else if (!S->finished) mc::violation("crash", name, mc::str("the process ended in statement ", S->statements, " (status ", st, ")"));
  mc::maybe_sample([&]() { return name; });
}

}  // namespace

int main(int argc, char **argv) {
  return mc::run(argc, argv, [&]() {
    std::cout.setstate(std::ios::failbit);  // (the login prompt)
    S = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    cpr::stub::handler = answer;
    const Objects &o = objects();
    const int NO = static_cast<int>(o.all.size());
    mc::bounds["objects"] = mc::str(NO, " of all 7 types");
    // One statement: everything.
    for (int way = 0; way < NWAYS; ++way)
      for (int obj = 0; obj < NO; ++obj)
        for (int n = 0; n < static_cast<int>(names().size()); ++n)
          for (int f = 0; f < NFAULTS; ++f) {
            if ((way == STREAM || way == CHAIN || way == TEMPORARY) && n) continue;
            history({{way, obj, n, f}});
            if (f == OKAY) history({{way, obj, n, f}}, false);
          }
    for (int way = FAR; way < FAR + FAR_SITES; ++way)
      for (int obj = 0; obj < NO; ++obj)
        for (int f = 0; f < NFAULTS; ++f) history({{way, obj, 0, f}, {STREAM, obj, 0, OKAY}, {way, obj, 3, OKAY}});
    // Two statements: three ways, one object per type, all pairs of faults of the first and five of the second.
    const std::vector<int> ways = {STREAM, MACRO_STREAM, MACRO_NAME};
    const std::vector<int> second = {OKAY, REFUSED, NO_ANSWER, REAUTH, REAUTH_REFUSED, S_REFUSED, S_REAUTH};
    const std::vector<int> first = mc::thorough ? std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11} : std::vector<int>{OKAY, REFUSED, NO_ANSWER, REAUTH, REAUTH_TWICE, S_REFUSED, S_REAUTH_TWICE};
    for (int w1 : ways)
      for (int w2 : ways)
        for (int o1 : o.one_per_type)
          for (int o2 : o.one_per_type)
            for (int f1 : first)
              for (int f2 : second) {
                // In quick, of the pairs of types all for some faults and the diagonal plus one for the others.
                const bool main_fault = (f1 == REFUSED || f1 == OKAY || f1 == S_REFUSED) && (f2 == OKAY || f2 == REFUSED);
                if (!mc::thorough && !main_fault && o1 != o2 && o1 != o.one_per_type[2]) continue;
                history({{w1, o1, 0, f1}, {w2, o2, 3, f2}});
              }
    // Three (thorough: four) statements: two ways, two objects, every pattern of faults.
    const int depth = mc::thorough ? 4 : 3;
    const std::vector<int> faults = {OKAY, REFUSED, NO_ANSWER, REAUTH, REAUTH_REFUSED, S_REFUSED};
    const std::vector<int> objs = {o.one_per_type[1], o.one_per_type[5]};
    std::vector<Statement> h;
    std::function<void()> rec = [&]() {
      if (static_cast<int>(h.size()) == depth) {
        history(h);
        return;
      }
      for (int w : {MACRO_STREAM, STREAM})
        for (int obj : objs)
          for (int f : faults) {
            h.push_back({w, obj, 0, f});
            rec();
            h.pop_back();
          }
    };
    rec();
    mc::bounds["sequences"] = mc::str("one statement: 7 ways x all objects x 5 names x 12 server behaviours; 8 places in the source (lines up to 2147483640, file names of all kinds) x all objects x 12 server behaviours; two: 3 ways x 7 types each x fault pairs; ", depth, ": 2 ways x 2 types x 6 faults each; long: 40 and 300 statements with a fault at each position");
    // Long histories: all types and ways in turn, with a fault at each position.
    for (int len : {40, 300})
      for (int at = 0; at < 40; ++at)
        for (int f : {REFUSED, NO_ANSWER, REAUTH_REFUSED, REAUTH}) {
          if (len == 300 && (f != REFUSED || at % 8)) continue;
          std::vector<Statement> l;
          for (int i = 0; i < len; ++i) l.push_back({i % NWAYS, i % NO, i % 3, i % 40 == at ? f : OKAY});
          history(l);
        }
  });
}
