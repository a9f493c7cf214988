// C15: concurrent viewing. Real threads run the real view singleton, view client and authentication client against a
// scripted server, under all schedules within a preemption bound, with every memory access checked for data races.
#include <sys/stat.h>

#include <filesystem>
#include <thread>

#include "cpr/cpr.h"
#include "resim/visualization/client/proto/view_client.pb.h"
#include "resim/visualization/proto/view_update_to_proto.hh"
#include "resim/visualization/view.hh"
#include "explore.hh"
#include "serial.hh"
#include <google/protobuf/util/json_util.h>

namespace {
using namespace serial;
using cpr::stub::Request;

// What a thread does: s = view << x, n = VIEW(x) << name, m = VIEW(x, name), f = flush; c, d, t = VIEW(shared object, name).
struct Scenario {
  std::string name;
  std::vector<std::string> threads;
  bool token_stored = true;
  std::vector<long> session_answers, update_answers;  // then 201
  int pending = 0;                                    // polls answered "pending"
  int bound_quick = 2, bound_thorough = 3;
  bool thorough_only = false;
};

std::vector<Scenario> scenarios() {
  std::vector<Scenario> r;
  const auto add = [&](Scenario s) { r.push_back(std::move(s)); };
  // Server scripts: (name, session answers, update answers, token stored, polls pending).
  struct Script {
    std::string name;
    std::vector<long> session, update;
    bool stored = true;
    int pending = 0;
  };
  const std::vector<Script> scripts = {
      {"all well", {}, {}},
      {"first login", {}, {}, false, 1},
      {"session unauthorised", {401}, {}},
      {"first update unauthorised", {}, {401}},
      {"second update unauthorised", {}, {201, 401}},
      {"session refused", {500}, {}},
      {"session refused twice", {500, 404}, {}},
      {"session refused when logged in again", {401, 500}, {}},
      {"first update refused", {}, {500}},
      {"second update refused", {}, {201, 500}},
      {"first update refused when logged in again", {}, {401, 403}},
      {"two updates refused", {}, {500, 201, 0}},
  };
  // Two threads with one or two statements each: all schedules.
  std::vector<std::string> words;
  for (char a : std::string("snmf")) words.push_back(std::string(1, a));
  for (char a : std::string("snmf"))
    for (char b : std::string("snmf")) words.push_back(std::string{a, b});
  for (const Script &x : scripts)
    for (const auto &a : words)
      for (const auto &b : words) {
        if (a > b) continue;
        const bool small = a.size() + b.size() == 2;
        // In quick: all pairs of single statements under all scripts, and representative longer ones.
        const bool quick = small || (a == "mn" && b == "sn") || (a == "ms" && b == "n") || (a == "fm" && b == "s");
        add({.name = mc::str("two threads ", a, " ", b, ", ", x.name), .threads = {a, b}, .token_stored = x.stored, .session_answers = x.session, .update_answers = x.update, .pending = x.pending, .bound_quick = 99, .bound_thorough = a.size() + b.size() == 4 && !quick ? 5 : 99, .thorough_only = !quick});
      }
  for (const Script &x : scripts) {
    const auto more = [&](std::vector<std::string> t, int q, int th, bool only) {
      std::string n;
      for (auto &w : t) n += w + " ";
      add({.name = mc::str(t.size(), " threads ", n, x.name), .threads = t, .token_stored = x.stored, .session_answers = x.session, .update_answers = x.update, .pending = x.pending, .bound_quick = q, .bound_thorough = th, .thorough_only = only});
    };
    more({"s", "n", "m"}, 4, 7, false);
    more({"n", "m", "ff"}, 2, 5, false);
    more({"mmm", "s"}, 4, 99, false);
    more({"s", "n", "m", "s"}, 1, 3, x.name != "all well");
    more({"sn", "nm", "ms"}, 1, 3, x.name != "all well");
    // Two threads view one shared object: c, d and t stand for a distance curve, a time curve and a trajectory.
    more({"c", "c"}, 2, 4, x.name != "all well");
    more({"d", "t"}, 2, 3, x.name != "all well");
    more({"t", "t"}, 2, 3, x.name != "all well");
    more({"d", "d"}, 2, 3, x.name != "all well");
    more({"ct", "m"}, 1, 3, x.name != "all well");
  }
  return r;
}

std::filesystem::path token_file() { return std::filesystem::path(getenv("HOME")) / ".resim" / "view_token"; }

// The server's and the observers' memory. Only touched inside sched::Ignore scopes, one thread at a time.
struct Delivered {
  int thread, index;
  std::string id, name;
  bool has_name;
};
struct World {
  const Scenario *s = nullptr;
  int in_flight = 0;
  int sessions = 0, session_requests = 0, update_requests = 0, device_codes = 0, polls = 0;
  int tokens = 0;
  std::string valid = "stored-token";
  std::set<long> numbers;
  std::string last_refused_url, last_refused_body;
  bool repeat_expected = false;
  std::vector<Delivered> confirmed;
  std::set<std::string> ids;
};
World *W;

// Objects that several threads view.
struct SharedObjects {
  DCurve<SE3> c{SE3(V3(1, 2, 3)), SE3(V3(4, 4, 4)), SE3(V3(9, 4, 4))};
  TCurve<SE3> d{{1., TwoJetL<SE3>::identity()}, {2., TwoJetL<SE3>::identity()}};
  resim::actor::state::Trajectory t{d, resim::time::Timestamp(std::chrono::nanoseconds(123456789012345))};
};
const SharedObjects &shared_objects() {
  static const SharedObjects s;
  return s;
}

std::string label(int thread, int index) { return mc::str("object ", index, " of thread ", thread); }

cpr::Response answer(const Request &q) {
  World &w = *W;
  cpr::Response resp;
  const auto has = [&](const char *s) { return q.url.find(s) != std::string::npos; };
  if (has("/oauth/device/code")) {
    ++w.device_codes;
    resp.status_code = 200;
    resp.text = R"({"device_code":"code","user_code":"u","verification_uri":"v","verification_uri_complete":"vc","expires_in":900,"interval":5})";
    return resp;
  }
  if (has("/oauth/token")) {
    if (w.polls++ < w.s->pending) {
      resp.status_code = 403;
      resp.text = R"({"error":"authorization_pending","error_description":"wait"})";
      return resp;
    }
    resp.status_code = 200;
    w.valid = mc::str("token-", ++w.tokens);
    resp.text = R"({"access_token":")" + w.valid + R"(","token_type":"Bearer","expires_in":1000})";
    return resp;
  }
  // A token the client was told is unauthorised must not be used again.
  if (q.bearer != w.valid) sched::fail("token", mc::str("request with token '", q.bearer, "', the valid one is '", w.valid, "'"));
  const auto next = [&](const std::vector<long> &l, int k) { return k < static_cast<int>(l.size()) ? l[k] : 201L; };
  if (q.url == "https://api.resim.ai/view/sessions") {
    resp.status_code = next(w.s->session_answers, w.session_requests++);
    if (resp.status_code == 401) w.valid = "(none)";
    if (resp.status_code == 201) {
      if (++w.sessions > 1) sched::fail("two-sessions", "a second session was opened");
      resp.text = "\"the-session\"\n";
    }
    return resp;
  }
  const std::string prefix = "https://api.resim.ai/view/sessions/the-session/updates/";
  if (q.url.rfind(prefix, 0) != 0) {
    sched::fail("url", "request to " + q.url);
    resp.status_code = 404;
    return resp;
  }
  const long number = atol(q.url.c_str() + prefix.size());
  if (w.repeat_expected) {
    if (q.url != w.last_refused_url || q.body != w.last_refused_body) sched::fail("repeat", "an unauthorised update was not repeated before the next one: " + q.url);
    w.repeat_expected = false;
  } else if (!w.numbers.insert(number).second) {
    sched::fail("number-reused", mc::str("update number ", number, " was used twice"));
  }
  resp.status_code = next(w.s->update_answers, w.update_requests++);
  if (resp.status_code == 401) {
    w.valid = "(none)";
    w.repeat_expected = true;
    w.last_refused_url = q.url;
    w.last_refused_body = q.body;
  }
  if (resp.status_code == 201) {
    resp.text = R"({"view":"https://app.resim.ai/view"})";
    resim::visualization::proto::ViewUpdate m;
    if (!m.ParseFromString(q.body)) {
      sched::fail("body", "the body of an update cannot be parsed");
      return resp;
    }
    try {
      const ViewUpdate u = resim::visualization::proto::unpack(m);
      for (const ViewPrimitive &p : u.primitives) {
        Delivered d{0, 0, p.id.to_string(), p.user_defined_name.value_or(""), p.user_defined_name.has_value()};
        if (const SE3 *x = std::get_if<SE3>(&p.payload)) {
          d.thread = static_cast<int>(std::lround(x->translation()[0]));
          d.index = static_cast<int>(std::lround(x->translation()[1]));
        } else {
          if (sscanf(d.name.c_str(), "object %d of thread %d", &d.index, &d.thread) != 2) sched::fail("name", "a shared object arrived with name '" + d.name + "'");
          ViewPrimitive original{.id = p.id, .payload = shared_objects().c};
          if (std::holds_alternative<TCurve<SE3>>(p.payload)) original.payload = decltype(original.payload)(shared_objects().d);
          if (std::holds_alternative<resim::actor::state::Trajectory>(p.payload)) original.payload = decltype(original.payload)(shared_objects().t);
          original.user_defined_name = p.user_defined_name;
          original.file_name = p.file_name;
          original.line_number = p.line_number;
          const std::string df = diff(original, p);
          if (!df.empty()) sched::fail("garbled", "a shared object arrived changed: " + df);
        }
        if (!w.ids.insert(d.id).second) sched::fail("id-reused", d.id);
        w.confirmed.push_back(d);
        sched::mix_state(static_cast<uint64_t>(d.thread * 100 + d.index));
        sched::note("+" + label(d.thread, d.index));
      }
    } catch (const std::exception &e) {
      sched::fail("garbled", mc::str("the body of an update does not unpack: ", e.what()));
    }
  }
  return resp;
}

int confirmations(int t, int k) {
  int n = 0;
  for (const auto &d : W->confirmed) n += d.thread == t && d.index == k;
  return n;
}

void run_thread(int t, const std::string &ops) {
  for (int k = 0; k < static_cast<int>(ops.size()); ++k) {
    std::optional<SE3> x;
    std::string name;
    {
      sched::Ignore i;
      x.emplace(V3(t, k, 7));
      name = label(t, k);
    }
    bool threw = false;
    try {
      switch (ops[k]) {
        case 's': resim::view << *x; break;
        case 'n': VIEW(*x) << name; break;
        case 'm': VIEW(*x, name); break;
        case 'c': VIEW(shared_objects().c, name); break;
        case 'd': VIEW(shared_objects().d) << name; break;
        case 't': VIEW(shared_objects().t, name); break;
        default: resim::view.flush();
      }
    } catch (const std::exception &) {
      threw = true;
    }
    sched::Ignore i;
    const bool can_fail = !W->s->update_answers.empty() || !W->s->session_answers.empty();
    bool refused = false;
    for (long a : W->s->update_answers) refused |= a != 201 && a != 401;
    for (long a : W->s->session_answers) refused |= a != 201 && a != 401;
    (void)can_fail;
    if (threw && !refused) sched::fail("spurious-error", label(t, k) + ": the view call failed although the server accepted everything");
    if (ops[k] == 'f') continue;
    const int n = confirmations(t, k);
    if (!threw && n == 0) sched::fail("not-delivered", label(t, k) + " was not delivered when its view call returned");
    if (threw && n != 0) sched::fail("false-error", label(t, k) + " was delivered but its view call reported an error");
    if (n > 1) sched::fail("duplicate", label(t, k) + mc::str(" was delivered ", n, " times"));
    sched::mix_state(mc::mix(static_cast<uint64_t>(t * 10 + k), threw));
  }
}

void body(const Scenario &s) {
  World *w;
  {
    sched::Ignore i;
    w = new World;
    W = w;
    w->s = &s;
    if (!s.token_stored) w->valid = "(none)";
    cpr::stub::handler = [](const Request &q) {
      sched::Ignore ig;
      if (++W->in_flight > 1) sched::fail("two-requests", "two requests are under way at the same time: " + q.url);
      sched::note("post");
      sched::point("request");
      cpr::Response r = answer(q);
      --W->in_flight;
      return r;
    };
  }
  std::vector<std::thread> threads;
  threads.reserve(s.threads.size());
  for (size_t t = 0; t < s.threads.size(); ++t)
    threads.emplace_back([t, &s]() { run_thread(static_cast<int>(t) + 1, s.threads[t]); });
  for (auto &t : threads) t.join();
  sched::Ignore i;
  // Everything has arrived exactly once, in each thread's order, with its own name.
  bool refused = false;
  for (long a : s.update_answers) refused |= a != 201 && a != 401;
  for (long a : s.session_answers) refused |= a != 201 && a != 401;
  for (size_t t = 0; t < s.threads.size(); ++t) {
    int last = -1;
    for (const auto &d : w->confirmed) {
      if (d.thread != static_cast<int>(t) + 1) continue;
      if (d.index < 0 || d.index >= static_cast<int>(s.threads[t].size())) {
        sched::fail("invented", mc::str("an unknown object arrived: ", d.thread, ",", d.index));
        continue;
      }
      if (d.index <= last) sched::fail("order", label(d.thread, d.index) + " arrived after a later one of its thread, or twice");
      last = d.index;
      const char op = s.threads[t][d.index];
      if (op == 's' ? d.has_name : d.name != label(d.thread, d.index)) sched::fail("name", label(d.thread, d.index) + " arrived with name '" + d.name + "'");
      if (op == 'f') sched::fail("invented", "flush sent an object");
    }
    if (!refused)
      for (int k = 0; k < static_cast<int>(s.threads[t].size()); ++k)
        if (s.threads[t][k] != 'f' && confirmations(static_cast<int>(t) + 1, k) != 1) sched::fail("count", label(static_cast<int>(t) + 1, k) + mc::str(" arrived ", confirmations(static_cast<int>(t) + 1, k), " times"));
  }
  for (const auto &d : w->confirmed)
    if (d.thread < 1 || d.thread > static_cast<int>(s.threads.size())) sched::fail("invented", "an object of no thread arrived");
  long k = 0;
  for (long n : w->numbers)
    if (n != k++) sched::fail("numbers", "the update numbers are not consecutive");
  if (w->repeat_expected) sched::fail("repeat", "an unauthorised update was never repeated");
  const int logins = (s.token_stored ? 0 : 1) + static_cast<int>(std::count(s.update_answers.begin(), s.update_answers.end(), 401) + std::count(s.session_answers.begin(), s.session_answers.end(), 401));
  if (w->device_codes > logins) sched::fail("logins", mc::str(w->device_codes, " logins, ", logins, " needed"));
  if (w->sessions > 1) sched::fail("two-sessions", mc::str(w->sessions, " sessions"));
}

void reset_files(const Scenario &s) {
  namespace fs = std::filesystem;
  const auto f = token_file();
  fs::create_directories(f.parent_path());
  fs::remove(f);
  if (s.token_stored) std::ofstream(f) << "stored-token";
}

void explore_scenario(const Scenario &s, uint64_t scenario_index) {
  const int bound = mc::thorough ? s.bound_thorough : s.bound_quick;
  explore::all_schedules(s.name, scenario_index, bound, [&]() { reset_files(s); }, [&]() { body(s); },
                         mc::str("schedules, ", s.threads.size(), " threads, ", bound >= 99 ? std::string("all") : mc::str("at most ", bound, " preemptions")));
}

}  // namespace

int main(int argc, char **argv) {
  return mc::run(argc, argv, [&]() {
    std::cout.setstate(std::ios::failbit);  // (the login prompt)
    shared_objects();
    // First-use initialisations of protobuf happen before the threads start.
    {
      ViewUpdate u;
      u.primitives.push_back(ViewPrimitive{.id = UUID::new_uuid(), .payload = SE3(V3(1, 2, 3)), .user_defined_name = "x", .file_name = "f", .line_number = 1});
      resim::visualization::proto::ViewUpdate m;
      resim::visualization::proto::pack(u, &m);
      std::string s = m.SerializeAsString();
      m.ParseFromString(s);
      resim::visualization::proto::unpack(m);
      resim::visualization::client::proto::ViewSessionUpdateResponse r;
      (void)google::protobuf::util::JsonStringToMessage(R"({"view":"x"})", &r);
    }
    mc::bounds["threads"] = "2 to 4";
    mc::bounds["scheduling points"] = "every mutex, rwlock, condition, once, static-guard, atomic, thread and HTTP operation of the code under test";
    uint64_t i = 0;
    for (const Scenario &s : scenarios()) {
      if (s.thorough_only && !mc::thorough) continue;
      explore_scenario(s, i++);
    }
  });
}
