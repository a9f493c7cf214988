// C20, concurrent part: threads generate identifiers and frames at the same time, under all schedules, with every memory
// access checked for data races.
#include <dlfcn.h>
#include <uuid/uuid.h>

#include <thread>

#include "explore.hh"
#include "resim/transforms/frame.hh"
#include "resim/utils/uuid.hh"

// The uuid library is not instrumented: these stand in front of it, so that its accesses to its caller's memory are checked
// too and other threads may run between.
namespace {
template <typename F>
F real(const char *name) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
void copy_out(const unsigned char *from, unsigned char *to, size_t n) {
  sched::point("uuid library");
  for (size_t i = 0; i < n; ++i) to[i] = from[i];
}
void copy_in(const unsigned char *from, unsigned char *to, size_t n) {
  for (size_t i = 0; i < n; ++i) to[i] = from[i];
  sched::point("uuid library");
}
void generate(const char *name, unsigned char *out) {
  unsigned char b[16];
  real<void (*)(unsigned char *)>(name)(b);
  copy_out(b, out, 16);
}
void unparse(const char *name, const unsigned char *in, char *out) {
  unsigned char b[16];
  char t[37] = {};
  copy_in(in, b, 16);
  real<void (*)(const unsigned char *, char *)>(name)(b, t);
  copy_out(reinterpret_cast<unsigned char *>(t), reinterpret_cast<unsigned char *>(out), 37);
}
}  // namespace
extern "C" {
void uuid_generate(unsigned char *out) { generate("uuid_generate", out); }
void uuid_generate_random(unsigned char *out) { generate("uuid_generate_random", out); }
void uuid_generate_time(unsigned char *out) { generate("uuid_generate_time", out); }
void uuid_unparse(const unsigned char *in, char *out) { unparse("uuid_unparse", in, out); }
void uuid_unparse_lower(const unsigned char *in, char *out) { unparse("uuid_unparse_lower", in, out); }
void uuid_unparse_upper(const unsigned char *in, char *out) { unparse("uuid_unparse_upper", in, out); }
int uuid_parse(const char *in, unsigned char *out) {
  unsigned char b[16] = {};
  const std::string s(in);
  const int r = real<int (*)(const char *, unsigned char *)>("uuid_parse")(s.c_str(), b);
  if (r == 0) copy_out(b, out, 16);
  return r;
}
}

namespace {
using resim::UUID;
using Frame2 = resim::transforms::Frame<2>;
using Frame3 = resim::transforms::Frame<3>;

void body(const std::vector<std::string> &threads, int before) {
  std::vector<std::vector<UUID>> got(threads.size() + 1);
  for (int i = 0; i < before; ++i) got.back().push_back(UUID::new_uuid());
  std::vector<std::thread> ts;
  for (size_t t = 0; t < threads.size(); ++t)
    ts.emplace_back([&, t]() {
      for (char c : threads[t]) {
        sched::point("generate");
        const UUID u = c == 'u' ? UUID::new_uuid() : c == '3' ? Frame3::new_frame().id() : Frame2::new_frame().id();
        const std::string s = u.to_string();  // formatting and parsing at the same time
        const UUID v(s);
        if (v != u || v.is_null()) sched::fail("round-trip", "an identifier changed in its text form while other threads format theirs");
        got[t].push_back(u);
      }
    });
  for (auto &t : ts) t.join();
  sched::Ignore ig;
  std::set<std::string> all;
  for (auto &g : got)
    for (auto &u : g) {
      if (u.is_null()) sched::fail("generated-null", "a null identifier was generated");
      if (!all.insert(u.to_string()).second) sched::fail("generated-twice", "two threads generated the same identifier");
    }
}
}  // namespace

int main(int argc, char **argv) {
  return mc::run(argc, argv, [&]() {
    (void)UUID::new_uuid().to_string();
    struct Scenario {
      std::vector<std::string> threads;
      int before, quick, thorough;
    };
    std::vector<Scenario> sc;
    const std::vector<std::string> words = {"u", "3", "2", "uu", "u3", "32", "uuu"};
    for (size_t a = 0; a < words.size(); ++a)
      for (size_t b = a; b < words.size(); ++b) {
        const bool small = words[a].size() + words[b].size() == 2;
        for (int before : {0, 1}) sc.push_back({{words[a], words[b]}, before, small ? 99 : 2, small ? 99 : 4});
      }
    sc.push_back({{"u", "u", "3"}, 0, 2, 4});
    sc.push_back({{"uu", "u", "3"}, 1, 2, 3});
    sc.push_back({{"uu", "uu", "3u"}, 0, 1, 3});
    sc.push_back({{"u", "u", "u", "3"}, 0, 1, 3});
    sc.push_back({{"uuuuuuuuu", "uuuuuuuuu"}, 0, 1, 2});
    mc::bounds["concurrent generation"] = "2 to 4 threads; pairs of single generations under all schedules, up to 9 generations each under at most 2 (thorough 4) preemptions";
    uint64_t i = 0;
    for (auto &s : sc) {
      std::string name = "threads";
      for (auto &w : s.threads) name += " " + w;
      name += mc::str(", ", s.before, " before");
      explore::all_schedules(name, i++, mc::thorough ? s.thorough : s.quick, nullptr, [&]() { body(s.threads, s.before); });
    }
  });
}
