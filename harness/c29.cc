// C29: viewing in every environment. For all settings of HOME and TEST_TMPDIR and all states of the home directory, real
// processes (this executable, started anew as an unprivileged user, so that the view facility is set up under exactly that
// environment) perform all short sequences of view statements, one process after another; the server is a stand-in.
#include <fcntl.h>
#include <grp.h>
#include <pwd.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <filesystem>
#include <fstream>

#include "cpr/cpr.h"
#include "mc.hh"
#include "resim/transforms/frame.hh"
#include "resim/transforms/se3.hh"
#include "resim/visualization/proto/view_update.pb.h"
#include "resim/visualization/proto/view_update_to_proto.hh"
#include "resim/visualization/view.hh"

// The user database knows nobody's home inside the scratch directory only.
namespace {
struct passwd entry;
struct passwd *stand_in() {
  static char name[] = "user", pass[] = "x", gecos[] = "", shell[] = "/bin/false", nowhere[] = "/nonexistent";
  char *d = getenv("C29_ACCOUNT");
  entry = {name, pass, 65534, 65534, gecos, d ? d : nowhere, shell};
  return &entry;
}
}  // namespace
extern "C" struct passwd *getpwuid(uid_t) { return stand_in(); }
extern "C" struct passwd *getpwnam(const char *) { return stand_in(); }
extern "C" int getpwuid_r(uid_t, struct passwd *p, char *, size_t, struct passwd **r) {
  *p = *stand_in();
  *r = p;
  return 0;
}

namespace {
namespace fs = std::filesystem;

// ---- the child: views one object per letter ('v': accepted, 'u': the token is found to be expired)
struct Record {
  int viewed = 0, delivered = 0, failed = 0, logins = 0, wrong = 0;
  int token = 0;  // the token valid now
  int done = 0;
};
int child(const char *word, int token, int fd) {
  if (geteuid() == 0) return 9;
  static struct : std::streambuf {
    int overflow(int c) override { return c; }
  } nothing;
  std::cout.rdbuf(&nothing);
  Record r;
  r.token = token;
  bool expire = false;
  int issued = token;
  std::string expected_id;
  const auto text = [](int t) { return "token-" + std::to_string(t); };
  cpr::stub::handler = [&](const cpr::stub::Request &q) {
    cpr::Response a;
    const auto ends = [&](const std::string &s) { return q.url.size() >= s.size() && q.url.compare(q.url.size() - s.size(), s.size(), s) == 0; };
    if (ends("/oauth/device/code")) {
      a.status_code = 200;
      a.text = "{\"device_code\":\"c\",\"user_code\":\"u\",\"verification_uri\":\"x\",\"expires_in\":10,\"interval\":1,\"verification_uri_complete\":\"y\"}";
    } else if (ends("/oauth/token")) {
      ++r.logins;
      r.token = ++issued;
      a.status_code = 200;
      a.text = "{\"access_token\":\"" + text(issued) + "\",\"expires_in\":86400,\"token_type\":\"Bearer\"}";
    } else {
      if (expire) {
        expire = false;
        r.token = -1;
      }
      if (q.bearer != text(r.token)) {
        a.status_code = 401;
        if (r.token >= 0 && q.bearer != "token-77") ++r.wrong;
        return a;
      }
      a.status_code = 201;
      if (ends("/view/sessions")) {
        a.text = "\"session\"";
        return a;
      }
      resim::visualization::proto::ViewUpdate m;
      if (m.ParseFromString(q.body) && m.primitive_size() == 1 && m.primitive(0).frame().id().data() == expected_id) ++r.delivered;
      else ++r.wrong;
      a.text = "{\"view\":\"https://x\"}";
    }
    return a;
  };
  for (const char *p = word; *p; ++p) {
    expire = *p == 'u';
    const auto f = resim::transforms::Frame<3>::new_frame();
    expected_id = f.id().to_string();
    ++r.viewed;
    try {
      VIEW(f) << "name";
    } catch (const std::exception &) {
      ++r.failed;
    }
  }
  r.done = 1;
  (void)!write(fd, &r, sizeof r);
  return 0;
}

// ---- the parent
fs::path scratch;
enum Home { H_UNSET, H_EMPTY, H_DIR, H_SLASH, H_MISSING, H_ODD, H_RELATIVE, H_EXISTS, H_OTHERS, H_READONLY, H_FILE, H_BLOCKED, H_DEAD_LINK, H_LINK, H_STALE, H_N };
const char *HOME[] = {"unset", "empty", "a directory", "a directory (with trailing slash)", "a directory yet to be made", "a directory with odd characters", "a relative path", "a directory with .resim in it", "a directory with other files in .resim", "not writable", "a file", "a directory with a file called .resim", "a dangling link", "a link to a directory", "not writable, with an old token"};
enum Tmp { T_UNSET, T_EMPTY, T_DIR, T_N };
const char *TMP[] = {"unset", "empty", "a directory"};

void own(const fs::path &p) { (void)!lchown(p.c_str(), 65534, 65534); }
fs::path dir(const fs::path &p) {
  fs::create_directories(p);
  own(p);
  return p;
}
void put(const fs::path &p, const std::string &s) {
  std::ofstream(p) << s;
  own(p);
}
std::map<std::string, std::string> files() {
  std::map<std::string, std::string> r;
  for (const auto &e : fs::recursive_directory_iterator(scratch))
    if (e.is_regular_file() && !e.is_symlink()) {
      std::ifstream f(e.path());
      std::ostringstream s;
      s << f.rdbuf();
      r[fs::relative(e.path(), scratch).string()] = s.str();
    }
  return r;
}

Record run(const char *word, int token, const std::string &home, bool home_set, const std::string &tmp, bool tmp_set, int &status) {
  int fd[2];
  if (pipe(fd)) abort();
  const pid_t c = fork();
  if (c == 0) {
    close(fd[0]);
    home_set ? setenv("HOME", home.c_str(), 1) : unsetenv("HOME");
    tmp_set ? setenv("TEST_TMPDIR", tmp.c_str(), 1) : unsetenv("TEST_TMPDIR");
    setenv("TMPDIR", (scratch / "tmp").c_str(), 1);
    setenv("C29_ACCOUNT", (scratch / "account").c_str(), 1);
    for (const char *v : {"XDG_CONFIG_HOME", "XDG_CACHE_HOME", "XDG_DATA_HOME", "XDG_STATE_HOME", "XDG_RUNTIME_DIR"}) unsetenv(v);
    if (chdir((scratch / "cwd").c_str())) _exit(8);
    const std::string t = std::to_string(token), f = std::to_string(fd[1]);
    alarm(20);
    // As nobody from the start, since the view facility is set up before main.
    (void)!setgroups(0, nullptr);
    if (geteuid() == 0 && (setresgid(65534, 65534, 65534) || setresuid(65534, 65534, 65534))) _exit(9);
    execl("/proc/self/exe", "c29", "--child", word, t.c_str(), f.c_str(), nullptr);
    _exit(8);
  }
  close(fd[1]);
  Record r;
  if (read(fd[0], &r, sizeof r) != static_cast<ssize_t>(sizeof r)) r = Record();
  close(fd[0]);
  status = 0;
  while (waitpid(c, &status, 0) < 0 && errno == EINTR) {
  }
  return r;
}

void explore() {
  std::string what;
  mc::describe = [&] { return what; };
  const auto bad = [&](const char *key, const std::string &d) { mc::violation(key, what, d); };
  std::vector<std::string> words;
  for (int n = 1; n <= (mc::thorough ? 4 : 2); ++n)
    for (int i = 0; i < 1 << n; ++i) {
      std::string w;
      for (int k = 0; k < n; ++k) w += i >> k & 1 ? 'u' : 'v';
      words.push_back(w);
    }
  uint64_t index = 0;
  for (int h = 0; h < H_N; ++h)
    for (int t = 0; t < T_N; ++t)
      for (const auto &first : words)
        for (const auto &second : words) {
          if (!mc::my_shard(index++)) continue;
          mc::beat();
          if (scratch.string().find("scratch") == std::string::npos) abort();
          fs::remove_all(scratch / "cwd");
          for (const char *d : {"home", "test", "tmp", "account", "elsewhere"}) fs::remove_all(scratch / d);
          for (const char *d : {"cwd", "test", "tmp", "account", "elsewhere"}) dir(scratch / d);
          // The environment, and where the token belongs (relative to the scratch directory); none: not storable.
          const fs::path base = scratch / "home";
          std::string home = base.string(), tmp = (scratch / "test").string();
          std::optional<std::string> where = "home/.resim/view_token";
          bool somewhere = false;  // anywhere will do
          switch (h) {
            case H_UNSET:
              if (t == T_DIR) where = "test/.resim/view_token";
              if (t == T_EMPTY) where = "cwd/.resim/view_token", somewhere = true;
              if (t == T_UNSET) somewhere = true;
              break;
            case H_EMPTY: home = "", somewhere = true; break;
            case H_DIR: dir(base); break;
            case H_SLASH: home = (dir(base) / "").string(); break;
            case H_MISSING:
              dir(base);
              home = (base / "a" / "b").string();
              where = "home/a/b/.resim/view_token";
              break;
            case H_ODD:
              dir(base);
              home = dir(base / "a b\xc3\xa9$x").string();
              where = "home/a b\xc3\xa9$x/.resim/view_token";
              break;
            case H_RELATIVE:
              home = "rel/ative";
              where = "cwd/rel/ative/.resim/view_token";
              break;
            case H_EXISTS: dir(base), dir(base / ".resim"); break;
            case H_OTHERS: dir(base), put(dir(base / ".resim") / "other", "other content"); break;
            case H_READONLY:
              dir(base);
              chmod(base.c_str(), 0555);
              where.reset();
              break;
            case H_STALE:
              dir(base), put(dir(base / ".resim") / "view_token", "token-77");
              chmod((base / ".resim").c_str(), 0555);
              where.reset();
              break;
            case H_FILE: put(base, "a file"), where.reset(); break;
            case H_BLOCKED: dir(base), put(base / ".resim", "a file"), where.reset(); break;
            case H_DEAD_LINK: fs::create_symlink(scratch / "elsewhere" / "gone" / "x", base), where.reset(); break;
            case H_LINK: fs::create_symlink(scratch / "elsewhere", base), where = "elsewhere/.resim/view_token"; break;
          }
          if (t == T_EMPTY) tmp = "";
          if ((h == H_READONLY || h == H_STALE) && geteuid() != 0) continue;
          auto before = files();
          ++mc::traces;
          int token = 0, logins_expected = 1;
          bool stored = false;
          std::string current;
          for (int p = 0; p < 2; ++p) {
            const std::string &w = p ? second : first;
            what = mc::str("HOME ", HOME[h], ", TEST_TMPDIR ", TMP[t], ", process ", p + 1, " of '", first, "' and '", second, "'");
            int status = 0;
            const Record r = run(w.c_str(), token, home, h != H_UNSET, tmp, t != T_UNSET, status);
            ++mc::transitions;
            if (!WIFEXITED(status) || WEXITSTATUS(status) || !r.done) {
              bad("crash", WIFSIGNALED(status) ? mc::str("killed by signal ", WTERMSIG(status)) : mc::str("ended with ", WEXITSTATUS(status)));
              break;
            }
            if (r.failed) bad("failed", mc::str(r.failed, " of ", r.viewed, " view statements failed"));
            else if (r.wrong) bad("wrong", mc::str(r.wrong, " requests with a wrong token or body"));
            else if (r.delivered != r.viewed) bad("delivered", mc::str(r.delivered, " of ", r.viewed, " objects were delivered"));
            const int expirations = static_cast<int>(std::count(w.begin(), w.end(), 'u'));
            const int logins = h == H_STALE && w[0] == 'u' ? expirations : expirations + (stored ? 0 : 1);
            if (somewhere && p ? r.logins > expirations + 1 : r.logins != logins) bad("logins", mc::str(r.logins, " logins, expected ", logins));
            token = r.token;
            auto now = files();
            // What is stored, and where.
            int others = 0;
            for (const auto &[name, content] : now) {
              if (before.count(name) && before[name] == content) continue;
              if (somewhere ? content == "token-" + std::to_string(token) && !others++ : where && name == *where && content == "token-" + std::to_string(token)) continue;
              bad("store", mc::str("file ", name, " with '", content.substr(0, 40), "'"));
            }
            for (const auto &[name, content] : before)
              if (!now.count(name)) bad("store", mc::str("file ", name, " is gone"));
            if (!somewhere && where && !now.count(*where)) bad("store", mc::str("the token is not stored in ", *where));
            stored = !somewhere && where;
            uint64_t s = mc::mix(h * 8 + t, r.logins * 16 + r.delivered);
            for (const auto &[name, content] : now) s = mc::mix(mc::mix(s, mc::hash_str(name)), mc::hash_str(content));
            mc::state(s);
          }
          mc::maybe_sample([&] { return what; });
        }
  mc::bounds["environments"] = mc::str(static_cast<int>(H_N), " homes x ", static_cast<int>(T_N), " test directories x ", words.size() * words.size(), " pairs of programs (all words of up to ", words.back().size(), " view statements, each with a valid or an expired token)");
}
}  // namespace

int main(int argc, char **argv) {
  if (argc == 5 && !strcmp(argv[1], "--child")) return child(argv[2], atoi(argv[3]), atoi(argv[4]));
  return mc::run(argc, argv, [] {
    char name[] = "/tmp/c29-scratch-XXXXXX";
    if (!mkdtemp(name)) abort();
    scratch = name;
    own(scratch);
    (void)!chmod("/proc/self/exe", 0755);  // for the unprivileged user
    explore();
    fs::remove_all(scratch);
  });
}
