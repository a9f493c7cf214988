// C20: identifiers. Text form, equality, hash and nullness over complete neighbourhoods of the identifier space and of the
// text space; generation over all short histories of threads, forks and fresh processes, with a clock that shows the same
// times to all processes.
#include <fcntl.h>
#include <sys/wait.h>

#include <thread>
#include <unordered_map>
#include <unordered_set>

#include "mc.hh"
#include "resim/transforms/frame.hh"
#include "resim/utils/uuid.hh"
#include "vclock.hh"

namespace {
using resim::UUID;
using Frame2 = resim::transforms::Frame<2>;
using Frame3 = resim::transforms::Frame<3>;
using Bytes = std::array<unsigned char, 16>;

std::string reference_text(const Bytes &b, bool upper = false) {
  std::string r;
  for (int i = 0; i < 16; ++i) {
    if (i == 4 || i == 6 || i == 8 || i == 10) r += '-';
    const char *d = upper ? "0123456789ABCDEF" : "0123456789abcdef";
    r += d[b[i] >> 4];
    r += d[b[i] & 15];
  }
  return r;
}
int hex(unsigned char c) {
  if (c >= '0' && c <= '9') return c - '0';
  if (c >= 'a' && c <= 'f') return c - 'a' + 10;
  if (c >= 'A' && c <= 'F') return c - 'A' + 10;
  return -1;
}
std::optional<Bytes> reference_parse(const std::string &s) {
  if (s.size() != 36) return std::nullopt;
  Bytes b{};
  int n = 0;
  for (int i = 0; i < 36; ++i) {
    const bool dash = i == 8 || i == 13 || i == 18 || i == 23;
    if (dash) {
      if (s[i] != '-') return std::nullopt;
      continue;
    }
    const int h = hex(s[i]);
    if (h < 0) return std::nullopt;
    b[n / 2] = static_cast<unsigned char>(b[n / 2] * 16 + h);
    ++n;
  }
  return b;
}
std::string show(const std::string &s) {
  std::string r;
  for (unsigned char c : s) {
    if (c >= 0x20 && c < 0x7f) r += static_cast<char>(c);
    else {
      char x[8];
      snprintf(x, sizeof x, "<%02x>", c);
      r += x;
    }
  }
  return r;
}
std::string lower(std::string s) {
  for (char &c : s) c = static_cast<char>(c >= 'A' && c <= 'F' ? c - 'A' + 'a' : c);
  return s;
}

std::string current;

void parse_case(const std::string &s) {
  current = "text '" + show(s) + "'";
  ++mc::traces;
  ++mc::transitions;
  const auto want = reference_parse(s);
  std::optional<Bytes> got;
  try {
    got = UUID(s).id();
  } catch (const std::exception &) {
  }
  mc::state(mc::mix(mc::hash_str(s), 1));
  if (want.has_value() != got.has_value()) mc::violation(want ? "parse-rejected" : "parse-accepted", current, want ? "a well-formed identifier was rejected" : "accepted as " + reference_text(*got));
  else if (want && *want != *got) mc::violation("parse-value", current, "parsed as " + reference_text(*got));
  mc::maybe_sample([&]() { return current + (got ? " accepted" : " rejected"); });
}

void id_case(const Bytes &b) {
  current = "identifier " + reference_text(b);
  ++mc::traces;
  mc::transitions += 12;
  const UUID u(b);
  mc::state(mc::hash_str(reference_text(b)));
  if (u.id() != b) mc::violation("id", current, "id() gives " + reference_text(u.id()));
  const std::string t = u.to_string();
  if (lower(t) != reference_text(b)) mc::violation("text", current, "text form '" + show(t) + "'");
  for (const std::string &s : {t, reference_text(b), reference_text(b, true)}) {
    const auto check = [&](const UUID &v) {
      if (v.id() != b || v != u || !(v == u) || u != v || !(u == v)) mc::violation("round-trip", current, "not equal to itself after the text form '" + s + "'");
      if (std::hash<UUID>()(v) != std::hash<UUID>()(u)) mc::violation("hash", current, "equal identifiers with different hashes");
    };
    UUID v(s);
    check(v);
    UUID c(v), a;
    a = c;
    check(c);
    check(a);
    UUID m(std::move(c));
    check(m);
  }
  bool zero = true;
  for (unsigned char x : b) zero &= x == 0;
  if (u.is_null() != zero) mc::violation("null", current, "is_null() says otherwise");
  if ((u == UUID()) != zero || (u != UUID()) == zero) mc::violation("null", current, "comparison with the default identifier");
  const auto frame = [&](auto f) {
    using F = decltype(f);
    const F g(u), n = F::null_frame(), d;
    if (g.id() != u || g.id().id() != b) mc::violation("frame-id", current, "the frame has another identifier");
    if (g.is_null() != zero || !n.is_null() || !d.is_null() || n != d || !(n == d)) mc::violation("frame-null", current, "null frames");
    if ((g == n) != zero || (g != n) == zero || !(g == F(u)) || g != F(u)) mc::violation("frame-equality", current, "comparison of frames");
    F a = g, c;
    c = a;
    if (c != g || a != g) mc::violation("frame-copy", current, "a copied frame differs");
  };
  frame(Frame2());
  frame(Frame3());
  mc::maybe_sample([&]() { return current; });
}

std::vector<Bytes> bases() {
  std::vector<Bytes> r;
  Bytes z{}, f{}, m{}, k{};
  f.fill(0xff);
  for (int i = 0; i < 16; ++i) {
    m[i] = static_cast<unsigned char>(0x1b + 0x37 * i);
    k[i] = static_cast<unsigned char>(0xa0 + i);
  }
  r = {z, f, m, k};
  return r;
}

void values() {
  std::vector<Bytes> all;
  std::set<Bytes> seen;
  const auto add = [&](const Bytes &b) {
    if (seen.insert(b).second) all.push_back(b);
  };
  for (const Bytes &base : bases())
    for (int p = 0; p < 16; ++p)
      for (int v = 0; v < 256; ++v) {
        Bytes b = base;
        b[p] = static_cast<unsigned char>(v);
        add(b);
      }
  const int pair_values[] = {0x00, 0x01, 0x0a, 0x30, 0x7f, 0x80, 0xf0, 0xff};
  const auto bs = bases();
  for (size_t k = 0; k < (mc::thorough ? bs.size() : 2); ++k)
    for (int p = 0; p < 16; ++p)
      for (int q = p + 1; q < 16; ++q)
        for (int v : pair_values)
          for (int w : pair_values) {
            Bytes b = bs[k];
            b[p] = static_cast<unsigned char>(v);
            b[q] = static_cast<unsigned char>(w);
            add(b);
          }
  mc::bounds["identifiers"] = mc::str(all.size(), ": each byte position with all 256 values, each pair of positions with 64 value pairs, over 2 to 4 bases");
  for (size_t i = 0; i < all.size(); ++i)
    if (mc::my_shard(i)) id_case(all[i]);
  // Equality and inequality of all pairs.
  std::vector<UUID> ids(all.begin(), all.end());
  const size_t limit = mc::thorough ? ids.size() : std::min<size_t>(ids.size(), 20000);
  uint64_t pairs = 0;
  for (size_t i = 0; i < limit; ++i) {
    if (!mc::my_shard(i)) continue;
    mc::beat();
    for (size_t j = 0; j < limit; ++j) {
      const bool same = i == j;
      ++pairs;
      if ((ids[i] == ids[j]) != same || (ids[i] != ids[j]) == same) mc::violation("equality", mc::str(reference_text(all[i]), " and ", reference_text(all[j])), "compared wrongly");
    }
  }
  mc::transitions += pairs * 2;
  mc::counters["pairs_compared"] += pairs;
  // As keys of hashed containers.
  if (mc::shard == 0) {
    std::unordered_map<UUID, size_t> map;
    for (size_t i = 0; i < ids.size(); ++i) map[ids[i]] = i;
    for (size_t i = 0; i < ids.size(); ++i) {
      const auto it = map.find(UUID(reference_text(all[i], true)));
      if (it == map.end() || it->second != i) mc::violation("map", reference_text(all[i]), "not found again in a hash map");
    }
    if (map.size() != ids.size()) mc::violation("map", "all identifiers", "distinct identifiers merged in a hash map");
    mc::transitions += 2 * ids.size();
  }
}

void texts() {
  uint64_t k = 0;
  const auto mine = [&]() { return mc::my_shard(k++); };
  std::vector<std::string> base;
  for (const Bytes &b : bases()) base.push_back(reference_text(b));
  base.push_back(reference_text(bases()[3], true));
  base.push_back("0aF1B2c3-D4e5-f607-8899-AaBbCcDdEeFf");
  mc::bounds["texts"] = "all single-character substitutions, insertions, deletions, truncations, transpositions of 6 texts; all pairs of substitutions over 12 characters";
  for (const std::string &t : base) {
    for (size_t p = 0; p < t.size(); ++p)
      for (int c = 0; c < 256; ++c) {
        std::string s = t;
        s[p] = static_cast<char>(c);
        if (mine()) parse_case(s);
      }
    for (size_t p = 0; p <= t.size(); ++p)
      for (int c = 0; c < 256; ++c) {
        std::string s = t;
        s.insert(p, 1, static_cast<char>(c));
        if (mine()) parse_case(s);
        // The same length, everything behind shifted.
        s.pop_back();
        if (mine()) parse_case(s);
        s = t;
        if (p < t.size()) {
          s.erase(p, 1);
          s += static_cast<char>(c);
          if (mine()) parse_case(s);
        }
      }
    for (size_t p = 0; p < t.size(); ++p) {
      if (mine()) parse_case(t.substr(0, p));
      if (mine()) parse_case(t.substr(p));
      std::string s = t;
      s.erase(p, 1);
      if (mine()) parse_case(s);
      for (size_t q = p + 1; q < t.size(); ++q) {
        s = t;
        std::swap(s[p], s[q]);
        if (mine()) parse_case(s);
      }
    }
    for (const std::string &pre : {"", " ", "{", "urn:uuid:", "0x", "\t", "-"})
      for (const std::string &post : std::vector<std::string>{"", " ", "}", "\n", "\r\n", "-", "00", t, std::string(1, '\0'), std::string(220, '0')})
        if (mine()) parse_case(pre + t + post);
    const std::string chars = std::string("-0aFgG x\xff", 9) + std::string(1, '\0') + ".+";
    for (size_t p = 0; p < t.size(); ++p)
      for (size_t q = p + 1; q < t.size(); ++q)
        for (char c : chars)
          for (char d : chars) {
            if (!mc::thorough && &t != &base[2] && (p + q) % 3 != 0) continue;
            std::string s = t;
            s[p] = c;
            s[q] = d;
            if (mine()) parse_case(s);
          }
  }
  // Other groupings and lengths of hexadecimal digits.
  for (int n = 0; n <= 72; ++n) {
    if (mine()) parse_case(std::string(n, 'a'));
    if (mine()) parse_case(std::string(n, '0'));
    if (mine()) parse_case(std::string(n, '\0'));
    if (mine()) parse_case(std::string(n, '-'));
    if (mine()) parse_case(std::string(n, '\0'));
    for (int d = 0; d < n && n <= 40; ++d) {
      std::string s(n, '1');
      s[d] = '-';
      if (mine()) parse_case(s);
    }
  }
}

// ---- generation ----

// u new identifier; 2, 3 new frame of that dimension; t new identifier in a new thread; T two in one new thread;
// F fork, both processes go on with the rest of the word.
void run_word(const std::string &w, size_t at, int out) {
  for (; at < w.size(); ++at) {
    std::vector<UUID> made;
    switch (w[at]) {
      case 'u': made.push_back(UUID::new_uuid()); break;
      case '2': made.push_back(Frame2::new_frame().id()); break;
      case '3': made.push_back(Frame3::new_frame().id()); break;
      case 't': std::thread([&]() { made.push_back(UUID::new_uuid()); }).join(); break;
      case 'T':
        std::thread([&]() {
          made.push_back(UUID::new_uuid());
          made.push_back(Frame3::new_frame().id());
        }).join();
        break;
      case 'F': {
        const pid_t p = fork();
        if (p == 0) {
          run_word(w, at + 1, out);
          _exit(0);
        }
        run_word(w, at + 1, out);
        int st = 0;
        waitpid(p, &st, 0);
        return;
      }
      default: break;
    }
    for (const UUID &u : made) {
      Bytes b = u.id();
      (void)!write(out, b.data(), 16);
    }
  }
}

std::map<Bytes, std::string> generated;

void collect(const std::string &name, int fd, size_t expected) {
  std::string all;
  char buf[65536];
  ssize_t n;
  while ((n = read(fd, buf, sizeof buf)) > 0) all.append(buf, static_cast<size_t>(n));
  close(fd);
  if (all.size() != expected * 16) mc::violation("generation-died", name, mc::str(all.size() / 16, " identifiers arrived, expected ", expected));
  for (size_t i = 0; i + 16 <= all.size(); i += 16) {
    Bytes b;
    memcpy(b.data(), &all[i], 16);
    bool zero = true;
    for (auto x : b) zero &= x == 0;
    if (zero) mc::violation("generated-null", name, mc::str("number ", i / 16, " is null"));
    const auto r = generated.emplace(b, name);
    if (!r.second) mc::violation("generated-twice", name, mc::str(reference_text(b), " was already generated in ", r.first->second));
    ++mc::transitions;
  }
  ++mc::traces;
  mc::state(mc::mix(mc::hash_str(name), 77));
  mc::maybe_sample([&]() { return name; });
}

size_t count(const std::string &w) {
  size_t n = 0, procs = 1;
  for (char c : w) {
    if (c == 'F') procs *= 2;
    else n += procs * (c == 'T' ? 2 : 1);
  }
  return n;
}

void histories() {
  const std::string alphabet = "u23tTF";
  const int depth = mc::thorough ? 5 : 4;
  mc::bounds["generation histories"] = mc::str("all words of length up to ", depth, " over new identifier, new frames, new threads, fork; in one process, each in a fresh process, all with equal clocks");
  std::vector<std::string> words;
  mc::all_words(static_cast<int>(alphabet.size()), depth, [&](const std::vector<int> &w) {
    std::string s;
    for (int i : w) s += alphabet[i];
    if (std::count(s.begin(), s.end(), 'F') > 3) return false;
    words.push_back(s);
    return true;
  });
  // Long histories: fork after many.
  for (int n : {10, 100, 255, 256, 257, 1024, 4096, 5000}) {
    words.push_back(std::string(n, 'u'));
    words.push_back(std::string(n, 'u') + "FuuFuu");
    words.push_back(std::string(n, '3') + "tFt3");
    if (n <= 257) words.push_back(std::string(n, 't') + "F" + std::string(n, 't'));
  }
  const auto start_clock = vclock::now_ns;
  for (size_t i = 0; i < words.size(); ++i) {
    if (!mc::my_shard(i)) continue;
    mc::beat();
    current = "generation " + words[i].substr(0, 40) + (words[i].size() > 40 ? mc::str("... (", words[i].size(), " steps)") : "");
    // In a child forked from this (ever generating) process, and here.
    for (int where = 0; where < 2; ++where) {
      int p[2];
      if (pipe(p)) abort();
      (void)fcntl(p[1], F_SETPIPE_SZ, 1 << 20);
      vclock::now_ns = start_clock;
      if (where == 0) {
        const pid_t c = fork();
        if (c == 0) {
          close(p[0]);
          run_word(words[i], 0, p[1]);
          _exit(0);
        }
        close(p[1]);
        collect(current, p[0], count(words[i]));
        waitpid(c, nullptr, 0);
      } else {
        if (words[i].size() > 30) {
          close(p[0]);
          close(p[1]);
          continue;
        }
        run_word(words[i], 0, p[1]);
        close(p[1]);
        collect(current + " (same process)", p[0], count(words[i]));
      }
    }
  }
  // Fresh processes, all with the same clock.
  static const char *fresh[] = {"u", "uuu", "3u2", "tt", "uFu"};
  vclock::now_ns = start_clock;
  for (int rep = 0; rep < 3; ++rep)
    for (const char *w : fresh) {
      int p[2];
      if (pipe(p)) abort();
      const pid_t c = fork();
      if (c == 0) {
        close(p[0]);
        const std::string fd = std::to_string(p[1]);
        execl("/proc/self/exe", "c20", "--generate", w, fd.c_str(), nullptr);
        _exit(9);
      }
      close(p[1]);
      collect(mc::str("fresh process ", rep, " ", w), p[0], count(w));
      waitpid(c, nullptr, 0);
    }
  // Threads that generate at the same time.
  for (int threads : {2, 4, 8}) {
    const int each = mc::thorough ? 2000 : 200;
    std::vector<std::vector<UUID>> got(threads);
    std::vector<std::thread> ts;
    for (int t = 0; t < threads; ++t)
      ts.emplace_back([&, t]() {
        for (int i = 0; i < each; ++i) got[t].push_back(i % 2 ? UUID::new_uuid() : Frame3::new_frame().id());
      });
    for (auto &t : ts) t.join();
    for (auto &g : got)
      for (auto &u : g) {
        if (u.is_null()) mc::violation("generated-null", "threads", "null");
        if (!generated.emplace(u.id(), "threads").second) mc::violation("generated-twice", mc::str(threads, " threads"), u.to_string() + " was already generated");
        ++mc::transitions;
      }
  }
  mc::counters["identifiers_generated"] += generated.size();
}

}  // namespace

int main(int argc, char **argv) {
  if (argc == 4 && std::string(argv[1]) == "--generate") {
    run_word(argv[2], 0, atoi(argv[3]));
    return 0;
  }
  return mc::run(argc, argv, [&]() {
    mc::describe = []() { return current; };
    values();
    texts();
    histories();
  });
}
