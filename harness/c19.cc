// C19: statuses, values-or-statuses and assertions. (1) All call chains up to a depth in which every level succeeds or
// fails and hands on with any of the helpers; (2) all short programs over status objects in lock step with a model;
// (3) all combinations of assertion conditions and messages. Run under AddressSanitizer (with use-after-scope).
#include <fmt/core.h>

#include "mc.hh"
#include "resim/assert/assert.hh"
#include "resim/utils/status.hh"
#include "resim/utils/status_value.hh"

using resim::AssertException;
using resim::OKAY_STATUS;
using resim::Status;
using resim::StatusValue;

namespace {

// ---- values that know their history ------------------------------------------------------------------------------
struct Counts {
  int live = 0, copies = 0, moves = 0, bad = 0;
};
Counts C;
constexpr unsigned ALIVE = 0x600dcafe, DEAD = 0xdeadbeef;
template <bool COPYABLE>
struct Tracked {
  unsigned magic = ALIVE;
  int id = -1;
  std::unique_ptr<int> heap;  // makes a use after destruction visible to the address sanitizer
  explicit Tracked(int i) : id(i), heap(new int(i)) { ++C.live; }
  Tracked(const Tracked &o)
  requires COPYABLE
      : id(o.id), heap(new int(*o.heap)) {
    o.check();
    ++C.live;
    ++C.copies;
  }
  Tracked(Tracked &&o) noexcept : id(o.id), heap(std::move(o.heap)) {
    o.check();
    o.id = -2;
    ++C.live;
    ++C.moves;
  }
  Tracked &operator=(const Tracked &o)
  requires COPYABLE {
    o.check();
    check();
    id = o.id;
    heap.reset(o.heap ? new int(*o.heap) : nullptr);
    ++C.copies;
    return *this;
  }
  Tracked &operator=(Tracked &&o) noexcept {
    o.check();
    check();
    id = o.id;
    heap = std::move(o.heap);
    if (&o != this) o.id = -2;
    ++C.moves;
    return *this;
  }
  ~Tracked() {
    check();
    magic = DEAD;
    --C.live;
  }
  void check() const {
    if (magic != ALIVE) ++C.bad;
  }
  int value() const {
    check();
    return heap && *heap == id ? id : -3;
  }
};
using Value = Tracked<true>;
using MoveOnly = Tracked<false>;

// ---- (1) call chains ---------------------------------------------------------------------------------------------
// How a level obtains the result of the next.
enum How { GOOD, BAD, RETURN_CALL, ASSIGN_CALL, ASSIGN_LVALUE, ASSIGN_CONST_LVALUE, ASSIGN_XVALUE, ASSIGN_IN_RETURN, ASSIGN_ARGUMENT, ASSIGN_AUTO_REF, ASSIGN_DISCARDED, ASSIGN_MEMBER, ASSIGN_TWICE,
           IF_NOT_OK_CALL, IF_NOT_OK_LVALUE, IF_NOT_OK_OF_VALUE, CHECK_CALL, CHECK_LVALUE, CHECK_OF_VALUE, VALUE_CALL, HOWS };
const char *const NAMES[] = {"good", "bad", "return f()", "v=RETURN_OR_ASSIGN(f())", "v=RETURN_OR_ASSIGN(sv)", "v=RETURN_OR_ASSIGN(const sv)", "v=RETURN_OR_ASSIGN(move(sv))", "return RETURN_OR_ASSIGN(f())", "g(RETURN_OR_ASSIGN(f()))",
                             "auto&&v=RETURN_OR_ASSIGN(f())", "RETURN_OR_ASSIGN(f());", "RETURN_OR_ASSIGN(f()).value()", "two RETURN_OR_ASSIGN in one expression", "RETURN_IF_NOT_OK(s())", "RETURN_IF_NOT_OK(lvalue)", "RETURN_IF_NOT_OK(f().status())",
                             "CHECK_STATUS_OK(s())", "CHECK_STATUS_OK(lvalue)", "CHECK_STATUS_OK(f().status())", "f().value()"};

struct Ctx {
  std::vector<int> how;
  int calls[16] = {}, after[16] = {};
  int leaf_line = 0;
  int expected_copies = 0;
  std::string problem;
  Value referred{77};
};
Ctx *X;

void after(int k) { ++X->after[k]; }
template <typename T>
struct Make;
template <>
struct Make<Value> {
  static Value make(int k) { return Value(100 + k); }
};
template <>
struct Make<MoveOnly> {
  static MoveOnly make(int k) { return MoveOnly(100 + k); }
};
template <>
struct Make<Value &> {
  static Value &make(int) { return X->referred; }
};
template <>
struct Make<const Value &> {
  static const Value &make(int) { return X->referred; }
};

// Fails unless `v` is the value made by the level that made it.
int origin(int k) {
  // The level whose value arrives at level k.
  for (int i = k; i < static_cast<int>(X->how.size()); ++i) switch (X->how[i]) {
      case GOOD:
      case ASSIGN_DISCARDED:
      case ASSIGN_MEMBER:
      case ASSIGN_ARGUMENT:
      case ASSIGN_TWICE:
      case IF_NOT_OK_CALL:
      case IF_NOT_OK_LVALUE:
      case IF_NOT_OK_OF_VALUE:
      case CHECK_CALL:
      case CHECK_LVALUE:
      case CHECK_OF_VALUE: return i;
    }
  return -1;
}
template <typename T>
void expect(const std::remove_reference_t<T> &v, int k) {
  const int want = std::is_reference_v<T> ? 77 : 100 + origin(k);
  if (v.value() != want) X->problem += mc::str("level ", k, " received value ", v.value(), ", expected ", want, "; ");
  if (std::is_reference_v<T> && static_cast<const void *>(&v) != static_cast<const void *>(&X->referred)) X->problem += mc::str("level ", k, " received a reference to another object; ");
}
template <typename T>
void consume(T &&v, int k) {
  if constexpr (std::is_reference_v<T>)
    expect<T>(v, k);
  else
    expect<std::remove_reference_t<T>>(v, k);
}

template <typename T>
Status status_level(int k);

template <typename T>
StatusValue<T> level(int k) {
  using Bare = std::remove_reference_t<T>;
  constexpr bool copyable = std::is_copy_constructible_v<T>;
  ++X->calls[k];
  switch (X->how[k]) {
    case GOOD: return Make<T>::make(k);
    case BAD: X->leaf_line = __LINE__; return MAKE_STATUS("leaf {} failed %s");
    case RETURN_CALL: return level<T>(k + 1);
    case ASSIGN_CALL: {
      T v = RETURN_OR_ASSIGN(level<T>(k + 1));
      after(k);
      expect<T>(v, k + 1);
      return std::forward<T>(v);
    }
    case ASSIGN_LVALUE:
      if constexpr (copyable) {
        StatusValue<T> sv = level<T>(k + 1);
        decltype(auto) v = RETURN_OR_ASSIGN(sv);
        after(k);
        if constexpr (!std::is_reference_v<decltype(v)>) X->problem += "the value of an lvalue is no reference; ";
        expect<T>(v, k + 1);
        if (static_cast<const void *>(&v) != static_cast<const void *>(&sv.value())) X->problem += "the value of an lvalue is a copy; ";
        return sv;
      } else {
        break;
      }
    case ASSIGN_CONST_LVALUE:
      if constexpr (copyable) {
        const StatusValue<T> sv = level<T>(k + 1);
        const Bare &v = RETURN_OR_ASSIGN(sv);
        after(k);
        expect<T>(v, k + 1);
        if constexpr (!std::is_reference_v<T>) ++X->expected_copies;
        return StatusValue<T>(sv);
      } else {
        break;
      }
    case ASSIGN_XVALUE: {
      StatusValue<T> sv = level<T>(k + 1);
      T v = RETURN_OR_ASSIGN(std::move(sv));
      after(k);
      expect<T>(v, k + 1);
      return std::forward<T>(v);
    }
    case ASSIGN_IN_RETURN: return RETURN_OR_ASSIGN(level<T>(k + 1));
    case ASSIGN_ARGUMENT: {
      consume<T>(RETURN_OR_ASSIGN(level<T>(k + 1)), k + 1);
      after(k);
      return Make<T>::make(k);
    }
    case ASSIGN_AUTO_REF: {
      auto &&v = RETURN_OR_ASSIGN(level<T>(k + 1));
      after(k);
      expect<T>(v, k + 1);
      if constexpr (std::is_reference_v<T>)
        return v;
      else
        return std::move(v);
    }
    case ASSIGN_DISCARDED: {
      RETURN_OR_ASSIGN(level<T>(k + 1));
      after(k);
      return Make<T>::make(k);
    }
    case ASSIGN_MEMBER: {
      const int x = RETURN_OR_ASSIGN(level<T>(k + 1)).value();
      after(k);
      const int want = std::is_reference_v<T> ? 77 : 100 + origin(k + 1);
      if (x != want) X->problem += mc::str("member call gave ", x, ", expected ", want, "; ");
      return Make<T>::make(k);
    }
    case ASSIGN_TWICE: {
      const int x = RETURN_OR_ASSIGN(level<T>(k + 1)).value() + RETURN_OR_ASSIGN(StatusValue<int>(5));
      after(k);
      const int want = (std::is_reference_v<T> ? 77 : 100 + origin(k + 1)) + 5;
      if (x != want) X->problem += mc::str("sum gave ", x, ", expected ", want, "; ");
      return Make<T>::make(k);
    }
    case IF_NOT_OK_CALL: {
      RETURN_IF_NOT_OK(status_level<T>(k + 1));
      after(k);
      return Make<T>::make(k);
    }
    case IF_NOT_OK_LVALUE: {
      const Status s = status_level<T>(k + 1);
      if (k % 2 == 0)
        RETURN_IF_NOT_OK(s);
      else
        after(k), --X->after[k];
      RETURN_IF_NOT_OK(s);
      after(k);
      return Make<T>::make(k);
    }
    case IF_NOT_OK_OF_VALUE: {
      RETURN_IF_NOT_OK(level<T>(k + 1).status());
      after(k);
      return Make<T>::make(k);
    }
    case CHECK_CALL: {
      CHECK_STATUS_OK(status_level<T>(k + 1));
      after(k);
      return Make<T>::make(k);
    }
    case CHECK_LVALUE: {
      const Status status = status_level<T>(k + 1);
      CHECK_STATUS_OK(status);
      after(k);
      return Make<T>::make(k);
    }
    case CHECK_OF_VALUE: {
      CHECK_STATUS_OK(level<T>(k + 1).status());
      after(k);
      return Make<T>::make(k);
    }
    case VALUE_CALL: {
      T v = level<T>(k + 1).value();
      after(k);
      expect<T>(v, k + 1);
      return std::forward<T>(v);
    }
  }
  throw std::logic_error("unreachable");
}

// The same level, used through its status only.
template <typename T>
Status status_level(int k) {
  const int h = X->how[k];
  if (h == GOOD) {
    ++X->calls[k];
    return OKAY_STATUS;
  }
  if (h == BAD) {
    ++X->calls[k];
    X->leaf_line = __LINE__; return MAKE_STATUS("leaf {} failed %s");
  }
  if (h == IF_NOT_OK_CALL) {
    ++X->calls[k];
    RETURN_IF_NOT_OK(status_level<T>(k + 1));
    after(k);
    return OKAY_STATUS;
  }
  if (h == ASSIGN_CALL) {
    ++X->calls[k];
    T v = RETURN_OR_ASSIGN(level<T>(k + 1));
    after(k);
    expect<T>(v, k + 1);
    return OKAY_STATUS;
  }
  if (h == CHECK_CALL) {
    ++X->calls[k];
    CHECK_STATUS_OK(status_level<T>(k + 1));
    after(k);
    return OKAY_STATUS;
  }
  return level<T>(k).status();
}

std::string show(const std::vector<int> &w) {
  std::string s;
  for (int h : w) s += std::string(s.empty() ? "" : " / ") + NAMES[h];
  return s;
}

template <typename T>
void chain(const std::vector<int> &w, const char *type) {
  constexpr bool copyable = std::is_copy_constructible_v<T>;
  for (int h : w)
    if (!copyable && (h == ASSIGN_LVALUE || h == ASSIGN_CONST_LVALUE)) return;
  for (int top = 0; top < 2; ++top) {  // called for its value, or for its status
    mc::beat();
    ++mc::traces;
    C = Counts{};
    const std::string name = std::string(type) + (top ? " status of " : " ") + show(w);
    mc::describe = [&]() { return name; };
    {
      Ctx ctx;
      ctx.how = w;
      X = &ctx;
      bool threw = false, ok = false;
      std::string what, thrown;
      {
        std::optional<StatusValue<T>> result;
        try {
          if (top) {
            const Status s = status_level<T>(0);
            ok = s.ok();
            what = s.what();
          } else {
            result.emplace(level<T>(0));
            ok = result->ok();
            what = result->status().what();
            if (ok) expect<T>(result->value(), 0);
          }
        } catch (const AssertException &e) {
          threw = true;
          thrown = e.what();
        } catch (const std::exception &e) {
          mc::violation("other-exception", name, e.what());
          return;
        }
      }
      mc::transitions += w.size();
      // What should have happened.
      const bool fails = w.back() == BAD;
      int thrower = -1;  // the innermost level that turns the failure into an exception
      bool reads_value = false;
      if (fails)
        for (int i = static_cast<int>(w.size()) - 2; i >= 0; --i)
          if (w[i] == CHECK_CALL || w[i] == CHECK_LVALUE || w[i] == CHECK_OF_VALUE || w[i] == VALUE_CALL) {
            thrower = i;
            reads_value = w[i] == VALUE_CALL;
            break;
          }
      const std::string leaf = fmt::format("<{}:{}> leaf {{}} failed %s", __FILE__, ctx.leaf_line);
      if (!ctx.problem.empty()) mc::violation("value", name, ctx.problem);
      if (threw != (thrower >= 0)) mc::violation("throws", name, mc::str(threw ? "failed: " + thrown : "did not fail", ", expected ", thrower >= 0 ? "a failure" : "none"));
      if (threw && thrower >= 0 && !reads_value && thrown.find(leaf) == std::string::npos) mc::violation("message", name, "the failure '" + thrown + "' does not name the status '" + leaf + "'");
      if (!threw) {
        if (ok == fails) mc::violation("ok", name, mc::str("reported ok=", ok));
        if (fails && what != leaf) mc::violation("status", name, "status '" + what + "', expected '" + leaf + "'");
        if (!fails && what != OKAY_STATUS.what()) mc::violation("status", name, "status '" + what + "'");
      }
      for (int i = 0; i < static_cast<int>(w.size()); ++i) {
        if (ctx.calls[i] != 1) mc::violation("evaluated", name, mc::str("level ", i, " was evaluated ", ctx.calls[i], " times"));
        const bool helper = w[i] > RETURN_CALL && w[i] != ASSIGN_IN_RETURN;
        if (helper && ctx.after[i] != (fails ? 0 : 1)) mc::violation("control", name, mc::str("level ", i, " continued ", ctx.after[i], " times"));
      }
      if (!fails && C.copies != ctx.expected_copies) mc::violation("copies", name, mc::str(C.copies, " copies, expected ", ctx.expected_copies));
      uint64_t h = mc::hash_str(type);
      for (int i : w) h = mc::mix(h, i);
      mc::state(mc::mix(h, top * 4 + ok * 2 + threw));
      mc::maybe_sample([&]() { return name + " -> " + (threw ? thrown : what); });
    }
    if (C.live != 0) mc::violation("lifetime", name, mc::str(C.live, " values not destroyed exactly once"));
    if (C.bad != 0) mc::violation("destroyed", name, "a destroyed value was used");
  }
}

void chains() {
  const int depth = mc::thorough ? 5 : 4;
  mc::bounds["call chains"] = mc::str("up to ", depth, " levels, ", HOWS - 2, " ways of handing on, four value types");
  std::vector<int> w;
  uint64_t n = 0;
  std::function<void()> rec = [&]() {
    if (static_cast<int>(w.size()) + 1 <= depth)
      for (int leaf : {GOOD, BAD}) {
        w.push_back(leaf);
        if (mc::my_shard(n++ / 2)) {
          chain<Value>(w, "value");
          chain<MoveOnly>(w, "move-only");
          chain<Value &>(w, "reference");
          chain<const Value &>(w, "const-reference");
        }
        w.pop_back();
      }
    if (static_cast<int>(w.size()) + 2 <= depth)
      for (int h = RETURN_CALL; h < HOWS; ++h) {
        w.push_back(h);
        rec();
        w.pop_back();
      }
  };
  rec();
}

// ---- (2) programs over status objects ------------------------------------------------------------------------------
struct Model {
  int kind = 0;  // 0: default, 1: good, 2: bad
  int id = 0;    // of the value or of the message
  int line = 0;
  bool moved = false;
};
const char *const MESSAGES[] = {"", "oh no", "{} {0} {x} %d %s \\", "\xc3\xa9 \"quoted\"\n line", "OKAY"};
constexpr int NMSG = 5;

Status bad_status(int m, int &line) {
  switch (m) {
    case 0: line = __LINE__; return MAKE_STATUS("");
    case 1: line = __LINE__; return MAKE_STATUS("oh no");
    case 2: line = __LINE__; return MAKE_STATUS("{} {0} {x} %d %s \\");
    case 3: line = __LINE__; return MAKE_STATUS("\xc3\xa9 \"quoted\"\n line");
    default: line = __LINE__; return MAKE_STATUS("OKAY");
  }
}
std::string what_of(const Model &m) { return m.kind == 2 ? mc::str("<", __FILE__, ":", m.line, "> ", MESSAGES[m.id]) : "OKAY"; }

// Operations on three slots: (op, a, b).
struct Op {
  int op, a, b;
};
template <typename T>
struct Objects {
  using SV = StatusValue<T>;
  static constexpr bool copyable = std::is_copy_constructible_v<T>;
  static std::vector<Op> ops() {
    std::vector<Op> r;
    for (int a = 0; a < 2; ++a) {
      r.push_back({0, a, 0});                                     // default constructed
      r.push_back({1, a, 1});                                     // good value
      for (int m = 0; m < (mc::thorough ? NMSG : 3); ++m) r.push_back({2, a, m});  // bad status
      r.push_back({3, a, 0});                                     // reading the value
      r.push_back({4, a, 0});                                     // converting its status to a value-or-status
      r.push_back({12, a, 0});                                    // taking the value out of the rvalue
    }
    for (int a = 0; a < 2; ++a)
      for (int b = 0; b < 2; ++b) {
        if (copyable) r.push_back({5, a, b});  // copy construct a from b
        if (copyable) r.push_back({6, a, b});  // copy assign
        r.push_back({7, a, b});                // move construct
        if (a != b) r.push_back({8, a, b});    // move assign
      }
    return r;
  }
  static void check(const SV &s, const Model &m, const std::string &trace) {
    const bool want = m.kind == 1;
    if (s.ok() != want || s.status().ok() != want) mc::violation("ok", trace, mc::str("ok() is ", s.ok(), ", status().ok() is ", s.status().ok(), ", expected ", want));
    if (m.kind == 2 && s.status().what() != what_of(m)) mc::violation("what", trace, "'" + s.status().what() + "', expected '" + what_of(m) + "'");
    if (m.kind == 1 && s.status().what() != "OKAY") mc::violation("what", trace, "'" + s.status().what() + "' for a good one");
    bool threw = false;
    int got = 0;
    try {
      got = s.value().value();
    } catch (const AssertException &) {
      threw = true;
    }
    if (threw == want) mc::violation("value", trace, threw ? "reading the value of a good one failed" : "reading the value of a bad one succeeded");
    if (!threw && want && !m.moved && got != m.id) mc::violation("value", trace, mc::str("value ", got, ", expected ", m.id));
  }
  static void run(const std::vector<int> &w, const std::vector<Op> &al, const std::string &trace) {
    C = Counts{};
    {
      std::optional<SV> s[2];
      Model m[2];
      s[0].emplace();
      s[1].emplace();
      int next = 100;
      for (int k : w) {
        const Op &o = al[k];
        ++mc::transitions;
        switch (o.op) {
          case 0:
            s[o.a].emplace();
            m[o.a] = Model{};
            break;
          case 1:
            if (next % 2)
              s[o.a].emplace(T(next));
            else
              s[o.a] = SV(T(next));
            m[o.a] = Model{1, next, 0, false};
            ++next;
            break;
          case 2: {
            Model x{2, o.b, 0, false};
            s[o.a] = SV(bad_status(o.b, x.line));
            m[o.a] = x;
            break;
          }
          case 3: break;  // check() reads
          case 4: {
            bool threw = false;
            try {
              SV t(s[o.a]->status());
              if (m[o.a].kind != 1) check(t, m[o.a], trace);
            } catch (const AssertException &) {
              threw = true;
            }
            if (threw != (m[o.a].kind == 1)) mc::violation("good-status-as-value", trace, threw ? "a bad status was refused" : "a good status was accepted in place of a value");
            break;
          }
          case 12: {
            bool threw = false;
            try {
              T v = std::move(*s[o.a]).value();
              if (m[o.a].kind == 1 && !m[o.a].moved && v.value() != m[o.a].id) mc::violation("rvalue", trace, "the value taken out differs");
            } catch (const AssertException &) {
              threw = true;
            }
            if (threw == (m[o.a].kind == 1)) mc::violation("value", trace, threw ? "taking the value of a good one failed" : "taking the value of a bad one succeeded");
            m[o.a].moved = true;
            break;
          }
          case 5:
            if constexpr (copyable) {
              if (m[o.b].moved) break;
              SV t(*s[o.b]);
              s[o.a].emplace(std::move(t));
              m[o.a] = m[o.b];
            }
            break;
          case 6:
            if constexpr (copyable) {
              if (m[o.b].moved) break;
              *s[o.a] = *s[o.b];
              m[o.a] = m[o.b];
            }
            break;
          case 7: {
            SV t(std::move(*s[o.b]));
            const Model x = m[o.b];
            m[o.b].moved = true;
            s[o.a].emplace(std::move(t));
            m[o.a] = x;
            break;
          }
          case 8: {
            *s[o.a] = std::move(*s[o.b]);
            const Model x = m[o.b];
            m[o.b].moved = true;
            m[o.a] = x;
            break;
          }
        }
        for (int i = 0; i < 2; ++i) check(*s[i], m[i], trace);
      }
      uint64_t h = copyable;
      for (auto &x : m) h = mc::mix(mc::mix(h, x.kind * 10 + x.moved), x.kind == 2 ? x.id : 0);
      mc::state(mc::mix(h, 7777));
    }
    if (C.live != 0) mc::violation("lifetime", trace, mc::str(C.live, " values not destroyed exactly once"));
    if (C.bad != 0) mc::violation("destroyed", trace, "a destroyed value was used");
  }
  static void all(const char *type) {
    const auto al = ops();
    const int depth = mc::thorough ? 5 : 4;
    uint64_t n = 0;
    mc::all_words(static_cast<int>(al.size()), depth, [&](const std::vector<int> &w) {
      if (static_cast<int>(w.size()) == depth || w.size() == 1) {
        if (!mc::my_shard(n++ / 7)) return true;
        mc::beat();
        ++mc::traces;
        std::string trace;
        const auto name = [&]() {
          std::string t = type;
          for (int k : w) t += mc::str(" (", al[k].op, ",", al[k].a, ",", al[k].b, ")");
          return t;
        };
        mc::describe = name;
        static thread_local std::string lazy;
        run(w, al, name());
      }
      return true;
    });
    mc::bounds["status objects"] = mc::str("all programs of ", depth, " operations over two slots");
  }
};

// ---- (3) assertions ------------------------------------------------------------------------------------------------
int evaluated;
bool cond(bool b) {
  ++evaluated;
  return b;
}

void expect_assert(const std::string &name, bool should, const std::function<void()> &f, int line, const std::string &text, const std::string &message) {
  mc::beat();
  ++mc::traces;
  ++mc::transitions;
  mc::describe = [&]() { return "assertion " + name; };
  evaluated = 0;
  std::string what;
  bool threw = false;
  try {
    f();
  } catch (const AssertException &e) {
    threw = true;
    what = e.what();
    AssertException copy(e);
    AssertException moved(std::move(copy));
    if (what != moved.what()) mc::violation("assert-copy", name, "a copy of the exception says something else");
  } catch (const std::exception &e) {
    mc::violation("assert-exception", name, std::string("another exception: ") + e.what());
    return;
  }
  if (threw != should) mc::violation("assert", name, threw ? "failed: " + what : "did not fail");
  if (evaluated != 1) mc::violation("assert-evaluated", name, mc::str("the condition was evaluated ", evaluated, " times"));
  if (threw)
    for (const std::string &part : {text, std::string(__FILE__), mc::str(":", line), message})
      if (what.find(part) == std::string::npos) mc::violation("assert-text", name, "'" + what + "' lacks '" + part + "'");
  mc::state(mc::mix(mc::hash_str(name), threw));
}

void assertions() {
  const std::vector<std::string> msgs = {"", "message", "{}", "{0}{1}", "{", "}", "%s%n%d", std::string(5000, 'x'), "\xc3\xa9\n\t\"", "{{}}", "a,b,(c"};
  for (bool b : {false, true}) {
    expect_assert("no message", !b, [&]() { REASSERT(cond(b)); }, __LINE__, "cond(b)", "");
    expect_assert("literal message", !b, [&]() { REASSERT(cond(b), "some {} message"); }, __LINE__, "cond(b)", "some {} message");
    expect_assert("comparison", !b, [&]() { REASSERT(cond(b) == true && 1 < 2, "cmp"); }, __LINE__, "cond(b) == true && 1 < 2", "cmp");
    expect_assert("braces", !b, [&]() { REASSERT((std::vector<bool>{cond(b), true})[0], "vec"); }, __LINE__, "vector", "vec");
    expect_assert("negation", !b, [&]() { REASSERT(not cond(not b), "neg"); }, __LINE__, "not cond(not b)", "neg");
    expect_assert("format specifiers in the condition", !b, [&]() { REASSERT(cond(b) or std::string("{}%s") == "", "fmt"); }, __LINE__, "std::string(\"{}%s\") == \"\"", "fmt");
    for (const std::string &m : msgs) {
      expect_assert("string message " + m.substr(0, 20), !b, [&]() { REASSERT(cond(b), m); }, __LINE__, "cond(b)", m);
      expect_assert("c string message " + m.substr(0, 20), !b, [&]() { REASSERT(cond(b), m.c_str()); }, __LINE__, "cond(b)", m);
      expect_assert("temporary message " + m.substr(0, 20), !b, [&]() { REASSERT(cond(b), m + "!"); }, __LINE__, "cond(b)", m + "!");
      expect_assert("view message " + m.substr(0, 20), !b, [&]() { REASSERT(cond(b), std::string_view(m)); }, __LINE__, "cond(b)", m);
    }
    // As the unbraced body of a conditional.
    expect_assert("in an if", !b, [&]() {
      if (b || !b)
        REASSERT(cond(b), "branch");
      else
        ++evaluated;
    }, __LINE__ - 3, "", "branch");
  }
  // Statuses: all messages through both helpers.
  for (int m = 0; m < NMSG; ++m) {
    int line = 0;
    const Status s = bad_status(m, line);
    const std::string want = mc::str("<", __FILE__, ":", line, "> ", MESSAGES[m]);
    if (s.ok() || s.what() != want) mc::violation("what", mc::str("message ", m), "'" + s.what() + "', expected '" + want + "'");
    Status t = s, u, v;
    u = t;
    v = std::move(t);
    for (const Status *x : {&u, &v})
      if (x->ok() || x->what() != want) mc::violation("what", mc::str("copy of message ", m), x->what());
    v = OKAY_STATUS;
    if (!v.ok() || v.what() != "OKAY") mc::violation("what", "assigned okay", v.what());
    evaluated = 0;
    expect_assert(mc::str("CHECK_STATUS_OK message ", m), true, [&]() { CHECK_STATUS_OK((++evaluated, s)); }, __LINE__, "", want);
    expect_assert("CHECK_STATUS_OK okay", false, [&]() { CHECK_STATUS_OK((++evaluated, OKAY_STATUS)); }, __LINE__, "", "");
    mc::transitions += 6;
  }
  // All lengths of messages and of file names, and lines of all magnitudes.
  std::vector<std::size_t> lengths;
  for (std::size_t n = 0; n <= 1100; ++n) lengths.push_back(n);
  for (std::size_t n : {4095, 4096, 4097, 65535, 65536, 100000}) lengths.push_back(n);
  for (std::size_t n : lengths) {
    std::string m, f;
    for (std::size_t i = 0; i < n; ++i) m += static_cast<char>('!' + i % 90), f += static_cast<char>('A' + i % 26);
    for (int line : {1, 9999, 65536, 2147483647}) {
      mc::beat();
      ++mc::traces;
      mc::transitions += 4;
      const Status s = Status::make_at_line(f.c_str(), line, m.c_str());
      const std::string want = "<" + f + ":" + std::to_string(line) + "> " + m;
      const StatusValue<int> v(s);
      if (s.ok() || s.what() != want) mc::violation("what", mc::str("message and file of ", n, " characters, line ", line), "another text");
      if (v.ok() || v.status().what() != want) mc::violation("what", mc::str("value with message and file of ", n, " characters, line ", line), "another text");
      std::string thrown;
      try {
        CHECK_STATUS_OK(s);
      } catch (const AssertException &e) {
        thrown = e.what();
      }
      if (thrown.find(want) == std::string::npos) mc::violation("assert-text", mc::str("failed check, message and file of ", n, " characters, line ", line), "lacks the status");
    }
  }
  mc::bounds["texts"] = "all lengths of message and file up to 1100 characters, and some up to 100000";
}

}  // namespace

int main(int argc, char **argv) {
  return mc::run(argc, argv, [&]() {
    if (mc::shard == 0) assertions();
    chains();
    Objects<Value>::all("value");
    Objects<MoveOnly>::all("move-only");
  });
}
