// C23: match(), InOut and NullableReference. All variants of one to five alternatives, all alternatives, branch orders,
// branch signatures, value categories and return kinds; all short programs over reference wrappers against a model.
#include <variant>

#include "mc.hh"
#include "resim/utils/inout.hh"
#include "resim/utils/match.hh"
#include "resim/utils/nullable_reference.hh"

namespace {
using resim::InOut;
using resim::match;
using resim::NullableReference;

struct Log {
  int copies = 0, moves = 0, calls = 0, live = 0;
  int branch = -1;
  const void *seen = nullptr;
  int value = 0;
};
Log L;

// An alternative; B: can be copied.
template <int I, bool B = true>
struct Alt {
  int value;
  bool moved = false;
  explicit Alt(int v) : value(v) { ++L.live; }
  Alt(const Alt &o) requires B : value(o.value), moved(o.moved) {
    ++L.copies;
    ++L.live;
  }
  Alt(Alt &&o) noexcept : value(o.value), moved(o.moved) {
    o.moved = true;
    ++L.moves;
    ++L.live;
  }
  Alt &operator=(const Alt &o) requires B {
    value = o.value;
    moved = o.moved;
    ++L.copies;
    return *this;
  }
  Alt &operator=(Alt &&o) noexcept {
    value = o.value;
    moved = o.moved;
    o.moved = true;
    ++L.moves;
    return *this;
  }
  ~Alt() { --L.live; }
};

std::string current;
void fail(const char *key, const std::string &detail) { mc::violation(key, current, detail); }

void called(int branch, const void *p, int value) {
  ++L.calls;
  L.branch = branch;
  L.seen = p;
  L.value = value;
}

// Branch I in its different signatures.
enum Sig { CONST_REF, FORWARDING, BY_VALUE, RVALUE };
enum Ret { VOID, INT, TO_OBJECT, TO_STATIC, MOVE_ONLY };
template <int I>
int slot;  // something for branches to return references to

template <int I, bool B, Ret R, typename X>
decltype(auto) act(X &&x) {
  called(I, static_cast<const void *>(&x), x.value);
  if constexpr (R == VOID) return;
  else if constexpr (R == INT) return 100 * I + x.value;
  else if constexpr (R == TO_OBJECT) return static_cast<const int &>(x.value);
  else if constexpr (R == TO_STATIC) return static_cast<int &>(slot<I>);
  else return std::make_unique<int>(100 * I + x.value);
}

template <int I, bool B, Sig S, Ret R>
struct Branch;
template <int I, bool B, Ret R>
struct Branch<I, B, CONST_REF, R> {
  decltype(auto) operator()(const Alt<I, B> &x) const { return act<I, B, R>(x); }
};
template <int I, bool B, Ret R>
struct Branch<I, B, RVALUE, R> {
  decltype(auto) operator()(Alt<I, B> &&x) const { return act<I, B, R>(x); }
};
template <int I, bool B, Ret R>
struct Branch<I, B, BY_VALUE, R> {
  decltype(auto) operator()(Alt<I, B> x) const { return act<I, B, R>(x); }
};
template <int I, bool B, Ret R>
struct Branch<I, B, FORWARDING, R> {
  template <typename X>
  requires std::is_same_v<std::decay_t<X>, Alt<I, B>>
  decltype(auto) operator()(X &&x) const {
    called(I, static_cast<const void *>(&x), x.value);
    moved_from = !std::is_lvalue_reference_v<X>;
    constant = std::is_const_v<std::remove_reference_t<X>>;
    if constexpr (R == VOID) return;
    else if constexpr (R == INT) return 100 * I + x.value;
    else if constexpr (R == TO_OBJECT) return static_cast<const int &>(x.value);
    else if constexpr (R == TO_STATIC) return static_cast<int &>(slot<I>);
    else return std::make_unique<int>(100 * I + x.value);
  }
  static inline bool moved_from = false, constant = false;
};

// N alternatives starting at alternative 0, with the branches in the order of the permutation P.
template <int N, bool B, typename = std::make_integer_sequence<int, N>>
struct VariantOf;
template <int N, bool B, int... I>
struct VariantOf<N, B, std::integer_sequence<int, I...>> {
  using type = std::variant<Alt<I, B>...>;
};

template <Sig S, Ret R, bool B, int... P>
struct Case {
  static constexpr int N = sizeof...(P);
  using V = typename VariantOf<N, B>::type;

  template <int I>
  static V make(int value) {
    return V(std::in_place_index<I>, value);
  }

  // Category 0 lvalue, 1 const lvalue, 2 xvalue, 3 const xvalue, 4 prvalue.
  template <int I, int Category>
  static void one() {
    current = mc::str("variant of ", N, B ? " alternatives" : " move-only alternatives", ", holding ", I, ", branch order");
    ((current += mc::str(" ", P)), ...);
    current += mc::str(", signature ", S, ", return ", R, ", category ", Category);
    ++mc::traces;
    ++mc::transitions;
    uint64_t h = mc::mix(N * 8 + I, S * 64 + R * 8 + Category);
    ((h = mc::mix(h, P)), ...);
    mc::state(mc::mix(h, B));
    L = Log{};
    {
      V v = make<I>(7 + I);
      const V &cv = v;
      const void *object = &std::get<I>(v);
      const int moves = L.moves, copies = L.copies;
      const auto invoke = [&](auto &&...branches) -> decltype(auto) {
        if constexpr (Category == 0) return match(v, std::forward<decltype(branches)>(branches)...);
        else if constexpr (Category == 1) return match(cv, std::forward<decltype(branches)>(branches)...);
        else if constexpr (Category == 2) return match(std::move(v), std::forward<decltype(branches)>(branches)...);
        else if constexpr (Category == 3) return match(std::move(cv), std::forward<decltype(branches)>(branches)...);
        else return match(make<I>(7 + I), std::forward<decltype(branches)>(branches)...);
      };
      const auto called_ok = [&]() {
        if (L.calls != 1) fail("calls", mc::str(L.calls, " branches were invoked"));
        if (L.branch != I) fail("branch", mc::str("branch ", L.branch, " was invoked"));
        if (L.value != 7 + I) fail("value", mc::str("the branch saw ", L.value));
        if (S != BY_VALUE && Category != 4 && L.seen != object) fail("copy", "the branch got another object");
        if (S != BY_VALUE && Category != 4 && (L.moves != moves || L.copies != copies)) fail("copy", mc::str(L.copies - copies, " copies and ", L.moves - moves, " moves"));
        if (S == BY_VALUE && Category != 4) {
          const bool by_move = Category == 2;
          if (L.moves - moves != (by_move ? 1 : 0) || L.copies - copies != (by_move ? 0 : 1)) fail("copy", mc::str("by value: ", L.copies - copies, " copies and ", L.moves - moves, " moves"));
        }
        if (S == BY_VALUE && Category == 4 && L.copies != 0) fail("copy", "a temporary was copied");
        if constexpr (S == FORWARDING) {
          using Br = Branch<I, B, FORWARDING, R>;
          if (Br::moved_from != (Category >= 2)) fail("category", Br::moved_from ? "movable although the variant is not a temporary" : "not movable although the variant is a temporary");
          if (Br::constant != (Category == 1 || Category == 3)) fail("category", "constness lost or invented");
        }
      };
      if constexpr (R == VOID) {
        if constexpr (!std::is_void_v<decltype(invoke(Branch<P, B, S, R>{}...))>) fail("result", "returns something");
        (void)invoke(Branch<P, B, S, R>{}...);
        called_ok();
      } else if constexpr (R == INT) {
        if constexpr (!std::is_same_v<decltype(invoke(Branch<P, B, S, R>{}...)), int>) fail("result", "returns another type");
        if (const int r = invoke(Branch<P, B, S, R>{}...); r != 100 * I + 7 + I) fail("result", mc::str("returned ", r));
        called_ok();
      } else if constexpr (R == TO_OBJECT) {
        if constexpr (!std::is_same_v<decltype(invoke(Branch<P, B, S, R>{}...)), const int &>) fail("result", "returns no reference");
        const int &r = invoke(Branch<P, B, S, R>{}...);
        if (Category != 4 && &r != &std::get<I>(v).value) fail("result", "the returned reference denotes another object");
        called_ok();
      } else if constexpr (R == TO_STATIC) {
        if constexpr (!std::is_same_v<decltype(invoke(Branch<P, B, S, R>{}...)), int &>) fail("result", "returns no reference");
        auto &&r = invoke(Branch<P, B, S, R>{}...);
        if (&r != &slot<I>) fail("result", "the returned reference denotes another object");
        called_ok();
      } else {
        const std::unique_ptr<int> r = invoke(Branch<P, B, S, R>{}...);
        if (!r || *r != 100 * I + 7 + I) fail("result", "the returned pointer is wrong");
        called_ok();
      }
      if (v.index() != I) fail("variant", "the variant holds another alternative");
      if (S != BY_VALUE && (std::get<I>(v).moved || std::get<I>(v).value != 7 + I)) fail("variant", "the variant was changed");
      // Callables that are lvalues and const lvalues.
      if constexpr (R == INT && Category == 0) {
        L.calls = 0;
        std::tuple<Branch<P, B, S, R>...> br;
        const auto &cbr = br;
        const int a = std::apply([&](auto &...b) { return match(v, b...); }, br);
        const int b = std::apply([&](auto &...b) { return match(v, b...); }, cbr);
        if (a != 100 * I + 7 + I || b != a || L.calls != 2) fail("result", "with branches that are lvalues");
      }
    }
    if (L.live != 0) fail("lifetime", mc::str(L.live, " objects left over"));
    mc::maybe_sample([&]() { return current; });
  }

  template <int... I>
  static void all(std::integer_sequence<int, I...>) {
    if constexpr (S == RVALUE) {
      (one<I, 2>(), ...);
      (one<I, 4>(), ...);
    } else {
      if constexpr (B || S != BY_VALUE) {
        (one<I, 0>(), ...);
        (one<I, 1>(), ...);
        (one<I, 3>(), ...);
      }
      (one<I, 2>(), ...);
      if constexpr (!(S == CONST_REF && R == TO_OBJECT) && !(S == FORWARDING && R == TO_OBJECT)) (one<I, 4>(), ...);
    }
  }
  static void all() { all(std::make_integer_sequence<int, N>{}); }
};

template <Sig S, int... P>
void returns() {
  Case<S, VOID, true, P...>::all();
  Case<S, INT, true, P...>::all();
  if constexpr (S != BY_VALUE) Case<S, TO_OBJECT, true, P...>::all();
  Case<S, TO_STATIC, true, P...>::all();
  Case<S, MOVE_ONLY, true, P...>::all();
}

// All permutations: insert N-1 at every place of every permutation of the smaller.
template <typename F, int... P>
void permutations(F f, std::integer_sequence<int, P...>);
template <int N, typename F>
void all_permutations(F f) {
  std::vector<int> unused;
  (void)unused;
  const auto rec = [&]<int... Done>(auto self, std::integer_sequence<int, Done...> done) -> void {
    if constexpr (sizeof...(Done) == N) f(done);
    else {
      const auto next = [&]<int K>(std::integral_constant<int, K>) {
        if constexpr (((K != Done) && ...)) self(self, std::integer_sequence<int, Done..., K>{});
      };
      [&]<int... K>(std::integer_sequence<int, K...>) { (next(std::integral_constant<int, K>{}), ...); }(std::make_integer_sequence<int, N>{});
    }
  };
  rec(rec, std::integer_sequence<int>{});
}

// What the parts (separate translation units, compiled side by side) instantiate.
void matching() {
  const auto kinds = []<Sig S, int... P>(std::integral_constant<Sig, S>, std::integer_sequence<int, P...>) { returns<S, P...>(); };
  const auto move_only = []<int... P>(std::integer_sequence<int, P...>) {
    Case<FORWARDING, INT, false, P...>::all();
    Case<BY_VALUE, VOID, false, P...>::all();
    Case<RVALUE, TO_STATIC, false, P...>::all();
    Case<CONST_REF, MOVE_ONLY, false, P...>::all();
  };
  const auto up_to_3 = [&](auto sig) {
    const auto f = [&](auto order) { kinds(sig, order); };
    all_permutations<1>(f);
    all_permutations<2>(f);
    all_permutations<3>(f);
  };
  (void)up_to_3;
  (void)move_only;
#if PART == 0
  mc::bounds["variants"] = "1 to 3 alternatives: all branch orders, 4 branch signatures, 5 return kinds, 5 value categories, copyable and move-only; 4 alternatives: all branch orders for 2 kinds; 5 alternatives: rotations and their reversals";
  up_to_3(std::integral_constant<Sig, CONST_REF>{});
#elif PART == 1
  up_to_3(std::integral_constant<Sig, FORWARDING>{});
#elif PART == 2
  up_to_3(std::integral_constant<Sig, BY_VALUE>{});
#elif PART == 3
  up_to_3(std::integral_constant<Sig, RVALUE>{});
  all_permutations<1>(move_only);
  all_permutations<2>(move_only);
  all_permutations<3>(move_only);
#elif PART == 4
  const auto some = []<int... P>(std::integer_sequence<int, P...>) {
    Case<CONST_REF, TO_OBJECT, true, P...>::all();
    Case<FORWARDING, INT, false, P...>::all();
  };
  all_permutations<4>(some);
#elif PART == 5
  const auto few = []<int... P>(std::integer_sequence<int, P...>) {
    Case<FORWARDING, INT, true, P...>::all();
    Case<FORWARDING, INT, true, (4 - P)...>::all();
    Case<CONST_REF, TO_OBJECT, true, P...>::all();
  };
  few(std::integer_sequence<int, 0, 1, 2, 3, 4>{});
  few(std::integer_sequence<int, 1, 2, 3, 4, 0>{});
  few(std::integer_sequence<int, 2, 3, 4, 0, 1>{});
  few(std::integer_sequence<int, 3, 4, 0, 1, 2>{});
  few(std::integer_sequence<int, 4, 0, 1, 2, 3>{});
#endif
}

#if PART == 0
// Repeated alternatives, fundamental alternatives, catch-all branches, conversions that must not win.
void special() {
  const auto begin = [](const std::string &s) {
    current = s;
    ++mc::traces;
    ++mc::transitions;
    mc::state(mc::hash_str(s));
    L = Log{};
  };
  {
    using V = std::variant<int, double, char, bool, std::string>;
    const std::vector<V> vs = {1, 2.5, 'c', true, std::string("s"), 0, false, 'a', 1., std::string()};
    for (size_t i = 0; i < vs.size(); ++i) {
      begin(mc::str("fundamental alternatives ", i));
      const int got = match(vs[i], [](int) { return 0; }, [](double) { return 1; }, [](char) { return 2; }, [](bool) { return 3; }, [](const std::string &) { return 4; });
      if (got != static_cast<int>(vs[i].index())) fail("branch", mc::str("branch ", got));
      // Exact branch for one alternative, a generic one for the rest, in both orders.
      const int g1 = match(vs[i], [](const bool &) { return 3; }, [](const auto &) { return 9; });
      const int g2 = match(vs[i], [](const auto &) { return 9; }, [](const bool &) { return 3; });
      if (g1 != (vs[i].index() == 3 ? 3 : 9) || g2 != g1) fail("branch", mc::str("catch-all: ", g1, ", ", g2));
      // Nested.
      const std::variant<V, int> nested = vs[i];
      const int n = match(nested, [](const V &v) { return match(v, [](const std::string &) { return 1; }, [](const auto &) { return 2; }); }, [](int) { return 3; });
      if (n != (vs[i].index() == 4 ? 1 : 2)) fail("branch", mc::str("nested: ", n));
    }
    begin("outer alternative");
    const std::variant<V, int> outer = std::variant<V, int>(std::in_place_index<1>, 5);
    if (match(outer, [](const V &) { return 0; }, [](int x) { return x; }) != 5) fail("branch", "outer");
  }
  for (int i = 0; i < 3; ++i) {
    begin(mc::str("repeated alternatives ", i));
    std::variant<int, int, int> v;
    if (i == 0) v.emplace<0>(10);
    if (i == 1) v.emplace<1>(11);
    if (i == 2) v.emplace<2>(12);
    int calls = 0;
    if (const int r = match(v, [&](const int &x) { ++calls; return x; }); r != 10 + i || calls != 1) fail("value", mc::str(r));
  }
  {
    begin("mutation through a generic branch");
    std::variant<int, double> v = 3;
    match(v, [](auto &&x) { x += 1; });
    if (std::get<int>(v) != 4) fail("copy", "changing the object had no effect");
    v = 2.5;
    match(v, [](auto &&x) { x *= 2; });
    if (std::get<double>(v) != 5.) fail("copy", "changing the object had no effect");
  }
  {
    begin("moving out of a temporary");
    std::variant<std::unique_ptr<int>, int> v = std::make_unique<int>(5);
    const int *raw = std::get<0>(v).get();
    const std::unique_ptr<int> p = match(std::move(v), [](std::unique_ptr<int> q) { return q; }, [](int x) { return std::make_unique<int>(x); });
    if (p.get() != raw) fail("copy", "the pointer was not moved through");
    const std::variant<std::unique_ptr<int>, int> w = 6;
    const int r = match(w, [](const std::unique_ptr<int> &) { return -1; }, [](int x) { return x; });
    if (r != 6) fail("value", mc::str(r));
  }
  {
    begin("exceptions pass through");
    struct E {};
    std::variant<int, double> v = 1;
    int calls = 0;
    bool caught = false;
    try {
      match(v, [&](int) { ++calls; throw E{}; }, [&](double) { ++calls; });
    } catch (const E &) {
      caught = true;
    }
    if (!caught || calls != 1) fail("exception", mc::str(caught, " ", calls));
  }
  {
    begin("a variant without value");
    struct Bomb {
      Bomb() = default;
      Bomb(const Bomb &) { throw 1; }
      Bomb(Bomb &&) { throw 1; }
      Bomb &operator=(const Bomb &) { throw 1; }
    };
    std::variant<int, Bomb> v = 1;
    try {
      v.emplace<1>(Bomb());
    } catch (int) {
    }
    int calls = 0;
    bool threw = false;
    try {
      match(v, [&](int) { ++calls; }, [&](const Bomb &) { ++calls; });
    } catch (const std::bad_variant_access &) {
      threw = true;
    }
    if (!v.valueless_by_exception() || !threw || calls) fail("valueless", mc::str("calls ", calls));
  }
  {
    begin("constant expressions");
    constexpr std::variant<int, double> v = 2.;
    static_assert(match(v, [](int) { return 1; }, [](double) { return 2; }) == 2);
    constexpr std::variant<int, double> w = 7;
    static_assert(match(w, [](int x) { return x; }, [](double) { return 2; }) == 7);
  }
}

// ---- reference wrappers ----

struct Obj {
  int value = 0;
  int get() const { return value; }
  void set(int v) { value = v; }
};

// Programs over two nullable references and two objects, in lock step with a model that knows which object each denotes.
template <typename T>
void nullable_programs(const char *name, int depth) {
  // Operations: per reference r (2): refer to object o (2), copy from the other, move from the other, reset to empty, write through *,
  // write through ->, read.
  const int OPS = 18;
  mc::all_words(OPS, depth, [&](const std::vector<int> &w) {
    if (!w.empty() && !mc::my_shard(static_cast<uint64_t>(w[0]))) return false;
    Obj objects[2];
    NullableReference<T> refs[2];
    int model[2] = {-1, -1};
    int values[2] = {0, 0};
    current = name;
    for (int op : w) current += mc::str(" ", op);
    ++mc::traces;
    int stamp = 1;
    for (int op : w) {
      ++mc::transitions;
      const int r = op / 9, k = op % 9;
      NullableReference<T> &x = refs[r];
      const auto write = [&](auto &&f) {
        ++stamp;
        bool threw = false;
        try {
          f();
        } catch (const std::exception &) {
          threw = true;
        }
        if (threw != (model[r] < 0)) fail("dereference", threw ? "a reference to an object was refused" : "an empty reference was dereferenced");
        if (model[r] >= 0 && !std::is_const_v<T>) values[model[r]] = stamp;
      };
      switch (k) {
        case 0:
        case 1:
          x = NullableReference<T>(objects[k]);
          model[r] = k;
          break;
        case 2:
          x = refs[1 - r];
          model[r] = model[1 - r];
          break;
        case 3: {
          NullableReference<T> c(refs[1 - r]);
          x = std::move(c);
          model[r] = model[1 - r];
          break;
        }
        case 4:
          x = NullableReference<T>();
          model[r] = -1;
          break;
        case 5:
          x = resim::null_reference<T>;
          model[r] = -1;
          break;
        case 6:
          if constexpr (std::is_const_v<T>) write([&]() { (void)(*x).get(); });
          else write([&]() { (*x).value = stamp; });
          break;
        case 7:
          if constexpr (std::is_const_v<T>) write([&]() { (void)x->get(); });
          else write([&]() { x->set(stamp); });
          break;
        case 8: {
          const NullableReference<T> &c = x;
          if constexpr (std::is_const_v<T>) write([&]() { (void)(*c).value; });
          else write([&]() { (*c).set(stamp); });
          break;
        }
        default: break;
      }
      for (int i = 0; i < 2; ++i) {
        const NullableReference<T> &c = refs[i];
        if (c.has_value() != (model[i] >= 0) || static_cast<bool>(c) != (model[i] >= 0)) fail("has-value", mc::str("reference ", i, c.has_value() ? " claims to denote an object" : " claims to be empty"));
        if (model[i] >= 0) {
          if (&*c != &objects[model[i]] || c.operator->() != &objects[model[i]]) fail("denotes", mc::str("reference ", i, " denotes another object"));
        } else {
          if (!mc::rejects([&]() { (void)*c; })) fail("dereference", "* of an empty reference was not refused");
          if (!mc::rejects([&]() { (void)c.operator->(); })) fail("dereference", "-> of an empty reference was not refused");
        }
        if (objects[i].value != values[i]) fail("write", mc::str("object ", i, " holds ", objects[i].value, ", expected ", values[i]));
      }
      if (resim::null_reference<T>.has_value() || resim::null_reference<T>) fail("null-reference", "null_reference denotes something");
      mc::state(mc::mix(mc::hash_str(name), (model[0] + 1) * 1000 + (model[1] + 1) * 100 + values[0] * 10 + values[1]));
    }
    mc::maybe_sample([&]() { return current; });
    return true;
  });
}

void twice(InOut<int> x) { *x *= 2; }
void inner(InOut<Obj> o, int v) { o->set(v); }
void outer(InOut<Obj> o, int v) {
  InOut<Obj> again(*o);
  InOut<Obj> copy = o;
  inner(again, v);
  inner(copy, copy->get() + 1);
}

void inout_programs() {
  const int depth = mc::thorough ? 6 : 5;
  // Each operation changes one of two objects through a wrapper made before any change, a copy, a nested wrapper or a call.
  mc::all_words(12, depth, [&](const std::vector<int> &w) {
    if (!w.empty() && !mc::my_shard(static_cast<uint64_t>(w[0]))) return false;
    current = "InOut";
    for (int op : w) current += mc::str(" ", op);
    ++mc::traces;
    Obj o[2];
    int n[2] = {1, 2};
    InOut<Obj> ro[2] = {InOut<Obj>(o[0]), InOut<Obj>(o[1])};
    InOut<int> rn[2] = {InOut<int>(n[0]), InOut<int>(n[1])};
    int mo[2] = {0, 0}, mn[2] = {1, 2};
    for (int op : w) {
      ++mc::transitions;
      const int i = op % 2;
      switch (op / 2) {
        case 0: (*ro[i]).value += 3; mo[i] += 3; break;
        case 1: ro[i]->set(ro[i]->get() * 2 + 1); mo[i] = mo[i] * 2 + 1; break;
        case 2: outer(ro[i], mo[i] + 5); mo[i] += 6; break;
        case 3: twice(rn[i]); mn[i] *= 2; break;
        case 4: *rn[i] += *rn[1 - i]; mn[i] += mn[1 - i]; break;
        case 5: {
          InOut<int> c(rn[i]);
          std::swap(*c, *rn[1 - i]);
          std::swap(mn[0], mn[1]);
          break;
        }
      }
      for (int k = 0; k < 2; ++k) {
        if (o[k].value != mo[k] || n[k] != mn[k]) fail("write", mc::str("object ", k, " differs"));
        if (&*ro[k] != &o[k] || ro[k].operator->() != &o[k] || &*rn[k] != &n[k]) fail("denotes", "an InOut denotes another object");
      }
      mc::state(mc::mix(mc::mix(mo[0], mo[1]), mc::mix(mn[0], mn[1])));
    }
    return true;
  });
}
#endif

}  // namespace

#define PASTE2(a, b) a##b
#define PASTE(a, b) PASTE2(a, b)
void PASTE(part_, PART)() {
  mc::describe = []() { return current; };
  if (mc::my_shard(PART)) matching();
#if PART == 0
  if (mc::shard == 7 % mc::shards) special();
  mc::bounds["wrapper programs"] = mc::str("all programs of up to ", mc::thorough ? 5 : 4, " operations over two nullable references, up to ", mc::thorough ? 6 : 5, " over four InOuts");
  nullable_programs<Obj>("NullableReference", mc::thorough ? 5 : 4);
  nullable_programs<const Obj>("NullableReference to const", mc::thorough ? 5 : 4);
  inout_programs();
#endif
}

#if PART == 0
void part_1();
void part_2();
void part_3();
void part_4();
void part_5();
int main(int argc, char **argv) {
  return mc::run(argc, argv, [&]() {
    part_0();
    part_1();
    part_2();
    part_3();
    part_4();
    part_5();
  });
}
#endif
