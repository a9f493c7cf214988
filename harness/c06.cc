// C06: frame discipline. All programs of frame-relevant operations up to a depth, on the real transforms, jets and framed
// vectors, in lock step with a model that tracks the two frames and the exact (lattice) value.
#include "geo.hh"
#include "resim/curves/two_jet.hh"
#include "resim/transforms/framed_vector.hh"

namespace {
using namespace geo;
using resim::curves::TwoJetL;
using resim::curves::TwoJetR;
using resim::transforms::FramedVector;

const char *NAMES = "-ABCab";
std::string fp(int i, int f) { return mc::str("(", NAMES[i], "<-", NAMES[f], ")"); }

struct Model {
  int into = 0, from = 0;
  LM4 m = LM4::Identity();
};

// Lattice values: 0 identity, 1 pure translation, 2 rotation only, 3 both.
LM4 value(int v) {
  LM4 m = LM4::Identity();
  if (v == 1 || v == 3) m.block<3, 1>(0, 3) = L3(1, -2, 3);
  if (v == 2) m.block<3, 3>(0, 0) << 0, -1, 0, 1, 0, 0, 0, 0, 1;
  if (v == 3) m.block<3, 3>(0, 0) << 0, 0, 1, 1, 0, 0, 0, 1, 0;
  return m;
}
template <typename G>
G make(const Model &m);
template <>
SE3 make<SE3>(const Model &m) {
  return SE3(SO3(M3(m.m.block<3, 3>(0, 0).cast<double>())), V3(m.m.block<3, 1>(0, 3).cast<double>()), frame(m.into), frame(m.from));
}
template <>
SO3 make<SO3>(const Model &m) {
  return SO3(M3(m.m.block<3, 3>(0, 0).cast<double>()), frame(m.into), frame(m.from));
}
template <typename G>
LM4 project(LM4 m) {
  if (std::is_same_v<G, SO3>) m.template block<3, 1>(0, 3).setZero();
  return m;
}

// Compares frames (all queries) and value of an implementation object with the model.
template <typename G>
std::string differs(const G &g, const Model &m) {
  if (!(g.into() == frame(m.into)) || g.into() != frame(m.into)) return mc::str("target frame ", g.into().id().to_string(), ", expected ", NAMES[m.into]);
  if (!(g.from() == frame(m.from)) || g.from() != frame(m.from)) return mc::str("source frame ", g.from().id().to_string(), ", expected ", NAMES[m.from]);
  if (g.into().is_null() != g.from().is_null()) return "exactly one frame is set";
  if (g.is_framed() != (m.into != 0)) return "is_framed() is wrong";
  for (int a = 0; a < 6; ++a) {
    if (g.verify_into(frame(a)) != (a == m.into)) return mc::str("verify_into(", NAMES[a], ") is wrong");
    if (g.verify_from(frame(a)) != (a == m.from)) return mc::str("verify_from(", NAMES[a], ") is wrong");
    for (int b = 0; b < 6; ++b)
      if (g.verify_frames(frame(a), frame(b)) != (a == m.into && b == m.from)) return mc::str("verify_frames", fp(a, b), " is wrong");
  }
  if (!near(matrix(g), project<G>(m.m))) return mc::str("value ", show(matrix(g)), ", expected ", show(project<G>(m.m)));
  return "";
}
template <typename G>
uint64_t hash(const char *kind, const Model &m) {
  uint64_t h = mc::hash_str(kind);
  h = mc::mix(h, m.into * 8 + m.from);
  for (int i = 0; i < 12; ++i) h = mc::mix(h, static_cast<uint64_t>(llroundl(project<G>(m.m)(i % 3, i / 3)) + 1000));
  return h;
}

// Composition rule: {accepted, result}.
std::pair<bool, Model> compose(const Model &a, const Model &b) {
  Model r;
  r.m = a.m * b.m;
  if (a.into == 0 || b.into == 0) return {true, r};
  if (a.from != b.into) return {false, r};
  r.into = a.into;
  r.from = b.from;
  return {true, r};
}
Model inverse(const Model &a) {
  Model r;
  r.into = a.from;
  r.from = a.into;
  r.m = inv(a.m);
  return r;
}

std::vector<Model> generators(const std::vector<int> &frames, const std::vector<int> &values) {
  std::vector<Model> g;
  for (int v : values) {
    Model m;
    m.m = value(v);
    g.push_back(m);
    for (int i : frames)
      for (int f : frames) {
        m.into = i;
        m.from = f;
        g.push_back(m);
      }
  }
  return g;
}

// One operation on (implementation, model); returns false if the operation is not applicable.
template <typename G>
struct Op {
  std::string name;
  // Model step: {accepted, new model}.
  std::function<std::pair<bool, Model>(const Model &)> model;
  // Implementation step.
  std::function<void(G &)> impl;
};

template <typename G>
std::vector<Op<G>> group_ops(const std::vector<int> &frames, const std::vector<int> &values) {
  std::vector<Op<G>> ops;
  for (const Model &g : generators(frames, values)) {
    const G gi = make<G>(g);
    const std::string n = mc::str(near(g.m, LM4::Identity()) ? "I" : "T", fp(g.into, g.from));
    ops.push_back({"x=x*" + n, [g](const Model &m) { return compose(m, g); }, [gi](G &x) { x = x * gi; }});
    ops.push_back({"x=" + n + "*x", [g](const Model &m) { return compose(g, m); }, [gi](G &x) { x = gi * x; }});
  }
  ops.push_back({"x=x*x", [](const Model &m) { return compose(m, m); }, [](G &x) { x = x * x; }});
  ops.push_back({"x=x.inverse()", [](const Model &m) { return std::make_pair(true, inverse(m)); }, [](G &x) { x = x.inverse(); }});
  ops.push_back({"x=x*x.inverse()", [](const Model &m) { return compose(m, inverse(m)); }, [](G &x) { x = x * x.inverse(); }});
  ops.push_back({"x=x.interp(1)", [](const Model &m) { return std::make_pair(true, m); }, [](G &x) { x = x.interp(1.0); }});
  ops.push_back({"x=x.interp(0)", [](Model m) { m.m = LM4::Identity(); return std::make_pair(true, m); }, [](G &x) { x = x.interp(0.0); }});
  std::vector<int> all = frames;
  all.push_back(0);
  for (int f : all) {
    ops.push_back({mc::str("x=x.interp(1,", NAMES[f], ")"),
                   [f](Model m) {
                     const bool ok = m.into != 0 && f != 0;
                     if (ok) m.from = f;
                     return std::make_pair(ok, m);
                   },
                   [f](G &x) { x = x.interp(1.0, frame(f)); }});
    for (int i : all)
      ops.push_back({mc::str("x.set_frames", fp(i, f)),
                     [i, f](Model m) {
                       const bool ok = i != 0 && f != 0;
                       if (ok) {
                         m.into = i;
                         m.from = f;
                       }
                       return std::make_pair(ok, m);
                     },
                     [i, f](G &x) { x.set_frames(frame(i), frame(f)); }});
  }
  ops.push_back({"x.set_unframed()", [](Model m) { m.into = m.from = 0; return std::make_pair(true, m); }, [](G &x) { x.set_unframed(); }});
  ops.push_back({"copy+move", [](const Model &m) { return std::make_pair(true, m); },
                 [](G &x) {
                   G y(x);
                   y.set_unframed();
                   G z;
                   z = std::move(x);
                   x = G(std::move(z));
                 }});
  return ops;
}

template <typename G>
void programs(const char *kind, const std::vector<Op<G>> &ops, int depth) {
  std::vector<int> w;
  mc::describe = [&] {
    std::string s = mc::str(kind, ": x=identity");
    for (int o : w) s += "; " + ops[o].name;
    return s;
  };
  uint64_t index = 0;
  std::function<void(const G &, const Model &)> rec = [&](const G &x, const Model &m) {
    if (static_cast<int>(w.size()) == depth) return;
    for (int o = 0; o < static_cast<int>(ops.size()); ++o) {
      if (w.size() == 1 && !mc::my_shard(index++)) continue;
      w.push_back(o);
      mc::beat();
      ++mc::transitions;
      if (static_cast<int>(w.size()) == depth) ++mc::traces;
      G y(x);
      const auto [ok, n] = ops[o].model(m);
      const bool rejected = mc::rejects([&] { ops[o].impl(y); });
      const Model &expect = ok ? n : m;
      if (rejected == ok)
        mc::violation(mc::str(kind, rejected ? "-rejected" : "-accepted"), mc::describe(), rejected ? "a valid operation was refused" : "a frame error went unnoticed");
      else {
        const std::string d = differs(y, expect);
        if (!d.empty()) mc::violation(mc::str(kind, ok ? "-result" : "-changed-by-rejection"), mc::describe(), d);
        mc::state(hash<G>(kind, expect));
        rec(y, expect);
      }
      mc::maybe_sample(mc::describe);
      w.pop_back();
    }
  };
  rec(G(), Model());
  mc::bounds[mc::str(kind, " programs")] = mc::str("all programs of up to ", depth, " operations out of ", ops.size());
}

// All constructors and factories with every pair of frames.
template <typename G>
void construction(const char *kind) {
  static std::string what;
  mc::describe = [] { return what; };
  for (int i = 0; i < 6; ++i)
    for (int f = 0; f < 6; ++f)
      for (int v = 0; v < 4; ++v)
        for (int way = 0; way < 16; ++way) {
          Model m;
          m.into = i;
          m.from = f;
          m.m = value(v);
          const Frame3 fi = frame(i), ff = frame(f);
          const M3 r = m.m.block<3, 3>(0, 0).cast<double>();
          const V3 t = m.m.block<3, 1>(0, 3).cast<double>();
          G g;
          bool done = true;
          what = mc::str(kind, " construction way ", way, " value ", v, " frames ", fp(i, f));
          const auto build = [&] {
            const G plain = [&] {
              if constexpr (std::is_same_v<G, SE3>)
                return SE3(SO3(r), t);
              else
                return SO3(r);
            }();
            const typename G::TangentVector alg = plain.log();
            switch (way) {
              case 0: g = G::exp(alg, fi, ff); return;
              case 1: g = G::exp(alg, Frame3(fi), Frame3(ff)); return;
              case 2: g = G::exp(alg, fi, Frame3(ff)); return;
              case 3: g = G::exp(alg, Frame3(fi), ff); return;
              case 4: if (v) { done = false; return; } g = G::identity(fi, ff); return;
              case 5: if (v) { done = false; return; } g = G::identity(Frame3(fi), Frame3(ff)); return;
              case 6: if (v) { done = false; return; } g = G::identity(fi, Frame3(ff)); return;
              case 7: if (v) { done = false; return; } g = G::identity(Frame3(fi), ff); return;
              default: break;
            }
            if constexpr (std::is_same_v<G, SE3>) {
              switch (way) {
                case 8: g = SE3(SO3(r), t, fi, ff); return;
                case 9: if (v & 1) { done = false; return; } g = SE3(SO3(r), fi, ff); return;
                case 10: if (v & 2) { done = false; return; } g = SE3(t, fi, ff); return;
                // A framed rotation does not lend its frames to the transform.
                case 11: g = SE3(SO3(r, frame(1), frame(2)), t, fi, ff); return;
                case 12: if (v & 1) { done = false; return; } g = SE3(SO3(r, frame(2), frame(1)), fi, ff); return;
                default: done = false;
              }
            } else {
              const Eigen::AngleAxisd aa(r);
              switch (way) {
                case 8: g = SO3(r, fi, ff); return;
                case 9: g = SO3(Eigen::Quaterniond(r), fi, ff); return;
                case 10: g = SO3(aa, fi, ff); return;
                case 11: g = SO3(aa.angle(), aa.axis(), fi, ff); return;
                default: done = false;
              }
            }
          };
          const bool rejected = mc::rejects(build);
          if (!done) continue;
          ++mc::traces;
          ++mc::transitions;
          const bool ok = (i == 0) == (f == 0);
          if (rejected == ok)
            mc::violation(mc::str(kind, "-construction"), what, rejected ? "valid frames refused" : "a half-framed object was built");
          else if (ok) {
            std::string d = differs(g, m);
            if constexpr (std::is_same_v<G, SE3>)
              if (d.empty() && g.rotation().is_framed()) d = "the rotation part carries frames of its own";
            if (!d.empty()) mc::violation(mc::str(kind, "-construction"), what, d);
          }
          mc::state(mc::mix(hash<G>(kind, m), way));
        }
  mc::bounds[mc::str(kind, " construction")] = "every constructor and factory (all argument categories) x 36 frame pairs x 4 values";
  // Comparison considers frames; the transform-only comparison does not.
  const auto gens = generators({1, 2, 4}, {0, 1, 2, 3});
  for (const Model &a : gens)
    for (const Model &b : gens) {
      what = mc::str(kind, " comparison of ", fp(a.into, a.from), " with ", fp(b.into, b.from), " values ", show(a.m), show(b.m));
      ++mc::traces;
      mc::transitions += 2;
      const bool same_value = near(project<G>(a.m), project<G>(b.m));
      const bool same = same_value && a.into == b.into && a.from == b.from;
      const G x = make<G>(a), y = make<G>(b);
      if (x.is_approx(y) != same) mc::violation(mc::str(kind, "-comparison"), what, "is_approx is wrong");
      if (x.is_approx_transform(y) != same_value) mc::violation(mc::str(kind, "-comparison"), what, "is_approx_transform is wrong");
    }
}

// Rotating framed vectors, and framed vector arithmetic.
template <typename G>
void rotations(const char *kind) {
  static std::string what;
  mc::describe = [] { return what; };
  for (const Model &g : generators({1, 2, 3, 4, 5}, {0, 1, 2, 3}))
    for (int f = 0; f < 6; ++f)
      for (int v = 0; v < 3; ++v) {
        what = mc::str(kind, " ", fp(g.into, g.from), " rotates vector ", v, " in frame ", NAMES[f]);
        ++mc::traces;
        ++mc::transitions;
        const V3 vec = v == 0 ? V3(0, 0, 0) : v == 1 ? V3(1, 2, 3) : V3(-4, 0, 5);
        const G x = make<G>(g);
        FramedVector<3> in(vec, frame(f)), out;
        const bool rejected = mc::rejects([&] { out = x.rotate(in); });
        const bool ok = g.into != 0 && g.from == f;
        mc::state(mc::mix(mc::mix(hash<G>(kind, g), f), v + 77));
        if (rejected == ok)
          mc::violation(mc::str(kind, "-rotate"), what, rejected ? "matching frames refused" : "a frame error went unnoticed");
        else if (ok) {
          if (!(out.frame() == frame(g.into))) mc::violation(mc::str(kind, "-rotate"), what, "result in the wrong frame");
          if (!near(out.vector(), (g.m.template block<3, 3>(0, 0) * vec.cast<long double>()).eval())) mc::violation(mc::str(kind, "-rotate"), what, "wrong vector");
        }
        if (!(in == FramedVector<3>(vec, frame(f)))) mc::violation(mc::str(kind, "-rotate"), what, "the operand was modified");
      }
  mc::bounds[mc::str(kind, " rotate")] = "26 transforms x 4 values x 6 vector frames x 3 vectors";
}

template <unsigned D>
resim::transforms::Frame<D> frame_d(int i) {
  return resim::transforms::Frame<D>(frame(i).id());
}
template <unsigned D>
void vectors() {
  static std::string what;
  mc::describe = [] { return what; };
  using FV = FramedVector<D>;
  using V = Eigen::Matrix<double, D, 1>;
  std::vector<V> values = {V::Zero(), V::Ones(), V::LinSpaced(1, D), -V::LinSpaced(1, D)};
  for (int a = 0; a < 6; ++a)
    for (int b = 0; b < 6; ++b)
      for (const V &u : values)
        for (const V &w : values) {
          what = mc::str("framed vectors of dimension ", D, ": ", show(u), " in ", NAMES[a], ", ", show(w), " in ", NAMES[b]);
          ++mc::traces;
          mc::transitions += 8;
          mc::state(mc::mix(mc::hash_str(what), D));
          const FV x(u, frame_d<D>(a)), y(w, frame_d<D>(b));
          FV z;
          const bool rejected = mc::rejects([&] { z = x + y; });
          if (rejected == (a == b))
            mc::violation("vector-sum", what, rejected ? "matching frames refused" : "a frame error went unnoticed");
          else if (a == b && (!(z.frame() == frame_d<D>(a)) || !near(z.vector(), (u + w).eval())))
            mc::violation("vector-sum", what, "wrong sum");
          for (double k : {0.0, 1.0, -2.5})
            for (const FV &s : {x * k, k * x})
              if (!(s.frame() == frame_d<D>(a)) || !near(s.vector(), (k * u).eval())) mc::violation("vector-scale", what, "wrong scaled vector");
          const V plain = x + w;
          if (!near(plain, (u + w).eval())) mc::violation("vector-sum", what, "wrong sum with an unframed vector");
          const bool eq = a == b && u == w;
          if ((x == y) != eq) mc::violation("vector-equality", what, "== is wrong");
          if (x.isApprox(y) != eq) mc::violation("vector-equality", what, "isApprox is wrong");
          FV m(x);
          m.set_frame(frame_d<D>(b));
          if (!(m.frame() == frame_d<D>(b)) || !(m.vector() == u)) mc::violation("vector-set-frame", what, "set_frame is wrong");
          if (!(x.frame() == frame_d<D>(a)) || !(x.vector() == u)) mc::violation("vector-set-frame", what, "an operand was modified");
        }
  const FV n1(values[1]), n2(values[1]);
  if (n1.frame().is_null() || n1.frame() == n2.frame()) mc::violation("vector-new-frame", "two vectors without explicit frame", "their frames are not fresh");
  mc::bounds[mc::str("framed vectors ", D)] = "36 frame pairs x 16 value pairs x all operations";
}

// Distances check their frames.
void distances() {
  static std::string what;
  mc::describe = [] { return what; };
  const auto gens = generators({1, 2, 4}, {0, 3});
  for (const Model &a : gens)
    for (const Model &b : gens) {
      const SE3 x = make<SE3>(a), y = make<SE3>(b);
      what = mc::str("distance of ", fp(a.into, a.from), " and ", fp(b.into, b.from));
      ++mc::traces;
      mc::transitions += 2;
      if (mc::rejects([&] { (void)resim::transforms::se3_distance(x, y); }) == (a.from == b.from)) mc::violation("distance-frames", what, "se3_distance checks the wrong thing");
      if (mc::rejects([&] { (void)resim::transforms::se3_inverse_distance(x, y); }) == (a.into == b.into)) mc::violation("distance-frames", what, "se3_inverse_distance checks the wrong thing");
    }
}

// Motion states: frames of products, inverses and conversions. A wrapper gives both kinds the group's interface.
template <typename J, typename G>
const G &pose(const J &j) {
  if constexpr (std::is_same_v<J, TwoJetL<G>>)
    return j.frame_from_ref();
  else
    return j.ref_from_frame();
}
template <typename J, typename G>
void jets(const char *kind, int depth) {
  const std::vector<Model> gens = generators({1, 2, 4}, {0, 3});
  typename G::TangentVector d = G::TangentVector::Ones();
  std::vector<J> impl;
  for (const Model &g : gens) impl.push_back(J(make<G>(g), near(g.m, LM4::Identity()) ? 0.0 * d : d, d));
  const int n = static_cast<int>(gens.size());
  std::vector<int> w;
  const auto name = [&](int o) {
    if (o < n) return mc::str("x=x*J", fp(gens[o].into, gens[o].from));
    if (o < 2 * n) return mc::str("x=J", fp(gens[o - n].into, gens[o - n].from), "*x");
    return std::string(o == 2 * n ? "x=x.inverse()" : o == 2 * n + 1 ? "x=convert(convert(x).inverse()).inverse()" : o == 2 * n + 2 ? "x=convert(convert(x))" : "x=identity(A,B)");
  };
  mc::describe = [&] {
    std::string s = mc::str(kind, ": x=J");
    for (size_t i = 0; i < w.size(); ++i) s += "; " + name(w[i]);
    return s;
  };
  uint64_t index = 0;
  std::function<void(const J &, const Model &)> rec = [&](const J &x, const Model &m) {
    if (static_cast<int>(w.size()) == depth) return;
    for (int o = 0; o < 2 * n + 4; ++o) {
      if (w.size() == 1 && !mc::my_shard(index++)) continue;
      w.push_back(o);
      mc::beat();
      ++mc::transitions;
      if (static_cast<int>(w.size()) == depth) ++mc::traces;
      J y(x);
      std::pair<bool, Model> r;
      if (o < n)
        r = compose(m, gens[o]);
      else if (o < 2 * n)
        r = compose(gens[o - n], m);
      else if (o == 2 * n)
        r = {true, inverse(m)};
      else if (o < 2 * n + 3)
        r = {true, m};
      else {
        Model i;
        i.into = 1;
        i.from = 2;
        r = {true, i};
      }
      std::string conv;
      const bool rejected = mc::rejects([&] {
        if (o < n)
          y = x * impl[o];
        else if (o < 2 * n)
          y = impl[o - n] * x;
        else if (o == 2 * n)
          y = x.inverse();
        else if (o == 2 * n + 3)
          y = J::identity(frame(1), frame(2));
        else if constexpr (std::is_same_v<J, TwoJetL<G>>) {
          conv = differs(x.right_two_jet().ref_from_frame(), inverse(m));
          y = o == 2 * n + 1 ? x.right_two_jet().inverse().left_two_jet().inverse() : x.right_two_jet().left_two_jet();
        } else {
          conv = differs(x.left_two_jet().frame_from_ref(), inverse(m));
          y = o == 2 * n + 1 ? x.left_two_jet().inverse().right_two_jet().inverse() : x.left_two_jet().right_two_jet();
        }
      });
      if (!conv.empty()) mc::violation(mc::str(kind, "-conversion"), mc::describe(), conv);
      if (rejected == r.first)
        mc::violation(mc::str(kind, rejected ? "-rejected" : "-accepted"), mc::describe(), rejected ? "a valid operation was refused" : "a frame error went unnoticed");
      else if (r.first) {
        const std::string e = differs(pose<J, G>(y), r.second);
        if (!e.empty()) mc::violation(mc::str(kind, "-result"), mc::describe(), e);
        mc::state(hash<G>(kind, r.second));
        rec(y, r.second);
      }
      w.pop_back();
    }
  };
  rec(J(), Model());
  mc::bounds[mc::str(kind, " programs")] = mc::str("all programs of up to ", depth, " of ", 2 * n + 4, " operations");
}
}  // namespace

int main(int argc, char **argv) {
  return mc::run(argc, argv, [] {
    if (mc::shard == 0) {
      construction<SE3>("SE3");
      construction<SO3>("SO3");
      rotations<SE3>("SE3");
      rotations<SO3>("SO3");
      vectors<2>();
      vectors<3>();
      distances();
    }
    const std::vector<int> frames = {1, 2, 4};
    programs<SE3>("SE3", group_ops<SE3>(frames, {0, 3}), 3);
    programs<SO3>("SO3", group_ops<SO3>(frames, {0, 3}), 3);
    jets<TwoJetL<SE3>, SE3>("left jet SE3", 3);
    jets<TwoJetR<SE3>, SE3>("right jet SE3", 3);
    jets<TwoJetL<SO3>, SO3>("left jet SO3", 3);
    jets<TwoJetR<SO3>, SO3>("right jet SO3", 3);
    programs<SE3>("SE3-deep", group_ops<SE3>({1, 4}, {0, 3}), 4);
    programs<SO3>("SO3-deep", group_ops<SO3>({1, 4}, {0, 3}), 4);
    if (mc::thorough) {
      programs<SE3>("SE3-deeper", group_ops<SE3>({1, 2, 4}, {0, 3}), 4);
      programs<SO3>("SO3-deeper", group_ops<SO3>({1, 2, 4}, {0, 3}), 4);
      programs<SE3>("SE3-deepest", group_ops<SE3>({1, 4}, {3}), 5);
      jets<TwoJetL<SE3>, SE3>("left jet SE3 deep", 4);
      jets<TwoJetR<SE3>, SE3>("right jet SE3 deep", 4);
      jets<TwoJetL<SO3>, SO3>("left jet SO3 deep", 4);
      jets<TwoJetR<SO3>, SO3>("right jet SO3 deep", 4);
    }
  });
}
