// C09: motion jets. All programs of compose / invert / convert up to a depth, on the real left and right jets, in lock step
// with truncated Taylor polynomials of matrices (value, first and second time derivative).
#include "geo.hh"
#include "poly.hh"
#include "resim/curves/two_jet.hh"

namespace {
using namespace geo;
using resim::curves::TwoJetL;
using resim::curves::TwoJetR;
std::string prefix;

template <typename G>
std::vector<G> poses(int depth = 3) {
  std::vector<G> r;
  const auto rots = octahedral();
  const V3 t1(1, -2, 3), t2(0.5, 0.25, -1);
  const auto add = [&](const M3 &m, const V3 &t) {
    if constexpr (std::is_same_v<G, SE3>)
      r.push_back(SE3(SO3(m), t));
    else
      r.push_back(SO3(m));
  };
  add(M3::Identity(), V3::Zero());
  add(rots[7], t1);                                             // a cube rotation
  add(V3(-1, -1, 1).asDiagonal().toDenseMatrix(), t2);           // half turn
  add(Eigen::AngleAxisd(0.7, V3(1, -2, 2) / 3).toRotationMatrix(), t1);
  if (depth < 4) {
    add(rots[13], V3(0, 0, 0));
    add(Eigen::AngleAxisd(1e-4, V3(0, 0, 1)).toRotationMatrix(), V3(0, 10, 0));
  }
  return r;
}
template <typename G>
std::vector<typename G::TangentVector> velocities() {
  using T = typename G::TangentVector;
  T a = T::LinSpaced(0.5, 2.0), b = T::Zero();
  b(1) = -1.5;
  b(T::RowsAtCompileTime - 1) += 1;
  return {T::Zero(), a, b};
}

// J is the kind under test; C the other kind.
template <typename J, typename G>
void programs(const char *kind, int depth) {
  std::vector<J> gens;
  const auto vs = velocities<G>();
  for (const G &g : poses<G>(depth))
    for (size_t v = 0; v < vs.size(); ++v)
      for (size_t a = 0; a < vs.size(); ++a)
        if (depth < 4 || (v + a) % 2 == 0) gens.push_back(J(g, vs[v], vs[a]));
  const int n = static_cast<int>(gens.size());
  std::vector<int> w;
  const int extra = 5;
  mc::describe = [&] {
    std::string s = mc::str(kind, ":");
    for (int o : w) {
      if (o < n)
        s += mc::str(" x=x*J", o);
      else if (o < 2 * n)
        s += mc::str(" x=J", o - n, "*x");
      else
        s += std::vector<std::string>{" x=x.inverse()", " x=convert(convert(x))", " x=convert(convert(x).inverse())", " x=x*x", " x=set(get(x))"}[o - 2 * n];
    }
    return s;
  };
  const auto other = [](const J &x) {
    if constexpr (std::is_same_v<J, TwoJetL<G>>)
      return x.right_two_jet();
    else
      return x.left_two_jet();
  };
  const auto back = [](const auto &x) {
    if constexpr (std::is_same_v<J, TwoJetL<G>>)
      return x.left_two_jet();
    else
      return x.right_two_jet();
  };
  uint64_t index = 0;
  std::function<void(const J &, const Poly &)> rec = [&](const J &x, const Poly &p) {
    if (static_cast<int>(w.size()) == depth) return;
    for (int o = 0; o < 2 * n + extra; ++o) {
      if (w.empty() && o >= n) continue;  // the first operation picks the start
      if (w.size() == 1 && !mc::my_shard(index++)) continue;
      w.push_back(o);
      mc::beat();
      ++mc::transitions;
      if (static_cast<int>(w.size()) == depth) ++mc::traces;
      J y;
      Poly q;
      if (o < n) {
        y = x * gens[o];
        q = p * poly(gens[o]);
      } else if (o < 2 * n) {
        y = gens[o - n] * x;
        q = poly(gens[o - n]) * p;
      } else if (o == 2 * n) {
        y = x.inverse();
        q = inverse(p);
      } else if (o == 2 * n + 1) {
        // Conversion itself inverts the pose; converting twice is the identity.
        const auto c = other(x);
        if (!(distance(poly(c), inverse(p)) <= 1e-13L * size(inverse(p)) * size(p))) mc::violation(mc::str(kind, "-conversion"), mc::describe(), "the converted jet describes another motion");
        y = back(c);
        q = p;
      } else if (o == 2 * n + 2) {
        y = back(other(x).inverse());
        q = inverse(p);
      } else if (o == 2 * n + 3) {
        y = x * x;
        q = p * p;
      } else {
        if constexpr (std::is_same_v<J, TwoJetL<G>>) {
          y.set_d2_frame_from_ref(x.d2_frame_from_ref());
          y.set_frame_from_ref(x.frame_from_ref());
          y.set_d_frame_from_ref(x.d_frame_from_ref());
        } else {
          y.set_d2_ref_from_frame(x.d2_ref_from_frame());
          y.set_ref_from_frame(x.ref_from_frame());
          y.set_d_ref_from_frame(x.d_ref_from_frame());
        }
        q = p;
      }
      const Poly r = poly(y);
      if (!(distance(r, q) <= 1e-13L * size(q) * size(p)))
        mc::violation(mc::str(kind, err(r.m0, q.m0) > 1e-13L * size(q) * size(p) ? "-pose" : err(r.m1, q.m1) > 1e-13L * size(q) * size(p) ? "-velocity" : "-acceleration"), mc::describe(),
                      mc::str("off by ", static_cast<double>(distance(r, q))));
      mc::state(mc::mix(mc::hash_str(kind), mc::hash_str(show(q.m0) + show(q.m1) + show(q.m2))));
      mc::maybe_sample(mc::describe);
      // Composition in the other form agrees: convert, operate, convert back (order reversed by the inversion).
      if (o < n && w.size() > 1) {
        ++mc::transitions;
        const J z = back(other(gens[o]) * other(x));
        if (!(distance(poly(z), q) <= 1e-13L * size(q) * size(p) * size(poly(gens[o])))) mc::violation(mc::str(kind, "-interchange"), mc::describe(), "composing in the other form gives another motion");
      }
      rec(y, q);
      w.pop_back();
    }
  };
  rec(J(), Poly());
  mc::bounds[mc::str(kind, " depth ", depth)] = mc::str("all programs of up to ", depth, " operations over ", n, " jets");
}

template <typename J, typename G>
void comparison(const char *kind) {
  std::vector<J> gens;
  for (const G &g : poses<G>())
    for (const auto &v : velocities<G>())
      for (const auto &a : velocities<G>())
        for (int f = 0; f < 2; ++f) {
          G h = g;
          if (f) h.set_frames(frame(1), frame(2));
          gens.push_back(J(h, v, a));
        }
  for (size_t i = 0; i < gens.size(); ++i)
    for (size_t j = 0; j < gens.size(); ++j) {
      ++mc::transitions;
      ++mc::traces;
      if (gens[i].is_approx(gens[j]) != (i == j)) mc::violation(mc::str(kind, "-comparison"), mc::str("jets ", i, " and ", j), mc::str("is_approx says ", gens[i].is_approx(gens[j])));
    }
  const Frame3 fa = frame(1), fb = frame(2);
  const J id = J::identity(fa, fb);
  if (distance(poly(id), Poly()) != 0) mc::violation(mc::str(kind, "-identity"), "identity()", "not the identity");
}
}  // namespace

int main(int argc, char **argv) {
  return mc::run(argc, argv, [] {
    if (mc::shard == 0) {
      comparison<TwoJetL<SE3>, SE3>("left SE3");
      comparison<TwoJetR<SE3>, SE3>("right SE3");
      comparison<TwoJetL<SO3>, SO3>("left SO3");
      comparison<TwoJetR<SO3>, SO3>("right SO3");
    }
    for (int depth = 3; depth <= (mc::thorough ? 4 : 3); ++depth) {
      programs<TwoJetL<SE3>, SE3>("left SE3", depth);
      programs<TwoJetR<SE3>, SE3>("right SE3", depth);
      programs<TwoJetL<SO3>, SO3>("left SO3", depth);
      programs<TwoJetR<SO3>, SO3>("right SO3", depth);
    }
  });
}
