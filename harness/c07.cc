// C07: group laws and actions, exhaustively over finite sets closed under the laws: the 24 rotations of the cube with a
// lattice of translations (exact arithmetic), plus general elements, in all pairs and triples, and long products.
#include "geo.hh"

namespace {
using namespace geo;

std::string what;

struct E {
  SE3 g;
  LM4 m;
};

long double scale(const LM4 &m) { return 1 + m.cwiseAbs().maxCoeff(); }

E lattice(const M3 &r, const V3 &t) {
  E e;
  e.g = SE3(SO3(r), t);
  e.m = LM4::Identity();
  e.m.block<3, 3>(0, 0) = r.cast<long double>();
  e.m.block<3, 1>(0, 3) = t.cast<long double>();
  return e;
}
void bad(const char *key, const std::string &detail) { mc::violation(key, what, detail); }

L6 vee(const LM4 &m) {
  L6 x;
  x << m(2, 1), m(0, 2), m(1, 0), m(0, 3), m(1, 3), m(2, 3);
  return x;
}

std::vector<V6> tangents() {
  std::vector<V6> r;
  for (int i = 0; i < 6; ++i) r.push_back(V6::Unit(i));
  V6 v;
  v << 1, -2, 3, -4, 5, 6;
  r.push_back(v);
  return r;
}
std::vector<V3> points() { return {V3(0, 0, 0), V3(1, 0, 0), V3(0, 1, 0), V3(0, 0, 1), V3(3, -5, 7)}; }

// Everything that concerns one element.
void single(const E &a, const std::string &name) {
  what = name;
  mc::beat();
  ++mc::traces;
  mc::transitions += 30;
  const long double tol = 1e-13L * scale(a.m);
  if (!near(matrix(a.g), a.m, tol)) bad("construction", show(matrix(a.g)));
  const SE3 &g = a.g;
  const SO3 &r = g.rotation();
  if (!near(matrix(g.inverse()), inv(a.m), tol)) bad("inverse", show(matrix(g.inverse())));
  if (!near(matrix(g.inverse() * g), LM4::Identity().eval(), tol * scale(a.m))) bad("inverse", "does not cancel on the left");
  if (!near(matrix(g * g.inverse()), LM4::Identity().eval(), tol * scale(a.m))) bad("inverse", "does not cancel on the right");
  if (!near(matrix(g.inverse().inverse()), a.m, tol)) bad("inverse", "twice is not the identity");
  if (!near(matrix(g * SE3::identity()), a.m, tol) || !near(matrix(SE3::identity() * g), a.m, tol)) bad("identity", "not neutral");
  if (!near(matrix(r.inverse() * r), LM4::Identity().eval()) || !near(matrix(r * r.inverse()), LM4::Identity().eval())) bad("rotation-inverse", "does not cancel");
  if (!near(matrix(r * SO3::identity()), matrix(r)) || !near(matrix(SO3::identity() * r), matrix(r))) bad("rotation-identity", "not neutral");
  if (!near(g.translation(), a.m.block<3, 1>(0, 3), tol)) bad("parts", "translation");
  if (!near(r.rotation_matrix(), a.m.block<3, 3>(0, 0))) bad("parts", "rotation");
  for (const V3 &p : points()) {
    const L3 q = p.cast<long double>();
    if (!near(g * p, (a.m.block<3, 3>(0, 0) * q + a.m.block<3, 1>(0, 3)).eval(), tol)) bad("action", mc::str("on point ", show(p)));
    const L3 rot = a.m.block<3, 3>(0, 0) * q;
    if (!near(g.rotate(p), rot)) bad("rotate", mc::str("vector ", show(p)));
    if (!near(r * p, rot) || !near(r.rotate(p), rot)) bad("rotation-action", mc::str("on ", show(p)));
    if (fabsl(g.rotate(p).norm() - p.norm()) > 1e-9L) bad("rotate", "length not preserved");
    if (!near((g.inverse() * (g * p)).eval(), p, tol * scale(a.m))) bad("action", "inverse does not undo");
  }
  // Adjoint: conjugation of the tangent matrix.
  const M6 adj = g.adjoint();
  const M3 adj3 = r.adjoint();
  for (const V6 &x : tangents()) {
    const L6 expect = vee(a.m * hat(L6(x.cast<long double>())) * inv(a.m));
    if (!near(g.adjoint_times(x), expect, tol * scale(a.m))) bad("adjoint", mc::str("product form on ", show(x), ": ", show(g.adjoint_times(x))));
    if (!near((adj * x).eval(), expect, tol * scale(a.m))) bad("adjoint", mc::str("matrix form on ", show(x)));
    const V3 w = x.head<3>();
    const LM4 c = matrix(r) * hat(L3(w.cast<long double>())) * inv(matrix(r));
    if (!near(r.adjoint_times(w), vee(c).head<3>()) || !near((adj3 * w).eval(), vee(c).head<3>())) bad("rotation-adjoint", mc::str("on ", show(w)));
    if (!near(SE3::tangent_vector_from_parts(SE3::tangent_vector_rotation_part(x), SE3::tangent_vector_translation_part(x)), x)) bad("tangent-parts", show(x));
    if (!near(SE3::tangent_vector_rotation_part(x), x.head<3>()) || !near(SE3::tangent_vector_translation_part(x), x.tail<3>())) bad("tangent-parts", show(x));
    V6 y = V6::Zero();
    SE3::tangent_vector_rotation_part(y) = x.head<3>();
    SE3::tangent_vector_translation_part(y) = x.tail<3>();
    if (!near(y, x)) bad("tangent-parts", "writing through the parts");
  }
  // All rotation representations agree.
  const Eigen::Quaterniond q = r.quaternion();
  if (std::fabs(q.norm() - 1) > 1e-9) bad("quaternion", "not of unit length");
  if (!near(matrix(SO3(q)), matrix(r)) || !near(matrix(SO3(Eigen::Quaterniond(-q.w(), -q.x(), -q.y(), -q.z()))), matrix(r))) bad("quaternion", "does not reproduce the rotation");
  const Eigen::AngleAxisd aa(r.rotation_matrix());
  if (!near(matrix(SO3(aa)), matrix(r)) || !near(matrix(SO3(aa.angle(), aa.axis())), matrix(r)) || !near(matrix(SO3(-aa.angle(), -aa.axis())), matrix(r))) bad("angle-axis", "does not reproduce the rotation");
  if (!near(matrix(SE3(r)).block<3, 3>(0, 0), matrix(r).block<3, 3>(0, 0)) || SE3(r).translation().norm() != 0) bad("parts", "rotation-only construction");
  if (!near(matrix(SE3(g.translation())).block<3, 1>(0, 3), a.m.block<3, 1>(0, 3), tol) || !near(SE3(g.translation()).rotation().rotation_matrix(), M3::Identity().eval())) bad("parts", "translation-only construction");
  if (!g.is_approx(g) || !g.is_approx_transform(g) || !r.is_approx(r)) bad("comparison", "not equal to itself");
  // Small but genuine differences (a part in 1e9, far above rounding) in every direction, and in the frames.
  for (int k = 0; k < 6; ++k) {
    const double size = 1e-9 * (1 + g.translation().norm()) * (k % 2 ? 1 : -1);
    V3 step = V3::Zero();
    step(k / 2) = size;
    const SE3 moved(r, V3(g.translation() + step));
    step(k / 2) = k % 2 ? 1e-8 : -1e-8;
    const SO3 turned(M3(Eigen::AngleAxisd(step(k / 2), V3::Unit(k / 2)).toRotationMatrix() * r.rotation_matrix()));
    mc::transitions += 6;
    if (g.is_approx(moved) || moved.is_approx(g) || g.is_approx_transform(moved)) bad("comparison", mc::str("equal to a transform ", size, " away"));
    if (r.is_approx(turned) || turned.is_approx_transform(r)) bad("comparison", "equal to a rotation 1e-8 away");
    if (g.is_approx(SE3(turned, g.translation())) || SE3(turned, g.translation()).is_approx_transform(g)) bad("comparison", "equal to a transform rotated by 1e-8");
  }
  SE3 fa = g, fb = g, fc = g;
  fa.set_frames(frame(1), frame(2));
  fb.set_frames(frame(1), frame(3));
  fc.set_frames(frame(3), frame(2));
  if (!fa.is_approx(fa) || fa.is_approx(fb) || fa.is_approx(fc) || fa.is_approx(g) || g.is_approx(fa) || !fa.is_approx_transform(fb) || !fa.is_approx_transform(g)) bad("comparison", "frames");
}

void pair(const E &a, const E &b, const std::string &na, const std::string &nb) {
  what = na + " , " + nb;
  mc::beat();
  ++mc::traces;
  mc::transitions += 12;
  const LM4 m = a.m * b.m;
  const long double tol = 1e-13L * scale(a.m) * scale(b.m);
  const SE3 c = a.g * b.g;
  if (!near(matrix(c), m, tol)) bad("composition", show(matrix(c)));
  if (!near(matrix(a.g.rotation() * b.g.rotation()).block<3, 3>(0, 0), m.block<3, 3>(0, 0))) bad("rotation-composition", "wrong product");
  if (fabsl(c.rotation().rotation_matrix().determinant() - 1) > 1e-9L) bad("composition", "handedness not preserved");
  mc::state(mc::hash_str(show(m)));
  for (const V3 &p : points())
    if (!near(c * p, (a.g * (b.g * p)).eval(), tol)) bad("action", "composed action differs from acting in turn");
  if (!near(matrix(c.inverse()), matrix(b.g.inverse() * a.g.inverse()), tol * scale(a.m) * scale(b.m))) bad("inverse", "of a product");
  if (!near(c.adjoint(), (a.g.adjoint() * b.g.adjoint()).eval(), tol * scale(a.m) * scale(b.m))) bad("adjoint", "is not a homomorphism");
  // Distances: both definitions of the documentation.
  const long double ab = (a.m * inv(b.m)).block<3, 1>(0, 3).norm();  // operands seen as a_from_ref, b_from_ref
  const long double ba = (inv(a.m) * b.m).block<3, 1>(0, 3).norm();  // operands seen as ref_from_a, ref_from_b
  if (fabsl(resim::transforms::se3_distance(a.g, b.g) - ab) > tol) bad("distance", mc::str("se3_distance ", resim::transforms::se3_distance(a.g, b.g), ", expected ", static_cast<double>(ab)));
  if (fabsl(resim::transforms::se3_inverse_distance(a.g, b.g) - ba) > tol)
    bad("inverse-distance", mc::str("se3_inverse_distance ", resim::transforms::se3_inverse_distance(a.g, b.g), ", expected ", static_cast<double>(ba)));
  // Comparison, on the elements themselves.
  const bool same_r = near(a.m.block<3, 3>(0, 0), b.m.block<3, 3>(0, 0)), same = near(a.m, b.m);
  if (a.g.is_approx(b.g) != same || a.g.is_approx_transform(b.g) != same) bad("comparison", mc::str("is_approx says ", a.g.is_approx(b.g)));
  if (a.g.rotation().is_approx(b.g.rotation()) != same_r || a.g.rotation().is_approx_transform(b.g.rotation()) != same_r) bad("comparison", "rotation is_approx");
  mc::maybe_sample([] { return what; });
}
}  // namespace

int main(int argc, char **argv) {
  return mc::run(argc, argv, [] {
    mc::describe = [] { return what; };
    const auto rots = octahedral();
    std::vector<E> all;
    std::vector<std::string> names;
    std::vector<V3> trans;
    for (int i = 0; i < 27; ++i) trans.push_back(V3(i % 3 - 1, i / 3 % 3 - 1, i / 9 - 1));
    for (const V3 &t : {V3(0, -2, 0), V3(0, 0, 3), V3(1, 2, 3), V3(2, -1, -2), V3(0, 4, -1)}) trans.push_back(t);
    if (mc::thorough)
      for (int i = 0; i < 125; ++i)
        if (const V3 t(i % 5 - 2, i / 5 % 5 - 2, i / 25 - 2); t.cwiseAbs().maxCoeff() > 1.5) trans.push_back(t);
    for (size_t r = 0; r < rots.size(); ++r)
      for (const V3 &t : trans) {
        all.push_back(lattice(rots[r], t));
        names.push_back(mc::str("rotation #", r, " ", show(t)));
      }
    const size_t lattice_count = all.size();
    // General elements: from matrices computed independently, all angle ranges, small and large translations.
    for (double angle : {1e-7, 0.3, 1.0, 2.0, 3.0, 3.14159})
      for (const V3 &axis : {V3(0, 0, 1), V3(1, -2, 2), V3(0.3, 0.9, -0.1)})
        for (const V3 &t : {V3(0.5, -0.25, 3), V3(1e-6, 0, 1e-6), V3(4e5, -3e6, 10.5)}) {
          E e;
          e.m = expm(hat(L3(axis.normalized().cast<long double>() * angle)));
          e.m.block<3, 1>(0, 3) = t.cast<long double>();
          const M3 r = e.m.block<3, 3>(0, 0).cast<double>();
          e.g = SE3(SO3(r), t);
          e.m.block<3, 3>(0, 0) = r.cast<long double>();
          all.push_back(e);
          names.push_back(mc::str("angle ", angle, " about ", show(axis), " translation ", show(t)));
        }
    uint64_t index = 0;
    for (size_t i = 0; i < all.size(); ++i)
      if (mc::my_shard(index++)) single(all[i], names[i]);
    for (size_t i = 0; i < all.size(); ++i)
      for (size_t j = 0; j < all.size(); ++j)
        if (mc::my_shard(index++)) pair(all[i], all[j], names[i], names[j]);
    mc::bounds["pairs"] = mc::str("all pairs of ", all.size(), " elements (24 cube rotations x ", trans.size(), " lattice translations, ", all.size() - lattice_count, " general)");
    // Associativity: all triples over 24 rotations x 3 translations (exact).
    std::vector<E> small;
    for (const M3 &r : rots)
      for (const V3 &t : {V3(0, 0, 0), V3(1, 0, -2), V3(0, 3, 1)})
        small.push_back(lattice(r, t));
    for (size_t i = 0; i < small.size(); ++i) {
      if (!mc::my_shard(index++)) continue;
      for (size_t j = 0; j < small.size(); ++j)
        for (size_t k = 0; k < small.size(); ++k) {
          what = mc::str("triple ", i, ",", j, ",", k);
          mc::beat();
          ++mc::traces;
          mc::transitions += 4;
          const LM4 m = small[i].m * small[j].m * small[k].m;
          const SE3 l = (small[i].g * small[j].g) * small[k].g, r = small[i].g * (small[j].g * small[k].g);
          if (!near(matrix(l), m) || !near(matrix(r), m)) bad("associativity", show(matrix(l)));
        }
    }
    mc::bounds["triples"] = mc::str("all triples of ", small.size());
    // Units: the same laws hold at every scale of the translations, relative to that scale.
    for (double unit : {1e-100, 1e-30, 1e-15, 1e-12, 1e-10, 1e-9, 1e-8, 1e-6, 1e-4, 1e-2, 1e3, 1e6, 1e9, 1e15, 1e100})
      for (size_t i = 0; i < small.size(); ++i) {
        if (!mc::my_shard(index++)) continue;
        for (size_t j = 0; j < small.size(); ++j) {
          what = mc::str("pair ", i, ",", j, " with translations times ", unit);
          mc::beat();
          ++mc::traces;
          mc::transitions += 7;
          const auto scaled = [&](const E &e) { return SE3(e.g.rotation(), V3(e.g.translation() * unit)); };
          const SE3 a = scaled(small[i]), b = scaled(small[j]);
          const LM4 ab = small[i].m * small[j].m, ai = inv(small[i].m), bi = inv(small[j].m);
          const auto t = [](const LM4 &m) { return L3(m.block<3, 1>(0, 3)); };
          const auto off = [&](const V3 &got, const L3 &expect) { return !near(V3(got / unit), expect, 1e-12L); };
          if (off((a * b).translation(), t(ab))) bad("units", mc::str("composition ", show((a * b).translation())));
          if (off(a.inverse().translation(), t(ai))) bad("units", mc::str("inverse ", show(a.inverse().translation())));
          if (off(a * b.translation(), t(ab))) bad("units", mc::str("action ", show(a * b.translation())));
          if (off(a.rotate(b.translation()), L3(t(ab) - t(small[i].m)))) bad("units", mc::str("rotate ", show(a.rotate(b.translation()))));
          const double d0 = resim::transforms::se3_distance(a, b), d1 = resim::transforms::se3_inverse_distance(a, b);
          if (fabsl(d0 / unit - t(small[i].m * bi).norm()) > 1e-12L) bad("units", mc::str("se3_distance ", d0));
          if (fabsl(d1 / unit - t(ai * small[j].m).norm()) > 1e-12L) bad("units", mc::str("se3_inverse_distance ", d1));
        }
      }
    mc::bounds["units"] = mc::str("all pairs of ", small.size(), " elements with translations in 15 units from 1e-100 to 1e100");
    // Long products: every word of length up to 3 over 6 generators, repeated; drift must stay at rounding level.
    std::vector<E> gens = {small[1], small[17], small[40], all[lattice_count + 7], all[lattice_count + 20], all[lattice_count + 31]};
    mc::all_words(6, 3, [&](const std::vector<int> &w) {
      if (w.empty() || !mc::my_shard(index++)) return true;
      what = "repeated product";
      for (int x : w) what += mc::str(" ", x);
      SE3 g;
      LM4 m = LM4::Identity();
      ++mc::traces;
      for (int n = 0; n < 600; ++n) {
        const E &e = gens[w[n % w.size()]];
        g = g * e.g;
        m = (m * e.m).eval();
        ++mc::transitions;
        mc::beat();
        if (!near(matrix(g), m, 1e-9L * scale(m) * (n + 10))) {
          bad("long-product", mc::str("after ", n + 1, " factors: ", show(matrix(g))));
          break;
        }
      }
      return true;
    });
    mc::bounds["long products"] = "all words of length <= 3 over 6 generators, repeated to 600 factors";
    // Algebra: bracket and adjoint of tangent vectors.
    if (mc::shard == 0) {
      std::vector<V6> ts = tangents();
      V6 v;
      v << 0.5, 2, -1, 3, 0, -7;
      ts.push_back(v);
      ts.push_back(V6::Zero());
      for (const V6 &x : ts)
        for (const V6 &y : ts) {
          what = mc::str("bracket of ", show(x), " and ", show(y));
          ++mc::traces;
          mc::transitions += 4;
          const LM4 X = hat(L6(x.cast<long double>())), Y = hat(L6(y.cast<long double>()));
          const L6 expect = vee(X * Y - Y * X);
          mc::state(mc::hash_str(what));
          if (!near(SE3::adjoint_times(x, y), expect) || !near((SE3::adjoint(x) * y).eval(), expect)) bad("bracket", show(SE3::adjoint_times(x, y)));
          const V3 a = x.head<3>(), b = y.head<3>();
          const LM4 A = hat(L3(a.cast<long double>())), B = hat(L3(b.cast<long double>()));
          const L3 e3 = vee(A * B - B * A).head<3>();
          if (!near(SO3::adjoint_times(a, b), e3) || !near((SO3::adjoint(a) * b).eval(), e3)) bad("rotation-bracket", show(SO3::adjoint_times(a, b)));
        }
    }
  });
}
