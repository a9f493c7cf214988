// C08: exponential, logarithm, interpolation and arc length over a complete grid of axes x angle regimes x translations,
// against the matrix exponential in extended precision.
#include "geo.hh"
#include "resim/transforms/cross_matrix.hh"
#include "resim/transforms/liegroup_exp_diff.hh"

namespace {
using namespace geo;
const long double PI = acosl(-1.0L);
std::string what;
void bad(const char *key, const std::string &detail) { mc::violation(key, what, detail); }

std::vector<double> angles() {
  std::set<double> s = {0, 5e-324, 1e-300, 1e-160, 1e-154, 1e-100, 1e-20, 1e-15, 1e-12, 1e-10, 1e-9, 1e-8, 1.5e-8, 1e-7, 1e-6, 1e-5, 1e-4, 5e-4, 1e-3, 1.5e-3};
  // Both sides of every threshold an implementation may use: 2^-k, 10^-k, 2e-3 (series), 3 (large angle), multiples of pi/2.
  const auto around = [&](double c) {
    for (double d : {0.0, 1e-15, 1e-12, 1e-9, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2})
      for (double sgn : {-1.0, 1.0})
        if (c + sgn * d >= 0) s.insert(c + sgn * d);
    s.insert(std::nextafter(c, 0.0));
    s.insert(std::nextafter(c, 100.0));
  };
  around(2e-3);
  around(3.0);
  around(1.0);
  for (int k = 1; k <= 16; ++k) around(static_cast<double>(PI * k / 4));
  around(100.0);
  const int n = mc::thorough ? 2000 : 260;
  for (int i = 1; i <= n; ++i) s.insert(i * 13.0 / n);
  for (int i = 1; i <= 60; ++i) s.insert(i * 1e-4);   // densely across the series threshold
  for (int i = 1; i <= 40; ++i) s.insert(std::pow(10.0, -i / 4.0));
  return {s.begin(), s.end()};
}
std::vector<V3> axes() {
  std::vector<V3> r;
  for (int i = 0; i < 27; ++i)
    if (i != 13) r.push_back(V3(i % 3 - 1, i / 3 % 3 - 1, i / 9 - 1));
  for (const V3 &v : {V3(1, 2, 3), V3(-0.3, 0.9, 0.05), V3(1, 1e-9, 0), V3(1e-5, 0, -1), V3(0.6, -0.8, 1e-14)}) r.push_back(v);
  for (V3 &v : r) v.normalize();
  return r;
}
std::vector<V3> translations() { return {V3(0, 0, 0), V3(1, 0, 0), V3(0.5, -2, 3), V3(1e-9, 2e-9, -1e-9), V3(-3e5, 1e6, 4e5)}; }

// Left Jacobian of the rotation exponential: sum of hat^k / (k+1)!, by integrating expm.
LM3 jacobian(const L3 &w) {
  // d/ds of [[hat, I],[0,0]] exponential: use the 6x6 block trick with scaling and squaring.
  Eigen::Matrix<long double, 6, 6> b = Eigen::Matrix<long double, 6, 6>::Zero();
  b.block<3, 3>(0, 0) = hat3(w);
  b.block<3, 3>(0, 3) = LM3::Identity();
  return expm(b).block<3, 3>(0, 3);
}

void one(const V3 &axis, double angle, const V3 &t) {
  mc::beat();
  ++mc::traces;
  const V3 w = axis * angle;
  V6 alg;
  alg.head<3>() = w;
  alg.tail<3>() = t;
  what = mc::str("rotation vector ", show(w), " (angle ", angle, "), translation velocity ", show(t));
  mc::state(mc::hash_str(what));
  const long double ts = t.cwiseAbs().maxCoeff();
  const long double tol = 1e-13L + 4e-16L * angle, ttol = (1e-12L + 1e-15L * angle) * ts;
  const LM4 m = expm(hat(L6(alg.cast<long double>())));
  mc::transitions += 10;
  const SE3 g = SE3::exp(alg);
  if (!near(g.rotation().rotation_matrix(), m.block<3, 3>(0, 0), tol)) bad("exp", mc::str("rotation off by ", static_cast<double>(err(g.rotation().rotation_matrix(), m.block<3, 3>(0, 0)))));
  if (!near(g.translation(), m.block<3, 1>(0, 3), ttol)) bad("exp", mc::str("translation ", show(g.translation()), ", expected ", show(m.block<3, 1>(0, 3))));
  const SO3 r = SO3::exp(w);
  if (!near(r.rotation_matrix(), m.block<3, 3>(0, 0), tol)) bad("rotation-exp", "wrong rotation");

  // The logarithm of an independently built transform reproduces it, and is the shortest rotation.
  const SE3 x(SO3(M3(m.block<3, 3>(0, 0).cast<double>())), V3(m.block<3, 1>(0, 3).cast<double>()));
  const V6 l = x.log();
  if (!(l.head<3>().norm() <= static_cast<double>(PI) + 1e-9)) bad("log", mc::str("rotation angle ", l.head<3>().norm(), " exceeds a half turn"));
  const LM4 back = expm(hat(L6(l.cast<long double>())));
  if (!near(back.block<3, 3>(0, 0), m.block<3, 3>(0, 0), tol)) bad("log", mc::str("rotation not reproduced, log ", show(l)));
  const long double xt = m.block<3, 1>(0, 3).cwiseAbs().maxCoeff();
  const long double ltol = 1e-12L * std::max(xt, static_cast<long double>(l.tail<3>().cwiseAbs().maxCoeff()));
  if (!near(back.block<3, 1>(0, 3), m.block<3, 1>(0, 3), ltol)) bad("log", mc::str("translation not reproduced: ", show(back.block<3, 1>(0, 3)), ", expected ", show(m.block<3, 1>(0, 3)), ", log ", show(l)));
  const V3 l3 = SO3(M3(m.block<3, 3>(0, 0).cast<double>())).log();
  if (!near(expm(hat(L3(l3.cast<long double>()))).block<3, 3>(0, 0), m.block<3, 3>(0, 0), tol) || !(l3.norm() <= static_cast<double>(PI) + 1e-9)) bad("rotation-log", show(l3));
  // Below a half turn it is the tangent vector itself (absolute tolerance: a rotation matrix holds no more).
  if (angle < PI - 1e-5) {
    if (!near(l.head<3>(), w, 1e-12L) || !near(l3, w, 1e-12L)) bad("log-exp", mc::str("rotation vector came back as ", show(l.head<3>())));
    if (!near(l.tail<3>(), t, 1e-11L * ts * (1 + angle))) bad("log-exp", mc::str("translation velocity came back as ", show(l.tail<3>())));
  }
  if (std::fabs(x.arc_length() - l.tail<3>().norm()) > 1e-9 * (1 + ts)) bad("arc-length", mc::str(x.arc_length(), ", log translation ", l.tail<3>().norm()));
  if (angle < PI - 1e-5 && fabsl(x.arc_length() - t.norm()) > 4e-9L * (ts + 1e-9L) * (1 + angle)) bad("arc-length", mc::str(x.arc_length(), ", expected ", t.norm()));

  // Interpolation follows the constant-velocity path.
  for (double f : {0.0, 1.0, 0.5, 0.25, 1.5, 3.0, -1.0, -0.3, 1e-9, 0.999999}) {
    ++mc::transitions;
    const SE3 i = x.interp(f);
    const LM4 e = expm(hat(L6(l.cast<long double>() * static_cast<long double>(f))));
    const long double it = 1e-12L * (l.tail<3>().cwiseAbs().maxCoeff()) * (1 + fabsl(f));
    if (!near(matrix(i).block<3, 3>(0, 0), e.block<3, 3>(0, 0), tol * 4) || !near(i.translation(), e.block<3, 1>(0, 3), it)) bad("interp", mc::str("fraction ", f, ": ", show(matrix(i)), ", expected ", show(e)));
    const SO3 i3 = x.rotation().interp(f);
    if (!near(i3.rotation_matrix(), expm(hat(L3(l3.cast<long double>() * static_cast<long double>(f)))).block<3, 3>(0, 0), tol * 4)) bad("rotation-interp", mc::str("fraction ", f));
  }
  if (!near(matrix(x.interp(0.0)), LM4::Identity().eval(), 0)) bad("interp", "fraction zero is not the identity");
  // Framed interpolation gives the same transforms.
  SE3 fx = x;
  fx.set_frames(frame(1), frame(2));
  if (!near(matrix(fx.interp(0.4)), matrix(x.interp(0.4)), 1e-12L * (1 + xt)) || !near(matrix(fx.interp(0.4, frame(3))), matrix(x.interp(0.4)), 1e-12L * (1 + xt))) bad("interp", "framed interpolation differs");
  SO3 fr = x.rotation();
  fr.set_frames(frame(1), frame(2));
  if (!near(matrix(fr.interp(0.4, frame(3))), matrix(x.rotation().interp(0.4)), 1e-12L)) bad("rotation-interp", "framed interpolation differs");

  // Differential of the exponential.
  const LM3 j = jacobian(w.cast<long double>());
  if (!near(SO3::exp_diff(w), j, 1e-12L)) bad("exp-diff", mc::str(show(SO3::exp_diff(w)), ", expected ", show(j)));
  mc::maybe_sample([] { return what; });
}

void coefficients(double sq) {
  mc::beat();
  ++mc::traces;
  ++mc::transitions;
  what = mc::str("exponential coefficients at squared angle ", sq);
  mc::state(mc::bits(sq));
  const auto c = resim::transforms::derivative_of_exp_so3(sq);
  long double a, b, cc;
  const long double q = sq, th = sqrtl(q);
  if (q < 1e-2L) {
    a = b = cc = 0;
    long double ta = 1, tb = 0.5L, tc = 1.0L / 6;
    for (int k = 0; k < 12; ++k) {
      a += ta;
      b += tb;
      cc += tc;
      ta *= -q / ((2 * k + 2) * (2 * k + 3));
      tb *= -q / ((2 * k + 3) * (2 * k + 4));
      tc *= -q / ((2 * k + 4) * (2 * k + 5));
    }
  } else {
    a = sinl(th) / th;
    b = (1 - cosl(th)) / q;
    cc = (1 - a) / q;
  }
  // What matters is the contribution to the transform: b is multiplied by the angle, c by its square.
  if (fabsl(c.a - a) > 1e-12L || fabsl(c.b - b) * th > 1e-12L || fabsl(c.c - cc) * q > 1e-12L || fabsl(c.b - b) > 1e-8L || fabsl(c.c - cc) > 1e-8L)
    bad("coefficients", mc::str(c.a, " ", c.b, " ", c.c, ", expected ", static_cast<double>(a), " ", static_cast<double>(b), " ", static_cast<double>(cc)));
}
}  // namespace

int main(int argc, char **argv) {
  return mc::run(argc, argv, [] {
    mc::describe = [] { return what; };
    const auto as = angles();
    const auto xs = axes();
    const auto ts = translations();
    uint64_t index = 0;
    for (const V3 &x : xs)
      for (double a : as) {
        if (!mc::my_shard(index++)) continue;
        for (const V3 &t : ts) one(x, a, t);
      }
    mc::bounds["grid"] = mc::str(xs.size(), " axes x ", as.size(), " angles (0, denormal .. 1e-3, both sides of 2e-3, 3 and all multiples of pi/4 up to 4 pi, 100) x ", ts.size(), " translations");
    for (double a : as) {
      if (!mc::my_shard(index++)) continue;
      coefficients(a * a);
      coefficients(std::nextafter(a * a, 1e9));
      if (a > 0) coefficients(std::nextafter(a * a, 0.0));
    }
    if (mc::shard == 0) {
      coefficients(4e-6);
      coefficients(std::nextafter(4e-6, 0));
      coefficients(std::nextafter(4e-6, 1));
      for (const V3 &v : axes())
        for (const V3 &u : axes()) {
          what = mc::str("cross matrix of ", show(v));
          ++mc::traces;
          ++mc::transitions;
          if (!near((resim::transforms::cross_matrix(v) * u).eval(), v.cross(u), 1e-12L)) bad("cross-matrix", "wrong product");
        }
    }
  });
}
