// Second-order Taylor polynomials of rigid motions (value, first and second time derivative), the oracle for jets.
#pragma once
#include "geo.hh"
#include "resim/curves/two_jet.hh"

namespace geo {
using resim::curves::TwoJetL;
using resim::curves::TwoJetR;
struct Poly {
  LM4 m0 = LM4::Identity(), m1 = LM4::Zero(), m2 = LM4::Zero();
};
inline Poly operator*(const Poly &a, const Poly &b) {
  Poly r;
  r.m0 = a.m0 * b.m0;
  r.m1 = a.m1 * b.m0 + a.m0 * b.m1;
  r.m2 = a.m2 * b.m0 + 2 * a.m1 * b.m1 + a.m0 * b.m2;
  return r;
}
inline Poly inverse(const Poly &a) {
  Poly r;
  r.m0 = inv(a.m0);
  r.m1 = -(r.m0 * a.m1 * r.m0);
  r.m2 = -(r.m0 * a.m2 * r.m0) + 2 * (r.m0 * a.m1 * r.m0 * a.m1 * r.m0);
  return r;
}
template <typename G>
auto L(const typename G::TangentVector &v) {
  return hat(Eigen::Matrix<long double, G::DOF, 1>(v.template cast<long double>()));
}
template <typename G>
Poly poly(const TwoJetL<G> &j) {
  Poly p;
  p.m0 = matrix(j.frame_from_ref());
  const LM4 v = L<G>(j.d_frame_from_ref()), a = L<G>(j.d2_frame_from_ref());
  p.m1 = v * p.m0;
  p.m2 = (a + v * v) * p.m0;
  return p;
}
template <typename G>
Poly poly(const TwoJetR<G> &j) {
  Poly p;
  p.m0 = matrix(j.ref_from_frame());
  const LM4 v = L<G>(j.d_ref_from_frame()), a = L<G>(j.d2_ref_from_frame());
  p.m1 = p.m0 * v;
  p.m2 = p.m0 * (a + v * v);
  return p;
}
inline long double size(const Poly &p) { return 1 + std::max({p.m0.cwiseAbs().maxCoeff(), p.m1.cwiseAbs().maxCoeff(), p.m2.cwiseAbs().maxCoeff()}); }
inline long double distance(const Poly &a, const Poly &b) { return std::max({err(a.m0, b.m0), err(a.m1, b.m1), err(a.m2, b.m2)}); }

}  // namespace geo
