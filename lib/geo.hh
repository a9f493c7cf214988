// Independent geometry for the oracles: finite rotation groups, 4x4 matrices in extended precision, matrix exponential.
#pragma once
#include <Eigen/Dense>
#include <vector>

#include "mc.hh"
#include "resim/transforms/frame.hh"
#include "resim/transforms/se3.hh"
#include "resim/transforms/so3.hh"
#include "resim/utils/uuid.hh"

namespace geo {
using resim::UUID;
using resim::transforms::SE3;
using resim::transforms::SO3;
using Frame3 = resim::transforms::Frame<3>;
using V3 = Eigen::Vector3d;
using M3 = Eigen::Matrix3d;
using V6 = Eigen::Matrix<double, 6, 1>;
using M6 = Eigen::Matrix<double, 6, 6>;
using L3 = Eigen::Matrix<long double, 3, 1>;
using LM3 = Eigen::Matrix<long double, 3, 3>;
using LM4 = Eigen::Matrix<long double, 4, 4>;
using L6 = Eigen::Matrix<long double, 6, 1>;

// The 24 rotations of the cube: signed permutation matrices of determinant one. The identity comes first.
inline std::vector<M3> octahedral() {
  std::vector<M3> r;
  const int perms[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  for (const auto &p : perms)
    for (int s = 0; s < 8; ++s) {
      M3 m = M3::Zero();
      for (int i = 0; i < 3; ++i) m(i, p[i]) = (s >> i & 1) ? -1 : 1;
      if (m.determinant() > 0) r.push_back(m);
    }
  return r;
}

// 0 is the null frame; 1 and 4 differ in the last byte only, 2 and 5 in the first only.
inline const Frame3 &frame(int id) {
  static const Frame3 table[6] = {
      Frame3(),
      Frame3(UUID("11111111-2222-4333-8444-555555555555")),
      Frame3(UUID("a1111111-2222-4333-8444-666666666666")),
      Frame3(UUID("00000000-0000-0000-0000-000000000001")),
      Frame3(UUID("11111111-2222-4333-8444-555555555554")),
      Frame3(UUID("b1111111-2222-4333-8444-666666666666")),
  };
  return table[id];
}

inline LM3 hat3(const L3 &w) {
  LM3 m;
  m << 0, -w(2), w(1), w(2), 0, -w(0), -w(1), w(0), 0;
  return m;
}
// Tangent vectors of rigid motions hold rotation first.
inline LM4 hat(const L6 &x) {
  LM4 m = LM4::Zero();
  m.block<3, 3>(0, 0) = hat3(x.head<3>());
  m.block<3, 1>(0, 3) = x.tail<3>();
  return m;
}
inline LM4 hat(const L3 &x) {
  LM4 m = LM4::Zero();
  m.block<3, 3>(0, 0) = hat3(x);
  return m;
}
template <typename M>
M expm(const M &in) {
  // The translation column enters linearly: scale it to at most one first, so that it costs no accuracy.
  M a = in;
  long double f = 1;
  if constexpr (M::RowsAtCompileTime == 4) {
    f = std::max(1.0L, static_cast<long double>(a.col(3).cwiseAbs().maxCoeff()));
    a.col(3) /= f;
  }
  int k = 0;
  long double n = a.cwiseAbs().maxCoeff();
  while (n > 0.25L) {
    n /= 2;
    ++k;
  }
  const M s = a / powl(2, k);
  M term = M::Identity(), sum = M::Identity();
  for (int i = 1; i < 26; ++i) {
    term = (term * s / static_cast<long double>(i)).eval();
    sum += term;
  }
  for (int i = 0; i < k; ++i) sum = (sum * sum).eval();
  if constexpr (M::RowsAtCompileTime == 4) sum.template block<3, 1>(0, 3) *= f;
  return sum;
}
inline LM4 matrix(const SE3 &g) {
  LM4 m = LM4::Identity();
  m.block<3, 3>(0, 0) = g.rotation().rotation_matrix().cast<long double>();
  m.block<3, 1>(0, 3) = g.translation().cast<long double>();
  return m;
}
inline LM4 matrix(const SO3 &g) {
  LM4 m = LM4::Identity();
  m.block<3, 3>(0, 0) = g.rotation_matrix().cast<long double>();
  return m;
}
// Rigid inverse.
inline LM4 inv(const LM4 &m) {
  LM4 r = LM4::Identity();
  r.block<3, 3>(0, 0) = m.block<3, 3>(0, 0).transpose();
  r.block<3, 1>(0, 3) = -(m.block<3, 3>(0, 0).transpose() * m.block<3, 1>(0, 3));
  return r;
}
template <typename A, typename B>
long double err(const A &a, const B &b) {
  // Not maxCoeff, which may pass over a NaN.
  const Eigen::Matrix<long double, A::RowsAtCompileTime, A::ColsAtCompileTime> d = a.template cast<long double>() - b.template cast<long double>();
  long double worst = 0;
  for (Eigen::Index i = 0; i < d.size(); ++i) {
    const long double e = std::abs(d.data()[i]);
    if (!(e <= worst)) worst = e == e ? e : std::numeric_limits<long double>::infinity();
  }
  return worst;
}
template <typename A, typename B>
bool near(const A &a, const B &b, long double tol = 1e-9L) {
  return err(a, b) <= tol;
}
template <typename A>
std::string show(const A &m) {
  std::ostringstream o;
  o.precision(12);
  o << "[";
  for (int i = 0; i < m.rows(); ++i) {
    if (i) o << "; ";
    for (int j = 0; j < m.cols(); ++j) o << (j ? " " : "") << static_cast<double>(m(i, j));
  }
  o << "]";
  return o.str();
}
}  // namespace geo
