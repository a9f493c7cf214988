// C21: the multivariate Gaussian. Every small-integer matrix is offered as a covariance; acceptance is decided by exact
// principal minors. Sampling histories are compared with those of the standard Gaussian of the same dimension: the
// deviations must be one linear image of the same draws, whose matrix is a square root of the covariance.
#include <random>

#include "mc.hh"
#include "resim/math/multivariate_gaussian.hh"
#include "resim/math/sample_statistics.hh"

namespace {
// Largest magnitude, infinite if there is a NaN (maxCoeff may pass over one).
template <typename D>
double amax(const Eigen::MatrixBase<D> &x) {
  const Eigen::MatrixXd m = x;
  return m.size() == 0 ? 0. : m.hasNaN() ? std::numeric_limits<double>::infinity() : m.cwiseAbs().maxCoeff();
}
using resim::math::Gaussian;
using Mat = Eigen::MatrixXd;
using Vec = Eigen::VectorXd;

std::string current;
std::string show(const Mat &m) {
  std::ostringstream o;
  o.precision(17);
  o << "[";
  for (int i = 0; i < m.rows(); ++i) {
    if (i) o << "; ";
    for (int j = 0; j < m.cols(); ++j) o << (j ? " " : "") << m(i, j);
  }
  o << "]";
  return o.str();
}
uint64_t hash(const Mat &m) {
  uint64_t h = mc::mix(m.rows(), m.cols());
  for (int i = 0; i < m.rows(); ++i)
    for (int j = 0; j < m.cols(); ++j) h = mc::mix(h, mc::bits(m(i, j) + 0.));
  return h;
}

using I = __int128;
I minor_det(const std::vector<std::vector<I>> &a, const std::vector<int> &idx) {
  const int n = static_cast<int>(idx.size());
  if (n == 0) return 1;
  if (n == 1) return a[idx[0]][idx[0]];
  std::vector<std::vector<I>> m(n, std::vector<I>(n));
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) m[i][j] = a[idx[i]][idx[j]];
  std::function<I(const std::vector<std::vector<I>> &)> det = [&](const std::vector<std::vector<I>> &x) -> I {
    const int k = static_cast<int>(x.size());
    if (k == 1) return x[0][0];
    I s = 0;
    for (int c = 0; c < k; ++c) {
      if (x[0][c] == 0) continue;
      std::vector<std::vector<I>> y;
      for (int r = 1; r < k; ++r) {
        std::vector<I> row;
        for (int d = 0; d < k; ++d)
          if (d != c) row.push_back(x[r][d]);
        y.push_back(row);
      }
      s += (c % 2 ? -1 : 1) * x[0][c] * det(y);
    }
    return s;
  };
  return det(m);
}
// Exact: symmetric and all principal minors non-negative.
bool valid(const std::vector<std::vector<I>> &a) {
  const int n = static_cast<int>(a.size());
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < i; ++j)
      if (a[i][j] != a[j][i]) return false;
  for (int s = 1; s < (1 << n); ++s) {
    std::vector<int> idx;
    for (int i = 0; i < n; ++i)
      if (s >> i & 1) idx.push_back(i);
    if (minor_det(a, idx) < 0) return false;
  }
  return true;
}

Mat to_matrix(const std::vector<std::vector<I>> &a, double scale) {
  const int n = static_cast<int>(a.size());
  Mat m(n, n);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) m(i, j) = static_cast<double>(static_cast<long>(a[i][j])) * scale;
  return m;
}

// The draws of the standard Gaussian of dimension n under the batch sizes.
const Mat &draws(int n, const std::vector<unsigned> &history) {
  static std::map<std::pair<int, std::vector<unsigned>>, Mat> cache;
  auto it = cache.find({n, history});
  if (it != cache.end()) return it->second;
  Gaussian g(Vec::Zero(n), Mat::Identity(n, n));
  unsigned total = 0;
  for (unsigned k : history) total += k == 0 ? 1 : k;
  Mat z(total, n);
  unsigned at = 0;
  for (unsigned k : history) {
    if (k == 0) z.row(at++) = g.sample();
    else {
      z.middleRows(at, k) = g.samples(k);
      at += k;
    }
  }
  return cache.emplace(std::make_pair(n, history), z).first->second;
}
// 0 stands for one sample(), k for samples(k).
Mat sample_history(Gaussian &g, const std::vector<unsigned> &history) {
  const int n = static_cast<int>(g.dimensionality());
  unsigned total = 0;
  for (unsigned k : history) total += k == 0 ? 1 : k;
  Mat z(total, n);
  unsigned at = 0;
  for (unsigned k : history) {
    ++mc::transitions;
    if (k == 0) {
      const Mat s = g.sample();
      if (s.rows() != 1 || s.cols() != n) {
        mc::violation("shape", current, mc::str("sample() gives a ", s.rows(), " x ", s.cols(), " matrix"));
        return Mat::Zero(total, n);
      }
      z.row(at++) = s;
    } else {
      const Mat s = g.samples(k);
      if (s.rows() != k || s.cols() != n) {
        mc::violation("shape", current, mc::str("samples(", k, ") gives a ", s.rows(), " x ", s.cols(), " matrix"));
        return Mat::Zero(total, n);
      }
      z.middleRows(at, k) = s;
      at += k;
    }
  }
  return z;
}

const std::vector<std::vector<unsigned>> HISTORIES = {{8}, {0, 0, 0, 0, 0, 0}, {3, 0, 5}};
// At least as many draws as dimensions.
std::vector<std::vector<unsigned>> histories_for(int n) {
  if (n <= 5) return HISTORIES;
  const unsigned m = static_cast<unsigned>(n);
  return {{m + 3}, std::vector<unsigned>(m + 1, 0), {m, 0, 5}};
}

// All checks of an accepted Gaussian.
void accepted(const Gaussian &given, const Vec &mu, const Mat &cov) {
  const int n = static_cast<int>(mu.size());
  const double scale = std::max(cov.cwiseAbs().maxCoeff(), 1e-300);
  if (static_cast<int>(given.dimensionality()) != n) mc::violation("dimension", current, mc::str("dimensionality ", given.dimensionality()));
  if (given.mu() != mu) mc::violation("mean", current, "mu() is " + show(given.mu()));
  if (given.cov() != cov) mc::violation("covariance", current, "cov() is " + show(given.cov()));
  const Mat V = given.eigenvectors(), L = given.eigenvalues();
  if (V.rows() != n || V.cols() != n || L.rows() != n || !((V * V.transpose() - Mat::Identity(n, n)).norm() < 1e-12)) mc::violation("eigenvectors", current, "not orthonormal: " + show(V));
  else {
    if (!(L.minCoeff() >= 0)) mc::violation("eigenvalues", current, "negative: " + show(L));
    if (!((V * L.asDiagonal() * V.transpose() - cov).norm() <= 1e-12 * scale)) mc::violation("eigen", current, "the decomposition does not give the covariance");
    const Mat S = given.sqrt_eigenvalues_mat();
    if (!((S * S - Mat(L.asDiagonal())).norm() <= 1e-12 * scale)) mc::violation("sqrt", current, "not the square roots of the eigenvalues: " + show(S));
  }
  for (const auto &h : histories_for(n)) {
    Gaussian g(given);  // a copy starts where the original is: at the beginning
    const Mat &z = draws(n, h);
    const Mat x = sample_history(g, h);
    Gaussian g2(mu, cov);
    if (sample_history(g2, h) != x) mc::violation("reproducible", current, "two equal Gaussians give different samples");
    const Mat d = x.rowwise() - mu.transpose();
    // d = z A^T for one A: solve with all rows, check the residual, and that A A^T is the covariance.
    const Mat At = z.colPivHouseholderQr().solve(d);
    const double root = std::sqrt(scale), mag = std::max(root, mu.cwiseAbs().maxCoeff() * 1e-3);
    if (!(amax(z * At - d) <= 1e-9 * mag)) mc::violation("linear", current, "the deviations are no linear image of the standard draws: " + show(d));
    else if (!(amax(At.transpose() * At - cov) <= 1e-9 * std::max(scale, root * mag))) mc::violation("square-root", current, "the deviations' matrix " + show(At.transpose()) + " is no square root of the covariance");
    ++mc::traces;
  }
  mc::state(mc::mix(hash(cov), hash(mu)));
}

bool construct(const Vec &mu, const Mat &cov, bool check) {
  ++mc::transitions;
  mc::beat();
  std::optional<Gaussian> g;
  try {
    g.emplace(mu, cov);
  } catch (const std::exception &) {
    return false;
  }
  if (check) accepted(*g, mu, cov);
  return true;
}

Vec mean_for(int n, int kind) {
  Vec m = Vec::Zero(n);
  for (int i = 0; i < n; ++i) m[i] = kind == 0 ? 0. : kind == 1 ? 3. - 5. * i : (i % 2 ? 1e6 : -2e6);
  return m;
}

void offer(const std::vector<std::vector<I>> &a, double scale, int mean_kind, bool only_construct = false) {
  const int n = static_cast<int>(a.size());
  const Mat cov = to_matrix(a, scale);
  const Vec mu = mean_for(n, mean_kind);
  current = "mean " + show(mu.transpose()) + " covariance " + show(cov);
  const bool want = valid(a);
  const bool got = construct(mu, cov, want && !only_construct);
  ++mc::traces;
  mc::state(mc::mix(hash(cov), 3));
  if (want != got) mc::violation(want ? "refused" : "accepted-invalid", current, want ? "a positive semi-definite matrix was refused" : "accepted although not symmetric positive semi-definite");
  mc::maybe_sample([&]() { return current + (got ? " accepted" : " refused"); });
}

void matrices() {
  uint64_t k = 0;
  const std::vector<double> scales = {1., 1000., 1e-3, 1e6};
  // All matrices of dimension 1 and 2; symmetric ones of dimension 3; non-symmetric of dimension 3 over {0,1}; 4 and 5 partly.
  mc::bounds["matrices"] = mc::thorough ? "all 1x1 and 2x2 matrices over -8..8, symmetric 3x3 over -4..4, all 3x3 over {0,1}, symmetric 4x4 over -1..1 with diagonal 0..2, Gram matrices of all 3x3 and 4x2 integer matrices over -2..2; 4 scales; 3 means"
                                        : "all 1x1 and 2x2 matrices over -4..4, symmetric 3x3 over -2..2, all 3x3 over {0,1}, symmetric 4x4 over {-1,1} with diagonal 1..2, Gram matrices of all 3x2 integer matrices over -2..2; 4 scales; 3 means";
  const int r2 = mc::thorough ? 8 : 4, r3 = mc::thorough ? 4 : 2;
  for (double s : scales)
    for (int mk = 0; mk < 3; ++mk) {
      for (int a = -r2; a <= r2; ++a)
        if (mc::my_shard(k++)) offer({{a}}, s, mk);
      for (int a = -r2; a <= r2; ++a)
        for (int b = -r2; b <= r2; ++b)
          for (int c = -r2; c <= r2; ++c)
            for (int d = -r2; d <= r2; ++d)
              if (mc::my_shard(k++)) offer({{a, b}, {c, d}}, s, mk);
    }
  for (double s : scales) {
    std::vector<int> v(6, -r3);
    for (;;) {
      if (mc::my_shard(k++)) offer({{v[0], v[1], v[2]}, {v[1], v[3], v[4]}, {v[2], v[4], v[5]}}, s, static_cast<int>(k % 3));
      int i = 0;
      while (i < 6 && ++v[i] > r3) v[i++] = -r3;
      if (i == 6) break;
    }
  }
  for (int bits = 0; bits < 512; ++bits)
    if (mc::my_shard(k++)) {
      std::vector<std::vector<I>> a(3, std::vector<I>(3));
      for (int i = 0; i < 9; ++i) a[i / 3][i % 3] = (i % 4 == 0 ? 1 : 0) + (bits >> i & 1);
      offer(a, 1., 1);
    }
  // Singular by construction: Gram matrices B^T B of integer matrices with fewer rows than columns (or any).
  const auto gram = [&](int rows, int cols, int range) {
    std::vector<int> v(rows * cols, -range);
    for (;;) {
      if (mc::my_shard(k++)) {
        std::vector<std::vector<I>> a(cols, std::vector<I>(cols));
        for (int i = 0; i < cols; ++i)
          for (int j = 0; j < cols; ++j)
            for (int r = 0; r < rows; ++r) a[i][j] += v[r * cols + i] * v[r * cols + j];
        offer(a, scales[k % scales.size()], static_cast<int>(k / 4 % 3));
      }
      size_t i = 0;
      while (i < v.size() && ++v[i] > range) v[i++] = -range;
      if (i == v.size()) break;
    }
  };
  gram(1, 2, 9);
  gram(1, 3, 7);
  gram(2, 3, mc::thorough ? 3 : 2);
  gram(1, 4, 4);
  gram(1, 5, 2);
  if (mc::thorough) {
    gram(2, 4, 2);
    gram(1, 6, 2);
  }
  // 4 x 4.
  {
    const int lo = -1, step = mc::thorough ? 1 : 2;
    std::vector<int> v(6, lo);
    for (;;) {
      for (int d = 1; d <= 2; ++d)
        if (mc::my_shard(k++)) offer({{d, v[0], v[1], v[2]}, {v[0], d, v[3], v[4]}, {v[1], v[3], d + 1, v[5]}, {v[2], v[4], v[5], d}}, scales[k % 4], 1);
      int i = 0;
      while (i < 6 && (v[i] += step) > 1) v[i++] = lo;
      if (i == 6) break;
    }
  }
}

// Dimensions that do not agree; barely asymmetric and barely indefinite matrices; not-a-number.
void boundary() {
  for (int n = 1; n <= 9; ++n)
    for (int r = 0; r <= 10; ++r)
      for (int c = 0; c <= 10; ++c) {
        current = mc::str("mean of dimension ", n, ", covariance ", r, " x ", c);
        Mat m = Mat::Zero(r, c);
        for (int i = 0; i < std::min(r, c); ++i) m(i, i) = 1 + i;
        const bool got = construct(mean_for(n, 1), m, false);
        ++mc::traces;
        if (got != (r == n && c == n)) mc::violation("dimensions", current, got ? "accepted" : "refused");
        mc::state(mc::mix(n * 100 + r * 10 + c, 5));
      }
  const double nan = std::nan(""), inf = INFINITY;
  for (int n = 1; n <= 12; ++n)
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j)
        for (double scale : {1e-6, 1., 1e6})
          for (double rel : {1e-3, 1e-6, 1e-9, -1e-9, -1e-6, -1e-3}) {
            if (i != j) {
              Mat m = Mat::Identity(n, n) * 2. * scale;
              m(i, j) = scale * (1. + rel) * 0.5;
              m(j, i) = scale * 0.5;
              current = "asymmetric " + show(m);
              ++mc::traces;
              if (construct(mean_for(n, 1), m, false)) mc::violation("asymmetric", current, "accepted");
              mc::state(hash(m));
            } else if (rel < 0 && rel * scale < -1e-14) {  // (below that the class documents no distinction)
              // One eigenvalue barely negative, everything else one (scaled).
              Mat m = Mat::Identity(n, n) * scale;
              m(i, i) = rel * scale;
              current = "indefinite " + show(m);
              ++mc::traces;
              if (n > 1 && construct(mean_for(n, 1), m, false)) mc::violation("indefinite", current, "accepted");
              // The same, rotated away from the axes.
              if (n > 1) {
                Mat q = Mat::Identity(n, n) - 2. / n * Mat::Ones(n, n);  // a reflection
                Mat r = q * m * q.transpose();
                r = (0.5 * (r + r.transpose())).eval();
                current = "indefinite " + show(r);
                ++mc::traces;
                if (construct(mean_for(n, 1), r, false)) mc::violation("indefinite", current, "accepted");
                mc::state(hash(r));
              }
              mc::state(hash(m));
            }
          }
  for (int n = 1; n <= 8; ++n)
    for (int i = 0; i < n; ++i)
      for (int j = 0; j <= i; ++j)
        for (double bad : {nan, inf, -inf}) {
          Mat m = Mat::Identity(n, n);
          m(i, j) = m(j, i) = bad;
          current = "not finite " + show(m);
          ++mc::traces;
          if (construct(mean_for(n, 1), m, false)) mc::violation("not-finite", current, "accepted");
          mc::state(hash(m));
        }
  // Positive semi-definite up to rounding: products of rotations and diagonals with zeros.
  for (int n = 2; n <= 12; ++n)
    for (double scale : {1e-6, 1e-3, 1., 7., 1e3, 1e6})
      for (int zeros = 0; zeros < n; ++zeros)
        for (int q = 0; q < (n <= 5 ? 24 : 3); ++q) {
          Vec w(n);
          for (int i = 0; i < n; ++i) w[i] = std::cos(1.7 * i + 0.9 * q) + 0.1 * i;
          w.normalize();
          const Mat Q = Mat::Identity(n, n) - 2. * w * w.transpose();
          Vec l(n);
          for (int i = 0; i < n; ++i) l[i] = i < zeros ? 0. : scale * (1. + 0.37 * i * (q % 5));
          Mat m = Q * l.asDiagonal() * Q.transpose();
          m = (0.5 * (m + m.transpose())).eval();
          current = "rounded " + show(m);
          ++mc::traces;
          if (!construct(mean_for(n, q % 3), m, true)) mc::violation("refused-rounded", current, "a matrix that is positive semi-definite up to rounding was refused");
        }
}

// All batch splits of a history: nothing repeats, nothing depends on other Gaussians or on copies.
void histories() {
  const int total = mc::thorough ? 11 : 7;
  mc::bounds["sampling histories"] = mc::str("all compositions of up to ", total, " draws into sample() and samples(k), for dimensions 1 to 4; interleaved with a second Gaussian and copies; batches up to 70000");
  uint64_t k = 0;
  for (int n = 1; n <= 4; ++n) {
    Mat A(n, n);
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j) A(i, j) = i == j ? 2. + i : (i > j ? 0.5 * (i + j) : 0.);
    const Mat cov = A * A.transpose();
    const Vec mu = mean_for(n, 1);
    std::vector<unsigned> h;
    const auto evaluate = [&]() {
      if (!h.empty() && mc::my_shard(k++)) {
        current = mc::str("dimension ", n, " batches");
        for (unsigned b : h) current += b ? mc::str(" ", b) : std::string(" single");
        mc::beat();
        ++mc::traces;
        Gaussian g(mu, cov), g4(mu, 4. * cov), shifted(mu + mean_for(n, 2), cov), other(mean_for(n, 2), cov + Mat::Identity(n, n));
        const Mat x = sample_history(g, h);
        const double mag = 2e6;
        const Mat x4 = sample_history(g4, h), xs = sample_history(shifted, h);
        if (!(amax((x4.rowwise() - mu.transpose()) - 2. * (x.rowwise() - mu.transpose())) < 1e-10)) mc::violation("scaling", current, "four times the covariance does not double the deviations");
        if (!((xs - x).rowwise() - mean_for(n, 2).transpose()).isZero(1e-14 * mag * 10)) mc::violation("shift", current, "shifting the mean does not shift the samples");
        // All draws differ.
        std::set<double> seen;
        const Mat z = draws(n, h);
        for (int i = 0; i < z.rows(); ++i)
          for (int j = 0; j < z.cols(); ++j)
            if (!seen.insert(std::abs(z(i, j))).second) mc::violation("repeats", current, mc::str("the draw ", z(i, j), " appears twice"));
        for (int i = 0; i < x.rows(); ++i)
          for (int j = 0; j < i; ++j)
            if (x.row(i) == x.row(j)) mc::violation("repeats", current, mc::str("samples ", j, " and ", i, " are the same"));
        // Interleaved with another Gaussian and with copies: the same samples.
        Gaussian a(mu, cov), b(mean_for(n, 2), cov + Mat::Identity(n, n));
        Mat y(x.rows(), n);
        Mat yb = y;
        int at = 0;
        for (unsigned s : h) {
          const int m = s ? static_cast<int>(s) : 1;
          Gaussian copy(a);
          const Mat c = sample_history(copy, {s});
          yb.middleRows(at, m) = sample_history(b, {s});
          y.middleRows(at, m) = sample_history(a, {s});
          if (c != y.middleRows(at, m)) mc::violation("copy", current, "a copy does not continue like its original");
          at += m;
        }
        if (y != x) mc::violation("interleaved", current, "the samples depend on another Gaussian's sampling");
        if (yb != sample_history(other, h)) mc::violation("interleaved", current, "the other's samples depend on this one's");
        mc::state(mc::mix(hash(x), n));
        mc::maybe_sample([&]() { return current; });
      }
    };
    std::function<void(int)> walk = [&](int left) {
      evaluate();
      for (int b = 0; left > 0 && b <= left; ++b) {
        h.push_back(static_cast<unsigned>(b));
        walk(left - std::max(b, 1));
        h.pop_back();
      }
    };
    walk(total);
  }
}

// Long batches: standard normal in distribution (deterministic, so no chance of a false alarm), nothing repeated.
void large() {
  // All sizes: no draw is repeated, with either sign.
  for (int n = 1; n <= 10; ++n)
    for (unsigned size = 1; size <= (n <= 3 ? 600U : 80U); ++size) {
      if (!mc::my_shard(size + n)) continue;
      current = mc::str("dimension ", n, ", a batch of ", size, ", one, and the batch again");
      mc::beat();
      ++mc::traces;
      Gaussian g(Vec::Zero(n), Mat::Identity(n, n));
      const Mat z = sample_history(g, {size, 0, size});
      std::set<double> seen;
      for (int i = 0; i < z.rows(); ++i)
        for (int j = 0; j < n; ++j)
          if (!seen.insert(std::abs(z(i, j))).second) mc::violation("repeats", current, mc::str("the draw ", z(i, j), " appears twice"));
      mc::state(mc::mix(hash(z), n));
    }
  for (int n = 1; n <= 3; ++n)
    for (unsigned size : {1000U, 1023U, 1024U, 1025U, 4096U, 10000U, 65535U, 65536U, 70000U}) {
      if (!mc::my_shard(size + n)) continue;
      current = mc::str("dimension ", n, ", a batch of ", size);
      mc::beat();
      ++mc::traces;
      const std::vector<unsigned> h = {size, 0, size / 2};
      const Mat &z = draws(n, h);
      std::set<double> seen;
      for (int i = 0; i < z.rows(); ++i)
        for (int j = 0; j < n; ++j) seen.insert(std::abs(z(i, j)));
      if (seen.size() != static_cast<size_t>(z.rows() * n)) mc::violation("repeats", current, mc::str(z.rows() * n - static_cast<long>(seen.size()), " draws repeat"));
      const double N = static_cast<double>(z.rows()), tol = 6. / std::sqrt(N);
      const Vec m = z.colwise().mean();
      const Mat c = z.transpose() * z / N;
      if (!(amax(m) < tol)) mc::violation("standard", current, "mean of the draws " + show(m));
      if (!(amax(c - Mat::Identity(n, n)) < 2 * tol)) mc::violation("standard", current, "covariance of the draws " + show(c));
      // Higher moments, and correlation of consecutive draws.
      for (int j = 0; j < n; ++j) {
        double m3 = 0, m4 = 0, lag = 0, inside = 0;
        for (int i = 0; i < z.rows(); ++i) {
          const double v = z(i, j);
          m3 += v * v * v;
          m4 += v * v * v * v;
          inside += std::abs(v) < 1;
          if (i) lag += v * z(i - 1, j);
        }
        if (!(std::abs(m3 / N) < 4 * tol) || !(std::abs(m4 / N - 3) < 10 * tol) || !(std::abs(lag / N) < tol) || !(std::abs(inside / N - 0.682689) < tol)) mc::violation("standard", current, mc::str("moments of the draws: ", m3 / N, " ", m4 / N, " lag ", lag / N, " inside ", inside / N));
      }
      Mat cov = Mat::Identity(n, n) * 3 + Mat::Ones(n, n);
      Gaussian g(mean_for(n, 1), cov);
      const Mat x = sample_history(g, h);
      const Mat d = x.rowwise() - mean_for(n, 1).transpose();
      const Mat At = z.colPivHouseholderQr().solve(d);
      if (!(amax(z * At - d) < 1e-9) || !(amax(At.transpose() * At - cov) < 1e-9)) mc::violation("linear", current, "not a linear image of the draws");
      mc::state(hash(m));
    }
}

// The helpers, against their definitions in extended precision.
void statistics(const Mat &m) {
  current = "sample statistics of " + (m.size() <= 24 ? show(m) : mc::str(m.rows(), " x ", m.cols(), " values"));
  mc::beat();
  ++mc::traces;
  mc::transitions += 2;
  const int N = static_cast<int>(m.rows()), n = static_cast<int>(m.cols());
  std::vector<long double> mean(n, 0);
  long double big = 1e-300L;
  for (int j = 0; j < n; ++j) {
    for (int i = 0; i < N; ++i) {
      mean[j] += m(i, j);
      big = std::max<long double>(big, std::abs(m(i, j)));
    }
    mean[j] /= N;
  }
  if (N >= 1) {
    const Vec got = resim::math::mean(m);
    bool ok = got.size() == n;
    for (int j = 0; ok && j < n; ++j) ok = std::abs(got[j] - mean[j]) <= 1e-14L * N * big;
    if (!ok) mc::violation("sample-mean", current, "mean is " + show(got.transpose()));
  }
  Mat got;
  bool refused = false;
  try {
    got = resim::math::covariance(m);
  } catch (const std::exception &) {
    refused = true;
  }
  if (refused != (N < 2)) {
    mc::violation("sample-count", current, refused ? "refused" : "accepted");
    return;
  }
  if (!refused) {
    bool ok = got.rows() == n && got.cols() == n;
    long double spread = 1e-300L;
    for (int j = 0; j < n; ++j)
      for (int i = 0; i < N; ++i) spread = std::max<long double>(spread, std::abs(m(i, j) - mean[j]));
    for (int a = 0; ok && a < n; ++a)
      for (int b = 0; ok && b < n; ++b) {
        long double s = 0;
        for (int i = 0; i < N; ++i) s += (m(i, a) - mean[a]) * (m(i, b) - mean[b]);
        s /= N - 1;
        const long double err = 1e-14L * N * (spread * spread + big * spread);
        ok = std::abs(got(a, b) - s) <= err + 1e-28L * big * big * N;
      }
    if (!ok) mc::violation("sample-covariance", current, "covariance is " + show(got));
  }
  mc::state(mc::mix(hash(m), 9));
  mc::maybe_sample([&]() { return current; });
}
void all_statistics() {
  mc::bounds["sample matrices"] = "all matrices of 0 to 4 samples of dimension 1 to 2 (3 samples of dimension 3 over {0,1}) over -2..2, each at offsets 0 and 1e8; one of each of 0 to 14 samples of dimension 4 to 12";
  uint64_t k = 0;
  const auto all = [&](int N, int n, int lo, int hi) {
    std::vector<int> v(N * n, lo);
    for (;;) {
      if (mc::my_shard(k++))
        for (double offset : {0., 1e8, -3e5}) {
          Mat m(N, n);
          for (int i = 0; i < N * n; ++i) m(i / n, i % n) = v[i] + offset;
          statistics(m);
          if (N * n == 0) break;
        }
      size_t i = 0;
      while (i < v.size() && ++v[i] > hi) v[i++] = lo;
      if (i == v.size()) break;
    }
  };
  for (int n = 1; n <= 3; ++n) {
    all(0, n, 0, 0);
    all(1, n, -2, 2);
  }
  for (int n = 4; n <= 12; ++n)
    for (int N = 0; N <= 14; ++N)
      if (mc::my_shard(k++)) {
        Mat m(N, n);
        for (int i = 0; i < N; ++i)
          for (int j = 0; j < n; ++j) m(i, j) = (i * 37 + j * 11 + i * i * j) % 101 - 50.;
        statistics(m);
      }
  for (int N = 2; N <= 4; ++N) all(N, 1, -3, 3);
  all(2, 2, -2, 2);
  all(3, 2, mc::thorough ? -2 : -1, mc::thorough ? 2 : 1);
  all(4, 2, -1, 1);
  all(3, 3, 0, 1);
  if (mc::thorough) all(5, 2, -1, 1);
  for (int N : {5, 16, 17, 100, 255, 256, 257, 1000, 65535, 65536, 65537})
    if (mc::my_shard(k++)) {
      Mat m(N, 2);
      for (int i = 0; i < N; ++i) {
        m(i, 0) = i * 37 % 101;
        m(i, 1) = i % 7 - 0.25 * (i * 37 % 101);
      }
      statistics(m);
    }
}

}  // namespace

int main(int argc, char **argv) {
  return mc::run(argc, argv, [&]() {
    mc::describe = []() { return current; };
    matrices();
    if (mc::shard == 0) boundary();
    histories();
    large();
    all_statistics();
  });
}
