// C24: families of operations on argument lists of numbers.
#pragma once
#include "pureops.hh"

namespace pure {
using Args = std::vector<double>;
struct Family {
  std::string name;
  Args base;
  std::function<void(const Args &, Out &)> run;
};
inline std::vector<std::pair<std::string, Args>> variants(const Family &f) {
  std::vector<std::pair<std::string, Args>> r{{"as given", f.base}};
  const size_t n = f.base.size();
  const auto add = [&](const std::string &what, const Args &a) {
    for (auto &x : r)
      if (std::memcmp(x.second.data(), a.data(), 8 * n) == 0) return;
    r.emplace_back(what, a);
  };
  for (size_t i = 0; i < n; ++i) {
    const auto with = [&](const std::string &what, double x) {
      Args a = f.base;
      a[i] = x;
      add(mc::str("argument ", i, " ", what), a);
    };
    const double x = f.base[i];
    with("next up", std::nextafter(x, 1e300));
    with("next down", std::nextafter(x, -1e300));
    for (double d : {1e-12, 1e-10, 1e-8, 1e-6, 1e-4, 1e-2}) with(mc::str("plus ", d), x + d);
    with("minus 1e-9", x - 1e-9);
    with("minus 1e-7", x - 1e-7);
    with("as float", static_cast<float>(x));
    with("negated", -x);
    with("zero", 0.);
    for (size_t j = 0; j < i; ++j) {
      Args a = f.base;
      std::swap(a[i], a[j]);
      add(mc::str("arguments ", i, " and ", j, " swapped"), a);
    }
  }
  Args a = f.base;
  for (double &x : a) x = -x;
  add("all negated", a);
  return r;
}
inline std::vector<Family> families() {
  std::vector<Family> r;
  const auto add = [&](const std::string &n, Args b, std::function<void(const Args &, Out &)> f) { r.push_back({n, std::move(b), std::move(f)}); };
  const auto v3 = [](const Args &a, int i = 0) { return V3(a[i], a[i + 1], a[i + 2]); };
  const auto v6 = [](const Args &a, int i = 0) { return six(a[i], a[i + 1], a[i + 2], a[i + 3], a[i + 4], a[i + 5]); };
  for (double s : {1., 1e-4, 1.6})
    add(mc::str("rotation exponential and log, scale ", s), {0.9 * s, -0.4 * s, 1.4 * s}, [=](const Args &a, Out &o) {
      const SO3 g = SO3::exp(v3(a));
      o.put(g);
      o.put(g.log());
      o.put(g.inverse());
      o.put(SO3::exp_diff(v3(a)));
      o.put(g.interp(0.3));
      o.put(g.adjoint());
    });
  add("rotation from angle and axis", {1.2, 0.6, 0., 0.8}, [=](const Args &a, Out &o) { o.put(SO3(a[0], V3(a[1], a[2], a[3]).normalized())); });
  for (double s : {1., 1e-4, 1.6})
    add(mc::str("transform exponential and log, scale ", s), {0.9 * s, -0.4 * s, 1.4 * s, 3, -7, 0.5}, [=](const Args &a, Out &o) {
      const SE3 g = SE3::exp(v6(a), frame(1), frame(2));
      o.put(g);
      o.put(g.log());
      o.put(g.inverse());
      o.put(g.arc_length());
    });
  for (double q : {1e-9, 3.9e-6, 0.3, 2., 9.5})
    add(mc::str("exponential differential at ", q), {q}, [](const Args &a, Out &o) {
      const auto c = resim::transforms::derivative_of_exp_so3(a[0]);
      o.put(c.a);
      o.put(c.b);
      o.put(c.c);
    });
  add("interpolation", {0.25}, [](const Args &a, Out &o) {
    o.put(pose(1.3, V3(1, 1, 2), V3(1, 2, 3), 1, 2).interp(a[0]));
    o.put(pose(1.3, V3(1, 1, 2), V3(1, 2, 3), 1, 2).rotation().interp(a[0]));
  });
  add("adjoint of a transform", {1.1, 2, -3, 0.5}, [=](const Args &a, Out &o) {
    const SE3 g = pose(a[0], V3(1, 2, 2), v3(a, 1), 1, 2);
    o.put(g.adjoint());
    o.put(g.adjoint_times(six(1, 2, 3, 4, 5, 6)));
  });
  add("adjoint of the algebra", {1.1, 2, -3, 0.5, 4, 6}, [=](const Args &a, Out &o) {
    o.put(SE3::adjoint(v6(a)));
    o.put(SE3::adjoint_times(v6(a), six(1, 2, 3, 4, 5, 6)));
    o.put(SE3::adjoint_times(six(1, 2, 3, 4, 5, 6), v6(a)));
  });
  add("composition and application", {1.1, 2, -3, 0.5}, [=](const Args &a, Out &o) {
    const SE3 g = pose(a[0], V3(1, 2, 2), v3(a, 1), 1, 2), h = pose(0.4, V3(0, 2, 1), V3(1, 5, 6), 2, 5);
    o.put(g * h);
    o.put(V3(h * v3(a, 1)));
    o.put(V3(g * V3(4, 5, 6)));
    o.put(h.rotate(v3(a, 1)));
    o.put(resim::transforms::se3_inverse_distance(g, h));
    o.put(resim::transforms::se3_distance(g, pose(0.4, V3(0, 2, 1), V3(1, 5, 6), 1, 2)));
  });
  add("jets", {1.1, 2, -3, 0.5, 4, 6}, [=](const Args &a, Out &o) {
    const TwoJetL<SE3> p(pose(0.7, V3(1, 2, 2), V3(1, 2, 3), 1, 2), v6(a), six(1, 2, 3, 4, 5, 6)), q(pose(0.4, V3(0, 2, 1), V3(1, 5, 6), 2, 5), six(3, 2, 1, 0, 1, 2), v6(a));
    o.put(p * q);
    o.put(p.inverse());
    const TwoJetR<SE3> s(pose(0.7, V3(1, 2, 2), V3(1, 2, 3), 1, 2), v6(a), six(1, 2, 3, 4, 5, 6)), t(pose(0.4, V3(0, 2, 1), V3(1, 5, 6), 2, 5), six(3, 2, 1, 0, 1, 2), v6(a));
    o.put(s * t);
    o.put(s.inverse());
  });
  static const TCurve<SE3> tc = t_curve(1e3, 4, 1.), tc2 = t_curve(1e3, 4, 1.0000001);
  static const DCurve<SE3> dc = d_curve(4, 2., 0.2);
  static const Trajectory tr = trajectory(1600000000123456789, 4);
  for (double t : {1000.4, 1001.5, 1003.75, 1004.5})
    add(mc::str("time curve at ", t), {t}, [](const Args &a, Out &o) {
      o.put(tc.point_at(a[0]));
      o.put(tc2.point_at(a[0]));
    });
  for (double d : {0.5, 2.002498439450079, 3.3}) add(mc::str("distance curve at ", d), {d}, [](const Args &a, Out &o) { o.put(dc.point_at(a[0])); });
  for (double t : {400000000., 1500000001., 4500000000.})
    for (double scale : {1., 1000., 1e6})
      add(mc::str("trajectory at ", t, ", scale ", scale), {t / 1e9 / scale, t / 1e9}, [scale](const Args &a, Out &o) {
        // Neighbouring nanoseconds (and micro- and milliseconds) too.
        const int64_t ns = std::llround((a[0] - a[1] / scale) * 1e9 * scale) + std::llround(a[1] * 1e9);
        o.put(tr.point_at(Duration(ns)));
        o.put(tr.point_at(tr.start_time() + Duration(ns)));
      });
  add("curve construction", {1.1, 2, -3, 0.5, 1}, [=](const Args &a, Out &o) {
    TCurve<SE3> c;
    c.append({0., TwoJetL<SE3>(pose(0.2, V3(0, 2, 1), V3(1, 5, 6), 2, 1), six(3, 2, 1, 0, 1, 2), six(0, 1, 0, 2, 0, 3))});
    c.append({a[4] + 2, TwoJetL<SE3>(pose(a[0], V3(0, 2, 1), v3(a, 1), 2, 1), six(3, 2, 1, 0, 1, 2), six(0, 1, 0, 2, 0, 3))});
    o.put(c.point_at(0.5));
    DCurve<SE3> d;
    d.append(pose(0.2, V3(0, 2, 1), V3(1, 5, 6), 1, 2));
    d.append(pose(a[0], V3(0, 2, 1), v3(a, 1), 1, 2));
    o.put(d.point_at(0.5));
    o.put(d.curve_length());
  });
  add("states", {1.1, 2, -3, 0.5, 4, 6}, [=](const Args &a, Out &o) {
    State x(pose(0.7, V3(1, 2, 2), V3(1, 2, 3), 1, 2));
    x.set_body_linear_velocity_mps(v3(a));
    x.set_body_angular_velocity_radps(v3(a, 3));
    x.set_body_linear_acceleration_mpss(v3(a, 2));
    x.set_body_angular_acceleration_radpss(v3(a, 1));
    o.put(x);
    State y(pose(0.3, V3(1, 2, 1), V3(1, 0, 3), 2, 5));
    y.set_body_linear_velocity_mps(V3(1, 2, 3));
    o.put(x * y);
  });
  add("floating sampling", {0.5, -3.5, 0.3}, [](const Args &a, Out &o) {
    o.put(resim::time::num_samples(a[0], a[1], a[2]));
    resim::time::sample_interval(a[0], a[1], std::max(a[2], -1.) < 0 ? a[2] : std::max(a[2], 0.01), [&](double t) { o.put(t); });
  });
  add("integer sampling", {0.5, -3.5, 0.3}, [](const Args &a, Out &o) {
    const auto ns = [](double x) { return std::llround(x * 1000) + (x * 1000 != std::round(x * 1000) ? 1 : 0); };
    resim::time::sample_interval(Timestamp(Duration(ns(a[0]))), Timestamp(Duration(ns(a[1]))), Duration(ns(a[2])), [&](Timestamp t) { o.put(int64_t{t.time_since_epoch().count()}); });
  });
  add("conversions", {12.3456}, [](const Args &a, Out &o) {
    const Duration d = resim::time::as_duration(a[0]);
    o.put(int64_t{d.count()});
    o.put(resim::time::as_seconds(d));
    const auto x = resim::time::to_seconds_and_nanos(d);
    o.put(int64_t{x.secs});
    o.put(int64_t{x.nanos});
  });
  add("checked arithmetic", {3, 4}, [](const Args &a, Out &o) {
    int64_t x, y;
    std::memcpy(&x, &a[0], 8);
    std::memcpy(&y, &a[1], 8);
    for (int k = 0; k < 4; ++k) {
      try {
        o.put(k == 0 ? resim::math::safe_sum(x, y) : k == 1 ? resim::math::safe_difference(x, y) : k == 2 ? resim::math::safe_abs(x) : resim::math::safe_sum(-x, -y));
      } catch (const std::exception &) {
        o.put(std::string("rejected"));
      }
    }
  });
  add("Gaussian", {1, 2, 4, 1, 3}, [](const Args &a, Out &o) {
    Gaussian g(Eigen::Vector2d(a[0], a[1]), (Eigen::Matrix2d() << a[2], a[3], a[3], a[4]).finished());
    o.put(g.sample());
    o.put(g.samples(2));
    o.put(g.eigenvalues());
    o.put(g.eigenvectors());
  });
  add("sample statistics", {1, 2, 4, 1, 3, 0.5}, [](const Args &a, Out &o) {
    const Eigen::MatrixXd m = (Eigen::MatrixXd(3, 2) << a[0], a[1], a[2], a[3], a[4], a[5]).finished();
    o.put(resim::math::mean(m));
    o.put(resim::math::covariance(m));
  });
  add("framed vectors", {1, 2, 4}, [=](const Args &a, Out &o) {
    const FV3 v(v3(a), frame(2));
    o.put(v + FV3(V3(1, 2, 3), frame(2)));
    o.put(v * a[0]);
    o.put(pose(0.4, V3(0, 2, 1), V3(1, 5, 6), 1, 2).rotate(v));
    o.put(int64_t{v == FV3(V3(1, 2, 4), frame(2))});
    o.put(int64_t{v.isApprox(FV3(V3(1, 2, 4), frame(2)))});
  });
  add("comparisons", {1.1, 2, -3, 0.5}, [=](const Args &a, Out &o) {
    const SE3 g = pose(a[0], V3(1, 2, 2), v3(a, 1), 1, 2), h = pose(1.1, V3(1, 2, 2), V3(2, -3, 0.5), 1, 2);
    o.put(int64_t{g.is_approx(h)});
    o.put(int64_t{g.is_approx_transform(h)});
    o.put(int64_t{g.rotation().is_approx(h.rotation())});
  });
  // Everything that is named by identifiers: which two frames (differing in a single byte) are meant is taken from the arguments.
  add("frames", {1, 2, 4}, [](const Args &a, Out &o) {
    const auto id = [&](int k) {
      std::array<unsigned char, 16> b{};
      for (int i = 0; i < 16; ++i) b[i] = static_cast<unsigned char>(17 * k);
      uint64_t x;
      std::memcpy(&x, &a[k], 8);
      for (int i = 0; i < 8; ++i) b[15 - i] = static_cast<unsigned char>(b[15 - i] ^ (x >> (8 * i)));
      char t[40], *p = t;
      for (int i = 0; i < 16; ++i) {
        if (i == 4 || i == 6 || i == 8 || i == 10) *p++ = '-';
        p += snprintf(p, 3, "%02x", b[i]);
      }
      return UUID(std::string(t, 36));
    };
    const Frame3 f(id(0)), g(id(1)), h(id(2));
    SE3 x = pose(0.4, V3(0, 2, 1), V3(1, 5, 6), 0, 0), y = pose(0.8, V3(3, 2, 1), V3(1, 5, 6), 0, 0);
    x.set_frames(f, g);
    y.set_frames(g, h);
    o.put(x * y);
    o.put(x.inverse());
    o.put(id(0).to_string());
    o.put(int64_t{f == g});
    o.put(static_cast<int64_t>(std::hash<UUID>()(id(2))));
    tp::SE3 m;
    tp::pack(x, &m);
    o.put(m.SerializeAsString());
    o.put(tp::unpack(m));
    FV3 v(V3(1, 2, 3), g);
    o.put(x.rotate(v));
  });
  add("packing", {0.9, -0.4, 1.4, 3, -7, 0.5}, [=](const Args &a, Out &o) {
    tp::SE3 m;
    tp::pack(SE3::exp(v6(a), frame(1), frame(2)), &m);
    o.put(m.SerializeAsString());
    o.put(tp::unpack(m));
    cp::TCurve_SE3 c;
    TCurve<SE3> t;
    t.append({a[0] - 3, TwoJetL<SE3>(pose(0.2, V3(0, 2, 1), V3(1, 5, 6), 2, 1), v6(a), six(0, 1, 0, 2, 0, 3))});
    t.append({a[0] + 2, TwoJetL<SE3>(pose(0.3, V3(0, 2, 1), V3(a[3], 5, 6), 2, 1), six(3, 2, 1, 0, 1, 2), v6(a))});
    cp::pack(t, &c);
    o.put(c.SerializeAsString());
    o.put(cp::unpack(c));
  });
  return r;
}
}  // namespace pure
