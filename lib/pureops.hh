// C24: the operations of the library that only read shared objects or work on objects of their own, each reduced to the
// bytes of its result.
#pragma once
#include "resim/actor/state/rigid_body_state.hh"
#include "resim/assert/assert.hh"
#include "resim/math/multivariate_gaussian.hh"
#include "resim/math/safe_integer_utils.hh"
#include "resim/math/sample_statistics.hh"
#include "resim/time/event_schedule.hh"
#include "resim/time/random_duration.hh"
#include "resim/time/sample_interval.hh"
#include "resim/transforms/liegroup_exp_diff.hh"
#include "resim/utils/match.hh"
#include "resim/utils/status.hh"
#include "resim/utils/status_value.hh"
#include "serial.hh"

namespace pure {
using namespace serial;
using resim::Status;
using resim::StatusValue;
using resim::math::Gaussian;

struct Out {
  std::string s;
  void raw(const void *p, size_t n) { s.append(static_cast<const char *>(p), n); }
  void put(double d) {
    if (d != d) d = std::numeric_limits<double>::quiet_NaN();
    raw(&d, 8);
  }
  void put(int64_t i) { raw(&i, 8); }
  void put(const std::string &t) { s += t + '|'; }
  void put(const UUID &u) { raw(u.id().data(), 16); }
  void put(const Frame3 &f) { put(f.id()); }
  template <typename D>
  void put(const Eigen::MatrixBase<D> &m) {
    for (int j = 0; j < m.cols(); ++j)
      for (int i = 0; i < m.rows(); ++i) put(double(m(i, j)));
  }
  void put(const SO3 &g) {
    put(g.rotation_matrix());
    put(g.into());
    put(g.from());
  }
  void put(const SE3 &g) {
    put(g.rotation().rotation_matrix());
    put(g.translation());
    put(g.into());
    put(g.from());
  }
  void put(const FV3 &v) {
    put(V3(v.vector()));
    put(v.frame());
  }
  template <typename G>
  void put(const TwoJetL<G> &j) {
    put(j.frame_from_ref());
    put(j.d_frame_from_ref());
    put(j.d2_frame_from_ref());
  }
  template <typename G>
  void put(const TwoJetR<G> &j) {
    put(j.ref_from_frame());
    put(j.d_ref_from_frame());
    put(j.d2_ref_from_frame());
  }
  void put(const State &x) { put(x.ref_from_body_two_jet()); }
  template <typename G>
  void put(const TCurve<G> &c) {
    for (auto &p : c.control_pts()) {
      put(p.time);
      put(p.point);
    }
    put(static_cast<int64_t>(c.segments().size()));
  }
  void put(const DCurve<SE3> &c) {
    for (auto &p : c.control_pts()) {
      put(p.arc_length);
      put(*p.ref_from_control);
    }
    put(static_cast<int64_t>(c.segments().size()));
  }
  void put(const Trajectory &t) {
    put(static_cast<int64_t>(t.start_time().time_since_epoch().count()));
    put(t.curve());
  }
  void put(const ViewPrimitive &p) {
    put(p.id);
    put(p.user_defined_name.value_or("(none)"));
    put(p.file_name);
    put(static_cast<int64_t>(p.line_number));
    std::visit([&](auto &x) { put(x); }, p.payload);
  }
};

inline SE3 pose(double angle, const V3 &axis, const V3 &t, int into, int from) {
  SE3 g(SO3(M3(Eigen::AngleAxisd(angle, axis.normalized()).toRotationMatrix())), t);
  if (into) g.set_frames(frame(into), frame(from));
  return g;
}
inline V6 six(double a, double b, double c, double d, double e, double f) {
  V6 v;
  v << a, b, c, d, e, f;
  return v;
}
inline TCurve<SE3> t_curve(double start, int n, double bend) {
  std::vector<TCurve<SE3>::Control> c;
  for (int i = 0; i < n; ++i)
    c.push_back({start + i * (i + 1) * 0.75, TwoJetL<SE3>(pose(0.3 * i * bend, V3(1, -1, 2), V3(i, i * i, -1 * bend), 2, 1), six(0.1, bend, 0, 1, 0, i), six(0, 0.2, bend, 0, i, 1))});
  return TCurve<SE3>(c);
}
inline TCurve<SO3> t_curve_so3(int n) {
  std::vector<TCurve<SO3>::Control> c;
  for (int i = 0; i < n; ++i) c.push_back({1. + i, TwoJetL<SO3>(SO3(M3(Eigen::AngleAxisd(0.2 * i, V3(0, 0.6, 0.8)).toRotationMatrix())), V3(0.1, 0, i), V3(0, 1, 0.5))});
  return TCurve<SO3>(c);
}
inline DCurve<SE3> d_curve(int n, double step, double bend) {
  std::vector<SE3> p{pose(0.4, V3(0, 0, 1), V3(5, 6, 7), 1, 2)};
  for (int i = 1; i < n; ++i) {
    SE3 inc(SO3(M3(Eigen::AngleAxisd(bend * i, V3(0, 0, 1)).toRotationMatrix())), V3(step, 0, 0.1));
    inc.set_frames(frame(2), frame(2));
    p.push_back(p.back() * inc);
  }
  return DCurve<SE3>(p);
}
inline Trajectory trajectory(int64_t start, int n) {
  return Trajectory(t_curve(0, n, 0.4), Timestamp(Duration(start)));
}

struct World {
  SO3 r0 = SO3(M3(Eigen::AngleAxisd(1.1, V3(1, 2, -2).normalized()).toRotationMatrix())), r1, r2;
  SE3 g[5];
  TwoJetL<SE3> jl, jl2;
  TwoJetR<SE3> jr, jr2;
  TwoJetL<SO3> jo;
  TCurve<SE3> tc = t_curve(1e3, 4, 1.);
  TCurve<SO3> to = t_curve_so3(4);
  DCurve<SE3> dc = d_curve(4, 2., 0.2);
  Trajectory tr = trajectory(1600000000123456789, 4);
  State st, st2;
  FV3 fv = FV3(V3(1, -2, 3), frame(2)), fw = FV3(V3(0.5, 4, 3), frame(2)), fx = FV3(V3(1, 1, 3), frame(1));
  resim::time::EventSchedule<std::string> sch;
  Gaussian ga{Eigen::Vector2d(1, 2), (Eigen::Matrix2d() << 4, 1, 1, 3).finished()};
  ViewUpdate up;
  vp::ViewUpdate up_msg;
  sp::Trajectory tr_msg;
  cp::TCurve_SE3 tc_msg;
  cp::DCurve_SE3 dc_msg;
  tp::SE3 g_msg, bad_msg;
  Status bad = MAKE_STATUS("it broke");
  StatusValue<std::string> val{std::string("a value that does not fit into the small buffer")};
  std::variant<int, std::string, double> var{std::string("alternative of some length, on the heap")};
  Eigen::MatrixXd samples = (Eigen::MatrixXd(4, 2) << 1, 2, 3, 5, 4, 4, 0, -1).finished();
  World() {
    r1 = SO3(M3(Eigen::AngleAxisd(-0.7, V3(0, 0, 1)).toRotationMatrix()));
    r2 = SO3(M3(Eigen::AngleAxisd(M_PI, V3(0, 0.6, 0.8)).toRotationMatrix()));
    g[0] = pose(1.3, V3(1, 1, 2), V3(1, 2, 3), 1, 2);
    g[1] = pose(-0.4, V3(0, 1, 2), V3(-1, 2, 0.5), 2, 5);
    g[2] = pose(M_PI, V3(0, 0, 1), V3(100, 2, 3), 1, 2);
    g[3] = pose(1e-9, V3(1, 0, 1), V3(0, 2, 3), 0, 0);
    g[4] = pose(3.1, V3(1, -1, 0), V3(7, 2, -3), 5, 1);
    jl = TwoJetL<SE3>(g[0], six(1, 2, 3, 4, 5, 6), six(0, 1, 0, 2, 0, 3));
    jl2 = TwoJetL<SE3>(g[1], six(0.1, 2, 0, 4, 0, 6), six(5, 1, 0, 2, 0, 3));
    jr = TwoJetR<SE3>(g[0], six(1, 0, 3, 4, 0, 6), six(0, 1, 1, 2, 0, 3));
    jr2 = TwoJetR<SE3>(g[1], six(1, 0, -3, 4, 0, 6), six(0, 1, 1, 2, 0, -3));
    jo = TwoJetL<SO3>(r0, V3(1, 2, 3), V3(3, 2, 1));
    st = State(jr);
    st2 = State(jr2);
    for (int i = 0; i < 5; ++i) sch.schedule_event(Timestamp(Duration((i * 7) % 5)), std::string(40, 'a' + i));
    const UUID id("11111111-2222-4333-8444-5555555555aa");
    up.primitives.push_back(ViewPrimitive{id, g[0], "a name long enough for the heap", "some/file/with/a/long/name.cc", 12});
    up.primitives.push_back(ViewPrimitive{id, tc, std::nullopt, "f.cc", 3});
    up.primitives.push_back(ViewPrimitive{id, dc, std::nullopt, "f.cc", 4});
    up.primitives.push_back(ViewPrimitive{id, tr, "t", "f.cc", 5});
    up.primitives.push_back(ViewPrimitive{id, fv, "v", "f.cc", 6});
    vp::pack(up, &up_msg);
    sp::pack(tr, &tr_msg);
    cp::pack(tc, &tc_msg);
    cp::pack(dc, &dc_msg);
    tp::pack(g[0], &g_msg);
    bad_msg = g_msg;
    bad_msg.mutable_algebra()->RemoveLast();
  }
};

struct Op {
  std::string name;
  std::function<void(const World &, Out &)> run;
};
inline std::string perform(const Op &op, const World &w) {
  Out o;
  try {
    op.run(w, o);
  } catch (const mc::TooMany &) {
    throw;
  } catch (const std::exception &e) {
    o.put(std::string("rejected"));
  }
  return std::move(o.s);
}

inline std::vector<Op> operations() {
  std::vector<Op> r;
  const auto add = [&](const std::string &n, std::function<void(const World &, Out &)> f) { r.push_back({n, std::move(f)}); };
  add("SO3 compose", [](auto &w, auto &o) { o.put(w.r0 * w.r1); });
  add("SO3 rotate, log, adjoint", [](auto &w, auto &o) {
    o.put(V3(w.r0 * V3(1, 2, 3)));
    o.put(w.r0.log());
    o.put(w.r0.adjoint());
    o.put(w.r0.adjoint_times(V3(1, 0, 2)));
  });
  add("SO3 half turn log", [](auto &w, auto &o) { o.put(w.r2.log()); });
  add("SO3 exp", [](auto &, auto &o) {
    o.put(SO3::exp(V3(0.3, -0.2, 2.1)));
    o.put(SO3::exp_diff(V3(0.3, -0.2, 2.1)));
  });
  add("SO3 exp, tiny", [](auto &, auto &o) {
    o.put(SO3::exp(V3(3e-9, -2e-9, 1e-9)));
    o.put(SO3::exp_diff(V3(3e-9, -2e-9, 1e-9)));
  });
  add("SO3 interp", [](auto &w, auto &o) {
    o.put(w.r0.interp(0.3));
    o.put(w.r2.interp(0.7));
    o.put(int64_t{w.r0.is_approx(w.r2)});
  });
  add("SE3 compose", [](auto &w, auto &o) { o.put(w.g[0] * w.g[1]); });
  add("SE3 compose, frames differ", [](auto &w, auto &o) { o.put(w.g[1] * w.g[0]); });
  add("SE3 apply, inverse", [](auto &w, auto &o) {
    o.put(V3(w.g[0] * V3(4, 5, 6)));
    o.put(w.g[0].rotate(V3(4, 5, 6)));
    o.put(w.g[4].inverse());
  });
  add("SE3 rotate framed", [](auto &w, auto &o) { o.put(w.g[0].rotate(w.fv)); });
  add("SE3 rotate framed, frames differ", [](auto &w, auto &o) { o.put(w.g[0].rotate(w.fx)); });
  for (int i = 0; i < 5; ++i) {
    add(mc::str("SE3 log ", i), [i](auto &w, auto &o) { o.put(w.g[i].log()); });
    add(mc::str("SE3 interp, arc length ", i), [i](auto &w, auto &o) {
      o.put(w.g[i].interp(0.25));
      o.put(w.g[i].interp(1.5));
      if (w.g[i].is_framed()) o.put(w.g[i].interp(0.5, frame(5)));
      o.put(w.g[i].arc_length());
    });
  }
  add("SE3 exp", [](auto &, auto &o) { o.put(SE3::exp(six(0.3, -0.2, 2.1, 4, 5, 6), frame(1), frame(2))); });
  add("SE3 exp, other", [](auto &, auto &o) { o.put(SE3::exp(six(0, 1e-8, 0, 4, 5, 6))); });
  add("SE3 adjoint", [](auto &w, auto &o) {
    o.put(w.g[0].adjoint());
    o.put(w.g[0].adjoint_times(six(1, 2, 3, 4, 5, 6)));
    o.put(SE3::adjoint(six(1, 2, 3, 4, 5, 6)));
    o.put(SE3::adjoint_times(six(1, 2, 3, 4, 5, 6), six(0, 2, 0, 4, 0, 6)));
  });
  add("SE3 comparisons", [](auto &w, auto &o) {
    for (auto &a : w.g)
      for (auto &b : w.g) {
        o.put(int64_t{a.is_approx(b)});
        o.put(int64_t{a.is_approx_transform(b)});
        o.put(resim::transforms::se3_inverse_distance(a, b));
        o.put(int64_t{a.verify_frames(b.into(), b.from())});
      }
  });
  add("exp differentials", [](auto &, auto &o) {
    for (double q : {0., 1e-7, 3.9e-6, 4.1e-6, 0.5, 9.}) {
      const auto c = resim::transforms::derivative_of_exp_so3(q);
      o.put(c.a);
      o.put(c.b);
      o.put(c.c);
    }
  });
  add("framed vectors", [](auto &w, auto &o) {
    o.put(w.fv + w.fw);
    o.put(w.fv * 3.);
    o.put(2. * w.fv);
    o.put(int64_t{w.fv == w.fw});
    o.put(int64_t{w.fv.isApprox(w.fv)});
  });
  add("framed vectors, frames differ", [](auto &w, auto &o) { o.put(w.fv + w.fx); });
  add("jets compose", [](auto &w, auto &o) {
    o.put(w.jl * w.jl2);
    o.put(w.jr * w.jr2);
  });
  add("jets invert, convert", [](auto &w, auto &o) {
    o.put(w.jl.inverse());
    o.put(w.jr.inverse());
    o.put(w.jl.right_two_jet());
    o.put(w.jr.left_two_jet());
    o.put(w.jo.inverse());
    o.put(int64_t{w.jl.is_approx(w.jl2)});
  });
  // Queries of shared curves: in every segment, at joints, at the ends, outside.
  const std::vector<double> times = {1000, 1000.3, 1001.5, 1002, 1004.5, 1006, 1009, 999, 1e4};
  for (double t : times) add(mc::str("T curve at ", t), [t](auto &w, auto &o) { o.put(w.tc.point_at(t)); });
  for (double t : {1.2, 2., 3.7}) add(mc::str("rotation curve at ", t), [t](auto &w, auto &o) { o.put(w.to.point_at(t)); });
  add("T curve accessors", [](auto &w, auto &o) {
    o.put(w.tc);
    o.put(w.tc.start_time());
    o.put(w.tc.end_time());
    o.put(w.tc.reference_frame());
    o.put(w.tc.point_frame());
    o.put(int64_t{w.tc.is_framed()});
    o.put(w.tc.segments()[1].curve.point_at(0.5));
  });
  add("T curve copied and extended", [](auto &w, auto &o) {
    TCurve<SE3> c = w.tc;
    c.append({1020., TwoJetL<SE3>(c.control_pts().back().point)});
    o.put(c.point_at(1012.));
    o.put(c.point_at(1001.));
  });
  for (int k = 0; k < 3; ++k)
    add(mc::str("own T curve ", k), [k](auto &, auto &o) {
      const TCurve<SE3> c = t_curve(1e3, 3 + k, 0.5 * k);
      o.put(c.point_at(1001));
      o.put(c.point_at(1003));
      o.put(c.point_at(c.end_time()));
    });
  const std::vector<double> dists = {0, 0.7, 2.002498439450079, 3.1, 5.9};
  for (double d : dists) add(mc::str("D curve at ", d), [d](auto &w, auto &o) { o.put(w.dc.point_at(d)); });
  add("D curve end, outside", [](auto &w, auto &o) {
    o.put(w.dc.curve_length());
    o.put(w.dc.point_at(w.dc.curve_length()));
    o.put(w.dc.point_at(1e3));
  });
  add("D curve accessors", [](auto &w, auto &o) {
    o.put(w.dc);
    o.put(w.dc.reference_frame());
    o.put(w.dc.point_frame());
  });
  add("D curve copied and extended", [](auto &w, auto &o) {
    DCurve<SE3> c = w.dc;
    c.append(*c.control_pts().front().ref_from_control);
    o.put(c.point_at(6.5));
    o.put(c.point_at(1));
  });
  for (int k = 0; k < 3; ++k)
    add(mc::str("own D curve ", k), [k](auto &, auto &o) {
      const DCurve<SE3> c = d_curve(3 + k, 1. + k, 0.1 * k);
      o.put(c.point_at(0.5));
      o.put(c.point_at(1.9));
    });
  for (int64_t t : {0ll, 1500000000ll, 3000000001ll, 9000000000ll, -1ll})
    add(mc::str("trajectory at ", t), [t](auto &w, auto &o) {
      o.put(w.tr.point_at(w.tr.start_time() + Duration(t)));
      o.put(w.tr.point_at(Duration(t)));
    });
  add("trajectory accessors", [](auto &w, auto &o) {
    o.put(w.tr);
    o.put(int64_t{w.tr.end_time().time_since_epoch().count()});
    o.put(int64_t{w.tr.time_duration().count()});
    o.put(w.tr.reference_frame());
    o.put(w.tr.body_frame());
  });
  add("own trajectory", [](auto &w, auto &o) {
    Trajectory t = trajectory(1600000000123456789, 3);
    t.append({t.end_time() + Duration(123456789), w.tr.point_at(Duration(0))});
    o.put(t.point_at(t.end_time() - Duration(1000)));
    o.put(t);
  });
  add("state parts", [](auto &w, auto &o) {
    o.put(V3(w.st.body_linear_velocity_mps()));
    o.put(V3(w.st.body_angular_velocity_radps()));
    o.put(V3(w.st.body_linear_acceleration_mpss()));
    o.put(V3(w.st.body_angular_acceleration_radpss()));
    o.put(w.st.ref_from_body());
  });
  add("state product", [](auto &w, auto &o) {
    o.put(w.st * w.st2);
    o.put(w.st.inverse_times(w.st));
  });
  add("schedule read, copied, drained", [](auto &w, auto &o) {
    o.put(w.sch.top_event().payload);
    auto s = w.sch;
    while (s.size() != 0) {
      o.put(s.top_event().payload);
      s.pop_event();
    }
  });
  add("sample times", [](auto &, auto &o) {
    resim::time::sample_interval(Timestamp(Duration(5)), Timestamp(Duration(5005)), Duration(777), [&](Timestamp t) { o.put(int64_t{t.time_since_epoch().count()}); });
    o.put(resim::time::num_samples(0.5, -3.5, 0.3));
    resim::time::sample_interval(0.5, -3.5, 0.3, [&](double t) { o.put(t); });
  });
  add("sample times, other", [](auto &, auto &o) {
    resim::time::sample_interval(Timestamp(Duration(50)), Timestamp(Duration(-50)), Duration(9), [&](Timestamp t) { o.put(int64_t{t.time_since_epoch().count()}); });
    resim::time::sample_interval(0., 1., 0.25, [&](double t) { o.put(t); });
  });
  add("sample times, bad step", [](auto &, auto &o) { o.put(resim::time::num_samples(0., 1., -1.)); });
  add("conversions", [](auto &, auto &o) {
    o.put(resim::time::as_seconds(Duration(-1234567890123)));
    o.put(int64_t{resim::time::as_duration(12.3456).count()});
    const auto x = resim::time::to_seconds_and_nanos(Duration(-1234567890123));
    o.put(int64_t{x.secs});
    o.put(int64_t{x.nanos});
  });
  add("checked arithmetic", [](auto &, auto &o) {
    o.put(resim::math::safe_sum(1, 2));
    o.put(resim::math::safe_difference(1, 2));
    o.put(resim::math::safe_abs(-7));
    o.put(resim::math::safe_sum(INT64_MAX, 2));
  });
  add("Gaussian accessors", [](auto &w, auto &o) {
    o.put(w.ga.mu());
    o.put(w.ga.cov());
    o.put(w.ga.eigenvalues());
    o.put(w.ga.eigenvectors());
    o.put(int64_t{w.ga.dimensionality()});
  });
  add("Gaussian copied, drawn", [](auto &w, auto &o) {
    Gaussian g = w.ga;
    o.put(g.sample());
    o.put(g.samples(3));
    o.put(g.sample());
  });
  add("own Gaussian", [](auto &, auto &o) {
    Gaussian g(V3(1, 2, 3), M3(V3(1, 4, 9).asDiagonal()));
    o.put(g.sample());
    o.put(g.sample());
  });
  add("own Gaussian, bad covariance", [](auto &, auto &o) {
    Gaussian g(V3(1, 2, 3), M3(V3(1, -4, 9).asDiagonal()));
    o.put(g.sample());
  });
  add("sample statistics", [](auto &w, auto &o) {
    o.put(resim::math::mean(w.samples));
    o.put(resim::math::covariance(w.samples));
  });
  add("random duration", [](auto &, auto &o) {
    std::mt19937_64 rng(5);
    for (int i = 0; i < 3; ++i) o.put(int64_t{resim::time::random_duration(resim::InOut(rng)).count()});
  });
  add("identifier text", [](auto &w, auto &o) {
    o.put(w.up.primitives[0].id.to_string());
    o.put(UUID("12345678-9abc-def0-1234-56789abcdef0"));
    o.put(static_cast<int64_t>(std::hash<UUID>()(w.g[0].into().id())));
  });
  add("identifier text, other", [](auto &w, auto &o) {
    o.put(w.g[0].from().id().to_string());
    o.put(UUID("00000000-9abc-def0-1234-56789abcdef0"));
  });
  add("identifier text, malformed", [](auto &, auto &o) { o.put(UUID("12345678-9abc-def0-1234-56789abcdefg")); });
  add("status", [](auto &w, auto &o) {
    o.put(std::string(w.bad.what()));
    Status s = w.bad;
    o.put(int64_t{s.ok()});
    o.put(w.val.value());
    StatusValue<std::string> v = w.val;
    o.put(v.value());
  });
  add("status, bad value read", [](auto &w, auto &o) {
    StatusValue<std::string> v{w.bad};
    o.put(v.value());
  });
  add("assertion fails", [](auto &, auto &o) { REASSERT(false, "of course"); });
  add("match", [](auto &w, auto &o) {
    o.put(resim::match(
        w.var, [](int) { return std::string("int"); }, [](const std::string &s) { return s; }, [](double) { return std::string("double"); }));
  });
  // Serialisation. Packing works on a message of its own, unpacking on a shared one.
  add("pack transforms", [](auto &w, auto &o) {
    tp::SE3 m;
    tp::pack(w.g[0], &m);
    o.put(m.SerializeAsString());
    tp::SO3 n;
    tp::pack(w.r0, &n);
    o.put(n.SerializeAsString());
    tp::FramedVector_3 v;
    tp::pack(w.fv, &v);
    o.put(v.SerializeAsString());
  });
  add("pack curves", [](auto &w, auto &o) {
    cp::TCurve_SE3 m;
    cp::pack(w.tc, &m);
    o.put(m.SerializeAsString());
    cp::DCurve_SE3 n;
    cp::pack(w.dc, &n);
    o.put(n.SerializeAsString());
  });
  add("pack trajectory", [](auto &w, auto &o) {
    sp::Trajectory m;
    sp::pack(w.tr, &m);
    o.put(m.SerializeAsString());
  });
  add("pack update", [](auto &w, auto &o) {
    vp::ViewUpdate m;
    vp::pack(w.up, &m);
    o.put(m.SerializeAsString());
  });
  add("unpack transform", [](auto &w, auto &o) { o.put(tp::unpack(w.g_msg)); });
  add("unpack transform, malformed", [](auto &w, auto &o) { o.put(tp::unpack(w.bad_msg)); });
  add("unpack curves", [](auto &w, auto &o) {
    o.put(cp::unpack(w.tc_msg));
    o.put(cp::unpack(w.dc_msg));
  });
  add("unpack trajectory", [](auto &w, auto &o) { o.put(sp::unpack(w.tr_msg)); });
  add("unpack update", [](auto &w, auto &o) {
    for (auto &p : vp::unpack(w.up_msg).primitives) o.put(p);
  });
  return r;
}
}  // namespace pure
