// C12: trajectories (all append histories up to a depth, and short ones repeated) and rigid body states (all setter
// sequences, all products), on the real classes against the list of accepted controls and Taylor polynomials.
#include "geo.hh"
#include "poly.hh"
#include "resim/actor/state/rigid_body_state.hh"
#include "resim/actor/state/trajectory.hh"

namespace {
using namespace geo;
using State = resim::actor::state::RigidBodyState<SE3>;
using resim::actor::state::Trajectory;
using resim::time::Duration;
using resim::time::Timestamp;

// ref_from_body poses and body derivatives.
State make_state(int pose, int d, int framing) {
  static const V3 ts[] = {V3(0, 0, 0), V3(3, -1, 2), V3(3.5, 1, 2)};
  static const M3 rs[] = {M3::Identity(), Eigen::AngleAxisd(0.8, V3(1, -2, 2) / 3).toRotationMatrix(), V3(1, -1, -1).asDiagonal().toDenseMatrix()};
  SE3 g(SO3(rs[pose]), ts[pose]);
  switch (framing) {
    case 1: g.set_frames(frame(1), frame(2)); break;
    case 2: g.set_frames(frame(2), frame(1)); break;
    case 3: g.set_frames(frame(1), frame(5)); break;
    case 4: g.set_frames(frame(4), frame(2)); break;
    default: break;
  }
  State::StateDerivatives s;
  if (d & 1) {
    s.velocity.linear_mps = V3(1, -0.5, 0.25);
    s.velocity.angular_radps = V3(0.1, 0.2, -0.3);
  }
  if (d & 2) {
    s.acceleration.linear_mpss = V3(-0.2, 0.4, 0.6);
    s.acceleration.angular_radpss = V3(-0.05, 0, 0.15);
  }
  return State(g, s);
}
bool same(const State &a, const State &b, long double p, long double v, long double acc, std::string &why) {
  why = mc::str("pose off ", static_cast<double>(err(matrix(a.ref_from_body()), matrix(b.ref_from_body()))), ", velocity off ",
                static_cast<double>(std::max(err(a.body_linear_velocity_mps(), b.body_linear_velocity_mps()), err(a.body_angular_velocity_radps(), b.body_angular_velocity_radps()))), ", acceleration off ",
                static_cast<double>(std::max(err(a.body_linear_acceleration_mpss(), b.body_linear_acceleration_mpss()), err(a.body_angular_acceleration_radpss(), b.body_angular_acceleration_radpss()))));
  return near(matrix(a.ref_from_body()), matrix(b.ref_from_body()), p) && near(a.body_linear_velocity_mps(), b.body_linear_velocity_mps(), v) &&
         near(a.body_angular_velocity_radps(), b.body_angular_velocity_radps(), v) && near(a.body_linear_acceleration_mpss(), b.body_linear_acceleration_mpss(), acc) &&
         near(a.body_angular_acceleration_radpss(), b.body_angular_acceleration_radpss(), acc) && a.ref_from_body().into() == b.ref_from_body().into() && a.ref_from_body().from() == b.ref_from_body().from();
}

struct Cand {
  int64_t dt;
  int pose, d, framing;
  std::string name() const { return mc::str("append(+", dt, "ns pose", pose, " d", d, " frames", framing, ")"); }
};
struct Explorer {
  Trajectory traj;
  std::vector<std::pair<int64_t, State>> model;
  int64_t start = 0;
  std::vector<std::string> trace;

  std::string describe() const {
    std::string s = mc::str("trajectory starting at ", start, "ns:");
    for (const auto &t : trace) s += " " + t;
    return s;
  }
  void bad(const char *key, const std::string &d) const { mc::violation(key, describe(), d); }
  static Timestamp ts(int64_t n) { return Timestamp(Duration(n)); }
  int64_t time_of(const Cand &c) const { return model.empty() ? start : model.back().first + c.dt; }
  bool ok(const Cand &c) const {
    if (model.empty()) return true;
    const SE3 &g = model[0].second.ref_from_body();
    const State s = make_state(c.pose, c.d, c.framing);
    return c.dt > 0 && s.ref_from_body().into() == g.into() && s.ref_from_body().from() == g.from();
  }
  void append(const Cand &c) {
    trace.push_back(c.name());
    ++mc::transitions;
    mc::beat();
    const bool valid = ok(c);
    const State s = make_state(c.pose, c.d, c.framing);
    const int64_t t = time_of(c);
    const bool rejected = mc::rejects([&] { traj.append(Trajectory::Control{ts(t), s}); });
    if (rejected == valid) bad(valid ? "append-rejected" : "append-accepted", valid ? "a valid control was refused" : "an invalid control was accepted");
    if (valid) model.emplace_back(t, s);
  }
  void append_list(const Cand &a, const Cand &b) {
    trace.push_back("{" + a.name() + "," + b.name() + "}");
    ++mc::transitions;
    Explorer after(*this);
    const Trajectory::Control ca{ts(time_of(a)), make_state(a.pose, a.d, a.framing)};
    const bool oka = ok(a);
    if (oka) after.model.emplace_back(time_of(a), ca.state);
    const Trajectory::Control cb{ts(after.time_of(b)), make_state(b.pose, b.d, b.framing)};
    const bool okb = oka && after.ok(b);
    if (okb) after.model.emplace_back(after.time_of(b), cb.state);
    const bool rejected = mc::rejects([&] { traj.append({ca, cb}); });
    if (rejected == okb) bad(okb ? "append-rejected" : "append-accepted", okb ? "a valid list was refused" : "an invalid list was accepted");
    if (okb || (oka && traj.curve().control_pts().size() == after.model.size())) model = after.model;
  }
  void check() const {
    mc::transitions += 6;
    if (traj.curve().control_pts().size() != model.size()) return bad("controls", mc::str(traj.curve().control_pts().size(), " controls, expected ", model.size()));
    if (model.empty()) {
      if (!mc::rejects([&] { traj.end_time(); })) bad("empty", "end_time() of an empty trajectory was answered");
      if (!mc::rejects([&] { traj.time_duration(); })) bad("empty", "time_duration() of an empty trajectory was answered");
      if (!mc::rejects([&] { traj.reference_frame(); }) || !mc::rejects([&] { traj.body_frame(); })) bad("empty", "a frame query of an empty trajectory was answered");
      if (!mc::rejects([&] { traj.point_at(ts(start)); }) || !mc::rejects([&] { traj.point_at(Duration(0)); })) bad("empty", "a state query of an empty trajectory was answered");
      return;
    }
    const int64_t s = model.front().first, e = model.back().first;
    if (traj.start_time() != ts(s)) bad("start-time", mc::str(traj.start_time().time_since_epoch().count()));
    if (traj.end_time() != ts(e)) bad("end-time", mc::str(traj.end_time().time_since_epoch().count(), ", expected ", e));
    if (traj.time_duration() != Duration(e - s)) bad("duration", mc::str(traj.time_duration().count(), ", expected ", e - s));
    const SE3 &g = model[0].second.ref_from_body();
    if (!(traj.reference_frame() == g.into()) || !(traj.body_frame() == g.from())) bad("frames", "of the trajectory");
    if (model.size() < 2) {
      if (!mc::rejects([&] { traj.point_at(ts(s)); }) || !mc::rejects([&] { traj.point_at(Duration(0)); })) bad("query-short", "a trajectory with one control was queried");
      return;
    }
    for (int64_t t : {s - 1, e + 1, s - 1000000000, e + 1000000000, s - 3, e + 3}) {
      mc::transitions += 2;
      if (!mc::rejects([&] { traj.point_at(ts(t)); })) bad("query-outside", mc::str("timestamp ", t, " outside [", s, ",", e, "]"));
      if (!mc::rejects([&] { traj.point_at(Duration(t - s)); })) bad("query-outside", mc::str("time from start ", t - s));
    }
    std::string why;
    for (size_t i = 0; i < model.size(); ++i) {
      const int64_t t = model[i].first;
      long double dt = 1e300L, longest = 0;
      for (size_t k = i ? i - 1 : 0; k <= i && k + 1 < model.size(); ++k) {
        const long double l = (model[k + 1].first - model[k].first) * 1e-9L;
        dt = std::min(dt, l);
        longest = std::max(longest, l);
      }
      const long double u = 1e-15L * (1 + (t - s) * 1e-9L) / dt;  // seconds from the start are doubles
      const long double reach = 60 * (1 + longest * 2 + longest * longest);  // size of the terms the segments sum
      const long double p = 1e-9L + reach * (u + 1e-14L), v = 1e-9L + reach * (1e-12L + u) / dt, a = 1e-9L + reach * 1e-12L / dt / dt + reach * 10 * u / dt / dt;
      for (int way = 0; way < 2; ++way) {
        ++mc::transitions;
        State q;
        if (mc::rejects([&] { q = way ? traj.point_at(Duration(t - s)) : traj.point_at(ts(t)); })) {
          bad("query-refused", mc::str("at control ", i, " (", t, "ns)"));
          continue;
        }
        if (!same(q, model[i].second, p, v, a, why)) bad("control", mc::str("control ", i, " (", t, "ns) not reproduced: ", why));
      }
    }
    // Everywhere inside, the two ways of asking agree with each other and with the underlying curve.
    for (size_t i = 0; i + 1 < model.size(); ++i)
      for (int k = 1; k < 4; ++k) {
        const int64_t t = model[i].first + (model[i + 1].first - model[i].first) * k / 4;
        mc::transitions += 3;
        State x, y;
        if (mc::rejects([&] {
              x = traj.point_at(ts(t));
              y = traj.point_at(Duration(t - s));
            })) {
          bad("query-refused", mc::str("at ", t));
          continue;
        }
        const State z(traj.curve().point_at(resim::time::as_seconds(Duration(t - s))).right_two_jet());
        if (!same(x, y, 0, 0, 0, why) || !same(x, z, 0, 0, 0, why)) bad("query-forms", mc::str("at ", t, ": ", why));
      }
  }
  uint64_t hash() const {
    uint64_t h = mc::mix(3, model.size());
    for (const auto &m : model) {
      h = mc::mix(h, static_cast<uint64_t>(m.first));
      h = mc::mix(h, mc::hash_str(show(matrix(m.second.ref_from_body())) + show(m.second.body_linear_velocity_mps()) + show(m.second.body_linear_acceleration_mpss())));
    }
    return h;
  }
};
std::vector<Cand> candidates(bool framed) {
  const int f = framed ? 1 : 0;
  return {{1000000000, 1, 1, f}, {1001, 1, 1, f}, {100000007, 2, 3, f}, {10800000000007, 0, 2, f}, {333333333, 1, 0, f}, {2082494, 2, 2, f}, {1, 0, 0, f},
          // invalid
          {0, 1, 1, f}, {-1, 1, 1, f}, {-10800000000007, 1, 1, f}, {1000000000, 1, 1, framed ? 3 : 1}, {1000000000, 1, 1, framed ? 4 : 2}, {1000000000, 1, 1, framed ? 0 : 3}, {1000000000, 1, 1, 2}};
}

void trajectories() {
  Explorer *cur = nullptr;
  mc::describe = [&] { return cur ? cur->describe() : std::string(); };
  const int depth = mc::thorough ? 5 : 4;
  for (int framed = 0; framed < 2; ++framed)
    for (int64_t start : {int64_t{0}, int64_t{1700000000123456789}, int64_t{-5000000001}}) {
      const auto cands = candidates(framed);
      const int n = static_cast<int>(cands.size());
      uint64_t index = 0;
      const int ops = n + 4;
      const auto apply = [&](Explorer &x, int o) {
        if (o < n) return x.append(cands[o]);
        if (o == n) return x.append_list(cands[0], cands[2]);
        if (o == n + 1) return x.append_list(cands[1], cands[8]);
        if (o == n + 2) {
          x.trace.push_back("copy");
          Trajectory copy(x.traj);
          copy.append({Explorer::ts(x.time_of(cands[0])), x.model.empty() ? make_state(1, 1, 1) : x.model.back().second});
          x.check();
          Trajectory again(x.traj);
          x.traj = Trajectory();
          x.traj = std::move(again);
          return;
        }
        // A trajectory made of the same curve and start time.
        x.trace.push_back("from-curve");
        // (An empty one has no start time yet: its first point defines it.)
        x.traj = Trajectory(resim::curves::TCurve<SE3>(x.traj.curve()), x.model.empty() ? Explorer::ts(987654321) : x.traj.start_time());
      };
      std::function<void(const Explorer &, int)> rec = [&](const Explorer &x, int d) {
        if (d == depth) return;
        for (int o = 0; o < ops; ++o) {
          if (d == 0 && o >= 2 && o < n) continue;
          if (d == 1 && !mc::my_shard(index++)) continue;
          Explorer y(x);
          cur = &y;
          apply(y, o);
          if (mc::new_state(y.hash()) || d + 1 == depth) y.check();
          if (d + 1 == depth) ++mc::traces;
          mc::maybe_sample([&] { return y.describe(); });
          rec(y, d + 1);
        }
      };
      Explorer x;
      x.start = start;
      cur = &x;
      x.check();
      rec(x, 0);
      mc::bounds[mc::str("trajectories ", framed ? "framed" : "unframed", " start ", start)] = mc::str("all histories of up to ", depth, " of ", ops, " operations; words of <= 2 repeated to 60, three single ones to 1100");
      mc::all_words(n, 2, [&](const std::vector<int> &w) {
        if (w.empty() || !mc::my_shard(index++)) return true;
        Explorer y;
        y.start = start;
        cur = &y;
        y.append(cands[0]);
        for (int k = 0; k < (w.size() == 1 && w[0] < 3 ? 1100 : 60); ++k) apply(y, w[k % w.size()]);
        y.trace.resize(5);
        y.trace.push_back("... repeated");
        ++mc::traces;
        y.check();
        mc::state(y.hash());
        return true;
      });
      if (mc::my_shard(index++)) {
        Explorer y;
        cur = &y;
        y.start = start;
        y.trace = {"construction from a list"};
        const auto c0 = Trajectory::Control{Explorer::ts(start), make_state(1, 1, framed)}, c1 = Trajectory::Control{Explorer::ts(start + 7), make_state(0, 0, framed)}, c2 = Trajectory::Control{Explorer::ts(start + 1000000001), make_state(2, 3, framed)};
        y.traj = Trajectory{c0, c1, c2};
        y.model = {{start, c0.state}, {start + 7, c1.state}, {start + 1000000001, c2.state}};
        y.check();
        if (!mc::rejects([&] { Trajectory t{c0, c2, c1}; })) y.bad("construction", "controls out of order accepted");
      }
    }
}

// Rigid body states: every sequence of setter calls up to length 5 over 10 (setter, value) pairs.
void states() {
  const V3 vals[2] = {V3(1, -2, 3), V3(0.25, 0, -7)};
  const SE3 poses[2] = {SE3(SO3(octahedral()[9]), V3(4, 5, 6), frame(1), frame(2)), SE3(SO3(octahedral()[3]), V3(-1, 0, 2))};
  struct M {
    int pose = -1, v[4] = {-1, -1, -1, -1};
  };
  std::vector<int> w;
  mc::describe = [&] {
    std::string s = "setters";
    for (int o : w) s += mc::str(" ", std::vector<const char *>{"pose", "linvel", "angvel", "linacc", "angacc"}[o / 2], o % 2);
    return s;
  };
  uint64_t index = 0;
  std::function<void(const State &, const M &)> rec = [&](const State &x, const M &m) {
    const auto val = [&](int k) { return m.v[k] < 0 ? V3(0, 0, 0) : vals[m.v[k]]; };
    const SE3 pose = m.pose < 0 ? SE3::identity() : poses[m.pose];
    ++mc::traces;
    mc::beat();
    mc::transitions += 6;
    mc::state(mc::mix(mc::mix(991, m.pose + 1), (m.v[0] + 1) + 3 * (m.v[1] + 1) + 9 * (m.v[2] + 1) + 27 * (m.v[3] + 1)));
    const auto d = x.body_derivatives();
    V6 j1, j2;
    j1 << val(1), val(0);
    j2 << val(3), val(2);
    if (!near(matrix(x.ref_from_body()), matrix(pose), 0) || !(x.ref_from_body().into() == pose.into()) || !(x.ref_from_body().from() == pose.from())) mc::violation("state-pose", mc::describe(), "not as set");
    if (!near(x.body_linear_velocity_mps(), val(0), 0) || !near(d.velocity.linear_mps, val(0), 0)) mc::violation("state-linear-velocity", mc::describe(), "not as set");
    if (!near(x.body_angular_velocity_radps(), val(1), 0) || !near(d.velocity.angular_radps, val(1), 0)) mc::violation("state-angular-velocity", mc::describe(), "not as set");
    if (!near(x.body_linear_acceleration_mpss(), val(2), 0) || !near(d.acceleration.linear_mpss, val(2), 0)) mc::violation("state-linear-acceleration", mc::describe(), "not as set");
    if (!near(x.body_angular_acceleration_radpss(), val(3), 0) || !near(d.acceleration.angular_radpss, val(3), 0)) mc::violation("state-angular-acceleration", mc::describe(), "not as set");
    if (!near(x.ref_from_body_two_jet().d_ref_from_frame(), j1, 0) || !near(x.ref_from_body_two_jet().d2_ref_from_frame(), j2, 0) || !near(matrix(x.ref_from_body_two_jet().ref_from_frame()), matrix(pose), 0))
      mc::violation("state-jet", mc::describe(), "the jet holds other values");
    const State again(x.ref_from_body(), d), jet(x.ref_from_body_two_jet());
    std::string why;
    if (!same(again, x, 0, 0, 0, why) || !same(jet, x, 0, 0, 0, why)) mc::violation("state-construction", mc::describe(), why);
    if (w.size() == 5) return;
    for (int o = 0; o < 10; ++o) {
      if (w.size() == 1 && !mc::my_shard(index++)) continue;
      w.push_back(o);
      State y(x);
      M n = m;
      if (o / 2 == 0) {
        y.set_ref_from_body(poses[o % 2]);
        n.pose = o % 2;
      } else
        n.v[o / 2 - 1] = o % 2;
      if (o / 2 == 1) y.set_body_linear_velocity_mps(vals[o % 2]);
      if (o / 2 == 2) y.set_body_angular_velocity_radps(vals[o % 2]);
      if (o / 2 == 3) y.set_body_linear_acceleration_mpss(vals[o % 2]);
      if (o / 2 == 4) y.set_body_angular_acceleration_radpss(vals[o % 2]);
      rec(y, n);
      w.pop_back();
    }
  };
  rec(State(SE3::identity()), M());
  mc::bounds["setters"] = "all sequences of up to 5 of 10 setter calls";
  if (mc::shard != 0) return;
  // Products and relative states, over all pairs and triples.
  std::vector<State> all;
  for (int p = 0; p < 3; ++p)
    for (int d = 0; d < 4; ++d) all.push_back(make_state(p, d, 0));
  const auto poly_of = [](const State &s) { return poly(s.ref_from_body_two_jet()); };
  for (size_t i = 0; i < all.size(); ++i)
    for (size_t j = 0; j < all.size(); ++j) {
      mc::describe = [i, j] { return mc::str("states ", i, " and ", j); };
      mc::beat();
      ++mc::traces;
      mc::transitions += 4;
      const State &a = all[i], &b = all[j];
      mc::state(mc::mix(5000 + i, j));
      if (distance(poly_of(a * b), poly_of(a) * poly_of(b)) > 1e-9L) mc::violation("state-product", mc::describe(), "wrong motion");
      if (distance(poly_of(a.inverse_times(b)), inverse(poly_of(a)) * poly_of(b)) > 1e-9L) mc::violation("state-relative", mc::describe(), "wrong motion");
      std::string why;
      if (!same(a * a.inverse_times(b), b, 1e-9L, 1e-9L, 1e-9L, why)) mc::violation("state-relative", mc::describe(), "a * (a \\ b) is not b: " + why);
      if (!same(a.inverse_times(a * b), b, 1e-9L, 1e-9L, 1e-9L, why)) mc::violation("state-relative", mc::describe(), "a \\ (a * b) is not b: " + why);
      for (size_t k = 0; k < all.size(); ++k) {
        ++mc::traces;
        mc::transitions += 4;
        if (!same((a * b) * all[k], a * (b * all[k]), 1e-9L, 1e-8L, 1e-8L, why)) mc::violation("state-product", mc::describe(), "not associative: " + why);
      }
    }
  // Frames of products.
  for (int f = 0; f < 5; ++f)
    for (int g = 0; g < 5; ++g) {
      const State a = make_state(1, 3, f), b = make_state(2, 3, g);
      mc::describe = [f, g] { return mc::str("states framed ", f, " and ", g); };
      ++mc::traces;
      mc::transitions += 2;
      State r;
      const SE3 &x = a.ref_from_body(), &y = b.ref_from_body();
      const bool un = !x.is_framed() || !y.is_framed();
      bool ok = un || x.from() == y.into();
      if (mc::rejects([&] { r = a * b; }) == ok) mc::violation("state-frames", mc::describe(), "product");
      else if (ok && (!(r.ref_from_body().into() == (un ? Frame3() : x.into())) || !(r.ref_from_body().from() == (un ? Frame3() : y.from())))) mc::violation("state-frames", mc::describe(), "of the product");
      ok = un || x.into() == y.into();
      if (mc::rejects([&] { r = a.inverse_times(b); }) == ok) mc::violation("state-frames", mc::describe(), "relative state");
      else if (ok && (!(r.ref_from_body().into() == (un ? Frame3() : x.from())) || !(r.ref_from_body().from() == (un ? Frame3() : y.from())))) mc::violation("state-frames", mc::describe(), "of the relative state");
    }
  const Frame3 fa = frame(1), fb = frame(2);
  const State id = State::identity(), fid = State::identity(fa, fb);
  if (distance(poly_of(id), Poly()) != 0 || distance(poly_of(fid), Poly()) != 0 || !(fid.ref_from_body().into() == fa) || !(fid.ref_from_body().from() == fb)) mc::violation("state-identity", "identity()", "not the identity");
  mc::bounds["products"] = "all pairs and triples of 12 states, all frame pairs";
}
}  // namespace

int main(int argc, char **argv) {
  return mc::run(argc, argv, [] {
    states();
    trajectories();
  });
}
