// C10: time-parameterised curves. All append histories (accepted and rejected) up to a depth, and all short histories
// repeated, on the real TCurve in lock step with the list of accepted control points; after every history the curve is
// queried at, next to and between all control points and its reported derivatives are compared with its reported poses.
#include "geo.hh"
#include "resim/curves/quintic_poly_coeffs.hh"
#include "resim/curves/t_curve.hh"

namespace {
using namespace geo;
using resim::curves::TCurve;
using resim::curves::TCurveSegment;
using resim::curves::TwoJetL;

std::string kindname;

template <typename G>
struct Control {
  double time;
  G pose;
  typename G::TangentVector d, d2;
};

template <typename G>
G make_pose(int i, int framing) {
  static const V3 ts[] = {V3(0, 0, 0), V3(3, -1, 2), V3(3.5, 1, 2), V3(-20, 5, 0.25)};
  static const M3 rs[] = {M3::Identity(), Eigen::AngleAxisd(0.8, V3(1, -2, 2) / 3).toRotationMatrix(),
                          V3(1, -1, -1).asDiagonal().toDenseMatrix(), Eigen::AngleAxisd(2.5, V3(0, 0, 1)).toRotationMatrix()};
  G g = [&] {
    if constexpr (std::is_same_v<G, SE3>)
      return SE3(SO3(rs[i]), ts[i]);
    else
      return SO3(rs[i]);
  }();
  switch (framing) {
    case 1: g.set_frames(frame(1), frame(2)); break;
    case 2: g.set_frames(frame(2), frame(1)); break;
    case 3: g.set_frames(frame(1), frame(5)); break;  // other reference frame
    case 4: g.set_frames(frame(4), frame(2)); break;  // other point frame
    default: break;
  }
  return g;
}
template <typename G>
typename G::TangentVector make_tangent(int i) {
  using T = typename G::TangentVector;
  if (i == 0) return T::Zero();
  if (i == 1) return T::LinSpaced(-0.5, 1.0);
  T t = T::Zero();
  t(2) = 0.7;
  t(0) = -0.3;
  return t;
}

// One candidate append: time step after the last accepted control, pose, velocity, acceleration, frames.
struct Cand {
  double dt;
  int pose, d, d2, framing;
  std::string name() const { return mc::str("append(dt=", dt, " pose", pose, " v", d, " a", d2, " frames", framing, ")"); }
};

template <typename G>
bool same_jet(const TwoJetL<G> &j, const Control<G> &c, long double ptol, long double vtol, long double atol) {
  return near(matrix(j.frame_from_ref()), matrix(c.pose), ptol) && near(j.d_frame_from_ref(), c.d, vtol) && near(j.d2_frame_from_ref(), c.d2, atol) &&
         j.frame_from_ref().into() == c.pose.into() && j.frame_from_ref().from() == c.pose.from();
}

template <typename G>
struct Explorer {
  using T = typename G::TangentVector;
  TCurve<G> curve;
  std::vector<Control<G>> model;
  std::vector<std::string> trace;
  double start = 0;

  std::string describe() const {
    std::string s = mc::str("TCurve<", std::is_same_v<G, SE3> ? "SE3" : "SO3", "> start ", start, ":");
    for (const auto &t : trace) s += " " + t;
    return s;
  }
  void bad(const char *key, const std::string &d) { mc::violation(key, describe(), d); }

  Control<G> control(const Cand &c) const {
    return {model.empty() ? start : model.back().time + c.dt, make_pose<G>(c.pose, c.framing), make_tangent<G>(c.d), make_tangent<G>(c.d2)};
  }
  static typename TCurve<G>::Control real(const Control<G> &c) { return {c.time, TwoJetL<G>(c.pose, c.d, c.d2)}; }
  bool acceptable(const std::vector<Control<G>> &m, const Control<G> &c) const {
    if (m.empty()) return true;
    return c.time > m.back().time && c.pose.into() == m.back().pose.into() && c.pose.from() == m.back().pose.from();
  }
  void append(const Cand &cand) {
    trace.push_back(cand.name());
    ++mc::transitions;
    mc::beat();
    const Control<G> c = control(cand);
    const bool ok = acceptable(model, c);
    const bool rejected = mc::rejects([&] { curve.append(real(c)); });
    if (rejected == ok) bad(ok ? "append-rejected" : "append-accepted", ok ? "a valid control point was refused" : "an invalid control point was accepted");
    if (ok) model.push_back(c);
  }
  // Appending a list; a list with a bad element is refused and either nothing or the points before it are kept.
  void append_list(const Cand &a, const Cand &b) {
    trace.push_back("{" + a.name() + "," + b.name() + "}");
    ++mc::transitions;
    mc::beat();
    std::vector<Control<G>> m = model;
    const Control<G> ca = control(a);
    const bool oka = acceptable(m, ca);
    if (oka) m.push_back(ca);
    Control<G> cb = control(b);
    cb.time = m.empty() ? start : m.back().time + b.dt;
    const bool okb = oka && acceptable(m, cb);
    if (okb) m.push_back(cb);
    const bool rejected = mc::rejects([&] { curve.append({real(ca), real(cb)}); });
    if (rejected == okb) bad(okb ? "append-rejected" : "append-accepted", okb ? "a valid list was refused" : "an invalid list was accepted");
    if (okb || (oka && curve.control_pts().size() == m.size())) model = m;
  }

  // Structure: what the accessors report.
  void structure() {
    const auto &pts = curve.control_pts();
    if (pts.size() != model.size()) return bad("control-points", mc::str(pts.size(), " control points, expected ", model.size()));
    for (size_t i = 0; i < pts.size(); ++i)
      if (pts[i].time != model[i].time || !same_jet(pts[i].point, model[i], 0, 0, 0)) return bad("control-points", mc::str("control point ", i, " differs from what was appended"));
    const auto &seg = curve.segments();
    if (seg.size() + 1 != std::max<size_t>(pts.size(), 1)) return bad("segments", mc::str(seg.size(), " segments for ", pts.size(), " points"));
    for (size_t i = 0; i < seg.size(); ++i) {
      const double dt = model[i + 1].time - model[i].time;
      if (seg[i].orig_time != model[i].time || seg[i].dest_time != model[i + 1].time) return bad("segments", mc::str("times of segment ", i));
      Control<G> o = model[i], e = model[i + 1];
      for (Control<G> *c : {&o, &e}) {
        c->d *= dt;
        c->d2 *= dt * dt;
      }
      const long double tol = 1e-12L * (1 + dt * dt);
      if (!same_jet(seg[i].curve.orig(), o, 1e-12L, tol, tol) || !same_jet(seg[i].curve.dest(), e, 1e-12L, tol, tol)) return bad("segments", mc::str("ends of segment ", i));
      if (seg[i].curve.is_framed() != o.pose.is_framed() || !(seg[i].curve.reference_frame() == o.pose.from()) || !(seg[i].curve.point_frame() == o.pose.into())) return bad("segments", mc::str("frames of segment ", i));
    }
    if (model.empty()) {
      if (!mc::rejects([&] { curve.start_time(); }) || !mc::rejects([&] { curve.end_time(); }) || !mc::rejects([&] { curve.is_framed(); }) || !mc::rejects([&] { curve.reference_frame(); }) ||
          !mc::rejects([&] { curve.point_frame(); }))
        bad("empty", "a query of an empty curve was answered");
    } else {
      if (curve.start_time() != model.front().time || curve.end_time() != model.back().time) bad("times", mc::str(curve.start_time(), "..", curve.end_time()));
      if (curve.is_framed() != model[0].pose.is_framed() || !(curve.reference_frame() == model[0].pose.from()) || !(curve.point_frame() == model[0].pose.into())) bad("frames", "of the curve");
    }
    mc::transitions += 5;
  }

  bool refuses(double t) {
    ++mc::transitions;
    return mc::rejects([&] { curve.point_at(t); });
  }

  void queries(bool derivatives) {
    const double inf = std::numeric_limits<double>::infinity();
    if (model.size() < 2) {
      for (double t : {0.0, start, start + 1, start - 1})
        if (!refuses(t)) bad("query-short", mc::str("query at ", t, " of a curve with ", model.size(), " points was answered"));
      return;
    }
    const double s = model.front().time, e = model.back().time;
    for (double t : {std::nextafter(s, -inf), std::nextafter(e, inf), s - 1, e + 1, inf, -inf})
      if (!refuses(t)) bad("query-outside", mc::str("query at ", t, " outside [", s, ",", e, "] was answered"));
    if (!refuses(std::nan(""))) bad("query-nan", "query at not-a-number was answered");
    const auto ask = [&](double t, TwoJetL<G> &j) {
      ++mc::transitions;
      if (mc::rejects([&] { j = curve.point_at(t); })) {
        bad("query-refused", mc::str("query at ", t, " inside the range was refused"));
        return false;
      }
      if (!(j.frame_from_ref().into() == model[0].pose.into()) || !(j.frame_from_ref().from() == model[0].pose.from())) bad("query-frames", mc::str("at ", t));
      return true;
    };
    for (size_t i = 0; i < model.size(); ++i) {
      const Control<G> &c = model[i];
      TwoJetL<G> j;
      // Times are only known to an ulp, which the shorter neighbouring segment turns into its own units.
      double dt = 1e300;
      if (i > 0) dt = std::min(dt, c.time - model[i - 1].time);
      if (i + 1 < model.size()) dt = std::min(dt, model[i + 1].time - c.time);
      const long double ulp = 4 * (std::nextafter(std::fabs(c.time), inf) - std::fabs(c.time)) + 1e-16;
      const long double u = ulp / dt;  // relative
      const long double reach = 60 * (1 + c.d.norm() * dt + c.d2.norm() * dt * dt);
      const long double p = 1e-9L + reach * u, v = 1e-9L * (1 + reach / dt) + reach * u / dt, a = 1e-9L * (1 + reach / dt / dt) + reach * 10 * u / dt / dt;
      if (ask(c.time, j) && !same_jet(j, c, p, v, a))
        bad("control-point", mc::str("at control ", i, " (t=", c.time, "): pose off ", static_cast<double>(err(matrix(j.frame_from_ref()), matrix(c.pose))), " velocity off ", static_cast<double>(err(j.d_frame_from_ref(), c.d)),
                                     " acceleration off ", static_cast<double>(err(j.d2_frame_from_ref(), c.d2))));
      // Just before and just after, in terms of the neighbouring segment.
      if (u < 1e-9L)
        for (int side = -1; side <= 1; side += 2) {
          const double t = c.time + side * 1e-9 * dt;
          if (t < s || t > e) continue;
          if (ask(t, j) && !same_jet(j, c, p + 1e-6L * reach, v + 1e-6L * (1 + reach / dt), a + 1e-6L * (1 + reach / dt / dt) * 100)) bad("continuity", mc::str("next to control ", i, " (t=", t, ")"));
        }
      if (std::nextafter(c.time, inf) <= e && ask(std::nextafter(c.time, inf), j) && !same_jet(j, c, p * 4, v * 4, a * 4)) bad("continuity", mc::str("one ulp after control ", i));
      if (std::nextafter(c.time, -inf) >= s && ask(std::nextafter(c.time, -inf), j) && !same_jet(j, c, p * 4, v * 4, a * 4)) bad("continuity", mc::str("one ulp before control ", i));
    }
    if (!derivatives) return;
    for (size_t i = 0; i + 1 < model.size(); ++i) {
      const double t0 = model[i].time, dt = model[i + 1].time - t0;
      const double ulp = std::nextafter(std::fabs(t0) + dt, inf) - (std::fabs(t0) + dt);
      if (ulp / dt > 1e-13) continue;
      for (double f : {0.05, 0.3, 0.5, 0.77, 0.95}) {
        const double h = 1e-3 * dt;
        TwoJetL<G> j[5];
        double tt[5];
        bool ok = true;
        for (int k = 0; k < 5; ++k) {
          tt[k] = t0 + f * dt + (k - 2) * h;
          ok = ok && ask(tt[k], j[k]);
        }
        if (!ok) continue;
        const auto diff = [&](auto get) { return ((8.0L * (get(j[3]) - get(j[1])) - (get(j[4]) - get(j[0]))) / (12.0L * h)).eval(); };
        const LM4 m1 = diff([](const TwoJetL<G> &x) { return matrix(x.frame_from_ref()); });
        const auto a = diff([](const TwoJetL<G> &x) { return x.d_frame_from_ref().template cast<long double>().eval(); });
        const LM4 expect = hat(Eigen::Matrix<long double, G::DOF, 1>(j[2].d_frame_from_ref().template cast<long double>())) * matrix(j[2].frame_from_ref());
        const long double vs = 60 * (1 + (model[i].d.norm() + model[i + 1].d.norm()) * dt + (model[i].d2.norm() + model[i + 1].d2.norm()) * dt * dt);
        const long double reach = vs * vs;
        if (!near(m1, expect, 1e-7L * reach / dt)) bad("velocity", mc::str("reported velocity at t=", tt[2], " is not the derivative of the pose (off by ", static_cast<double>(err(m1, expect)), ")"));
        if (!near(a, j[2].d2_frame_from_ref(), 1e-6L * reach / dt / dt)) bad("acceleration", mc::str("reported acceleration at t=", tt[2], " is not the derivative of the velocity (off by ", static_cast<double>(err(a, j[2].d2_frame_from_ref())), ")"));
        // It also matches the segment queried directly in normalised time.
        const TwoJetL<G> n = curve.segments()[i].curve.point_at((tt[2] - t0) / dt);
        if (!near(matrix(n.frame_from_ref()), matrix(j[2].frame_from_ref()), 1e-9L * vs) || !near((n.d_frame_from_ref() / dt).eval(), j[2].d_frame_from_ref(), 1e-9L * reach / dt) ||
            !near((n.d2_frame_from_ref() / (dt * dt)).eval(), j[2].d2_frame_from_ref(), 1e-9L * reach / dt / dt))
          bad("segment-query", mc::str("at t=", tt[2]));
      }
    }
  }
  uint64_t hash() const {
    uint64_t h = mc::mix(std::is_same_v<G, SE3>, mc::bits(start));
    for (const auto &c : model) {
      h = mc::mix(h, mc::bits(c.time));
      h = mc::mix(h, mc::hash_str(show(matrix(c.pose)) + show(c.d) + show(c.d2)));
      h = mc::mix(h, c.pose.is_framed());
    }
    return h;
  }
};

std::vector<Cand> candidates(bool framed) {
  const int f = framed ? 1 : 0;
  std::vector<Cand> c = {
      {1.0, 1, 1, 2, f}, {0.5, 2, 2, 1, f}, {7.0, 3, 0, 0, f}, {1e-3, 0, 1, 0, f}, {2.0, 0, 0, 1, f}, {2e-10, 1, 2, 2, f},
      // invalid ones
      {0.0, 1, 0, 0, f}, {-0.5, 2, 1, 1, f}, {1.0, 1, 1, 1, framed ? 3 : 1}, {1.0, 1, 1, 1, framed ? 4 : 2},
      {1.0, 3, 1, 1, framed ? 0 : 3}, {1.0, 3, 1, 1, 2}, {std::nan(""), 0, 0, 0, f},
  };
  return c;
}

template <typename G>
void histories(int depth) {
  for (int framed = 0; framed < 2; ++framed)
    for (double start : {0.0, -5.0, 1.7e9}) {
      const auto cands = candidates(framed);
      const int n = static_cast<int>(cands.size());
      const int lists = 4;
      uint64_t index = 0;
      Explorer<G> *cur = nullptr;
      mc::describe = [&] { return cur ? cur->describe() : std::string("start"); };
      const auto apply = [&](Explorer<G> &x, int o) {
        if (o < n)
          x.append(cands[o]);
        else if (o == n)
          x.append_list(cands[0], cands[1]);
        else if (o == n + 1)
          x.append_list(cands[2], cands[7]);
        else if (o == n + 2)
          x.append_list(cands[9], cands[3]);
        else {
          // A copy that goes its own way leaves this curve alone; the assigned curve equals its source.
          x.trace.push_back("copy");
          TCurve<G> copy(x.curve), assigned;  // (curves are not copy-assignable)
          copy.append(Explorer<G>::real({x.model.empty() ? 5.0 : x.model.back().time + 1, x.model.empty() ? make_pose<G>(1, 1) : x.model.back().pose, make_tangent<G>(1), make_tangent<G>(1)}));
          assigned = TCurve<G>(copy);
          if (assigned.control_pts().size() != x.model.size() + 1) x.bad("copy", "assignment lost a point");
          x.structure();
          // Continue on a moved copy of the original.
          TCurve<G> again(x.curve);
          x.curve = TCurve<G>();
          x.curve = std::move(again);
        }
      };
      std::function<void(const Explorer<G> &, int)> rec = [&](const Explorer<G> &x, int d) {
        if (d == depth) return;
        for (int o = 0; o < n + lists; ++o) {
          if (d == 0 && o >= 4 && o < n) continue;  // the first control is always accepted; four representatives
          if (d == 1 && !mc::my_shard(index++)) continue;
          Explorer<G> y = x;
          cur = &y;
          apply(y, o);
          if (d + 1 == depth) ++mc::traces;
          y.structure();
          if (mc::new_state(y.hash()))
            y.queries(true);
          else if (d + 1 == depth)
            y.queries(false);
          mc::maybe_sample([&] { return y.describe(); });
          rec(y, d + 1);
        }
      };
      Explorer<G> x;
      x.start = start;
      cur = &x;
      x.structure();
      x.queries(false);
      rec(x, 0);
      // Lassos: all words of length <= 2 over the candidates, repeated.
      mc::all_words(n, 2, [&](const std::vector<int> &w) {
        if (w.empty() || !mc::my_shard(index++)) return true;
        Explorer<G> y;
        y.start = start;
        cur = &y;
        y.append(cands[w[0] < 6 ? w[0] : 0]);
        const int len = w.size() == 1 && w[0] < 3 ? 1100 : mc::thorough ? 140 : 40;
        for (int k = 0; k < len; ++k) {
          y.append(cands[w[k % w.size()]]);
          if (k % 16 == 15 && k < 140) y.structure();
        }
        if (y.trace.size() > 6) y.trace.erase(y.trace.begin() + 6, y.trace.end());
        y.trace.push_back(mc::str("... repeated to ", len));
        ++mc::traces;
        y.structure();
        y.queries(start == 0.0);
        mc::state(y.hash());
        // Construction from a vector gives the same curve.
        std::vector<typename TCurve<G>::Control> all;
        for (const auto &c : y.model) all.push_back(Explorer<G>::real(c));
        y.curve = TCurve<G>(all);
        y.structure();
        return true;
      });
      mc::bounds[mc::str(std::is_same_v<G, SE3> ? "SE3" : "SO3", framed ? " framed" : " unframed", " start ", start)] =
          mc::str("all histories of up to ", depth, " of ", n + lists, " appends/copies; all words of <= 2 candidates repeated to 40 (thorough 140), three single ones to 1100");
    }
  // Construction from lists, valid and invalid.
  for (int framed = 0; framed < 2; ++framed) {
    const auto cands = candidates(framed);
    for (size_t a = 0; a < cands.size(); ++a)
      for (size_t b = 0; b < cands.size(); ++b) {
        Explorer<G> y;
        mc::describe = [&] { return mc::str("construction from {", cands[a].name(), ", ", cands[b].name(), "}"); };
        const Control<G> first = y.control(cands[0]);
        y.model.push_back(first);
        const Control<G> ca = y.control(cands[a]);
        const bool oka = y.acceptable(y.model, ca);
        if (oka) y.model.push_back(ca);
        const Control<G> cb = y.control(cands[b]);
        const bool okb = oka && y.acceptable(y.model, cb);
        if (okb) y.model.push_back(cb);
        ++mc::traces;
        mc::transitions += 2;
        const auto r = [](const Control<G> &c) { return Explorer<G>::real(c); };
        for (int way = 0; way < 2; ++way) {
          const bool rejected = mc::rejects([&] {
            if (way == 0)
              y.curve = TCurve<G>{r(first), r(ca), r(cb)};
            else
              y.curve = TCurve<G>(std::vector<typename TCurve<G>::Control>{r(first), r(ca), r(cb)});
          });
          if (rejected == okb) mc::violation("construction", mc::describe(), okb ? "refused" : "accepted");
          if (okb) {
            y.structure();
            y.queries(false);
          }
        }
      }
  }
}

// Segments by themselves, and the polynomial blending functions.
template <typename G>
void segments() {
  const auto what = [](int a, int b, int f, int g) { return mc::str("segment from pose ", a, " framing ", f, " to pose ", b, " framing ", g); };
  for (int a = 0; a < 4; ++a)
    for (int b = 0; b < 4; ++b)
      for (int f = 0; f < 5; ++f)
        for (int g = 0; g < 5; ++g)
          for (int v = 0; v < 9; ++v) {
            ++mc::traces;
            mc::transitions += 3;
            mc::describe = [&] { return what(a, b, f, g); };
            const Control<G> o{0, make_pose<G>(a, f), make_tangent<G>(v % 3), make_tangent<G>(v / 3)}, e{1, make_pose<G>(b, g), make_tangent<G>((v + 1) % 3), make_tangent<G>((v / 3 + 2) % 3)};
            const TwoJetL<G> jo(o.pose, o.d, o.d2), je(e.pose, e.d, e.d2);
            std::unique_ptr<TCurveSegment<G>> s;
            const bool rejected = mc::rejects([&] { s = std::make_unique<TCurveSegment<G>>(jo, je); });
            if (rejected == (f == g)) {
              mc::violation("segment-frames", what(a, b, f, g), rejected ? "matching frames refused" : "mismatch accepted");
              continue;
            }
            if (rejected) continue;
            mc::state(mc::hash_str(what(a, b, f, g) + mc::str(v)));
            if (!same_jet(s->point_at(0), o, 1e-9L, 1e-8L, 1e-7L)) mc::violation("segment-origin", what(a, b, f, g), "not reproduced");
            if (!same_jet(s->point_at(1), e, 1e-8L, 1e-7L, 1e-6L)) mc::violation("segment-destination", what(a, b, f, g), "not reproduced");
          }
}
void polynomials() {
  using Q = resim::curves::QuinticPolyCoeffs;
  using F = resim::curves::TwoJetPolyCoeffs (*)(double);
  const F fs[5] = {&Q::dest_from_orig, &Q::d_orig, &Q::d_dest, &Q::d2_orig, &Q::d2_dest};
  const long double c[5][5] = {{0, 0, 10, -15, 6}, {1, 0, -6, 8, -3}, {0, 0, -4, 7, -3}, {0, .5L, -1.5L, 1.5L, -.5L}, {0, 0, .5L, -1, .5L}};
  for (int k = 0; k < 5; ++k)
    for (int i = -512; i <= 1536; ++i) {
      const double t = i / 1024.0;
      const auto r = fs[k](t);
      long double a = 0, d = 0, d2 = 0;
      for (int p = 1; p <= 5; ++p) {
        a += c[k][p - 1] * powl(t, p);
        d += c[k][p - 1] * p * powl(t, p - 1);
        if (p > 1) d2 += c[k][p - 1] * p * (p - 1) * powl(t, p - 2);
      }
      ++mc::traces;
      ++mc::transitions;
      if (fabsl(r.a - a) > 1e-10L || fabsl(r.da - d) > 1e-10L || fabsl(r.d2a - d2) > 1e-10L) mc::violation("polynomial", mc::str("blending function ", k, " at ", t), mc::str(r.a, " ", r.da, " ", r.d2a));
    }
  mc::bounds["polynomials"] = "5 blending functions x 2049 points";
}
}  // namespace

int main(int argc, char **argv) {
  return mc::run(argc, argv, [] {
    if (mc::shard == 0) {
      segments<SE3>();
      segments<SO3>();
      polynomials();
    }
    histories<SE3>(mc::thorough ? 5 : 4);
    histories<SO3>(mc::thorough ? 5 : 4);
  });
}
