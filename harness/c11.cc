// C11: distance-parameterised curves. All append histories up to a depth and all short ones repeated, on the real DCurve,
// against geodesics computed with the matrix exponential: the increments are chosen, so the exact lengths are known.
#include "geo.hh"
#include "resim/curves/d_curve.hh"

namespace {
using namespace geo;
using resim::curves::DCurve;

struct Rel {
  L6 alg;  // motion from the last point, less than a half turn
  const char *name;
};
std::vector<Rel> increments() {
  const auto mk = [](double a, double b, double c, double x, double y, double z, const char *n) {
    Rel r;
    r.alg << a, b, c, x, y, z;
    r.name = n;
    return r;
  };
  return {mk(0, 0, 0, 1, 0, 0, "straight"),          mk(0, 0, M_PI / 2, M_PI / 2, 0, 0, "left"), mk(0, 0, -1.1, 2.2, 0, 0, "right"),
          mk(0.4, -0.2, 2.9, 5, 1, -2, "screw"),      mk(0, 0, 0, 1e-3, 0, 0, "short"),           mk(1e-5, 0, 0, 0, 250, 0, "long"),
          mk(0, 3.0, 0, -1, 0, 0.5, "reverse"),
          mk(0, 0, 0, 0, 0, 0, "stay"),               mk(0.2, 1.3, -0.6, 0, 0, 0, "turn")};
}

struct Explorer {
  DCurve<SE3> curve;
  std::vector<LM4> poses;
  std::vector<L6> segs;
  std::vector<long double> at;  // cumulative lengths
  int framing = 0;
  std::vector<std::string> trace;

  std::string describe() const {
    std::string s = mc::str("DCurve framing ", framing, ":");
    for (const auto &t : trace) s += " " + t;
    return s;
  }
  void bad(const char *key, const std::string &d) const { mc::violation(key, describe(), d); }
  SE3 real(const LM4 &m, int framing_of) const {
    SE3 g(SO3(M3(m.block<3, 3>(0, 0).cast<double>())), V3(m.block<3, 1>(0, 3).cast<double>()));
    switch (framing_of) {
      case 1: g.set_frames(frame(1), frame(2)); break;
      case 2: g.set_frames(frame(2), frame(1)); break;
      case 3: g.set_frames(frame(1), frame(5)); break;
      case 4: g.set_frames(frame(4), frame(2)); break;
      default: break;
    }
    return g;
  }
  LM4 next(const Rel &r) const {
    if (poses.empty()) {
      LM4 m = expm(hat(L6(increments()[3].alg)));
      return m;
    }
    return poses.back() * expm(hat(r.alg));
  }
  void accept(const Rel &r, const LM4 &m) {
    if (!poses.empty()) {
      segs.push_back(r.alg);
      at.push_back(at.back() + r.alg.tail<3>().norm());
    } else
      at.push_back(0);
    poses.push_back(m);
  }
  void append(const Rel &r, int framing_of) {
    trace.push_back(mc::str(r.name, framing_of == framing ? "" : mc::str("(frames ", framing_of, ")")));
    mc::beat();
    ++mc::transitions;
    const LM4 m = next(r);
    const bool ok = poses.empty() || framing_of == framing;
    const bool rejected = mc::rejects([&] { curve.append(real(m, framing_of)); });
    if (rejected == ok) bad(ok ? "append-rejected" : "append-accepted", ok ? "a valid point was refused" : "a point with other frames was accepted");
    if (ok) accept(r, m);
  }
  void append_list(const Rel &a, const Rel &b, int fa, int fb) {
    trace.push_back(mc::str("{", a.name, fa, ",", b.name, fb, "}"));
    ++mc::transitions;
    const Explorer before = *this;
    const LM4 ma = next(a);
    Explorer after = *this;
    const bool oka = fa == framing;
    if (oka) after.accept(a, ma);
    const LM4 mb = after.next(b);
    const bool okb = oka && fb == framing;
    if (okb) after.accept(b, mb);
    const bool rejected = mc::rejects([&] { curve.append({real(ma, fa), real(mb, fb)}); });
    if (rejected == okb) bad(okb ? "append-rejected" : "append-accepted", okb ? "a valid list was refused" : "an invalid list was accepted");
    if (okb || (oka && curve.control_pts().size() == after.poses.size())) {
      poses = after.poses;
      segs = after.segs;
      at = after.at;
    }
  }
  // 3 km, say, in 1e-9 relative; positions grow with the length.
  long double tol() const {
    long double s = 1;
    for (const auto &p : poses) s = std::max(s, p.cwiseAbs().maxCoeff());
    return 1e-12L * (s + (at.empty() ? 0 : at.back()));
  }
  bool is(const SE3 &g, const LM4 &m, long double t) const {
    return near(g.rotation().rotation_matrix(), m.block<3, 3>(0, 0), 1e-8L) && near(g.translation(), m.block<3, 1>(0, 3), t);
  }
  void structure() const {
    const auto &pts = curve.control_pts();
    if (pts.size() != poses.size()) return bad("control-points", mc::str(pts.size(), " control points, expected ", poses.size()));
    const long double t = tol();
    for (size_t i = 0; i < pts.size(); ++i) {
      if (fabsl(pts[i].arc_length - at[i]) > t) return bad("arc-length", mc::str("control point ", i, " at ", pts[i].arc_length, ", expected ", static_cast<double>(at[i])));
      if (!is(*pts[i].ref_from_control, poses[i], t) || !(pts[i].ref_from_control->into() == real(poses[i], framing).into()) || !(pts[i].ref_from_control->from() == real(poses[i], framing).from()))
        return bad("control-points", mc::str("control point ", i, " differs from what was appended"));
    }
    const auto &s = curve.segments();
    if (s.size() != segs.size()) return bad("segments", mc::str(s.size(), " segments"));
    for (size_t i = 0; i < s.size(); ++i) {
      if (s[i].orig_arc_length != pts[i].arc_length || s[i].dest_arc_length != pts[i + 1].arc_length) return bad("segments", mc::str("arc lengths of segment ", i));
      if (!is(*s[i].ref_from_orig, poses[i], t) || !is(*s[i].ref_from_dest, poses[i + 1], t) || !is(s[i].orig_from_dest, inv(poses[i]) * poses[i + 1], t)) return bad("segments", mc::str("ends of segment ", i));
    }
    if (fabsl(curve.curve_length() - (at.empty() ? 0 : at.back())) > t) bad("length", mc::str(curve.curve_length(), ", expected ", static_cast<double>(at.empty() ? 0 : at.back())));
    if (poses.empty()) {
      if (!mc::rejects([&] { curve.is_framed(); }) || !mc::rejects([&] { curve.reference_frame(); }) || !mc::rejects([&] { curve.point_frame(); })) bad("empty", "a frame query of an empty curve was answered");
    } else {
      const SE3 g = real(poses[0], framing);
      if (curve.is_framed() != g.is_framed() || !(curve.reference_frame() == g.into()) || !(curve.point_frame() == g.from())) bad("frames", "of the curve");
    }
    mc::transitions += 5;
  }
  bool refuses(double x) const {
    ++mc::transitions;
    return mc::rejects([&] { curve.point_at(x); });
  }
  void query(double x, const LM4 &expect, long double t, const char *key) const {
    ++mc::transitions;
    SE3 g;
    if (mc::rejects([&] { g = curve.point_at(x); })) return bad("query-refused", mc::str("at ", x));
    const SE3 r = real(poses[0], framing);
    if (!(g.into() == r.into()) || !(g.from() == r.from())) bad("query-frames", mc::str("at ", x));
    if (!is(g, expect, t)) bad(key, mc::str("at arc length ", x, ": ", show(matrix(g)), ", expected ", show(expect)));
  }
  void queries() const {
    const double inf = std::numeric_limits<double>::infinity(), len = curve.curve_length();
    for (double x : {-1.0, -1e-12, std::nextafter(0.0, -1.0), std::nextafter(len, inf), len + 1, inf, -inf, std::nan("")})
      if (!refuses(x)) bad("query-outside", mc::str("query at ", x, " of a curve of length ", len, " was answered"));
    if (poses.size() < 2) {
      if (!refuses(0)) bad("query-short", "a curve with fewer than two points was queried");
      return;
    }
    const long double t = tol();
    const auto &pts = curve.control_pts();
    for (size_t i = 0; i < poses.size(); ++i) {
      const double x = pts[i].arc_length;
      // Points that were appended without moving share a position: the first, the last or any between will do.
      size_t a = i, b = i;
      while (a > 0 && at[a - 1] == at[i]) --a;
      while (b + 1 < poses.size() && at[b + 1] == at[i]) ++b;
      if (a < b) {
        for (double q : {x, std::nextafter(x, inf), std::nextafter(x, 0)}) {
          if (q < 0 || q > len) continue;
          ++mc::transitions;
          SE3 g;
          if (mc::rejects([&] { g = curve.point_at(q); })) {
            bad("query-refused", mc::str("at ", q));
            continue;
          }
          bool found = q != x;  // a rounding beside them may lie on the way from one to the next
          for (size_t k = a; k <= b && !found; ++k) found = is(g, poses[k], t * 4);
          const SE3 r = real(poses[0], framing);
          if (!(g.into() == r.into()) || !(g.from() == r.from())) bad("query-frames", mc::str("at ", q));
          if (!found || !near(g.translation(), poses[i].block<3, 1>(0, 3), t * 4) || !near(M3(g.rotation().rotation_matrix() * g.rotation().rotation_matrix().transpose()), M3(M3::Identity()), 1e-7L))
            bad("coinciding-points", mc::str("at arc length ", q, ": ", show(matrix(g)), " is none of the control points ", a, " to ", b));
        }
        continue;
      }
      query(x, poses[i], t, "control-point");
      if (std::nextafter(x, inf) <= len) query(std::nextafter(x, inf), poses[i], t * 4, "joint");
      if (x > 0) query(std::nextafter(x, 0), poses[i], t * 4, "joint");
    }
    for (size_t i = 0; i < segs.size(); ++i)
      if (at[i] < at[i + 1]) for (double f : {0.1, 0.5, 0.875, 0.999}) {
        const long double seg = segs[i].tail<3>().norm();
        query(static_cast<double>(at[i] + f * seg), poses[i] * expm(hat(L6(segs[i] * static_cast<long double>(f)))), t * 4, "between");
      }
  }
  uint64_t hash() const {
    uint64_t h = mc::mix(7, framing);
    for (const auto &s : segs) h = mc::mix(h, mc::hash_str(show(s)));
    return mc::mix(h, poses.size());
  }
};
}  // namespace

int main(int argc, char **argv) {
  return mc::run(argc, argv, [] {
    const auto incs = increments();
    const int n = static_cast<int>(incs.size());
    const int depth = mc::thorough ? 6 : 5;
    Explorer *cur = nullptr;
    mc::describe = [&] { return cur ? cur->describe() : std::string(); };
    for (int framing = 0; framing < 2; ++framing) {
      uint64_t index = 0;
      const int ops = n + (framing ? 4 : 0) + 3;
      const auto apply = [&](Explorer &x, int o) {
        if (o < n) return x.append(incs[o], x.framing);
        if (framing && o < n + 4) return x.append(incs[o - n], o - n == 3 ? 0 : o - n + 2);
        const int k = o - n - (framing ? 4 : 0);
        if (k == 0) return x.append_list(incs[0], incs[1], framing, framing);
        if (k == 1) return x.append_list(incs[2], incs[0], framing, framing ? 3 : framing);
        // A diverging copy leaves the original alone; go on with a moved copy.
        x.trace.push_back("copy");
        DCurve<SE3> copy(x.curve);
        if (!x.poses.empty()) copy.append(x.real(x.next(incs[0]), framing));
        x.structure();
        DCurve<SE3> again(x.curve);
        x.curve = DCurve<SE3>();
        x.curve = std::move(again);
      };
      std::function<void(const Explorer &, int)> rec = [&](const Explorer &x, int d) {
        if (d == depth) return;
        for (int o = 0; o < ops; ++o) {
          if (d == 0 && o > 0) break;
          if (d == 1 && !mc::my_shard(index++)) continue;
          Explorer y(x);
          cur = &y;
          apply(y, o);
          y.structure();
          if (d + 1 == depth) ++mc::traces;
          mc::state(y.hash());
          y.queries();
          mc::maybe_sample([&] { return y.describe(); });
          rec(y, d + 1);
        }
      };
      Explorer x;
      x.framing = framing;
      cur = &x;
      x.structure();
      x.queries();
      rec(x, 0);
      mc::bounds[framing ? "framed" : "unframed"] = mc::str("all histories of up to ", depth, " of ", ops, " operations after the first point");
      mc::all_words(ops - 1, 2, [&](const std::vector<int> &w) {
        if (w.empty() || !mc::my_shard(index++)) return true;
        Explorer y;
        y.framing = framing;
        cur = &y;
        y.append(incs[0], framing);
        for (int k = 0; k < ((w.size() == 1 && w[0] < 4) || (w.size() == 2 && w[0] < 3 && w[1] < 3) ? 1100 : mc::thorough ? 150 : 45); ++k) apply(y, w[k % w.size()]);
        if (y.trace.size() > 7) y.trace.resize(7);
        y.trace.push_back("... repeated");
        ++mc::traces;
        y.structure();
        y.queries();
        mc::state(y.hash());
        std::vector<SE3> all;
        for (const LM4 &m : y.poses) all.push_back(y.real(m, framing));
        y.curve = DCurve<SE3>(all);
        y.structure();
        return true;
      });
      mc::bounds[framing ? "framed repeated" : "unframed repeated"] = "all words of <= 2 operations repeated to 45 (thorough 150), four single ones and nine pairs to 1100";
      // Construction from lists.
      if (mc::shard == 0)
        for (int a = 0; a < 5; ++a)
          for (int b = 0; b < 5; ++b) {
            if (!framing && (a || b)) continue;
            Explorer y;
            y.framing = framing;
            cur = &y;
            y.trace = {mc::str("construct with frames ", a, " and ", b, " after the first")};
            const LM4 m0 = y.next(incs[0]);
            y.accept(incs[0], m0);
            const LM4 m1 = y.next(incs[1]);
            y.accept(incs[1], m1);
            const LM4 m2 = y.next(incs[2]);
            y.accept(incs[2], m2);
            const bool ok = a == framing && b == framing;
            for (int way = 0; way < 2; ++way) {
              ++mc::transitions;
              ++mc::traces;
              const bool rejected = mc::rejects([&] {
                if (way == 0)
                  y.curve = DCurve<SE3>{y.real(m0, framing), y.real(m1, a), y.real(m2, b)};
                else
                  y.curve = DCurve<SE3>(std::vector<SE3>{y.real(m0, framing), y.real(m1, a), y.real(m2, b)});
              });
              if (rejected == ok) y.bad("construction", ok ? "refused" : "accepted");
              if (ok) {
                y.structure();
                y.queries();
              }
            }
          }
    }
  });
}
