// The serialisable types: object lists, message types, and equality decided by the harness (not by the library).
#pragma once
#include "geo.hh"
#include "resim/actor/state/proto/trajectory_to_proto.hh"
#include "resim/actor/state/trajectory.hh"
#include "resim/curves/d_curve.hh"
#include "resim/curves/proto/d_curve_se3_to_proto.hh"
#include "resim/curves/proto/t_curve_se3_to_proto.hh"
#include "resim/curves/proto/t_curve_so3_to_proto.hh"
#include "resim/curves/proto/two_jetl_se3_to_proto.hh"
#include "resim/curves/proto/two_jetl_so3_to_proto.hh"
#include "resim/curves/proto/two_jetr_se3_to_proto.hh"
#include "resim/curves/proto/two_jetr_so3_to_proto.hh"
#include "resim/curves/t_curve.hh"
#include "resim/curves/two_jet.hh"
#include "resim/transforms/framed_vector.hh"
#include "resim/transforms/proto/frame_3_to_proto.hh"
#include "resim/transforms/proto/framed_vector_3_to_proto.hh"
#include "resim/transforms/proto/se3_to_proto.hh"
#include "resim/transforms/proto/so3_to_proto.hh"
#include "resim/utils/proto/uuid_to_proto.hh"
#include "resim/visualization/proto/view_primitive_to_proto.hh"
#include "resim/visualization/proto/view_update_to_proto.hh"
#include "resim/visualization/view_primitive.hh"
#include "resim/visualization/view_update.hh"

namespace serial {
using namespace geo;
using resim::actor::state::Trajectory;
using resim::curves::DCurve;
using resim::curves::TCurve;
using resim::curves::TwoJetL;
using resim::curves::TwoJetR;
using resim::time::Duration;
using resim::time::Timestamp;
using resim::visualization::ViewPrimitive;
using resim::visualization::ViewUpdate;
using FV3 = resim::transforms::FramedVector<3>;
using State = resim::actor::state::RigidBodyState<SE3>;
namespace tp = resim::transforms::proto;
namespace cp = resim::curves::proto;
namespace sp = resim::actor::state::proto;
namespace vp = resim::visualization::proto;

// ---- equality: empty if equal, else what differs. Geometry to rounding, everything else exactly.
inline std::string diff(const UUID &a, const UUID &b) { return a.to_string() == b.to_string() ? "" : "identifier " + a.to_string() + ", expected " + b.to_string(); }
inline std::string diff(const Frame3 &a, const Frame3 &b) {
  const std::string s = diff(a.id(), b.id());
  return s.empty() ? "" : "frame: " + s;
}
template <typename G>
std::string diff_group(const G &a, const G &b) {
  std::string s = diff(a.into(), b.into());
  if (!s.empty()) return "into " + s;
  s = diff(a.from(), b.from());
  if (!s.empty()) return "from " + s;
  const LM4 x = matrix(a), y = matrix(b);
  const long double size = 1 + y.cwiseAbs().maxCoeff();
  if (!near(LM3(x.block<3, 3>(0, 0)), LM3(y.block<3, 3>(0, 0)), 1e-9L)) return mc::str("rotation ", show(x), ", expected ", show(y));
  if (!near(x, y, 1e-9L * size)) return mc::str("transform ", show(x), ", expected ", show(y));
  return "";
}
inline std::string diff(const SE3 &a, const SE3 &b) { return diff_group(a, b); }
inline std::string diff(const SO3 &a, const SO3 &b) { return diff_group(a, b); }
template <typename A>
bool exactly(const A &a, const A &b) {
  for (int i = 0; i < a.size(); ++i)
    if (!(a(i) == b(i))) return false;
  return a.size() == b.size();
}
inline std::string diff(const FV3 &a, const FV3 &b) {
  if (!exactly(V3(a.vector()), V3(b.vector()))) return mc::str("vector ", show(V3(a.vector())), ", expected ", show(V3(b.vector())));
  return diff(a.frame(), b.frame());
}
template <typename G>
std::string diff(const TwoJetL<G> &a, const TwoJetL<G> &b) {
  if (!exactly(a.d_frame_from_ref(), b.d_frame_from_ref())) return mc::str("first derivative ", show(a.d_frame_from_ref()), ", expected ", show(b.d_frame_from_ref()));
  if (!exactly(a.d2_frame_from_ref(), b.d2_frame_from_ref())) return mc::str("second derivative ", show(a.d2_frame_from_ref()), ", expected ", show(b.d2_frame_from_ref()));
  return diff(a.frame_from_ref(), b.frame_from_ref());
}
template <typename G>
std::string diff(const TwoJetR<G> &a, const TwoJetR<G> &b) {
  if (!exactly(a.d_ref_from_frame(), b.d_ref_from_frame())) return mc::str("first derivative ", show(a.d_ref_from_frame()), ", expected ", show(b.d_ref_from_frame()));
  if (!exactly(a.d2_ref_from_frame(), b.d2_ref_from_frame())) return mc::str("second derivative ", show(a.d2_ref_from_frame()), ", expected ", show(b.d2_ref_from_frame()));
  return diff(a.ref_from_frame(), b.ref_from_frame());
}
template <typename G>
std::string diff(const TCurve<G> &a, const TCurve<G> &b) {
  if (a.control_pts().size() != b.control_pts().size()) return mc::str(a.control_pts().size(), " controls, expected ", b.control_pts().size());
  if (a.segments().size() != b.segments().size()) return mc::str(a.segments().size(), " segments, expected ", b.segments().size());
  for (size_t i = 0; i < a.control_pts().size(); ++i) {
    if (!(a.control_pts()[i].time == b.control_pts()[i].time)) return mc::str("time ", a.control_pts()[i].time, " of control ", i, ", expected ", b.control_pts()[i].time);
    const std::string s = diff(a.control_pts()[i].point, b.control_pts()[i].point);
    if (!s.empty()) return mc::str("control ", i, ": ", s);
  }
  return "";
}
inline std::string diff(const DCurve<SE3> &a, const DCurve<SE3> &b) {
  if (a.control_pts().size() != b.control_pts().size()) return mc::str(a.control_pts().size(), " controls, expected ", b.control_pts().size());
  if (a.segments().size() != b.segments().size()) return mc::str(a.segments().size(), " segments, expected ", b.segments().size());
  for (size_t i = 0; i < a.control_pts().size(); ++i) {
    const std::string s = diff(*a.control_pts()[i].ref_from_control, *b.control_pts()[i].ref_from_control);
    if (!s.empty()) return mc::str("control ", i, ": ", s);
    const long double x = a.control_pts()[i].arc_length, y = b.control_pts()[i].arc_length;
    if (!(fabsl(x - y) <= 1e-9L * (1 + i) * (1 + fabsl(y)))) return mc::str("arc length ", a.control_pts()[i].arc_length, " of control ", i, ", expected ", b.control_pts()[i].arc_length);
  }
  return "";
}
inline std::string diff(const Trajectory &a, const Trajectory &b) {
  if (a.start_time() != b.start_time()) return mc::str("start time ", a.start_time().time_since_epoch().count(), ", expected ", b.start_time().time_since_epoch().count());
  if (!b.curve().control_pts().empty() && !a.curve().control_pts().empty() && a.end_time() != b.end_time()) return mc::str("end time ", a.end_time().time_since_epoch().count(), ", expected ", b.end_time().time_since_epoch().count());
  return diff(a.curve(), b.curve());
}
inline std::string diff(const ViewPrimitive &a, const ViewPrimitive &b) {
  std::string s = diff(a.id, b.id);
  if (!s.empty()) return s;
  if (a.payload.index() != b.payload.index()) return mc::str("payload of kind ", a.payload.index(), ", expected ", b.payload.index());
  const std::string an = a.user_defined_name.value_or(""), bn = b.user_defined_name.value_or("");  // an empty name is no name
  if (an != bn || (!bn.empty() && !a.user_defined_name)) return mc::str("name '", an, "', expected '", bn, "'");
  if (a.file_name != b.file_name) return mc::str("file '", a.file_name, "', expected '", b.file_name, "'");
  if (a.line_number != b.line_number) return mc::str("line ", a.line_number, ", expected ", b.line_number);
  return std::visit(
      [&](const auto &x) -> std::string {
        using T = std::decay_t<decltype(x)>;
        if (!std::holds_alternative<T>(b.payload)) return "payload of another kind";
        return diff(x, std::get<T>(b.payload));
      },
      a.payload);
}
inline std::string diff(const ViewUpdate &a, const ViewUpdate &b) {
  if (a.primitives.size() != b.primitives.size()) return mc::str(a.primitives.size(), " primitives, expected ", b.primitives.size());
  for (size_t i = 0; i < a.primitives.size(); ++i) {
    const std::string s = diff(a.primitives[i], b.primitives[i]);
    if (!s.empty()) return mc::str("primitive ", i, ": ", s);
  }
  return "";
}

// ---- objects
// The corner poses: half turns, near half turns, tiny and moderate rotations, far and near translations.
inline std::vector<M3> rotations() {
  std::vector<M3> r = octahedral();
  const double pi = M_PI;
  for (const V3 &axis : {V3(1, 0, 0), V3(0, -1, 0), V3(0, 0, 1), V3(1, -2, 2), V3(-2, 3, 6), V3(1, 1, 0), V3(0, -1, 1), V3(1, 1, -1), V3(-3, 0, 4), V3(1e-4, 1, -1e-3)})
    for (double angle : {1e-12, 3e-9, 1e-7, 1e-5, 3e-4, 0.01, 0.1, 0.5, 1., pi / 2, 2., 2.5, 3., pi - 1e-2, pi - 1e-4, pi - 1e-6, pi - 1e-8, pi - 1e-10, pi, -pi, -2.})
      r.push_back(Eigen::AngleAxisd(angle, axis.normalized()).toRotationMatrix());
  return r;
}
inline std::vector<V3> translations() { return {V3(0, 0, 0), V3(1, 2, -3), V3(1e6, -2e6, 12345.678), V3(1e-9, 0, -1e-6)}; }
struct Framing {
  int into, from;
};
inline std::vector<Framing> framings() { return {{0, 0}, {1, 2}, {2, 1}, {1, 4}, {5, 5}}; }
template <typename G>
G pose(int rot, int trans, const Framing &f) {
  static const std::vector<M3> rs = rotations();
  static const std::vector<V3> ts = translations();
  const SO3 r(rs[rot % rs.size()]);
  if constexpr (std::is_same_v<G, SO3>) {
    SO3 g(r);
    if (f.into) g.set_frames(frame(f.into), frame(f.from));
    return g;
  } else {
    SE3 g(r, ts[trans % ts.size()]);
    if (f.into) g.set_frames(frame(f.into), frame(f.from));
    return g;
  }
}
template <typename G>
typename G::TangentVector tangent(int k) {
  typename G::TangentVector v;
  for (int i = 0; i < v.size(); ++i) {
    const double c[] = {1, -2, 3.25, -0.5, 7, -11};
    switch (k) {
      case 0: v(i) = 0; break;
      case 1: v(i) = c[i]; break;
      case 2: v(i) = c[(i + 1) % 6] * 1e-300; break;
      case 3: v(i) = c[(i + 2) % 6] * 1e150; break;
      case 4: v(i) = (i % 2) ? 0 : 0.1; break;
      default: v(i) = c[i] * 0.01 + i; break;
    }
  }
  return v;
}
inline int half_turn() { return 2; }  // an octahedral half turn (see octahedral())
}  // namespace serial
