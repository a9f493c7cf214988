// C13: serialisation. For every type: every object of a complete product of corner values is packed into a fresh message
// and into messages with all kinds of prior content, goes over the wire, and is unpacked (into fresh and used objects).
#include "resim/actor/state/rigid_body_state.hh"
#include "resim/curves/proto/d_curve_to_proto.hh"
#include "resim/curves/proto/t_curve_to_proto.hh"
#include "resim/curves/proto/two_jet_to_proto.hh"
#include "resim/math/proto/matrix_to_proto.hh"
#include "resim/transforms/proto/liegroup_to_proto.hh"
#include "resim/utils/inout.hh"
#include "serial.hh"

namespace {
using namespace serial;
using resim::InOut;

// How the generic (object filling) form is spelt for a type; none by default.
template <typename T, typename M>
struct Fill {
  static constexpr bool HAS = false;
};
template <>
struct Fill<SE3, tp::SE3> {
  static constexpr bool HAS = true;
  static void unpack(const tp::SE3 &m, SE3 &o) { tp::unpack_liegroup(m, InOut(o)); }
};
template <>
struct Fill<SO3, tp::SO3> {
  static constexpr bool HAS = true;
  static void unpack(const tp::SO3 &m, SO3 &o) { tp::unpack_liegroup(m, InOut(o)); }
};
template <typename G, typename M>
struct Fill<TwoJetL<G>, M> {
  static constexpr bool HAS = true;
  static void unpack(const M &m, TwoJetL<G> &o) { cp::unpack_two_jetl(m, InOut(o)); }
};
template <typename G, typename M>
struct Fill<TwoJetR<G>, M> {
  static constexpr bool HAS = true;
  static void unpack(const M &m, TwoJetR<G> &o) { cp::unpack_two_jetr(m, InOut(o)); }
};
template <typename G, typename M>
struct Fill<TCurve<G>, M> {
  static constexpr bool HAS = true;
  static void unpack(const M &m, TCurve<G> &o) { cp::unpack_t_curve(m, InOut(o)); }
};
template <>
struct Fill<DCurve<SE3>, cp::DCurve_SE3> {
  static constexpr bool HAS = true;
  static void unpack(const cp::DCurve_SE3 &m, DCurve<SE3> &o) { cp::unpack_d_curve(m, InOut(o)); }
};

uint64_t index_ = 0;

// `used` are objects whose packed form serves as prior content (and which serve as used targets of unpacking).
template <typename M, typename T>
void round_trip(const char *type, const std::vector<T> &objects, const std::vector<T> &used, const std::function<std::string(size_t)> &name) {
  size_t cur = 0;
  std::string phase;
  mc::describe = [&] { return mc::str(type, " ", name(cur), " (", phase, ")"); };
  const auto bad = [&](const char *key, const std::string &d) { mc::violation(mc::str(type, ":", key), mc::describe(), d); };
  // Messages with prior content.
  std::vector<std::string> prior;
  for (const T &u : used) {
    M m;
    pack(u, &m);
    prior.push_back(m.SerializeAsString());
  }
  prior.push_back(std::string("\xf8\x06\x2a\xfa\x07\x03" "abc", 9));  // unknown fields
  if (mc::shard == 0) {
    phase = "null target";
    M *null = nullptr;
    mc::transitions += 1;
    if (!mc::rejects([&] { pack(objects[0], null); })) bad("null", "packing into a null target was accepted");
  }
  for (cur = 0; cur < objects.size(); ++cur) {
    if (!mc::my_shard(index_++)) continue;
    mc::beat();
    ++mc::traces;
    const T &o = objects[cur];
    const T before(o);
    phase = "packing";
    M fresh;
    pack(o, &fresh);
    ++mc::transitions;
    std::string d = diff(o, before);
    if (!d.empty()) bad("modified", "packing changed the object: " + d);
    const std::string bytes = fresh.SerializeAsString();
    mc::state(mc::mix(mc::hash_str(type), mc::hash_str(bytes)));
    for (size_t k = 0; k < prior.size(); ++k) {
      phase = mc::str("packing over prior content ", k);
      M m;
      m.ParseFromString(prior[k]);
      pack(o, &m);
      ++mc::transitions;
      if (m.SerializeAsString() != bytes) bad("prior", mc::str("packing over prior content gives another message: ", m.ShortDebugString().substr(0, 400)));
    }
    phase = "packing twice";
    pack(o, &fresh);
    if (fresh.SerializeAsString() != bytes) bad("prior", "packing the same object again gives another message");
    phase = "wire";
    M wire;
    if (!wire.ParseFromString(bytes)) {
      bad("wire", "the message cannot be parsed");
      continue;
    }
    phase = "unpacking";
    ++mc::transitions;
    std::string text;
    bool threw = false;
    try {
      const T r = unpack(wire);
      d = diff(r, o);
      if (!d.empty()) bad("round-trip", d);
      M again;
      pack(r, &again);
      const T r2 = unpack(again);
      d = diff(r2, o);
      if (!d.empty()) bad("second-round-trip", d);
    } catch (const mc::TooMany &) {
      throw;
    } catch (const std::exception &e) {
      threw = true;
      text = e.what();
    }
    if (threw) bad("refused", "unpacking failed: " + text);
    if (wire.SerializeAsString() != bytes) bad("message-modified", "unpacking changed the message");
    if constexpr (Fill<T, M>::HAS) {
      for (size_t k = 0; k < used.size(); ++k) {
        phase = mc::str("unpacking over used object ", k);
        T target(used[k]);
        ++mc::transitions;
        if (mc::rejects([&] { Fill<T, M>::unpack(wire, target); })) bad("refused", "unpacking into a used object failed");
        else if (!(d = diff(target, o)).empty()) bad("used-object", d);
      }
    }
    mc::maybe_sample([&] { return mc::describe() + " -> " + fresh.ShortDebugString().substr(0, 200); });
  }
  mc::bounds[type] = mc::str(objects.size(), " objects x ", prior.size() + 1, " prior contents");
  mc::counters[mc::str("objects_", type)] = mc::shard == 0 ? objects.size() : 0;
}

template <typename T>
std::vector<T> pick(const std::vector<T> &all, std::initializer_list<size_t> idx) {
  std::vector<T> r;
  for (size_t i : idx) r.push_back(all[i % all.size()]);
  return r;
}

std::vector<UUID> uuids() {
  std::vector<UUID> r;
  const auto text = [](const std::vector<unsigned char> &b) {
    std::string s;
    char c[3];
    for (int i = 0; i < 16; ++i) {
      snprintf(c, sizeof c, "%02x", b[i]);
      s += c;
      if (i == 3 || i == 5 || i == 7 || i == 9) s += '-';
    }
    return s;
  };
  r.push_back(UUID());
  for (int base = 0; base < 2; ++base)
    for (int i = 0; i < 16; ++i)
      for (int v = 0; v < 256; ++v) {
        std::vector<unsigned char> b(16, base ? 0xa5 : 0);
        b[i] = v;
        r.push_back(UUID(text(b)));
      }
  return r;
}

template <typename G>
void groups(const char *type, int nt) {
  std::vector<G> all;
  std::vector<std::string> names;
  for (const auto &f : framings())
    for (size_t r = 0; r < rotations().size(); ++r)
      for (int t = 0; t < nt; ++t) {
        all.push_back(pose<G>(r, t, f));
        names.push_back(mc::str("rotation ", r, " translation ", t, " frames ", f.into, "<-", f.from));
      }
  using M = std::conditional_t<std::is_same_v<G, SE3>, tp::SE3, tp::SO3>;
  round_trip<M>(type, all, pick(all, {0, 5, rotations().size() * nt + 3, rotations().size() * nt * 2 + 17}), [&](size_t i) { return names[i]; });
}
template <typename J, typename G>
J jet(const G &g, int d1, int d2) {
  return J(g, tangent<G>(d1), tangent<G>(d2));
}
template <template <typename> class Jet, typename G, typename M>
void jets(const char *type) {
  std::vector<Jet<G>> all;
  std::vector<std::string> names;
  for (const auto &f : framings())
    for (int r : {0, 2, 7, 23, 40, 50, 60, 61, 62, 100, 140})
      for (int t = 0; t < (std::is_same_v<G, SO3> ? 1 : 3); ++t)
        for (int d1 = 0; d1 < 5; ++d1)
          for (int d2 = 0; d2 < 5; ++d2) {
            all.push_back(jet<Jet<G>>(pose<G>(r, t, f), d1, d2));
            names.push_back(mc::str("rotation ", r, " translation ", t, " frames ", f.into, "<-", f.from, " derivatives ", d1, ",", d2));
          }
  round_trip<M>(type, all, pick(all, {0, 131, 977}), [&](size_t i) { return names[i]; });
}
// Curves: every shape (length, time pattern, framing, rotation of the poses).
template <typename G, typename M>
void t_curves(const char *type) {
  std::vector<TCurve<G>> all;
  std::vector<std::string> names;
  const std::vector<std::vector<double>> times = {{0, 1, 2, 3, 4}, {-5.5, -1e-9, 0, 1e-9, 7}, {1700000000.125, 1700000000.25, 1700000001, 1700000001.0000002, 1.8e9}, {0.1, 0.1 + 1e-16, 0.2, 0.30000000000000004, 1e5}, {-0.0, 5e-324, 1e-300, 1, 1e300}};
  for (const auto &f : framings())
    for (size_t tv = 0; tv < times.size(); ++tv)
      for (int n = 0; n <= 5; ++n)
        for (int off = 0; off < (mc::thorough ? 40 : 9); ++off) {
          // Control poses stay within half a turn of each other, as the curve needs them to.
          const int near_poses[] = {0, 28, 29, 30, 24 + 21 + 6, 24 + 42 + 7};
          std::vector<typename TCurve<G>::Control> pts;
          bool bad = false;
          for (int i = 0; i < n; ++i) {
            if (i && !(times[tv][i] > times[tv][i - 1])) bad = true;
            const int rot = n == 1 ? off * 7 : near_poses[(off + i) % 6];
            pts.push_back({times[tv][i], jet<TwoJetL<G>>(pose<G>(rot, (off + i) % (off % 2 ? 4 : 2), f), tv == 4 ? 0 : (off + i) % 2, tv == 4 ? 0 : (off + 2 * i) % 3 == 1)});
          }
          if (bad) continue;
          all.push_back(TCurve<G>(pts));
          names.push_back(mc::str(n, " controls, times ", tv, ", poses ", off, ", frames ", f.into, "<-", f.from));
        }
  for (int n : {20, 300, 1100}) {
    TCurve<G> c;
    for (int i = 0; i < n; ++i) c.append({i * 0.1 - 3, jet<TwoJetL<G>>(pose<G>(24 + i % 6, i % 4, {1, 2}), 1 + i % 2, i % 2)});
    all.push_back(c);
    names.push_back(mc::str(n, " controls"));
  }
  round_trip<M>(type, all, pick(all, {0, all.size() - 2, 40, all.size() / 2}), [&](size_t i) { return names[i]; });
}
std::vector<DCurve<SE3>> d_curves_list(std::vector<std::string> *names) {
  std::vector<DCurve<SE3>> all;
  for (const auto &f : framings())
    for (int n = 0; n <= 5; ++n)
      for (int off = 0; off < (mc::thorough ? 60 : 20); ++off) {
        DCurve<SE3> c;
        const std::vector<V3> ts = {V3(0, 0, 0), V3(1, 2, 3), V3(4, 2, 3.5), V3(-1, 0, 100), V3(1000, -2000, 5), V3(7, 7, 7)};
        for (int i = 0; i < n; ++i) {
          SE3 g(pose<SO3>(n == 1 ? off * 5 : off % 4 ? 24 + (i + off) % 12 : 0, 0, {0, 0}), ts[(off * (n == 1 ? 1 : 0) + i * (1 + off % 5)) % 6] + V3(0, 0, i));
          if (f.into) g.set_frames(frame(f.into), frame(f.from));
          c.append(g);
        }
        all.push_back(c);
        if (names) names->push_back(mc::str(n, " controls, poses ", off, ", frames ", f.into, "<-", f.from));
      }
  DCurve<SE3> c;
  for (int i = 0; i < 1100; ++i) c.append(SE3(V3(i, i % 7, 0), frame(1), frame(2)));
  all.push_back(c);
  if (names) names->push_back("1100 controls");
  return all;
}
std::vector<Trajectory> trajectories_list(std::vector<std::string> *names) {
  std::vector<Trajectory> all;
  const int64_t starts[] = {0, 1, -1, 999999999, 1000000000, -999999999, -1000000000, -1000000001, 1700000000123456789, -1700000000123456789, 4102444799999999999, 2147483647999999999, 2147483648000000000, -2147483648000000001, INT64_MAX - 200000000000, INT64_MIN + 1, 9223372036000000000 - 100000000000};
  for (const auto &f : framings())
    for (int64_t s : starts)
      for (int n = 1; n <= 4; ++n)
        for (int v = 0; v < (mc::thorough ? 6 : 3); ++v) {
          Trajectory t;
          int64_t at = s;
          for (int i = 0; i < n; ++i) {
            SE3 g(pose<SO3>(n == 1 ? 24 + 19 * v : 24 + 5 + (i + v) % 8, 0, {0, 0}), V3(i, 2 * i + v, -3));
            if (f.into) g.set_frames(frame(f.into), frame(f.from));
            State::StateDerivatives d;
            d.velocity.linear_mps = V3(v, i, 0.5);
            d.velocity.angular_radps = V3(0.1, 0, -0.1 * v);
            d.acceleration.linear_mpss = V3(0, 0.25 * i, 1);
            d.acceleration.angular_radpss = V3(0, -0.125, 0.1 * i);
            t.append({Timestamp(Duration(at)), State(g, d)});
            at += std::vector<int64_t>{1000000000, 1, 333333333, 60000000001}[(i + v) % 4];
          }
          all.push_back(t);
          if (names) names->push_back(mc::str("start ", s, "ns, ", n, " controls, variant ", v, ", frames ", f.into, "<-", f.from));
        }
  all.push_back(Trajectory());
  if (names) names->push_back("empty");
  Trajectory longer;
  for (int i = 0; i < 400; ++i) longer.append({Timestamp(Duration(1700000000123456789 + i * 100000007LL)), State(SE3(V3(i, i % 7, 0), frame(1), frame(2)), State::StateDerivatives{})});
  all.push_back(longer);
  if (names) names->push_back("400 controls");
  // A curve that does not start at zero.
  all.push_back(Trajectory(TCurve<SE3>{{2.5, jet<TwoJetL<SE3>>(pose<SE3>(3, 1, {1, 2}), 1, 1)}, {4, jet<TwoJetL<SE3>>(pose<SE3>(3, 0, {1, 2}), 1, 1)}}, Timestamp(Duration(77))));
  if (names) names->push_back("curve from 2.5 to 4");
  return all;
}

using Payload = decltype(ViewPrimitive::payload);
std::vector<Payload> payloads() {
  std::vector<Payload> p;
  p.push_back(pose<SE3>(7, 1, {1, 2}));
  p.push_back(pose<SE3>(0, 0, {0, 0}));
  p.push_back(pose<SO3>(9, 0, {2, 1}));
  p.push_back(pose<SO3>(2, 0, {0, 0}));
  p.push_back(DCurve<SE3>{SE3(V3(1, 2, 3), frame(1), frame(2)), SE3(V3(4, 2, 3), frame(1), frame(2))});
  p.push_back(DCurve<SE3>());
  p.push_back(TCurve<SE3>{{1, jet<TwoJetL<SE3>>(pose<SE3>(0, 1, {1, 2}), 1, 4)}, {2, jet<TwoJetL<SE3>>(pose<SE3>(30, 1, {1, 2}), 4, 1)}});
  p.push_back(TCurve<SE3>());
  const auto ts = trajectories_list(nullptr);
  p.push_back(ts[5]);
  p.push_back(ts[ts.size() / 2]);
  p.push_back(frame(1));
  p.push_back(frame(0));
  p.push_back(FV3(V3(1, -2, 0.1), frame(2)));
  p.push_back(FV3(V3(0, 0, 0), frame(0)));
  return p;
}
std::vector<ViewPrimitive> primitives(bool all) {
  std::vector<ViewPrimitive> r;
  const std::vector<std::optional<std::string>> names = {std::nullopt, "x", "a name with spaces", std::string("nul\0inside", 10), std::string(300, 'n'), std::string(10000, 'n'), "\xc3\xa9\xe2\x82\xac\xf0\x9f\x9a\x97", "-", "payload"};
  const std::vector<std::string> files = {"", "resim/a.cc", "/tmp/with space/\xc3\xa9.cc", std::string(5000, 'f'), std::string("a\0b.cc", 6)};
  const std::vector<int> lines = {0, 1, -1, 128, 65536, INT32_MAX, INT32_MIN};
  const std::vector<UUID> ids = {UUID("11111111-2222-4333-8444-555555555555"), UUID(), UUID("ffffffff-ffff-ffff-ffff-ffffffffffff")};
  for (const auto &p : payloads())
    for (size_t n = 0; n < (all ? names.size() : 2); ++n)
      for (size_t f = 0; f < (all ? files.size() : 1); ++f)
        for (size_t l = 0; l < (all ? lines.size() : 1); ++l)
          for (size_t i = 0; i < (all ? ids.size() : 1); ++i) {
            ViewPrimitive v{.id = ids[i], .payload = p};
            v.user_defined_name = names[n];
            v.file_name = all ? files[f] : "f.cc";
            v.line_number = all ? lines[l] : static_cast<int>(r.size());
            r.push_back(v);
          }
  return r;
}

template <typename Mat>
void matrices(const char *name) {
  // pack_matrix / unpack_matrix directly: every entry distinct, special values in every position; wrong sizes rejected.
  google::protobuf::RepeatedField<double> field;
  mc::describe = [name] { return mc::str("matrix ", name); };
  Mat m;
  const double specials[] = {0.0, -0.0, 5e-324, 1.7976931348623157e308, INFINITY, -INFINITY, 0.1};
  for (int pos = -1; pos < m.size(); ++pos)
    for (double s : specials) {
      for (int i = 0; i < m.size(); ++i) m.data()[i] = 1.5 * i - 7;
      if (pos >= 0) m.data()[pos] = s;
      for (int prior = 0; prior < 3; ++prior) {
        field.Clear();
        for (int i = 0; i < prior * static_cast<int>(m.size()); ++i) field.Add(99);
        ++mc::traces;
        mc::transitions += 2;
        resim::math::proto::pack_matrix(m, &field);
        Mat r = Mat::Constant(-1);
        mc::state(mc::mix(mc::hash_str(name), mc::mix(pos + 1, mc::bits(s))));
        if (field.size() != m.size()) mc::violation("matrix", mc::describe(), mc::str(field.size(), " entries"));
        if (mc::rejects([&] { resim::math::proto::unpack_matrix(field, InOut(r)); }) || !exactly(r, m)) mc::violation("matrix", mc::describe(), "not reproduced: " + show(r));
      }
    }
  for (int n = 0; n < 2 * m.size() + 3; ++n) {
    if (n == m.size()) continue;
    field.Clear();
    for (int i = 0; i < n; ++i) field.Add(i);
    Mat r;
    ++mc::transitions;
    if (!mc::rejects([&] { resim::math::proto::unpack_matrix(field, InOut(r)); })) mc::violation("matrix-size", mc::describe(), mc::str(n, " entries accepted"));
  }
  google::protobuf::RepeatedField<double> *null = nullptr;
  if (!mc::rejects([&] { resim::math::proto::pack_matrix(m, null); })) mc::violation("matrix-null", mc::describe(), "accepted");
}
}  // namespace

int main(int argc, char **argv) {
  return mc::run(argc, argv, [] {
    if (mc::shard == 0) {
      matrices<Eigen::Matrix<double, 1, 1>>("1x1");
      matrices<Eigen::Matrix<double, 3, 1>>("3x1");
      matrices<Eigen::Matrix<double, 1, 4>>("1x4");
      matrices<Eigen::Matrix<double, 6, 1>>("6x1");
      matrices<Eigen::Matrix<double, 2, 3>>("2x3");
      matrices<Eigen::Matrix<double, 3, 2, Eigen::RowMajor>>("3x2 row major");
      matrices<Eigen::Matrix<double, 4, 4>>("4x4");
    }
    const auto us = uuids();
    round_trip<resim::proto::UUID>("UUID", us, pick(us, {0, 17, 4100}), [&](size_t i) { return us[i].to_string(); });
    std::vector<Frame3> fs;
    for (const auto &u : us) fs.push_back(Frame3(u));
    round_trip<tp::Frame_3>("Frame", fs, pick(fs, {0, 17, 4100}), [&](size_t i) { return us[i].to_string(); });
    std::vector<FV3> fvs;
    const double vals[] = {0, -0.0, 1, -3.5, 0.1, 1e-300, 1e300};
    for (double x : vals)
      for (double y : vals)
        for (double z : vals)
          for (int f = 0; f < 6; ++f) fvs.push_back(FV3(V3(x, y, z), frame(f)));
    round_trip<tp::FramedVector_3>("FramedVector", fvs, pick(fvs, {0, 100, 701}), [&](size_t i) { return show(V3(fvs[i].vector())) + fvs[i].frame().id().to_string(); });
    groups<SO3>("SO3", 1);
    groups<SE3>("SE3", 4);
    jets<TwoJetL, SE3, cp::TwoJetL_SE3>("TwoJetL<SE3>");
    jets<TwoJetR, SE3, cp::TwoJetR_SE3>("TwoJetR<SE3>");
    jets<TwoJetL, SO3, cp::TwoJetL_SO3>("TwoJetL<SO3>");
    jets<TwoJetR, SO3, cp::TwoJetR_SO3>("TwoJetR<SO3>");
    t_curves<SE3, cp::TCurve_SE3>("TCurve<SE3>");
    t_curves<SO3, cp::TCurve_SO3>("TCurve<SO3>");
    std::vector<std::string> names;
    const auto ds = d_curves_list(&names);
    round_trip<cp::DCurve_SE3>("DCurve<SE3>", ds, pick(ds, {0, ds.size() - 1, ds.size() / 3, 50}), [&](size_t i) { return names[i]; });
    names.clear();
    const auto trs = trajectories_list(&names);
    round_trip<sp::Trajectory>("Trajectory", trs, pick(trs, {0, 30, trs.size() - 1}), [&](size_t i) { return names[i]; });
    const auto ps = primitives(true);
    const auto few = primitives(false);
    round_trip<vp::ViewPrimitive>("ViewPrimitive", ps, few, [&](size_t i) { return mc::str("payload ", ps[i].payload.index(), " name '", ps[i].user_defined_name.value_or("(none)").substr(0, 20), "' file '", ps[i].file_name.substr(0, 20), "' line ", ps[i].line_number); });
    // All updates of up to three primitives, and long ones.
    std::vector<ViewUpdate> ups;
    std::vector<ViewPrimitive> seven;
    for (size_t i = 0; i < few.size(); i += 2) seven.push_back(few[i]);  // 14, both variants of each kind
    mc::all_words(static_cast<int>(seven.size()), mc::thorough ? 3 : 2, [&](const std::vector<int> &w) {
      ViewUpdate u;
      for (size_t k = 0; k < w.size(); ++k) {
        u.primitives.push_back(seven[w[k]]);
        u.primitives.back().line_number = static_cast<int>(k);
        if (k % 2) u.primitives.back().user_defined_name = mc::str("n", k);
      }
      ups.push_back(u);
      return true;
    });
    ViewUpdate lots;
    for (int i = 0; i < 700; ++i) lots.primitives.push_back(few[(i * 5) % few.size()]);
    ups.push_back(lots);
    round_trip<vp::ViewUpdate>("ViewUpdate", ups, pick(ups, {0, 3, 90, ups.size() - 1}), [&](size_t i) {
      std::string s = "kinds";
      for (const auto &p : ups[i].primitives) s += mc::str(" ", p.payload.index());
      return s;
    });
  });
}
