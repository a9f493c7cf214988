// C14: malformed messages. Every single structural mutation, every pair of mutations, every truncation and every
// single-byte corruption of messages of every type; an independent validity rule and decoder say what must happen.
#include <google/protobuf/message.h>

#include "resim/actor/state/rigid_body_state.hh"
#include "serial.hh"

namespace {
using namespace serial;
using google::protobuf::FieldDescriptor;
using google::protobuf::Message;
using google::protobuf::Reflection;

// ---- the validity rule
enum class V { OK, BAD, OPEN };  // OPEN: not specified, only required not to crash
V operator&(V a, V b) { return a == V::BAD || b == V::BAD ? V::BAD : a == V::OPEN || b == V::OPEN ? V::OPEN : V::OK; }

bool uuid_ok(const std::string &s) {
  if (s.size() != 36) return false;
  for (size_t i = 0; i < 36; ++i) {
    const bool dash = i == 8 || i == 13 || i == 18 || i == 23;
    if (dash ? s[i] != '-' : !isxdigit(static_cast<unsigned char>(s[i]))) return false;
  }
  return true;
}
std::string lower(std::string s) {
  for (char &c : s) c = static_cast<char>(tolower(c));
  return s;
}
const std::string NIL = "00000000-0000-0000-0000-000000000000";
V valid(const resim::proto::UUID &m) { return uuid_ok(m.data()) ? V::OK : V::BAD; }
V valid(const tp::Frame_3 &m) { return valid(m.id()); }
V valid(const tp::FramedVector_3 &m) { return m.algebra_size() == 3 ? valid(m.frame()) : V::BAD; }
template <typename D>
V numbers(const D &d, int n) {
  return d.size() == n ? V::OK : V::BAD;
}
std::string id(const tp::Frame_3 &f) { return lower(f.id().data()); }
template <typename M>
V valid_group(const M &m, int dims) {
  V v = numbers(m.algebra(), dims) & valid(m.into()) & valid(m.from());
  if (v == V::OK && (id(m.into()) == NIL) != (id(m.from()) == NIL)) return V::BAD;
  return v;
}
V valid(const tp::SE3 &m) { return valid_group(m, 6); }
V valid(const tp::SO3 &m) { return valid_group(m, 3); }
V valid(const cp::TwoJetL_SE3 &m) { return valid(m.frame_from_ref()) & numbers(m.d_frame_from_ref(), 6) & numbers(m.d2_frame_from_ref(), 6); }
V valid(const cp::TwoJetL_SO3 &m) { return valid(m.frame_from_ref()) & numbers(m.d_frame_from_ref(), 3) & numbers(m.d2_frame_from_ref(), 3); }
V valid(const cp::TwoJetR_SE3 &m) { return valid(m.ref_from_frame()) & numbers(m.d_ref_from_frame(), 6) & numbers(m.d2_ref_from_frame(), 6); }
V valid(const cp::TwoJetR_SO3 &m) { return valid(m.ref_from_frame()) & numbers(m.d_ref_from_frame(), 3) & numbers(m.d2_ref_from_frame(), 3); }
template <typename M>
V valid_tcurve(const M &m) {
  V v = V::OK;
  for (const auto &p : m.points()) v = v & valid(p.point());
  for (int i = 0; i < m.points_size() && v != V::BAD; ++i) {
    const auto &p = m.points(i);
    if (i && !(p.time() > m.points(i - 1).time())) v = V::BAD;
    if (std::isnan(p.time()) || std::isinf(p.time())) v = v & V::OPEN;
    const auto &a = p.point().frame_from_ref(), &b = m.points(0).point().frame_from_ref();
    if (v != V::BAD && (id(a.into()) != id(b.into()) || id(a.from()) != id(b.from()))) v = V::BAD;
  }
  return v;
}
V valid(const cp::TCurve_SE3 &m) { return valid_tcurve(m); }
V valid(const cp::TCurve_SO3 &m) { return valid_tcurve(m); }
V valid(const cp::DCurve_SE3 &m) {
  V v = V::OK;
  for (const auto &p : m.ref_from_control()) v = v & valid(p);
  if (v == V::BAD || m.ref_from_control_size() == 0) return v;
  const auto &b = m.ref_from_control(0);
  for (const auto &p : m.ref_from_control())
    if (id(p.into()) != id(b.into()) || id(p.from()) != id(b.from())) v = v & (id(b.into()) == NIL ? V::OPEN : V::BAD);
  return v;
}
V valid(const sp::Trajectory &m) {
  V v = valid(m.curve());
  const auto &t = m.start_time();
  if (!m.has_curve() || !m.has_start_time() || t.nanos() <= -1000000000 || t.nanos() >= 1000000000 || (t.seconds() > 0 && t.nanos() < 0) || t.seconds() > 9223372034 || t.seconds() < -9223372034) v = v & V::OPEN;
  const __int128 at = __int128{t.seconds()} * 1000000000 + t.nanos();
  if (at != static_cast<int64_t>(at)) v = V::BAD;  // not representable
  return v;
}
V valid(const vp::ViewPrimitive &m) {
  V v = valid(m.id());
  switch (m.payload_case()) {
    case vp::ViewPrimitive::kSe3: return v & valid(m.se3());
    case vp::ViewPrimitive::kSo3: return v & valid(m.so3());
    case vp::ViewPrimitive::kDCurveSe3: return v & valid(m.d_curve_se3());
    case vp::ViewPrimitive::kTCurveSe3: return v & valid(m.t_curve_se3());
    case vp::ViewPrimitive::kTrajectory: return v & valid(m.trajectory());
    case vp::ViewPrimitive::kFrame: return v & valid(m.frame());
    case vp::ViewPrimitive::kFramedVector: return v & valid(m.framed_vector());
    default: return V::BAD;
  }
}
V valid(const vp::ViewUpdate &m) {
  V v = V::OK;
  for (const auto &p : m.primitive()) v = v & valid(p);
  return v;
}

// ---- the decoder: what a valid message means
std::string means(const UUID &o, const resim::proto::UUID &m) { return o.to_string() == lower(m.data()) ? "" : mc::str("identifier ", o.to_string(), " from '", m.data(), "'"); }
std::string means(const Frame3 &o, const tp::Frame_3 &m) { return means(o.id(), m.id()); }
template <typename A, typename D>
bool same_numbers(const A &a, const D &d) {
  if (a.size() != d.size()) return false;
  for (int i = 0; i < a.size(); ++i)
    if (!(a(i) == d[i] || (std::isnan(a(i)) && std::isnan(d[i])))) return false;
  return true;
}
std::string means(const FV3 &o, const tp::FramedVector_3 &m) {
  if (!same_numbers(V3(o.vector()), m.algebra())) return "vector " + show(V3(o.vector()));
  return means(o.frame(), m.frame());
}
template <typename G, typename M>
std::string means_group(const G &o, const M &m) {
  std::string s = means(o.into(), m.into());
  if (s.empty()) s = means(o.from(), m.from());
  if (!s.empty()) return s;
  Eigen::Matrix<long double, static_cast<int>(G::DOF), 1> alg;
  for (int i = 0; i < alg.size(); ++i) {
    alg(i) = m.algebra(i);
    if (!(fabsl(alg(i)) < (i < 3 ? 100.L : 1e9L))) return "";  // a corrupted number, not a structural matter
  }
  const LM4 x = expm(hat(alg));
  if (!near(matrix(o), x, 1e-9L * (1 + 10 * alg.cwiseAbs().maxCoeff()))) return mc::str("transform ", show(matrix(o)), ", the message says ", show(x));
  return "";
}
std::string means(const SE3 &o, const tp::SE3 &m) { return means_group(o, m); }
std::string means(const SO3 &o, const tp::SO3 &m) { return means_group(o, m); }
template <typename G, typename M>
std::string means(const TwoJetL<G> &o, const M &m) {
  if (!same_numbers(o.d_frame_from_ref(), m.d_frame_from_ref()) || !same_numbers(o.d2_frame_from_ref(), m.d2_frame_from_ref())) return "derivatives";
  return means(o.frame_from_ref(), m.frame_from_ref());
}
template <typename G, typename M>
std::string means(const TwoJetR<G> &o, const M &m) {
  if (!same_numbers(o.d_ref_from_frame(), m.d_ref_from_frame()) || !same_numbers(o.d2_ref_from_frame(), m.d2_ref_from_frame())) return "derivatives";
  return means(o.ref_from_frame(), m.ref_from_frame());
}
template <typename G, typename M>
std::string means(const TCurve<G> &o, const M &m) {
  if (static_cast<int>(o.control_pts().size()) != m.points_size()) return mc::str(o.control_pts().size(), " controls from ", m.points_size());
  for (int i = 0; i < m.points_size(); ++i) {
    if (o.control_pts()[i].time != m.points(i).time() && !std::isnan(m.points(i).time())) return mc::str("time of control ", i);
    const std::string s = means(o.control_pts()[i].point, m.points(i).point());
    if (!s.empty()) return mc::str("control ", i, " ", s);
  }
  return "";
}
std::string means(const DCurve<SE3> &o, const cp::DCurve_SE3 &m) {
  if (static_cast<int>(o.control_pts().size()) != m.ref_from_control_size()) return mc::str(o.control_pts().size(), " controls from ", m.ref_from_control_size());
  for (int i = 0; i < m.ref_from_control_size(); ++i) {
    const std::string s = means(*o.control_pts()[i].ref_from_control, m.ref_from_control(i));
    if (!s.empty()) return mc::str("control ", i, " ", s);
  }
  return "";
}
std::string means(const Trajectory &o, const sp::Trajectory &m) {
  if (o.start_time().time_since_epoch().count() != __int128{m.start_time().seconds()} * 1000000000 + m.start_time().nanos()) return "start time";
  return means(o.curve(), m.curve());
}
std::string means(const ViewPrimitive &o, const vp::ViewPrimitive &m) {
  const std::string s = means(o.id, m.id());
  if (!s.empty()) return s;
  if (o.user_defined_name.value_or("") != m.user_defined_name()) return "name";
  if (o.file_name != m.file_name() || o.line_number != m.line_number()) return "file or line";
  switch (m.payload_case()) {
#define KIND(CASE, TYPE, FIELD) \
  case vp::ViewPrimitive::CASE: return std::holds_alternative<TYPE>(o.payload) ? means(std::get<TYPE>(o.payload), m.FIELD()) : std::string("payload of another kind");
    KIND(kSe3, SE3, se3)
    KIND(kSo3, SO3, so3)
    KIND(kDCurveSe3, DCurve<SE3>, d_curve_se3)
    KIND(kTCurveSe3, TCurve<SE3>, t_curve_se3)
    KIND(kTrajectory, Trajectory, trajectory)
    KIND(kFrame, Frame3, frame)
    KIND(kFramedVector, FV3, framed_vector)
#undef KIND
    default: return "payload";
  }
}
std::string means(const ViewUpdate &o, const vp::ViewUpdate &m) {
  if (static_cast<int>(o.primitives.size()) != m.primitive_size()) return "number of primitives";
  for (int i = 0; i < m.primitive_size(); ++i) {
    const std::string s = means(o.primitives[i], m.primitive(i));
    if (!s.empty()) return mc::str("primitive ", i, " ", s);
  }
  return "";
}

// ---- mutations, by reflection
struct Mutation {
  std::string name;
  std::function<void(Message &)> apply;  // on the root
};
using Path = std::vector<std::pair<const FieldDescriptor *, int>>;  // index -1 for singular fields
Message *at(Message &root, const Path &p) {
  Message *m = &root;
  for (const auto &[f, i] : p) {
    const Reflection *r = m->GetReflection();
    if (i < 0) {
      if (!r->HasField(*m, f)) return nullptr;
      m = r->MutableMessage(m, f);
    } else {
      if (i >= r->FieldSize(*m, f)) return nullptr;
      m = r->MutableRepeatedMessage(m, f, i);
    }
  }
  return m;
}
std::string path_name(const Path &p) {
  std::string s;
  for (const auto &[f, i] : p) s += (s.empty() ? "" : ".") + f->name() + (i < 0 ? "" : mc::str("[", i, "]"));
  return s;
}
// `fine`: every character position of identifiers, else a few corruptions.
void collect(const Message &m, const Path &p, bool fine, std::vector<Mutation> &out) {
  const Reflection *refl = m.GetReflection();
  const auto add = [&](const std::string &n, const std::function<void(Message *, const Reflection *)> &f) {
    out.push_back({path_name(p) + (p.empty() ? "" : ".") + n, [p, f](Message &root) {
                     Message *t = at(root, p);
                     if (t) f(t, t->GetReflection());
                   }});
  };
  const auto *d = m.GetDescriptor();
  for (int k = 0; k < d->field_count(); ++k) {
    const FieldDescriptor *f = d->field(k);
    const std::string n = f->name();
    if (f->is_repeated() && f->cpp_type() == FieldDescriptor::CPPTYPE_DOUBLE) {
      add(n + " cleared", [f](Message *t, const Reflection *r) { r->ClearField(t, f); });
      add(n + " one short", [f](Message *t, const Reflection *r) {
        if (r->FieldSize(*t, f)) r->RemoveLast(t, f);
      });
      add(n + " one long", [f](Message *t, const Reflection *r) { r->AddDouble(t, f, 0); });
      add(n + " doubled", [f](Message *t, const Reflection *r) {
        const int size = r->FieldSize(*t, f);
        for (int i = 0; i < size; ++i) r->AddDouble(t, f, r->GetRepeatedDouble(*t, f, i));
      });
      if (fine)
        for (int len : {1, 2, 3, 4, 5, 6, 7, 9, 12})
          add(mc::str(n, " of length ", len), [f, len](Message *t, const Reflection *r) {
            while (r->FieldSize(*t, f) > len) r->RemoveLast(t, f);
            while (r->FieldSize(*t, f) < len) r->AddDouble(t, f, 0.25);
          });
    } else if (f->cpp_type() == FieldDescriptor::CPPTYPE_DOUBLE) {
      for (double v : {-1e9, -1., 0., 1.25, 2., 1e9, static_cast<double>(NAN), static_cast<double>(INFINITY), -static_cast<double>(INFINITY)})
        add(mc::str(n, "=", v), [f, v](Message *t, const Reflection *r) { r->SetDouble(t, f, v); });
    } else if (f->cpp_type() == FieldDescriptor::CPPTYPE_INT64) {
      for (int64_t v : {int64_t{0}, int64_t{-5}, int64_t{9223372034}, int64_t{-9223372034}, int64_t{9223372037}, int64_t{-9223372037}, int64_t{18446744073}, std::numeric_limits<int64_t>::max(), std::numeric_limits<int64_t>::min()})
        add(mc::str(n, "=", v), [f, v](Message *t, const Reflection *r) { r->SetInt64(t, f, v); });
    } else if (f->cpp_type() == FieldDescriptor::CPPTYPE_INT32) {
      for (int32_t v : {0, -1, 999999999, -999999999, std::numeric_limits<int32_t>::max(), std::numeric_limits<int32_t>::min()})
        add(mc::str(n, "=", v), [f, v](Message *t, const Reflection *r) { r->SetInt32(t, f, v); });
    } else if (f->cpp_type() == FieldDescriptor::CPPTYPE_STRING && d->name() == "UUID") {
      const std::string good = refl->GetString(m, f);
      std::vector<std::string> bad = {"", NIL, "11111111-2222-4333-8444-555555555555", "a1111111-2222-4333-8444-666666666666", good.substr(0, 35), good + "0", "{" + good + "}", good + std::string(1, '\0') + "0", " " + good};
      if (fine) {
        bad.insert(bad.end(), {good.substr(1), good + " ", good + "\n", good + good, good + std::string(1, '\0'), "not an identifier", "null", std::string(36, 'z'), std::string(36, '0'), std::string(36, '-')});
        for (size_t i = 0; i < good.size(); ++i) {
          for (char c : {'g', '-', ' ', '\0', 'G', ':', '/', '@', '`', '0', 'A', 'x', '\x7f', '_'}) {
            std::string s = good;
            s[i] = c;
            bad.push_back(s);
          }
          std::string s = good;
          s.erase(i, 1);
          bad.push_back(s);
          s = good;
          s.insert(i, "0");
          bad.push_back(s);
          s = good;
          s[i] = static_cast<char>(toupper(s[i]));
          bad.push_back(s);
        }
        std::string nodash;
        for (char c : good)
          if (c != '-') nodash += c;
        bad.push_back(nodash);
      } else {
        std::string s = good;
        s[20] = 'g';
        bad.push_back(s);
      }
      for (const auto &s : bad) add(mc::str(n, "='", s, "'"), [f, s](Message *t, const Reflection *r) { r->SetString(t, f, s); });
    } else if (f->cpp_type() == FieldDescriptor::CPPTYPE_MESSAGE && !f->is_repeated()) {
      if (refl->HasField(m, f)) {
        add(n + " cleared", [f](Message *t, const Reflection *r) { r->ClearField(t, f); });
        add(n + " emptied", [f](Message *t, const Reflection *r) { r->MutableMessage(t, f)->Clear(); });
        Path q = p;
        q.emplace_back(f, -1);
        collect(refl->GetMessage(m, f), q, fine, out);
      } else {
        add(n + " set, empty", [f](Message *t, const Reflection *r) { r->MutableMessage(t, f); });
      }
    } else if (f->cpp_type() == FieldDescriptor::CPPTYPE_MESSAGE) {
      const int size = refl->FieldSize(m, f);
      add(n + " cleared", [f](Message *t, const Reflection *r) { r->ClearField(t, f); });
      add(n + " an empty one added", [f](Message *t, const Reflection *r) { r->AddMessage(t, f); });
      for (int i = 0; i < size; ++i) {
        if (i + 1 < size)
          add(mc::str(n, "[", i, "] swapped with the next"), [f, i](Message *t, const Reflection *r) {
            if (i + 1 < r->FieldSize(*t, f)) r->SwapElements(t, f, i, i + 1);
          });
        if (i + 2 < size)
          add(mc::str(n, "[", i, "] swapped with the one after next"), [f, i](Message *t, const Reflection *r) {
            if (i + 2 < r->FieldSize(*t, f)) r->SwapElements(t, f, i, i + 2);
          });
        add(mc::str(n, "[", i, "] appended again"), [f, i](Message *t, const Reflection *r) {
          if (i >= r->FieldSize(*t, f)) return;
          Message *a = r->AddMessage(t, f);
          a->CopyFrom(r->GetRepeatedMessage(*t, f, i));
        });
        add(mc::str(n, "[", i, "] removed"), [f, i](Message *t, const Reflection *r) {
          const int s = r->FieldSize(*t, f);
          if (i >= s) return;
          for (int k = i; k + 1 < s; ++k) r->SwapElements(t, f, k, k + 1);
          r->RemoveLast(t, f);
        });
        add(mc::str(n, "[", i, "] emptied"), [f, i](Message *t, const Reflection *r) {
          if (i < r->FieldSize(*t, f)) r->MutableRepeatedMessage(t, f, i)->Clear();
        });
        Path q = p;
        q.emplace_back(f, i);
        collect(refl->GetRepeatedMessage(m, f, i), q, fine, out);
      }
    }
  }
  // Frames exchanged.
  const auto *a = d->FindFieldByName("into"), *b = d->FindFieldByName("from");
  if (a && b)
    add("into and from exchanged", [a, b](Message *t, const Reflection *r) {
      Message *x = r->MutableMessage(t, a), *y = r->MutableMessage(t, b);
      std::unique_ptr<Message> z(x->New());
      z->CopyFrom(*x);
      x->CopyFrom(*y);
      y->CopyFrom(*z);
    });
}

uint64_t index_ = 0;
template <typename M>
void judge(const char *type, const std::function<std::string()> &what, const M &m) {
  const V v = valid(m);
  mc::beat();
  ++mc::traces;
  ++mc::transitions;
  mc::counters[v == V::OK ? "valid" : v == V::BAD ? "invalid" : "unspecified"]++;
  std::string wrong, error;
  const bool rejected = mc::rejects([&] {
    const auto o = unpack(m);
    if (v == V::OK) wrong = means(o, m);
  });
  if (rejected && v == V::OK) mc::violation(mc::str(type, ":refused"), what(), "a well-formed message was refused");
  if (!rejected && v == V::BAD) mc::violation(mc::str(type, ":accepted"), what(), "a malformed message was accepted");
  if (!wrong.empty()) mc::violation(mc::str(type, ":wrong-object"), what(), wrong);
  if constexpr (std::is_same_v<M, vp::ViewPrimitive>) {
    ++mc::transitions;
    bool ok = false;
    const bool threw = mc::rejects([&] {
      auto sv = vp::detail::unpack(m);
      ok = sv.status().ok();
      if (ok && v == V::OK) wrong = means(sv.value(), m);
    });
    if (m.payload_case() == vp::ViewPrimitive::PAYLOAD_NOT_SET && valid(m.id()) == V::OK) {
      if (threw) mc::violation("ViewPrimitive:unset", what(), "the checked form failed instead of returning an error result");
      else if (ok) mc::violation("ViewPrimitive:unset", what(), "the checked form returned a good result");
    } else if (v == V::BAD && !threw && ok) {
      mc::violation("ViewPrimitive:accepted", what(), "a malformed message was accepted by the checked form");
    } else if (v == V::OK && (threw || !ok)) {
      mc::violation("ViewPrimitive:refused", what(), "a well-formed message was refused by the checked form");
    }
    if (!wrong.empty()) mc::violation("ViewPrimitive:wrong-object", what(), wrong);
  }
}

template <typename M>
void explore(const char *type, const std::vector<M> &seeds, bool pairs) {
  for (size_t s = 0; s < seeds.size(); ++s) {
    const M &seed = seeds[s];
    std::string now;
    mc::describe = [&] { return mc::str(type, " seed ", s, ": ", now); };
    judge<M>(type, mc::describe, seed);
    std::vector<Mutation> fine, coarse;
    collect(seed, {}, true, fine);
    collect(seed, {}, false, coarse);
    for (const auto &mu : fine) {
      if (!mc::my_shard(index_++)) continue;
      M m(seed);
      mu.apply(m);
      now = mu.name;
      mc::state(mc::mix(mc::hash_str(type), mc::hash_str(m.SerializeAsString())));
      judge<M>(type, mc::describe, m);
      mc::maybe_sample(mc::describe);
    }
    if (pairs)
      for (const auto &a : coarse) {
        if (!mc::my_shard(index_++)) continue;
        M first(seed);
        a.apply(first);
        for (const auto &b : coarse) {
          M m(first);
          b.apply(m);
          now = a.name + " then " + b.name;
          mc::state(mc::mix(mc::hash_str(type), mc::hash_str(m.SerializeAsString())));
          judge<M>(type, mc::describe, m);
        }
      }
    // The wire: every truncation, every corruption of one byte.
    const std::string bytes = seed.SerializeAsString();
    const auto wire = [&](const std::string &w) {
      M m;
      if (!m.ParseFromString(w)) {
        mc::counters["unparsable"]++;
        return;
      }
      mc::state(mc::mix(mc::hash_str(type), mc::hash_str(m.SerializeAsString())));
      judge<M>(type, mc::describe, m);
    };
    for (size_t i = 0; i < bytes.size(); ++i) {
      if (!mc::my_shard(index_++)) continue;
      now = mc::str("cut to ", i, " bytes");
      wire(bytes.substr(0, i));
      for (int x = 1; x < 256; ++x) {
        if (!mc::thorough && bytes.size() > 400 && (x & (x - 1)) && x != 0xff) continue;  // large messages: single bits and all bits
        std::string w = bytes;
        w[i] = static_cast<char>(w[i] ^ x);
        now = mc::str("byte ", i, " xor ", x);
        wire(w);
      }
    }
    mc::bounds[mc::str(type, " seed ", s)] = mc::str(fine.size(), " mutations, ", pairs ? mc::str("all pairs of ", coarse.size(), ", ") : std::string(), bytes.size(), " bytes cut and corrupted");
  }
}
template <typename M, typename T>
M packed(const T &o) {
  M m;
  pack(o, &m);
  return m;
}
template <typename J, typename G>
J jet(const G &g, int d1, int d2) {
  return J(g, tangent<G>(d1), tangent<G>(d2));
}
}  // namespace

int main(int argc, char **argv) {
  return mc::run(argc, argv, [] {
    using std::vector;
    explore<resim::proto::UUID>("UUID", {packed<resim::proto::UUID>(frame(2).id()), packed<resim::proto::UUID>(UUID())}, true);
    explore<tp::Frame_3>("Frame", {packed<tp::Frame_3>(frame(2)), packed<tp::Frame_3>(frame(0))}, true);
    explore<tp::FramedVector_3>("FramedVector", {packed<tp::FramedVector_3>(FV3(V3(1, -2, 0.5), frame(2))), packed<tp::FramedVector_3>(FV3(V3(0, 0, 0), frame(0)))}, true);
    const SE3 g = pose<SE3>(24 + 8, 1, {1, 2}), un = pose<SE3>(24 + 8, 1, {0, 0}), half = pose<SE3>(24 + 18, 1, {1, 4});
    const SO3 r = pose<SO3>(24 + 8, 0, {1, 2}), run = pose<SO3>(24 + 29, 0, {0, 0});
    explore<tp::SE3>("SE3", {packed<tp::SE3>(g), packed<tp::SE3>(un), packed<tp::SE3>(half)}, true);
    explore<tp::SO3>("SO3", {packed<tp::SO3>(r), packed<tp::SO3>(run)}, true);
    explore<cp::TwoJetL_SE3>("TwoJetL<SE3>", {packed<cp::TwoJetL_SE3>(jet<TwoJetL<SE3>>(g, 1, 4)), packed<cp::TwoJetL_SE3>(jet<TwoJetL<SE3>>(un, 1, 4))}, true);
    explore<cp::TwoJetR_SE3>("TwoJetR<SE3>", {packed<cp::TwoJetR_SE3>(jet<TwoJetR<SE3>>(g, 1, 4))}, true);
    explore<cp::TwoJetL_SO3>("TwoJetL<SO3>", {packed<cp::TwoJetL_SO3>(jet<TwoJetL<SO3>>(r, 1, 4))}, true);
    explore<cp::TwoJetR_SO3>("TwoJetR<SO3>", {packed<cp::TwoJetR_SO3>(jet<TwoJetR<SO3>>(r, 1, 4))}, true);
    const SE3 g2 = pose<SE3>(24 + 7, 0, {1, 2}), g3 = pose<SE3>(24 + 9, 1, {1, 2}), un2 = pose<SE3>(24 + 7, 0, {0, 0});
    const SO3 r2 = pose<SO3>(24 + 7, 0, {1, 2});
    const TCurve<SE3> tc{{1, jet<TwoJetL<SE3>>(g, 1, 4)}, {1.5, jet<TwoJetL<SE3>>(g2, 4, 1)}, {2.5, jet<TwoJetL<SE3>>(g3, 1, 1)}};
    explore<cp::TCurve_SE3>("TCurve<SE3>", {packed<cp::TCurve_SE3>(tc), packed<cp::TCurve_SE3>(TCurve<SE3>{{1, jet<TwoJetL<SE3>>(un, 1, 4)}, {1.5, jet<TwoJetL<SE3>>(un2, 4, 1)}}), packed<cp::TCurve_SE3>(TCurve<SE3>())}, true);
    explore<cp::TCurve_SO3>("TCurve<SO3>", {packed<cp::TCurve_SO3>(TCurve<SO3>{{1, jet<TwoJetL<SO3>>(r, 1, 4)}, {1.5, jet<TwoJetL<SO3>>(r2, 4, 1)}})}, true);
    const DCurve<SE3> dc{SE3(V3(1, 2, 3), frame(1), frame(2)), SE3(V3(4, 2, 3), frame(1), frame(2)), SE3(V3(4, 9, 3), frame(1), frame(2))};
    explore<cp::DCurve_SE3>("DCurve<SE3>", {packed<cp::DCurve_SE3>(dc), packed<cp::DCurve_SE3>(DCurve<SE3>{un, un2}), packed<cp::DCurve_SE3>(DCurve<SE3>())}, true);
    Trajectory tr;
    for (int i = 0; i < 3; ++i) {
      State::StateDerivatives d;
      d.velocity.linear_mps = V3(1, i, 0.5);
      d.acceleration.angular_radpss = V3(0, -0.125, 0.1 * i);
      tr.append({Timestamp(Duration(1700000000123456789 + i * 1500000000LL)), State(i == 0 ? g : i == 1 ? g2 : g3, d)});
    }
    explore<sp::Trajectory>("Trajectory", {packed<sp::Trajectory>(tr)}, true);
    vector<vp::ViewPrimitive> prims;
    const auto prim = [&](auto payload, int line) {
      ViewPrimitive v{.id = frame(5).id(), .payload = std::move(payload)};
      v.user_defined_name = "name";
      v.file_name = "file.cc";
      v.line_number = line;
      return packed<vp::ViewPrimitive>(v);
    };
    prims = {prim(g, 3), prim(r, 4), prim(DCurve<SE3>(dc), 5), prim(TCurve<SE3>(tc), 6), prim(Trajectory(tr), 7), prim(frame(2), 8), prim(FV3(V3(1, 2, 3), frame(2)), 9)};
    explore<vp::ViewPrimitive>("ViewPrimitive", prims, true);
    vp::ViewUpdate u;
    *u.add_primitive() = prims[0];
    *u.add_primitive() = prims[6];
    *u.add_primitive() = prims[2];
    explore<vp::ViewUpdate>("ViewUpdate", {u, vp::ViewUpdate()}, true);
  });
}
