// C28: the wire format. A hand-written reader and writer of the published message definitions (field numbers, types and
// meanings, frozen here, sharing no code with the generated classes) face the library's packing and unpacking for every
// object of complete products of corner values: what is packed must read as the object, and what is written in every
// permissible encoding must unpack as the object.
#include <numeric>

#include "serial.hh"

namespace {
using namespace serial;

// ---- the wire: generic fields
struct Field {
  int num = 0, type = 0;  // wire types: 0 varint, 1 64 bit, 2 bytes, 5 32 bit
  uint64_t v = 0;
  std::string s;
};
using Fields = std::vector<Field>;

bool varint(const std::string &b, size_t &i, uint64_t &v) {
  v = 0;
  for (int sh = 0; sh < 70 && i < b.size(); sh += 7) {
    const unsigned char c = b[i++];
    if (sh < 64) v |= static_cast<uint64_t>(c & 127) << sh;
    if (!(c & 128)) return true;
  }
  return false;
}
uint64_t little(const std::string &b, size_t i, int n) {
  uint64_t v = 0;
  for (int k = 0; k < n; ++k) v |= static_cast<uint64_t>(static_cast<unsigned char>(b[i + k])) << (8 * k);
  return v;
}
struct Malformed : std::exception {};
Fields read(const std::string &b) {
  Fields r;
  for (size_t i = 0; i < b.size();) {
    uint64_t tag;
    if (!varint(b, i, tag)) throw Malformed();
    Field f;
    f.num = static_cast<int>(tag >> 3);
    f.type = tag & 7;
    if (f.type == 0) {
      if (!varint(b, i, f.v)) throw Malformed();
    } else if (f.type == 1 || f.type == 5) {
      const int n = f.type == 1 ? 8 : 4;
      if (i + n > b.size()) throw Malformed();
      f.v = little(b, i, n);
      i += n;
    } else if (f.type == 2) {
      uint64_t n;
      if (!varint(b, i, n) || i + n > b.size()) throw Malformed();
      f.s = b.substr(i, n);
      i += n;
    } else {
      throw Malformed();
    }
    r.push_back(f);
  }
  return r;
}
double as_double(uint64_t v) {
  double d;
  memcpy(&d, &v, 8);
  return d;
}

// ---- reading a message by its definition: accessors, each with the error to report
struct Bad : std::runtime_error {
  using std::runtime_error::runtime_error;
};
[[noreturn]] void bad(const std::string &s) { throw Bad(s); }

struct Reader {
  Fields f;
  std::string path;
  Reader(const std::string &bytes, std::string p) : path(std::move(p)) {
    try {
      f = read(bytes);
    } catch (const Malformed &) {
      bad(path + " is not well-formed");
    }
  }
  std::string at(const char *n) const { return path + "." + n; }
  // A message field: all its occurrences concatenated (as they are to be merged); absent: empty.
  Reader message(int num, const char *name) const {
    std::string b;
    for (const auto &x : f)
      if (x.num == num) {
        if (x.type != 2) bad(mc::str(at(name), " has wire type ", x.type));
        b += x.s;
      }
    return Reader(b, at(name));
  }
  std::vector<Reader> messages(int num, const char *name) const {
    std::vector<Reader> r;
    for (const auto &x : f)
      if (x.num == num) {
        if (x.type != 2) bad(mc::str(at(name), " has wire type ", x.type));
        r.emplace_back(x.s, mc::str(at(name), "[", r.size(), "]"));
      }
    return r;
  }
  bool has(int num) const {
    for (const auto &x : f)
      if (x.num == num) return true;
    return false;
  }
  std::string text(int num, const char *name) const {
    std::string r;
    for (const auto &x : f)
      if (x.num == num) {
        if (x.type != 2) bad(mc::str(at(name), " has wire type ", x.type));
        r = x.s;
      }
    return r;
  }
  int64_t integer(int num, const char *name) const {
    uint64_t r = 0;
    for (const auto &x : f)
      if (x.num == num) {
        if (x.type != 0) bad(mc::str(at(name), " has wire type ", x.type));
        r = x.v;
      }
    return static_cast<int64_t>(r);
  }
  double real(int num, const char *name) const {
    double r = 0;
    for (const auto &x : f)
      if (x.num == num) {
        if (x.type != 1) bad(mc::str(at(name), " has wire type ", x.type));
        r = as_double(x.v);
      }
    return r;
  }
  std::vector<double> reals(int num, const char *name) const {
    std::vector<double> r;
    for (const auto &x : f) {
      if (x.num != num) continue;
      if (x.type == 1) {
        r.push_back(as_double(x.v));
      } else if (x.type == 2 && x.s.size() % 8 == 0) {
        for (size_t i = 0; i < x.s.size(); i += 8) r.push_back(as_double(little(x.s, i, 8)));
      } else {
        bad(mc::str(at(name), " is not a list of doubles"));
      }
    }
    return r;
  }
};

std::string uuid_text(const UUID &u) {
  std::string s;
  char c[3];
  for (int i = 0; i < 16; ++i) {
    snprintf(c, sizeof c, "%02x", u.id()[i]);
    s += c;
    if (i == 3 || i == 5 || i == 7 || i == 9) s += '-';
  }
  return s;
}

// ---- what a packed object has to read as
void expect(const Reader &r, const UUID &o) {
  const std::string t = r.text(1, "data");
  if (t != uuid_text(o)) bad(mc::str(r.path, " reads '", t, "'"));
}
void expect(const Reader &r, const Frame3 &o) { expect(r.message(1, "id"), o.id()); }
template <typename V>
void same(const Reader &r, int num, const char *name, const V &expected) {
  const auto got = r.reals(num, name);
  if (static_cast<int>(got.size()) != expected.size()) bad(mc::str(r.at(name), " has ", got.size(), " entries"));
  for (int i = 0; i < expected.size(); ++i)
    if (!(got[i] == expected(i))) bad(mc::str(r.at(name), "[", i, "] is ", got[i], ", expected ", expected(i)));
}
template <typename G>
LM4 exp_of(const std::vector<double> &a) {
  Eigen::Matrix<long double, G::DOF, 1> x;
  for (int i = 0; i < x.size(); ++i) x(i) = a[i];
  return expm(hat(x));
}
template <typename G>
void expect_group(const Reader &r, const G &o) {
  const auto a = r.reals(1, "algebra");
  if (a.size() != G::DOF) bad(mc::str(r.at("algebra"), " has ", a.size(), " entries"));
  const LM4 m = exp_of<G>(a), want = matrix(o);
  const long double size = 1 + want.cwiseAbs().maxCoeff();
  if (!near(LM3(m.block<3, 3>(0, 0)), LM3(want.block<3, 3>(0, 0)), 1e-8L) || !near(m, want, 1e-8L * size)) bad(mc::str(r.at("algebra"), " describes ", show(m), ", expected ", show(want)));
  expect(r.message(2, "into"), o.into());
  expect(r.message(3, "from"), o.from());
}
void expect(const Reader &r, const SE3 &o) { expect_group(r, o); }
void expect(const Reader &r, const SO3 &o) { expect_group(r, o); }
void expect(const Reader &r, const FV3 &o) {
  same(r, 1, "algebra", V3(o.vector()));
  expect(r.message(2, "frame"), o.frame());
}
template <typename G>
void expect(const Reader &r, const TwoJetL<G> &o) {
  expect(r.message(1, "frame_from_ref"), o.frame_from_ref());
  same(r, 2, "d_frame_from_ref", o.d_frame_from_ref());
  same(r, 3, "d2_frame_from_ref", o.d2_frame_from_ref());
}
template <typename G>
void expect(const Reader &r, const TwoJetR<G> &o) {
  expect(r.message(1, "ref_from_frame"), o.ref_from_frame());
  same(r, 2, "d_ref_from_frame", o.d_ref_from_frame());
  same(r, 3, "d2_ref_from_frame", o.d2_ref_from_frame());
}
template <typename G>
void expect(const Reader &r, const TCurve<G> &o) {
  const auto ps = r.messages(1, "points");
  if (ps.size() != o.control_pts().size()) bad(mc::str(r.at("points"), ": ", ps.size(), " entries"));
  for (size_t i = 0; i < ps.size(); ++i) {
    const double t = ps[i].real(1, "time");
    if (!(t == o.control_pts()[i].time)) bad(mc::str(ps[i].at("time"), " is ", t, ", expected ", o.control_pts()[i].time));
    expect(ps[i].message(2, "point"), o.control_pts()[i].point);
  }
}
void expect(const Reader &r, const DCurve<SE3> &o) {
  const auto ps = r.messages(1, "ref_from_control");
  if (ps.size() != o.control_pts().size()) bad(mc::str(r.at("ref_from_control"), ": ", ps.size(), " entries"));
  for (size_t i = 0; i < ps.size(); ++i) expect(ps[i], *o.control_pts()[i].ref_from_control);
}
void expect(const Reader &r, const Trajectory &o) {
  const Reader t = r.message(1, "start_time");
  const int64_t s = t.integer(1, "seconds"), n = t.integer(2, "nanos");
  if (n < 0 || n > 999999999) bad(mc::str(t.at("nanos"), " is ", n, ", not within 0 to 999999999"));
  if (static_cast<__int128>(s) * 1000000000 + n != o.start_time().time_since_epoch().count()) bad(mc::str(t.path, " is ", s, " s ", n, " ns, expected ", o.start_time().time_since_epoch().count(), " ns"));
  expect(r.message(2, "curve"), o.curve());
}
// Kinds in the order of the message definition.
int number(const SE3 &) { return 2; }
int number(const SO3 &) { return 3; }
int number(const DCurve<SE3> &) { return 4; }
int number(const TCurve<SE3> &) { return 5; }
int number(const Trajectory &) { return 6; }
int number(const Frame3 &) { return 7; }
int number(const FV3 &) { return 8; }
void expect(const Reader &r, const ViewPrimitive &o) {
  expect(r.message(1, "id"), o.id);
  std::visit(
      [&](const auto &x) {
        if (!r.has(number(x))) bad(mc::str(r.path, ": no payload in field ", number(x)));
        for (int k = 2; k <= 8; ++k)
          if (k != number(x) && r.has(k)) bad(mc::str(r.path, ": a payload in field ", k));
        expect(r.message(number(x), "payload"), x);
      },
      o.payload);
  if (r.text(11, "user_defined_name") != o.user_defined_name.value_or("")) bad(mc::str(r.at("user_defined_name"), " is '", r.text(11, "user_defined_name"), "'"));
  if (r.text(12, "file_name") != o.file_name) bad(mc::str(r.at("file_name"), " is '", r.text(12, "file_name"), "'"));
  if (r.integer(13, "line_number") != o.line_number) bad(mc::str(r.at("line_number"), " is ", r.integer(13, "line_number")));
}
void expect(const Reader &r, const ViewUpdate &o) {
  const auto ps = r.messages(1, "primitive");
  if (ps.size() != o.primitives.size()) bad(mc::str(r.at("primitive"), ": ", ps.size(), " entries"));
  for (size_t i = 0; i < ps.size(); ++i) expect(ps[i], o.primitives[i]);
}

// ---- writing, in every style
struct Style {
  int order = 0;     // number of the permutation of the fields of the outermost message (the others: turned round if odd)
  int lists = 0;     // lists of doubles: packed; one by one; in two packed pieces
  bool all = false;  // fields with default values written, too
  bool more = false; // unknown fields in between
};
Style style;
int depth = 0;

std::string put_varint(uint64_t v) {
  std::string r;
  do {
    r += static_cast<char>((v & 127) | (v > 127 ? 128 : 0));
    v >>= 7;
  } while (v);
  return r;
}
std::string put_double(double d) {
  uint64_t v;
  memcpy(&v, &d, 8);
  std::string r;
  for (int i = 0; i < 8; ++i) r += static_cast<char>(v >> (8 * i));
  return r;
}
std::string tag(int num, int type) { return put_varint(static_cast<uint64_t>(num) << 3 | type); }
std::string put_bytes(int num, const std::string &s) { return tag(num, 2) + put_varint(s.size()) + s; }
int last_parts = 1;
// The parts of a message (repeated fields in one part, as their order matters).
std::string join(std::vector<std::string> parts) {
  parts.erase(std::remove(parts.begin(), parts.end(), std::string()), parts.end());
  if (depth == 0) {
    last_parts = static_cast<int>(parts.size());
    std::vector<int> p(parts.size());
    std::iota(p.begin(), p.end(), 0);
    for (int k = 0; k < style.order && std::next_permutation(p.begin(), p.end()); ++k) {
    }
    std::vector<std::string> q;
    for (int i : p) q.push_back(parts[i]);
    parts = q;
  } else if (style.order % 2) {
    std::reverse(parts.begin(), parts.end());
  }
  std::string r;
  for (const auto &p : parts) {
    if (style.more) r += put_bytes(1999, "new") + tag(1998, 0) + put_varint(77);
    r += p;
  }
  return r;
}
struct Inner {
  Inner() { ++depth; }
  ~Inner() { --depth; }
};
template <typename T>
std::string put(int num, const T &o);
template <typename V>
std::string put_list(int num, const V &v) {
  std::string r;
  if (style.lists == 1) {
    for (int i = 0; i < v.size(); ++i) r += tag(num, 1) + put_double(v(i));
    return r;
  }
  std::string a, b;
  for (int i = 0; i < v.size(); ++i) (style.lists == 2 && i < 2 ? a : b) += put_double(v(i));
  if (style.lists == 2) r += put_bytes(num, a);
  return r + put_bytes(num, b);
}
std::string put_text(int num, const std::string &s) { return s.empty() && !style.all ? "" : put_bytes(num, s); }
std::string put_integer(int num, int64_t v) { return v == 0 && !style.all ? "" : tag(num, 0) + put_varint(static_cast<uint64_t>(v)); }
std::string put_real(int num, double d) { return d == 0 && !style.all ? "" : tag(num, 1) + put_double(d); }

std::string write(const UUID &o) { return join({put_text(1, uuid_text(o))}); }
std::string write(const Frame3 &o) { return join({put(1, o.id())}); }
template <typename G>
std::string write_group(const G &o) {
  return join({put_list(1, o.log()), put(2, o.into()), put(3, o.from())});
}
std::string write(const SE3 &o) { return write_group(o); }
std::string write(const SO3 &o) { return write_group(o); }
std::string write(const FV3 &o) { return join({put_list(1, V3(o.vector())), put(2, o.frame())}); }
template <typename G>
std::string write(const TwoJetL<G> &o) {
  return join({put(1, o.frame_from_ref()), put_list(2, o.d_frame_from_ref()), put_list(3, o.d2_frame_from_ref())});
}
template <typename G>
std::string write(const TwoJetR<G> &o) {
  return join({put(1, o.ref_from_frame()), put_list(2, o.d_ref_from_frame()), put_list(3, o.d2_ref_from_frame())});
}
template <typename G>
std::string write(const TCurve<G> &o) {
  std::string r;
  for (const auto &c : o.control_pts()) {
    Inner i;
    r += put_bytes(1, join({put_real(1, c.time), put(2, c.point)}));
  }
  return join({r});
}
std::string write(const DCurve<SE3> &o) {
  std::string r;
  for (const auto &c : o.control_pts()) r += put(1, *c.ref_from_control);
  return join({r});
}
std::string write(const Trajectory &o) {
  const int64_t t = o.start_time().time_since_epoch().count();
  const int64_t n = (t % 1000000000 + 1000000000) % 1000000000;
  const int64_t s = static_cast<int64_t>((static_cast<__int128>(t) - n) / 1000000000);
  std::string time;
  {
    Inner i;
    time = put_bytes(1, join({put_integer(1, s), put_integer(2, n)}));
  }
  return join({time, put(2, o.curve())});
}
std::string write(const ViewPrimitive &o) {
  const std::string payload = std::visit([](const auto &x) { return put(number(x), x); }, o.payload);
  return join({put(1, o.id), payload, put_text(11, o.user_defined_name.value_or("")), put_text(12, o.file_name), put_integer(13, o.line_number)});
}
std::string write(const ViewUpdate &o) {
  std::string r;
  for (const auto &p : o.primitives) r += put(1, p);
  return join({r});
}
template <typename T>
std::string put(int num, const T &o) {
  Inner i;
  return put_bytes(num, write(o));
}

// ---- the exploration
uint64_t index_ = 0;

template <typename M, typename T>
void wire(const char *type, const std::vector<T> &objects) {
  size_t cur = 0;
  std::string phase;
  mc::describe = [&] { return mc::str(type, " #", cur, " (", phase, ")"); };
  const auto report = [&](const char *key, const std::string &d) { mc::violation(mc::str(type, ":", key), mc::describe(), d); };
  uint64_t styles = 0;
  for (cur = 0; cur < objects.size(); ++cur) {
    if (!mc::my_shard(index_++)) continue;
    mc::beat();
    const T &o = objects[cur];
    phase = "packing";
    std::string bytes;
    {
      M m;
      pack(o, &m);
      bytes = m.SerializeAsString();
    }
    ++mc::traces;
    ++mc::transitions;
    mc::state(mc::mix(mc::hash_str(type), mc::hash_str(bytes)));
    try {
      expect(Reader(bytes, type), o);
    } catch (const Bad &e) {
      report("packed", e.what());
    }
    int orders = 1;
    for (int order = 0; order < orders; ++order)
      for (int s = 0; s < 12; ++s) {
        style = Style{order, s % 3, s / 3 % 2 == 1, s / 6 == 1};
        // (Lists and the other choices are varied for the first and the last order only, unless there are few.)
        if (s && order && order != orders - 1 && orders > 6) continue;
        const std::string written = write(o);
        if (order == 0 && s == 0)
          for (int k = 2; k <= last_parts; ++k) orders *= k;
        phase = mc::str("order ", order, ", style ", s);
        ++mc::traces;
        ++mc::transitions;
        ++styles;
        mc::state(mc::mix(mc::hash_str(type), mc::hash_str(written)));
        M m;
        if (!m.ParseFromString(written)) {
          report("not-parsed", "a message by the published definition is not parsed");
          continue;
        }
        std::string d;
        try {
          const T r = unpack(m);
          d = diff(r, o);
        } catch (const std::exception &e) {
          d = mc::str("refused: ", e.what());
        }
        if (!d.empty()) report("unpacked", d);
      }
    mc::maybe_sample([&] { return mc::str(type, " #", cur, ": ", bytes.size(), " bytes"); });
  }
  mc::bounds[type] = mc::str(objects.size(), " objects, all orders of their fields, up to 12 styles");
  mc::counters[mc::str("messages_", type)] = styles;
}

template <typename J, typename G>
J jet(const G &g, int d1, int d2) {
  return J(g, tangent<G>(d1), tangent<G>(d2));
}

template <typename G>
std::vector<G> groups() {
  std::vector<G> r;
  const int n = static_cast<int>(rotations().size());
  for (const auto &f : framings())
    for (int i = 0; i < n; i += mc::thorough ? 1 : 3)
      for (int t = 0; t < (std::is_same_v<G, SO3> ? 1 : 4); ++t) r.push_back(pose<G>(i, t, f));
  return r;
}
template <typename J, typename G>
std::vector<J> jets() {
  std::vector<J> r;
  for (const auto &f : framings())
    for (int i : {0, 2, 7, 30, 50, 62, 100, 141})
      for (int d1 = 0; d1 < 6; ++d1)
        for (int d2 = 0; d2 < 6; ++d2) r.push_back(jet<J>(pose<G>(i, d1 + d2, f), d1, d2));
  return r;
}
template <typename G>
std::vector<TCurve<G>> t_curves() {
  std::vector<TCurve<G>> r;
  const std::vector<std::vector<double>> times = {{0, 1, 2, 3}, {-5.5, -1e-9, 0, 7}, {1700000000.125, 1700000000.25, 1700000001, 1.8e9}};
  for (const auto &f : framings())
    for (const auto &ts : times)
      for (int n = 0; n <= 4; ++n)
        for (int off = 0; off < (mc::thorough ? 12 : 4); ++off) {
          std::vector<typename TCurve<G>::Control> pts;
          for (int i = 0; i < n; ++i) pts.push_back({ts[i], jet<TwoJetL<G>>(pose<G>(n == 1 ? off * 7 : 24 + (off + i) % 6 + 3, (off + i) % 4, f), (off + i) % 2, (off + 2 * i) % 3 == 1)});
          r.push_back(TCurve<G>(pts));
        }
  return r;
}
std::vector<DCurve<SE3>> d_curves() {
  std::vector<DCurve<SE3>> r;
  for (const auto &f : framings())
    for (int n = 0; n <= 4; ++n)
      for (int off = 0; off < (mc::thorough ? 20 : 6); ++off) {
        DCurve<SE3> c;
        for (int i = 0; i < n; ++i) {
          SE3 g(pose<SO3>(n == 1 ? off * 5 : 27 + (i + off) % 6, 0, {0, 0}), V3(3 * i, off, i * i + 0.25));
          if (f.into) g.set_frames(frame(f.into), frame(f.from));
          c.append(g);
        }
        r.push_back(c);
      }
  return r;
}
std::vector<Trajectory> trajectories() {
  std::vector<Trajectory> r;
  std::vector<int64_t> starts = {0, 1, -1, 500000000, -500000000, INT64_MAX - 200000000000, INT64_MIN, INT64_MIN + 1, INT64_MIN + 145224192, INT64_MIN + 1000000000};
  for (int64_t s : {int64_t{1}, int64_t{59}, int64_t{1700000000}, int64_t{2147483647}, int64_t{2147483648}, int64_t{4294967296}, int64_t{9223371900}})
    for (int64_t n : {int64_t{-1}, int64_t{0}, int64_t{1}, int64_t{123456789}, int64_t{999999999}})
      for (int sign : {1, -1}) starts.push_back(sign * s * 1000000000 + n);
  for (int64_t s : starts)
    for (int n = 1; n <= 3; ++n) {
      const Framing f = framings()[n];
      Trajectory t;
      int64_t at = s;
      for (int i = 0; i < n; ++i) {
        SE3 g(pose<SO3>(30 + i, 0, {0, 0}), V3(i, 2 * i, -3));
        g.set_frames(frame(f.into), frame(f.from));
        State::StateDerivatives d;
        d.velocity.linear_mps = V3(1, i, 0.5);
        d.velocity.angular_radps = V3(0.1, 0, -0.1);
        d.acceleration.linear_mpss = V3(0, 0.25 * i, 1);
        d.acceleration.angular_radpss = V3(0, -0.125, 0.1 * i);
        t.append({Timestamp(Duration(at)), State(g, d)});
        at += 1500000001;
      }
      r.push_back(t);
    }
  r.push_back(Trajectory());
  return r;
}
std::vector<ViewPrimitive> primitives() {
  std::vector<ViewPrimitive> r;
  const auto ts = trajectories();
  std::vector<decltype(ViewPrimitive::payload)> ps = {pose<SE3>(7, 1, {1, 2}), pose<SE3>(0, 0, {0, 0}), pose<SO3>(9, 0, {2, 1}), pose<SO3>(2, 0, {0, 0}), DCurve<SE3>{SE3(V3(1, 2, 3), frame(1), frame(2)), SE3(V3(4, 2, 3), frame(1), frame(2))}, DCurve<SE3>(), t_curves<SE3>()[10], TCurve<SE3>(), ts[4], ts[ts.size() / 2], frame(1), frame(0), FV3(V3(1, -2, 0.1), frame(2)), FV3(V3(0, 0, 0), frame(0))};
  for (const auto &p : ps)
    for (const auto &n : {std::optional<std::string>(), std::optional<std::string>("x"), std::optional<std::string>("\xc3\xa9 name"), std::optional<std::string>(std::string(300, 'n'))})
      for (const char *f : {"", "resim/a.cc"})
        for (int l : {0, 1, -1, 300, INT32_MAX, INT32_MIN})
          for (const char *id : {"00000000-0000-0000-0000-000000000000", "0123a567-89ab-4cde-8f01-23456789abcd"}) {
            ViewPrimitive v{.id = UUID(id), .payload = p};
            v.user_defined_name = n;
            v.file_name = f;
            v.line_number = l;
            r.push_back(v);
          }
  return r;
}
}  // namespace

int main(int argc, char **argv) {
  return mc::run(argc, argv, [] {
    std::vector<UUID> us = {UUID()};
    std::vector<Frame3> fs = {Frame3()};
    for (int i = 0; i < 16; ++i)
      for (int v : {0x01, 0x0f, 0x10, 0x7f, 0x80, 0xa5, 0xff}) {
        std::string t = "12345678-9abc-4ef0-8765-432100000000";
        const int at = 2 * i + (i > 3) + (i > 5) + (i > 7) + (i > 9);
        snprintf(&t[at], 3, "%02x", v);
        if (at + 2 < 36) t[at + 2] = (at + 2 == 8 || at + 2 == 13 || at + 2 == 18 || at + 2 == 23) ? '-' : '3';
        us.push_back(UUID(t));
        fs.push_back(Frame3(us.back()));
      }
    wire<resim::proto::UUID>("UUID", us);
    wire<tp::Frame_3>("Frame", fs);
    std::vector<FV3> fvs;
    for (double x : {0., -0., 1., -3.5, 0.1, 1e-300, 1e300})
      for (double y : {0., 2., -0.3})
        for (double z : {0., 5., -0.7})
          for (int f = 0; f < 4; ++f) fvs.push_back(FV3(V3(x, y, z), frame(f)));
    wire<tp::FramedVector_3>("FramedVector", fvs);
    wire<tp::SO3>("SO3", groups<SO3>());
    wire<tp::SE3>("SE3", groups<SE3>());
    wire<cp::TwoJetL_SE3>("TwoJetL<SE3>", jets<TwoJetL<SE3>, SE3>());
    wire<cp::TwoJetR_SE3>("TwoJetR<SE3>", jets<TwoJetR<SE3>, SE3>());
    wire<cp::TwoJetL_SO3>("TwoJetL<SO3>", jets<TwoJetL<SO3>, SO3>());
    wire<cp::TwoJetR_SO3>("TwoJetR<SO3>", jets<TwoJetR<SO3>, SO3>());
    wire<cp::TCurve_SE3>("TCurve<SE3>", t_curves<SE3>());
    wire<cp::TCurve_SO3>("TCurve<SO3>", t_curves<SO3>());
    wire<cp::DCurve_SE3>("DCurve<SE3>", d_curves());
    wire<sp::Trajectory>("Trajectory", trajectories());
    const auto ps = primitives();
    wire<vp::ViewPrimitive>("ViewPrimitive", ps);
    std::vector<ViewUpdate> ups;
    std::vector<ViewPrimitive> few;
    for (size_t i = 5; i < ps.size(); i += ps.size() / 14 + 1) few.push_back(ps[i]);
    mc::all_words(static_cast<int>(few.size()), mc::thorough ? 3 : 2, [&](const std::vector<int> &w) {
      ViewUpdate u;
      for (int x : w) u.primitives.push_back(few[x]);
      ups.push_back(u);
      return true;
    });
    wire<vp::ViewUpdate>("ViewUpdate", ups);
  });
}
