// C25: value semantics. Every program of constructions, copies, moves, assignments, swaps and changes over two (three) objects
// of a type runs on the real objects; the model is the recipe of each object, and what an object shows is compared with
// what an object built by the recipe alone (never copied, moved or assigned) shows.
#include "pureops.hh"

namespace {
using namespace pure;

template <typename T>
struct Type {
  std::string name;
  std::vector<std::function<void(std::optional<T> &)>> make;                                      // construct in place
  std::vector<std::pair<std::string, std::function<void(T &, const T &)>>> change;                // change(x, other)
  std::function<void(const T &, Out &)> look;
};

struct Recipe {
  int maker = 0;
  std::vector<std::pair<int, std::shared_ptr<Recipe>>> steps;
  std::string key() const {
    std::string s = mc::str("m", maker);
    for (auto &x : steps) s += mc::str(" c", x.first, "(", x.second ? x.second->key() : "", ")");
    return s;
  }
};

template <typename T, bool COPY_ASSIGN, bool MOVE_ASSIGN>
class Explorer {
 public:
  explicit Explorer(Type<T> t) : t_(std::move(t)) {}

  void all(int vars, int depth) {
    struct Op {
      char kind;
      int a, b;
    };
    std::vector<Op> ops;
    for (int a = 0; a < vars; ++a) {
      for (size_t k = 0; k < t_.make.size(); ++k) ops.push_back({'n', a, static_cast<int>(k)});
      for (size_t k = 0; k < t_.change.size(); ++k)
        for (int b = 0; b < vars; ++b)
          if (b == a || b == (a + 1) % vars) ops.push_back({static_cast<char>('A' + k), a, b});
      for (int b = 0; b < vars; ++b) {
        if (b != a) {
          ops.push_back({'c', a, b});
          ops.push_back({'m', a, b});
        }
        if constexpr (COPY_ASSIGN) ops.push_back({'=', a, b});
        if constexpr (MOVE_ASSIGN) {
          if (b != a) ops.push_back({'<', a, b});
          if (b > a) ops.push_back({'s', a, b});
        }
      }
      ops.push_back({'v', a, a});
    }
    const auto show = [&](const Op &o) {
      const char *const x = "xyz";
      switch (o.kind) {
        case 'n': return mc::str(x[o.a], "=make", o.b);
        case 'c': return mc::str(x[o.a], "=copy of ", x[o.b]);
        case 'm': return mc::str(x[o.a], "=moved ", x[o.b]);
        case '=': return mc::str(x[o.a], " assigned ", x[o.b]);
        case '<': return mc::str(x[o.a], " move-assigned ", x[o.b]);
        case 's': return mc::str("swap ", x[o.a], " ", x[o.b]);
        case 'v': return mc::str(x[o.a], " through a growing vector");
        default: return mc::str(x[o.a], ": ", t_.change[o.kind - 'A'].first, " ", x[o.b]);
      }
    };
    uint64_t index = 0;
    std::vector<Op> word;
    std::string phase;
    mc::describe = [&]() {
      std::string s = t_.name + ":";
      for (auto &o : word) s += " " + show(o) + ";";
      return s;
    };
    std::function<void()> rec = [&]() {
      if (word.size() == 2 && !mc::my_shard(index++)) return;
      // Run the word (the shorter ones have been run as prefixes).
      if (!word.empty() && (word.size() >= 2 || mc::shard == 0)) {
        mc::beat();
        ++mc::traces;
        std::vector<std::optional<T>> v(vars);
        std::vector<std::shared_ptr<Recipe>> m(vars);  // null: moved from
        for (int i = 0; i < vars; ++i) {
          t_.make[i % t_.make.size()](v[i]);
          m[i] = std::make_shared<Recipe>();
          m[i]->maker = i % t_.make.size();
        }
        bool legal = true;
        size_t step = 0;
        for (auto &o : word) {
          ++step;
          const bool reads = o.kind != 'n';
          if (reads && !m[o.b]) legal = false;
          if ((o.kind == 's' || o.kind == 'v' || (o.kind >= 'A' && o.kind <= 'Z')) && !m[o.a]) legal = false;
          if (!legal) break;
          ++mc::transitions;
          bool rejected = false;
          switch (o.kind) {
            case 'n':
              v[o.a].reset();
              t_.make[o.b](v[o.a]);
              m[o.a] = std::make_shared<Recipe>();
              m[o.a]->maker = o.b;
              break;
            case 'c':
              v[o.a].reset();
              v[o.a].emplace(*v[o.b]);
              m[o.a] = std::make_shared<Recipe>(*m[o.b]);
              break;
            case 'm':
              v[o.a].reset();
              v[o.a].emplace(std::move(*v[o.b]));
              m[o.a] = std::move(m[o.b]);
              m[o.b] = nullptr;
              break;
            case '=':
              if constexpr (COPY_ASSIGN) {
                const T &ref = *v[o.b];
                *v[o.a] = ref;
              }
              m[o.a] = std::make_shared<Recipe>(*m[o.b]);
              break;
            case '<':
              if constexpr (MOVE_ASSIGN) *v[o.a] = std::move(*v[o.b]);
              m[o.a] = std::move(m[o.b]);
              m[o.b] = nullptr;
              break;
            case 's':
              if constexpr (MOVE_ASSIGN) {
                using std::swap;
                swap(*v[o.a], *v[o.b]);
              }
              std::swap(m[o.a], m[o.b]);
              break;
            case 'v': {
              std::vector<T> vec;
              vec.reserve(1);
              vec.push_back(*v[o.a]);
              vec.push_back(vec[0]);  // from its own element, while it grows
              vec.push_back(std::move(vec[1]));
              v[o.a].reset();
              v[o.a].emplace(std::move(vec[2]));
              break;
            }
            default: {
              const int k = o.kind - 'A';
              auto other = std::make_shared<Recipe>(*m[o.b]);
              rejected = mc::rejects([&]() { t_.change[k].second(*v[o.a], *v[o.b]); });
              m[o.a] = std::make_shared<Recipe>(*m[o.a]);
              m[o.a]->steps.emplace_back(k, other);
            }
          }
          if (step == word.size() || rejected)
            for (int i = 0; i < vars; ++i)
              if (m[i]) compare(*v[i], *m[i], i);
        }
        if (!legal) return;
      }
      if (static_cast<int>(word.size()) == depth) return;
      for (auto &o : ops) {
        word.push_back(o);
        rec();
        word.pop_back();
      }
    };
    rec();
    mc::bounds[mc::str(t_.name, ", ", vars, " objects")] = mc::str("all programs of up to ", depth, " of ", ops.size(), " operations");
  }

 private:
  std::string observe(const T &x) {
    Out o;
    try {
      t_.look(x, o);
    } catch (const mc::TooMany &) {
      throw;
    } catch (const std::exception &e) {
      o.put(std::string("rejected"));
    }
    return std::move(o.s);
  }
  void build(const Recipe &r, std::optional<T> &x) {
    t_.make[r.maker](x);
    for (auto &s : r.steps) {
      std::optional<T> other;
      build(*s.second, other);
      (void)mc::rejects([&]() { t_.change[s.first].second(*x, *other); });
    }
  }
  void compare(const T &x, const Recipe &r, int which) {
    const std::string key = r.key();
    auto it = known_.find(key);
    if (it == known_.end()) {
      std::optional<T> fresh;
      build(r, fresh);
      it = known_.emplace(key, observe(*fresh)).first;
      mc::state(mc::mix(mc::hash_str(t_.name), mc::hash_str(it->second)));
    }
    if (observe(x) != it->second)
      mc::violation(t_.name + ":value", mc::describe(), mc::str("object ", "xyz"[which], " differs from one built directly as ", key));
  }

  Type<T> t_;
  std::unordered_map<std::string, std::string> known_;
};

template <bool COPY_ASSIGN, bool MOVE_ASSIGN, typename T>
void explore(Type<T> t, int depth2, int depth3) {
  Explorer<T, COPY_ASSIGN, MOVE_ASSIGN> e(std::move(t));
  e.all(2, depth2 + mc::thorough);
  e.all(3, depth3 + mc::thorough);
}

template <typename G>
Type<G> group_type(const std::string &name, std::vector<G> values) {
  Type<G> t;
  t.name = name;
  for (auto &g : values) t.make.push_back([g](std::optional<G> &x) { x.emplace(g); });
  t.change = {{"frames swapped from", [](G &x, const G &y) { x.set_frames(y.from(), y.into()); }},
              {"multiplied by", [](G &x, const G &y) { x = x * y; }},
              {"made inverse of", [](G &x, const G &y) { x = y.inverse(); }},
              {"unframed, ignoring", [](G &x, const G &) { x.set_unframed(); }}};
  t.look = [](const G &x, Out &o) {
    o.put(x);
    o.put(int64_t{x.is_framed()});
    o.put(x.log());
    o.put(x.interp(0.5));
  };
  return t;
}
template <typename J, typename G>
Type<J> jet_l(const std::string &name, std::vector<J> values) {
  Type<J> t;
  t.name = name;
  for (auto &g : values) t.make.push_back([g](std::optional<J> &x) { x.emplace(g); });
  t.change = {{"pose set from", [](J &x, const J &y) { x.set_frame_from_ref(y.frame_from_ref()); }},
              {"derivatives crossed from", [](J &x, const J &y) { x.set_d_frame_from_ref(y.d2_frame_from_ref()); }},
              {"second derivative from first of", [](J &x, const J &y) { x.set_d2_frame_from_ref(y.d_frame_from_ref()); }},
              {"multiplied by inverse of", [](J &x, const J &y) { x = x * y.inverse(); }}};
  t.look = [](const J &x, Out &o) {
    o.put(x);
    o.put(x.inverse());
  };
  return t;
}
template <typename J, typename G>
Type<J> jet_r(const std::string &name, std::vector<J> values) {
  Type<J> t;
  t.name = name;
  for (auto &g : values) t.make.push_back([g](std::optional<J> &x) { x.emplace(g); });
  t.change = {{"pose set from", [](J &x, const J &y) { x.set_ref_from_frame(y.ref_from_frame()); }},
              {"derivatives crossed from", [](J &x, const J &y) { x.set_d_ref_from_frame(y.d2_ref_from_frame()); }},
              {"second derivative from first of", [](J &x, const J &y) { x.set_d2_ref_from_frame(y.d_ref_from_frame()); }},
              {"multiplied by inverse of", [](J &x, const J &y) { x = x * y.inverse(); }}};
  t.look = [](const J &x, Out &o) {
    o.put(x);
    o.put(x.inverse());
  };
  return t;
}
}  // namespace

int main(int argc, char **argv) {
  return mc::run(argc, argv, [&]() {
    const World w;
    SO3 f0 = w.r0, f1 = w.r1;
    f0.set_frames(frame(1), frame(2));
    f1.set_frames(frame(2), frame(1));
    explore<true, true>(group_type<SO3>("SO3", {f0, f1, w.r2}), 3, 2);
    explore<true, true>(group_type<SE3>("SE3", {w.g[0], pose(-0.4, V3(0, 1, 2), V3(-1, 2, 0.5), 2, 1), w.g[3]}), 3, 2);
    {
      Type<FV3> t;
      t.name = "FramedVector";
      for (const FV3 &v : {w.fv, w.fx, FV3(V3(7, 8, 9), Frame3())}) t.make.push_back([v](std::optional<FV3> &x) { x.emplace(v); });
      t.change = {{"added", [](FV3 &x, const FV3 &y) { x = x + y; }},
                  {"frame set from", [](FV3 &x, const FV3 &y) { x.set_frame(y.frame()); }},
                  {"doubled from", [](FV3 &x, const FV3 &y) { x = y * 2.; }}};
      t.look = [](const FV3 &x, Out &o) { o.put(x); };
      explore<true, true>(t, 4, 3);
    }
    explore<true, true>(jet_l<TwoJetL<SE3>, SE3>("TwoJetL", {w.jl, TwoJetL<SE3>(w.g[2], six(3, 2, 1, 0, 1, 2), six(1, 1, 0, 2, 0, 3))}), 3, 2);
    explore<true, true>(jet_r<TwoJetR<SE3>, SE3>("TwoJetR", {w.jr, TwoJetR<SE3>(w.g[2], six(3, 2, 1, 0, 1, 2), six(1, 1, 0, 2, 0, 3))}), 3, 2);
    explore<true, true>(jet_l<TwoJetL<SO3>, SO3>("TwoJetL of SO3", {w.jo, TwoJetL<SO3>(w.r1, V3(1, 0, 1), V3(2, 2, 0))}), 3, 2);
    {
      Type<State> t;
      t.name = "RigidBodyState";
      for (const State &v : {w.st, State(TwoJetR<SE3>(w.g[2], six(3, 2, 1, 0, 1, 2), six(1, 1, 0, 2, 0, 3)))}) t.make.push_back([v](std::optional<State> &x) { x.emplace(v); });
      t.change = {{"linear parts crossed from", [](State &x, const State &y) { x.set_body_linear_velocity_mps(y.body_linear_acceleration_mpss()); }},
                  {"angular velocity from linear of", [](State &x, const State &y) { x.set_body_angular_velocity_radps(y.body_linear_velocity_mps()); }},
                  {"angular acceleration from velocity of", [](State &x, const State &y) { x.set_body_angular_acceleration_radpss(y.body_angular_velocity_radps()); }},
                  {"linear acceleration from angular of", [](State &x, const State &y) { x.set_body_linear_acceleration_mpss(y.body_angular_acceleration_radpss()); }},
                  {"pose from", [](State &x, const State &y) { x.set_ref_from_body(y.ref_from_body()); }},
                  {"relative to", [](State &x, const State &y) { x = y.inverse_times(x); }}};
      t.look = [](const State &x, Out &o) {
        o.put(x);
        const auto d = x.body_derivatives();
        o.put(d.velocity.linear_mps);
        o.put(d.velocity.angular_radps);
        o.put(d.acceleration.linear_mpss);
        o.put(d.acceleration.angular_radpss);
      };
      explore<true, true>(t, 3, 2);
    }
    {
      using C = TCurve<SE3>;
      Type<C> t;
      t.name = "TCurve";
      t.make = {[](auto &x) { x.emplace(t_curve(1., 3, 0.5)); }, [](auto &x) { x.emplace(t_curve(2., 2, 1.)); }, [](auto &x) { x.emplace(); }};
      t.change = {{"extended by the last point of",
                   [](C &x, const C &y) {
                     const double at = (x.control_pts().empty() ? 0. : x.control_pts().back().time) + 1.5;
                     x.append({at, y.control_pts().empty() ? TwoJetL<SE3>(pose(1, V3(1, 0, 0), V3(1, 2, 3), 2, 1), six(1, 0, 0, 0, 1, 0), six(0, 0, 0, 1, 0, 0)) : y.control_pts().back().point});
                   }},
                  {"appended (too early) the first control of",
                   [](C &x, const C &y) {
                     REASSERT(!y.control_pts().empty() && !x.control_pts().empty());
                     x.append(y.control_pts().front());
                   }}};
      t.look = [](const C &x, Out &o) {
        o.put(x);
        o.put(int64_t{x.is_framed()});
        o.put(x.reference_frame());
        o.put(x.point_frame());
        for (auto &s : x.segments()) {
          o.put(s.orig_time);
          o.put(s.dest_time);
          o.put(s.curve.point_at(0.25));
        }
        o.put(x.start_time());
        o.put(x.end_time());
        for (double f : {0., 0.2, 0.6, 1.}) o.put(x.point_at(x.start_time() + f * (x.end_time() - x.start_time())));
      };
      explore<false, true>(t, 3, 2);
    }
    {
      using C = DCurve<SE3>;
      Type<C> t;
      t.name = "DCurve";
      t.make = {[](auto &x) { x.emplace(d_curve(3, 2., 0.3)); }, [](auto &x) { x.emplace(d_curve(2, 1., 0.)); }, [](auto &x) { x.emplace(); }};
      t.change = {{"extended by the first point of",
                   [](C &x, const C &y) { x.append(y.control_pts().empty() ? pose(0.4, V3(0, 0, 1), V3(5, 16, 7), 1, 2) : *y.control_pts().front().ref_from_control); }},
                  {"extended by a step from the end of",
                   [](C &x, const C &y) {
                     SE3 inc(SO3(M3(Eigen::AngleAxisd(0.2, V3(0, 0, 1)).toRotationMatrix())), V3(1, 0, 0.1));
                     inc.set_frames(frame(2), frame(2));
                     x.append((y.control_pts().empty() ? pose(0.4, V3(0, 0, 1), V3(5, 6, 7), 1, 2) : *y.control_pts().back().ref_from_control) * inc);
                   }},
                  {"appended a point of other frames, ignoring", [](C &x, const C &y) {
                     REASSERT(!x.control_pts().empty());
                     x.append(pose(0.4, V3(0, 0, 1), V3(5, 6, 7), 1, 5));
                   }}};
      t.look = [](const C &x, Out &o) {
        o.put(x);
        for (auto &s : x.segments()) {
          o.put(s.orig_arc_length);
          o.put(s.dest_arc_length);
          o.put(s.orig_from_dest);
          o.put(*s.ref_from_orig);
          o.put(*s.ref_from_dest);
        }
        o.put(int64_t{x.is_framed()});
        o.put(x.reference_frame());
        o.put(x.point_frame());
        o.put(x.curve_length());
        for (double f : {0., 0.2, 0.6, 1.}) o.put(x.point_at(x.curve_length() * f));
      };
      explore<false, true>(t, 3, 2);
    }
    {
      Type<Trajectory> t;
      t.name = "Trajectory";
      t.make = {[](auto &x) { x.emplace(trajectory(1600000000123456789, 3)); }, [](auto &x) { x.emplace(trajectory(-7, 2)); }, [](auto &x) { x.emplace(); }};
      t.change = {{"extended by the state at the start of",
                   [](Trajectory &x, const Trajectory &y) {
                     const Timestamp at = x.curve().control_pts().empty() ? Timestamp(Duration(99)) : x.end_time() + Duration(1500000001);
                     x.append({at, y.curve().control_pts().empty() ? State(TwoJetR<SE3>(pose(1, V3(1, 0, 0), V3(1, 2, 3), 1, 2), six(1, 0, 0, 0, 1, 0), six(0, 0, 0, 1, 0, 0))) : y.point_at(y.start_time())});
                   }},
                  {"extended at its end (refused), ignoring", [](Trajectory &x, const Trajectory &) { x.append({x.end_time(), x.point_at(Duration(0))}); }}};
      t.look = [](const Trajectory &x, Out &o) {
        o.put(x);
        o.put(int64_t{x.end_time().time_since_epoch().count()});
        o.put(int64_t{x.time_duration().count()});
        o.put(x.reference_frame());
        o.put(x.body_frame());
        for (int i = 0; i < 4; ++i) o.put(x.point_at(x.start_time() + x.time_duration() * i / 3));
      };
      explore<false, true>(t, 3, 2);
    }
    {
      Type<Gaussian> t;
      t.name = "Gaussian";
      t.make = {[](auto &x) { x.emplace(Eigen::Vector2d(1, 2), (Eigen::Matrix2d() << 4, 1, 1, 3).finished()); }, [](auto &x) { x.emplace(V3(0, 2, 3), M3(V3(0, 4, 9).asDiagonal())); }};
      t.change = {{"drawn from once, ignoring", [](Gaussian &x, const Gaussian &) { (void)x.sample(); }}, {"drawn from thrice, ignoring", [](Gaussian &x, const Gaussian &) { (void)x.samples(3); }}};
      t.look = [](const Gaussian &x, Out &o) {
        o.put(x.mu());
        o.put(x.cov());
        o.put(x.eigenvalues());
        o.put(x.eigenvectors());
        o.put(int64_t{x.dimensionality()});
        Gaussian g = x;
        o.put(g.samples(2));
        o.put(g.sample());
      };
      explore<false, false>(t, 3, 2);
    }
    {
      using S = resim::time::EventSchedule<std::string, uint8_t>;
      Type<S> t;
      t.name = "EventSchedule";
      t.make = {[](auto &x) {
                  x.emplace();
                  for (int i = 0; i < 3; ++i) x->schedule_event(Timestamp(Duration(i % 2)), std::string(30, 'a' + i));
                },
                [](auto &x) { x.emplace(); }};
      t.change = {{"top scheduled again from", [](S &x, const S &y) {
                     if (y.size() == 0) return x.schedule_event(Timestamp(Duration(1)), std::string(30, 'z'));
                     x.schedule_event(y.top_event().time, y.top_event().payload);
                   }},
                  {"popped, ignoring", [](S &x, const S &) {
                     if (x.size() != 0) x.pop_event();
                   }}};
      t.look = [](const S &x, Out &o) {
        S s = x;
        s.schedule_event(Timestamp(Duration(0)), "last at 0");
        for (; s.size() != 0; s.pop_event()) {
          o.put(int64_t{s.top_event().time.time_since_epoch().count()});
          o.put(s.top_event().payload);
        }
      };
      explore<true, true>(t, 4, 3);
    }
    {
      Type<UUID> t;
      t.name = "UUID";
      for (const char *u : {"11111111-2222-4333-8444-5555555555aa", "00000000-0000-0000-0000-000000000000", "f1111111-2222-4333-8444-5555555555ab"}) t.make.push_back([u](auto &x) { x.emplace(std::string(u)); });
      t.change = {{"parsed from text of", [](UUID &x, const UUID &y) { x = UUID(y.to_string()); }}, {"from bytes of", [](UUID &x, const UUID &y) { x = UUID(y.id()); }}};
      t.look = [](const UUID &x, Out &o) {
        o.put(x);
        o.put(x.to_string());
        o.put(int64_t{x.is_null()});
        o.put(static_cast<int64_t>(std::hash<UUID>()(x)));
      };
      explore<true, true>(t, 4, 3);
    }
    {
      Type<ViewUpdate> t;
      t.name = "ViewUpdate";
      t.make = {[&](auto &x) { x.emplace(w.up); }, [](auto &x) { x.emplace(); }};
      t.change = {{"first primitive appended from",
                   [&](ViewUpdate &x, const ViewUpdate &y) {
                     if (!y.primitives.empty()) x.primitives.push_back(y.primitives.front());
                     else x.primitives.push_back(w.up.primitives[4]);
                   }},
                  {"last removed, ignoring", [](ViewUpdate &x, const ViewUpdate &) {
                     if (!x.primitives.empty()) x.primitives.pop_back();
                   }},
                  {"round trip of", [](ViewUpdate &x, const ViewUpdate &y) {
                     vp::ViewUpdate m;
                     vp::pack(y, &m);
                     x = vp::unpack(m);
                   }}};
      t.look = [](const ViewUpdate &x, Out &o) {
        for (auto &p : x.primitives) o.put(p);
      };
      explore<false, true>(t, 2, 2);
    }
  });
}
