// C15: trajectories.   trajectory SEED NPROG SCRIPT OUT
#include <cmath>
#include <fstream>
#include <limits>
#include <list>
#include <memory>
#include <optional>
#include <sstream>

#include "resim/actor/state/rigid_body_state.hh"
#include "resim/actor/state/trajectory.hh"
#include "resim/curves/t_curve.hh"
#include "resim/time/timestamp.hh"
#include "resim/transforms/frame.hh"
#include "resim/transforms/se3.hh"
#include "trace.hh"

using namespace resim;
using transforms::SE3;
using transforms::SO3;
using F3 = transforms::Frame<3>;
using M3 = Eigen::Matrix3d;
using V3 = Eigen::Vector3d;
using V6 = Eigen::Matrix<double, 6, 1>;
using Traj = actor::state::Trajectory;
using RBS = actor::state::RigidBodyState<SE3>;
using Ts = time::Timestamp;
using Du = time::Duration;
constexpr int NONINT = 99999;

static std::mt19937_64 rng;
static int rnd(int n) { return (int)(rng() % n); }
static std::vector<F3> frames;
static int frame_no(const F3 &f) {
  if (f == F3::null_frame()) return 0;
  for (size_t i = 0; i < frames.size(); ++i) if (frames[i] == f) return i + 1;
  return 77;
}
static F3 frame_of(int n) { return n ? frames.at(n - 1) : F3::null_frame(); }
static std::vector<M3> rots;
static void make_rots() {
  int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  for (auto &p : perm)
    for (int s = 0; s < 8; ++s) {
      M3 R = M3::Zero();
      for (int i = 0; i < 3; ++i) R(i, p[i]) = (s >> i & 1) ? -1 : 1;
      if (R.determinant() > 0) rots.push_back(R);
    }
}
static int toint(double x) {
  double r = std::nearbyint(x);
  return std::fabs(x - r) < 2e-5 && std::fabs(r) < 2e9 ? (int)r : NONINT;
}
template <class F> static bool refused(F &&f) { try { f(); return false; } catch (...) { return true; } }

static double unit = 1;  // of length: everything recorded is in this unit
struct Ctl { int64_t t; int i, f; M3 R; V3 tr; V6 d, dd; };
static Ts ts(int64_t n) { return Ts(Du(n)); }
static RBS state(const Ctl &k) {
  SE3 g = k.i == 0 && k.f == 0 ? SE3(SO3(k.R), k.tr * unit) : SE3(SO3(k.R), k.tr * unit, frame_of(k.i), frame_of(k.f));
  RBS::StateDerivatives s;
  s.velocity.angular_radps = k.d.head<3>();
  s.velocity.linear_mps = k.d.tail<3>() * unit;
  s.acceleration.angular_radpss = k.dd.head<3>();
  s.acceleration.linear_mpss = k.dd.tail<3>() * unit;
  return RBS(g, s);
}
static Traj::Control control(const Ctl &k) { return {ts(k.t), state(k)}; }
static std::vector<int> xs(const M3 &R, const V3 &t, const V6 &d, const V6 &dd) {
  std::vector<int> x;
  for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) x.push_back(toint(R(a, b)));
  for (int a = 0; a < 3; ++a) x.push_back(toint(t(a)));
  for (int a = 0; a < 6; ++a) x.push_back(toint(d(a)));
  for (int a = 0; a < 6; ++a) x.push_back(toint(dd(a)));
  return x;
}
static std::vector<int> xs(const RBS &s) {
  V6 d, dd;
  d << s.body_angular_velocity_radps(), s.body_linear_velocity_mps();
  dd << s.body_angular_acceleration_radpss(), s.body_linear_acceleration_mpss();
  d.tail<3>() /= unit, dd.tail<3>() /= unit;
  return xs(s.ref_from_body().rotation().rotation_matrix(), s.ref_from_body().translation() / unit, d, dd);
}

static std::list<Traj> trajs;
static std::vector<std::vector<Ctl>> known;
static Traj &tv(int c) { auto it = trajs.begin(); std::advance(it, c - 1); return *it; }

static vt::J projin(const Ctl &k, int64_t first) {
  return vt::Obj().kv("t", vt::w64(k.t)).kv("o", vt::w64(k.t - first)).kv("i", k.i).kv("f", k.f).kv("x", xs(k.R, k.tr, k.d, k.dd)).j();
}
static vt::J after() {
  std::vector<vt::J> all;
  for (const Traj &t : trajs) {
    std::vector<vt::J> info;
    int r = 0;
    bool empty = t.curve().control_pts().empty();
    if (!empty) info.push_back(vt::w64(t.start_time().time_since_epoch().count()));
    r += refused([&] { info.push_back(vt::w64(t.end_time().time_since_epoch().count())); });
    r += refused([&] { info.push_back(vt::w64(t.time_duration().count())); });
    std::vector<int> fr;
    r += refused([&] { fr.push_back(frame_no(t.reference_frame())); fr.push_back(-1); });
    r += refused([&] { if (!fr.empty()) fr.pop_back(); fr.push_back(frame_no(t.body_frame())); });
    if (!fr.empty()) info.push_back(vt::js(fr));
    // the underlying curve starts at zero and has the same length
    bool same = empty ? r == 4 : r == 0;
    if (!empty) same = same && t.curve().control_pts().front().time == 0;
    all.push_back(vt::Obj().kv("n", (int)t.curve().control_pts().size()).kv("info", info).kv("same", same).j());
  }
  return vt::js(all);
}
static std::vector<vt::J> ins(const std::vector<Ctl> &gs, const std::vector<Ctl> &cur) {
  int64_t first = cur.empty() ? gs[0].t : cur[0].t;
  std::vector<vt::J> in;
  for (auto &g : gs) in.push_back(projin(g, first));
  return in;
}
static void append(int c, const std::vector<Ctl> &gs, int how) {
  Traj &k = tv(c);
  size_t before = k.curve().control_pts().size();
  auto in = ins(gs, known[c - 1]);
  bool err = refused([&] {
    if (gs.size() == 1 && how == 0) k.append(control(gs[0]));
    else if (gs.size() == 1) k.append({control(gs[0])});
    else if (gs.size() == 2) k.append({control(gs[0]), control(gs[1])});
    else k.append({control(gs[0]), control(gs[1]), control(gs[2])});
  });
  vt::Ev("Append").kv("c", c).kv("gs", in).kv("err", err).kv("after", after());
  size_t now = k.curve().control_pts().size();
  for (size_t m = 0; before + m < now && m < gs.size(); ++m) known[c - 1].push_back(gs[m]);
}
static void copy(int c) {
  trajs.push_back(Traj(tv(c)));
  known.push_back(known[c - 1]);
  vt::Ev("Copy").kv("c", c).kv("after", after());
}
static void make(const std::vector<Ctl> &gs) {
  auto in = ins(gs, {});
  bool err = refused([&] {
    if (gs.size() == 2) trajs.push_back(Traj{control(gs[0]), control(gs[1])});
    else trajs.push_back(Traj{control(gs[0]), control(gs[1]), control(gs[2])});
  });
  if (!err) known.push_back(gs);
  vt::Ev("Make").kv("gs", in).kv("err", err).kv("after", after());
}
static void restart(int c, int64_t start) {
  trajs.push_back(Traj(tv(c).curve(), ts(start)));  // of no motion too: it starts when it gets one
  auto k = known[c - 1];
  int64_t shift = k.empty() ? 0 : start - k[0].t;
  std::vector<vt::J> t;
  for (auto &x : k) { x.t += shift; t.push_back(vt::w64(x.t)); }
  known.push_back(k);
  vt::Ev("Restart").kv("c", c).kv("ts", t).kv("after", after());
}
static void at(int c, int64_t t) {
  const Traj &k = tv(c);
  int64_t o = known[c - 1].empty() ? t : t - known[c - 1][0].t;
  std::optional<RBS> a, b;
  bool e1 = refused([&] { a.emplace(k.point_at(ts(t))); });
  bool e2 = refused([&] { b.emplace(k.point_at(Du(o))); });
  vt::Ev e("At");
  e.kv("c", c).kv("t", vt::w64(t)).kv("o", vt::w64(o)).kv("err", e1).kv("err2", e2);
  if (e1 || e2) return;
  auto j = refused([&] { k.curve().point_at((double)o / 1e9); });
  bool agree = !j;
  if (!j) {
    RBS r(k.curve().point_at((double)o / 1e9).right_two_jet());
    auto far = [&](const RBS &x) {
      double s = 1 + r.ref_from_body().translation().norm();
      double v = r.ref_from_body_two_jet().d_ref_from_frame().norm(), w = r.ref_from_body_two_jet().d2_ref_from_frame().norm();
      return (x.ref_from_body().rotation().rotation_matrix() - r.ref_from_body().rotation().rotation_matrix()).norm() +
             (x.ref_from_body().translation() - r.ref_from_body().translation()).norm() / s +
             (x.ref_from_body_two_jet().d_ref_from_frame() - r.ref_from_body_two_jet().d_ref_from_frame()).norm() / (1 + v) +
             (x.ref_from_body_two_jet().d2_ref_from_frame() - r.ref_from_body_two_jet().d2_ref_from_frame()).norm() / (1 + w);
    };
    agree = far(*a) < 1e-6 && far(*b) < 1e-6;
  }
  e.kv("x", xs(*a)).kv("x2", xs(*b)).kv("i", frame_no(a->ref_from_body().into())).kv("f", frame_no(a->ref_from_body().from())).kv("curve", agree);
}
static void assign(int c, int s) {
  Traj &to = tv(c), &from = tv(s);
  if (c != s) {  // in the same place in memory
    Traj other(from);
    std::destroy_at(&to);
    new (&to) Traj(std::move(other));
  }
  known[c - 1] = std::vector<Ctl>(known[s - 1]);
  vt::Ev("Assign").kv("c", c).kv("s", s).kv("after", after());
}
static Ctl ctl(const std::vector<Ctl> &cur, int dt, int fr);
// other states at the same times take the place of a trajectory that has just been asked
static void twin(int c) {
  const auto was = known[c - 1];
  if (was.size() < 2 || was.size() > 3 || known.size() > 4) return;
  std::vector<Ctl> gs;
  for (const Ctl &k : was) { gs.push_back(ctl(gs, 1, 1)); gs.back().t = k.t; gs.back().i = k.i; gs.back().f = k.f; }
  const size_t n = known.size();
  make(gs);
  if (known.size() == n) return;
  const int64_t t = was[rnd(was.size())].t;
  at(c, t);
  assign(c, n + 1);
  at(c, t);
}
static void queries(int c, int some = 0) {
  auto kn = known[c - 1];
  if (tv(c).curve().control_pts().size() != kn.size()) return;
  if (kn.empty()) { at(c, 0); at(c, 5); return; }
  if (some) {  // a long one: some of it, and always its end
    for (int n = 0; n < some; ++n) at(c, kn[rnd(kn.size())].t);
    at(c, kn[0].t);
    at(c, kn.back().t);
  } else for (auto &k : kn) at(c, k.t);
  for (size_t m = 0; m + 1 < kn.size(); ++m) {
    if (some && rnd(kn.size()) > some && m + 4 < kn.size()) continue;
    int64_t a = kn[m].t, b = kn[m + 1].t;
    if (b - a < 2) continue;
    at(c, a + 1);
    at(c, b - 1);
    at(c, a + 1 + (int64_t)(rng() % (b - a - 1)));
  }
  int64_t lo = kn.front().t, hi = kn.back().t;
  at(c, lo - 1);
  at(c, hi + 1);
  at(c, lo - 1 - (int64_t)(rng() % 1000000000000));
  at(c, hi + 1 + (int64_t)(rng() % 1000000000000));
}
static int scale;  // 0 normal, 1 micro, 2 macro
static int64_t epoch;
static void fresh() {
  trajs.clear();
  known.clear();
  trajs.emplace_back();
  known.emplace_back();
  scale = rnd(6);
  scale = scale > 2 ? 0 : scale;
  int64_t epochs[] = {0, 1690000000123456789, -1690000000123456789, 4000000000000000000, -4000000000000000000, 17, (int64_t)(rng() % 2000000000000000000)};
  epoch = epochs[rnd(7)];
  double units[] = {1, 1, 1, 1e-3, 1e3, 0.3};
  unit = units[rnd(6)];
  vt::Ev("Begin").kv("scale", scale);
}
static int64_t gap() {
  if (scale == 1) return 10 + (int64_t)(rng() % 1000);
  if (scale == 2) return 10000000000000 + (int64_t)(rng() % 100000000000000);
  int64_t g[] = {50000000, 100000000, 333333333, 1000000000, 1000000001, 50000000 + (int64_t)(rng() % 3000000000)};
  return g[rnd(6)];
}
static Ctl ctl(const std::vector<Ctl> &cur, int dt, int fr) {
  int fx[5][2] = {{0, 0}, {1, 2}, {1, 3}, {3, 2}, {2, 1}};
  Ctl k{};
  k.t = cur.empty() ? epoch : dt > 0 ? cur.back().t + gap() : dt == 0 ? cur.back().t : cur.back().t - gap();
  if (!cur.empty() && dt <= 0 && rnd(2)) k.t = rnd(2) ? cur.front().t - (rnd(2) ? 0 : gap()) : cur[rnd(cur.size())].t;  // not only just before the last
  k.i = fx[fr][0];
  k.f = fx[fr][1];
  M3 last = cur.empty() ? M3(M3::Identity()) : cur.back().R;
  V3 lt = cur.empty() ? V3(V3::Zero()) : cur.back().tr;
  do { k.R = rots[rnd(rots.size())]; } while ((last.transpose() * k.R).trace() < -0.5);
  k.tr = V3(rnd(9) - 4, rnd(9) - 4, rnd(9) - 4);
  if (scale == 1 && !cur.empty()) { k.R = last; k.tr = lt; }
  for (int a = 0; a < 6; ++a) { k.d(a) = scale == 2 ? 0 : rnd(5) - 2; k.dd(a) = scale == 2 ? 0 : rnd(5) - 2; }
  if (!cur.empty() && k.t == cur.back().t && rnd(2)) {  // the same state once more is no better
    const int i = k.i, f = k.f;
    k = cur.back();
    k.i = i, k.f = f;
  }
  return k;
}
static void ends() {
  // curves with ends that are not whole nanoseconds
  curves::TCurve<SE3> c;
  RBS s = state(ctl({}, 1, 1));
  std::uniform_real_distribution<double> u(1e-7, rnd(2) ? 10 : 5e5);
  double end = u(rng);
  if (rnd(3) == 0) end = std::nextafter(std::floor(end * 1e9) / 1e9, rnd(2) ? 0 : 1e9);
  c.append({0, s.ref_from_body_two_jet().left_two_jet()});
  c.append({end, s.ref_from_body_two_jet().left_two_jet()});
  Traj t(c, ts(epoch));
  bool err = refused([&] { t.point_at(t.end_time()); t.point_at(t.time_duration()); });
  bool later = refused([&] { t.point_at(t.end_time() + Du(2)); }) && refused([&] { t.point_at(t.time_duration() + Du(2)); });
  vt::Ev("Ends").kv("err", err).kv("later", later);
}

int main(int argc, char **argv) {
  if (argc != 5) return 97;
  rng.seed(atol(argv[1]));
  int nprog = atoi(argv[2]);
  make_rots();
  for (int i = 0; i < 4; ++i) frames.push_back(F3::new_frame());
  vt::open(argv[4]);
  std::ifstream sc(argv[3]);
  std::string line;
  while (std::getline(sc, line)) {
    fresh();
    std::istringstream is(line);
    std::string op;
    int m, f, c;
    while (is >> op >> m >> f >> c) {
      if (c > (int)known.size()) c = known.size();
      if (op == "C") { if (rnd(2)) copy(c); else restart(c, epoch + 5 - rnd(10)); if (known.size() == 1) copy(c); continue; }
      std::vector<Ctl> gs, cur = known[c - 1];
      gs.push_back(ctl(cur, op == "L" ? 1 : m, op == "L" ? 1 : f));
      if (op == "L") { cur.push_back(gs[0]); gs.push_back(ctl(cur, m, f)); }
      append(c, gs, rnd(2));
    }
    for (size_t k = 1; k <= known.size(); ++k) queries(k);
  }
  for (int p = 0; p < nprog; ++p) {
    fresh();
    bool lengthy = rnd(15) == 0;
    int fr = rnd(3) == 0 ? 0 : 1, n = lengthy ? 30 + rnd(40) : 2 + rnd(6);
    auto pick = [&](const std::vector<Ctl> &cur) {
      return ctl(cur, rnd(8) ? 1 : -rnd(2), rnd(8) ? fr : rnd(5));
    };
    for (int s = 0; s < n; ++s) {
      int c = lengthy && rnd(3) ? 1 : 1 + rnd(known.size()), o = rnd(12);
      if (o == 0 && known.size() < 4) { copy(c); continue; }
      if (o == 2 && known.size() < 4) { restart(c, epoch + (int64_t)(rng() % 1000000)); continue; }
      if (o == 3) { ends(); continue; }
      if (o == 4) { if (!lengthy || rnd(3) == 0) queries(c); continue; }
      if (o == 5 && rnd(2)) { if (rnd(2)) assign(c, 1 + rnd(known.size())); else if (!lengthy) twin(c); continue; }
      std::vector<Ctl> gs, cur;
      if (o == 1 && known.size() < 4) {
        int k = 2 + rnd(2);
        for (int j = 0; j < k; ++j) { gs.push_back(pick(cur)); cur.push_back(gs.back()); }
        make(gs);
        continue;
      }
      cur = known[c - 1];
      if (cur.size() > (lengthy ? 60 : 6)) continue;
      int k = o < 7 ? 1 + rnd(3) : 1;
      for (int j = 0; j < k; ++j) { gs.push_back(pick(cur)); cur.push_back(gs.back()); }
      append(c, gs, rnd(2));
    }
    for (size_t k = 1; k <= known.size(); ++k) queries(k);
  }
  for (int size : {150, 360, 700}) {
    fresh();
    scale = 0;
    const int fr = rnd(2);
    while ((int)known[0].size() < size + rnd(60)) {
      std::vector<Ctl> gs, cur = known[0];
      for (int j = 0; j < 3; ++j) { gs.push_back(ctl(cur, 1, fr)); cur.push_back(gs.back()); }
      append(1, gs, 0);
      if (tv(1).curve().control_pts().size() != cur.size()) break;
    }
    append(1, {ctl(known[0], 1, fr ? 2 + rnd(3) : 1 + rnd(4))}, 0);
    for (int k = 0; k < 3; ++k) append(1, {ctl(known[0], -k, fr)}, 0);
    restart(1, epoch + (int64_t)(rng() % 1000000));
    queries(1, 30);
    queries(2, 10);
  }
  return vt::done();
}
