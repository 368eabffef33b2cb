// C14: time curves over SO3 and SE3.   t_curve SEED NPROG SCRIPT OUT
// Lattice episodes: control states are lattice poses with small integer derivatives.  Line episodes: all control states
// lie on exp(f v) * base for one twist v, recorded by the scalar f and its derivatives.
#include <algorithm>
#include <cmath>
#include <fstream>
#include <limits>
#include <list>
#include <memory>
#include <optional>
#include <sstream>

#include "resim/curves/t_curve.hh"
#include "resim/curves/two_jet.hh"
#include "resim/transforms/frame.hh"
#include "resim/transforms/se3.hh"
#include "resim/transforms/so3.hh"
#include "trace.hh"

using namespace resim;
using transforms::SE3;
using transforms::SO3;
using F3 = transforms::Frame<3>;
using M3 = Eigen::Matrix3d;
using V3 = Eigen::Vector3d;
using V6 = Eigen::Matrix<double, 6, 1>;
constexpr int NONINT = 99999;
constexpr double ANGLE = 0.05;

static std::mt19937_64 rng;
static int rnd(int n) { return (int)(rng() % n); }
static std::vector<F3> frames;
static int frame_no(const F3 &f) {
  if (f == F3::null_frame()) return 0;
  for (size_t i = 0; i < frames.size(); ++i) if (frames[i] == f) return i + 1;
  return 77;
}
static F3 frame_of(int n) { return n ? frames.at(n - 1) : F3::null_frame(); }
static std::vector<M3> rots;
static void make_rots() {
  int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  for (auto &p : perm)
    for (int s = 0; s < 8; ++s) {
      M3 R = M3::Zero();
      for (int i = 0; i < 3; ++i) R(i, p[i]) = (s >> i & 1) ? -1 : 1;
      if (R.determinant() > 0) rots.push_back(R);
    }
}
static int toint(double x, double tol = 1e-6) {
  double r = std::nearbyint(x);
  return std::fabs(x - r) < tol && std::fabs(r) < 2e9 ? (int)r : NONINT;
}
template <class F> static bool refused(F &&f) { try { f(); return false; } catch (...) { return true; } }

// a pose as matrices, independent of the library
struct P { M3 R = M3::Identity(); V3 t = V3::Zero(); };
static P mul(const P &a, const P &b) { return {a.R * b.R, a.R * b.t + a.t}; }
static P inv(const P &a) { return {a.R.transpose(), -(a.R.transpose() * a.t)}; }
static M3 hat(const V3 &w) { M3 m; m << 0, -w(2), w(1), w(2), 0, -w(0), -w(1), w(0), 0; return m; }
static V6 ad(const P &g, const V6 &x) { V6 r; r.head<3>() = g.R * x.head<3>(); r.tail<3>() = g.t.cross(V3(r.head<3>())) + g.R * x.tail<3>(); return r; }

static double len = 1;  // unit of length: everything recorded is in this unit
template <class G> struct Ops;
template <> struct Ops<SE3> {
  static P pose(const SE3 &g) { return {g.rotation().rotation_matrix(), g.translation() / len}; }
  static SE3 make(const P &p, int i, int f) { return i == 0 && f == 0 ? SE3(SO3(p.R), p.t * len) : SE3(SO3(p.R), p.t * len, frame_of(i), frame_of(f)); }
  static V6 wide(V6 x) { x.tail<3>() /= len; return x; }
  static V6 narrow(V6 x) { x.tail<3>() *= len; return x; }
  static const char *name() { return "se3"; }
};
template <> struct Ops<SO3> {
  static P pose(const SO3 &g) { return {g.rotation_matrix(), V3::Zero()}; }
  static SO3 make(const P &p, int i, int f) { return i == 0 && f == 0 ? SO3(p.R) : SO3(p.R, frame_of(i), frame_of(f)); }
  static V6 wide(const V3 &x) { V6 r = V6::Zero(); r.head<3>() = x; return r; }
  static V3 narrow(const V6 &x) { return x.head<3>(); }
  static const char *name() { return "so3"; }
};

struct Ctl {  // what was put in
  int t, i, f;
  P g; V6 d, dd;           // lattice episode
  int s[3];                // line episode
};

template <class G>
struct Machine {
  using Curve = curves::TCurve<G>;
  using Control = typename Curve::Control;
  using Jet = curves::TwoJetL<G>;
  using O = Ops<G>;
  std::list<Curve> curves_;
  std::vector<std::vector<Ctl>> known;
  bool line = false, small = false, far = false;
  double unit = 1, t0 = 0;
  P base, conj;   // line: exp(f v) * base with v = Ad_conj (axial screw)
  double pitch = 0;
  double angle = ANGLE;

  Curve &cv(int c) { auto it = curves_.begin(); std::advance(it, c - 1); return *it; }
  double sec(int t) const { return t0 + t * unit; }
  V6 twist() const { V6 a = V6::Zero(); a(2) = angle; a(5) = pitch; return ad(conj, a); }
  P screw(double f) const {
    P s;
    double c = std::cos(f * angle), n = std::sin(f * angle);
    s.R << c, -n, 0, n, c, 0, 0, 0, 1;
    s.t = V3(0, 0, f * pitch);
    return mul(mul(conj, s), inv(conj));
  }
  Control control(const Ctl &k) const {
    P g = line ? mul(screw(k.s[0]), base) : k.g;
    V6 d = line ? V6(twist() * k.s[1]) : k.d, dd = line ? V6(twist() * k.s[2]) : k.dd;
    return Control{sec(k.t), Jet(O::make(g, k.i, k.f), O::narrow(d / unit), O::narrow(dd / unit / unit))};
  }
  // scalar coordinate of an observed jet along the line; false if it is off the line
  bool scalars(const Jet &j, double out[3]) const {
    P x = mul(mul(inv(conj), mul(O::pose(j.frame_from_ref()), inv(base))), conj);
    double a = std::atan2(x.R(1, 0), x.R(0, 0));
    out[0] = angle != 0 ? a / angle : x.t(2) / pitch;
    P want = mul(mul(inv(conj), screw(out[0])), conj);
    bool on = (want.R - x.R).norm() < 1e-9 && (want.t - x.t).norm() < 1e-8;
    V6 v = twist();
    V6 d = O::wide(j.d_frame_from_ref()) * unit, dd = O::wide(j.d2_frame_from_ref()) * unit * unit;
    out[1] = d.dot(v) / v.squaredNorm();
    out[2] = dd.dot(v) / v.squaredNorm();
    on = on && (d - out[1] * v).norm() < 1e-7 && (dd - out[2] * v).norm() < 1e-7;
    return on;
  }
  vt::J proj(double time, const Jet &j) const {
    int t = toint((time - t0) / unit, 1e-5);
    vt::Obj o;
    o.kv("t", t).kv("i", frame_no(j.frame_from_ref().into())).kv("f", frame_no(j.frame_from_ref().from()));
    std::vector<int> x;
    if (line) {
      double s[3];
      bool on = scalars(j, s);
      for (double v : s) x.push_back(on ? toint(v) : NONINT);
    } else {
      P p = O::pose(j.frame_from_ref());
      V6 d = O::wide(j.d_frame_from_ref()) * unit, dd = O::wide(j.d2_frame_from_ref()) * unit * unit;
      for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) x.push_back(toint(p.R(a, b)));
      for (int a = 0; a < 3; ++a) x.push_back(toint(p.t(a)));
      for (int a = 0; a < 6; ++a) x.push_back(toint(d(a)));
      for (int a = 0; a < 6; ++a) x.push_back(toint(dd(a)));
    }
    return o.kv("x", x).j();
  }
  vt::J projin(const Ctl &k) const {
    std::vector<int> x;
    if (line) for (int v : k.s) x.push_back(v);
    else {
      for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) x.push_back(toint(k.g.R(a, b)));
      for (int a = 0; a < 3; ++a) x.push_back(toint(k.g.t(a)));
      for (int a = 0; a < 6; ++a) x.push_back(toint(k.d(a)));
      for (int a = 0; a < 6; ++a) x.push_back(toint(k.dd(a)));
    }
    return vt::Obj().kv("t", k.t).kv("i", k.i).kv("f", k.f).kv("x", x).j();
  }
  vt::J after() {
    std::vector<vt::J> all;
    for (const Curve &c : curves_) {
      std::vector<vt::J> pts;
      const auto &cp = c.control_pts();
      const auto &sg = c.segments();
      for (const auto &p : cp) pts.push_back(proj(p.time, p.point));
      bool same = true;
      for (size_t k = 0; k < sg.size() && k + 1 < cp.size(); ++k) {
        same = same && sg[k].orig_time == cp[k].time && sg[k].dest_time == cp[k + 1].time;
        const double dt = cp[k + 1].time - cp[k].time;
        auto close = [&](const Jet &a, const Jet &b) {  // segments are normalised to unit time
          P x = O::pose(a.frame_from_ref()), y = O::pose(b.frame_from_ref());
          return (x.R - y.R).norm() < 1e-9 && (x.t - y.t).norm() < 1e-9 && (O::wide(a.d_frame_from_ref()) - O::wide(b.d_frame_from_ref()) * dt).norm() < 1e-6 &&
                 (O::wide(a.d2_frame_from_ref()) - O::wide(b.d2_frame_from_ref()) * dt * dt).norm() < 1e-6;
        };
        same = same && close(sg[k].curve.orig(), cp[k].point) && close(sg[k].curve.dest(), cp[k + 1].point);
      }
      std::vector<int> info;
      int r = 0;
      r += refused([&] { info.push_back(c.is_framed()); });
      r += refused([&] { info.push_back(frame_no(c.reference_frame())); });
      r += refused([&] { info.push_back(frame_no(c.point_frame())); });
      r += refused([&] { info.push_back(toint((c.start_time() - t0) / unit, 1e-5)); });
      r += refused([&] { info.push_back(toint((c.end_time() - t0) / unit, 1e-5)); });
      if (r != 0 && r != 5) same = false;
      all.push_back(vt::Obj().kv("pts", pts).kv("nseg", (int)sg.size()).kv("same", same).kv("info", info).j());
    }
    return vt::js(all);
  }
  std::vector<vt::J> ins(const std::vector<Ctl> &gs) { std::vector<vt::J> in; for (auto &g : gs) in.push_back(projin(g)); return in; }
  // the harness's own idea of the contents: the inputs the curve has accepted
  void sync(int c, const std::vector<Ctl> &gs, size_t before) {
    size_t now = cv(c).control_pts().size();
    for (size_t k = 0; before + k < now && k < gs.size(); ++k) known[c - 1].push_back(gs[k]);
  }
  void append(int c, const std::vector<Ctl> &gs, int how) {
    auto in = ins(gs);
    Curve &k = cv(c);
    size_t before = k.control_pts().size();
    bool err = refused([&] {
      if (gs.size() == 1 && how == 0) k.append(control(gs[0]));
      else if (gs.size() == 1) k.append({control(gs[0])});
      else if (gs.size() == 2) k.append({control(gs[0]), control(gs[1])});
      else k.append({control(gs[0]), control(gs[1]), control(gs[2])});
    });
    vt::Ev("Append").kv("c", c).kv("gs", in).kv("err", err).kv("after", after());
    sync(c, gs, before);
  }
  void copy(int c) {
    if (rnd(2)) curves_.push_back(Curve(cv(c)));
    else { Curve other(cv(c)); curves_.push_back(other); }
    known.push_back(known[c - 1]);
    vt::Ev("Copy").kv("c", c).kv("after", after());
  }
  void assign(int c, int s) {
    Curve &to = cv(c), &from = cv(s);
    if (c != s) {  // in the same place in memory
      Curve other(from);
      std::destroy_at(&to);
      new (&to) Curve(std::move(other));
    }
    known[c - 1] = std::vector<Ctl>(known[s - 1]);
    vt::Ev("Assign").kv("c", c).kv("s", s).kv("after", after());
  }
  void append_nan(int c) {
    if (known[c - 1].empty()) return;
    Control k = control(known[c - 1].back());
    k.time = std::nan("");
    vt::Ev("AppendNan").kv("c", c).kv("err", refused([&] { cv(c).append(k); })).kv("after", after());
  }
  void control_query(int c, size_t m) {
    const Curve &k = cv(c);
    if (k.control_pts().size() != known[c - 1].size()) return;
    const double at = k.control_pts()[m].time;
    std::optional<Jet> j;
    bool err = refused([&] { j.emplace(k.point_at(at)); });
    vt::Ev e("Ctrl");
    e.kv("c", c).kv("k", (int)m + 1).kv("err", err);
    if (!err) e.kv("pt", proj(at, *j));
  }
  // other states at the same times take the place of a curve that has just been asked
  void twin(int c) {
    if (known[c - 1].empty() || known.size() > 3) return;
    std::vector<Ctl> gs;
    for (const Ctl &k : known[c - 1]) { gs.push_back(ctl(gs, 1, 1)); gs.back().t = k.t; gs.back().i = k.i; gs.back().f = k.f; }
    make(gs, 0);
    const size_t m = rnd(gs.size());
    control_query(c, m);
    if (known.back().size() == gs.size()) assign(c, known.size());
    control_query(c, m);
  }
  void make(const std::vector<Ctl> &gs, int how) {
    auto in = ins(gs);
    std::vector<Control> v;
    for (auto &g : gs) v.push_back(control(g));
    bool err = refused([&] {
      if (how == 0) curves_.push_back(Curve(v));
      else if (gs.size() == 2) curves_.push_back(Curve{v[0], v[1]});
      else curves_.push_back(Curve{v[0], v[1], v[2]});
    });
    if (!err) known.push_back(gs);
    vt::Ev("Make").kv("gs", in).kv("err", err).kv("after", after());
  }
  void out(int c, double x, const char *what) {
    const Curve &k = cv(c);
    vt::Ev("Out").kv("c", c).kv("what", what).kv("err", refused([&] { k.point_at(x); }));
  }
  static int micro(double x) { return std::isfinite(x) && std::fabs(x) < 1000 ? (int)std::ceil(std::fabs(x) * 1e6) : 2000000000; }

  void queries(int c, size_t some = 0) {
    const Curve &k = cv(c);
    const auto kn = known[c - 1];
    const double inf = std::numeric_limits<double>::infinity();
    if (k.control_pts().size() != kn.size()) return;  // already rejected
    std::vector<size_t> order;
    for (size_t m = 0; m < (kn.empty() ? 1 : kn.size()); ++m) order.push_back(m);
    if (rnd(2)) std::shuffle(order.begin(), order.end(), rng);
    if (some && order.size() > some) {  // a long curve: some of it, and always its end
      std::shuffle(order.begin(), order.end(), rng);
      order.resize(some);
      for (size_t m = 1; m <= 3; ++m) order.push_back(kn.size() - m);
    }
    for (size_t m : order) for (int side = -1; side <= 1; ++side) {
      double at = kn.empty() ? t0 : k.control_pts()[m].time;
      if (side && (far || kn.size() < 2 || (side < 0 ? m == 0 : m + 1 == kn.size()))) continue;
      if (side) at = std::nextafter(at, side * inf);
      std::optional<Jet> j;
      bool err = refused([&] { j.emplace(k.point_at(at)); });
      vt::Ev e("Ctrl");
      e.kv("c", c).kv("k", (int)m + 1).kv("err", err);
      if (!err) e.kv("pt", proj(at, *j));
    }
    if (line) {
      int qs[][2] = {{1, 2}, {1, 4}, {3, 4}, {1, 3}, {2, 3}, {1, 5}};
      for (size_t m : order)
        if (m + 1 < kn.size()) for (auto &q : qs) {
          if (far && q[1] % 2) continue;
          double a = k.control_pts()[m].time, b = k.control_pts()[m + 1].time;
          double at = a + (b - a) * q[0] / q[1];
          std::optional<Jet> j;
          bool err = refused([&] { j.emplace(k.point_at(at)); });
          vt::Ev e("Mid");
          e.kv("c", c).kv("k", (int)m + 1).kv("p", q[0]).kv("q", q[1]).kv("err", err);
          if (err) continue;
          double s[3];
          bool on = scalars(*j, s);
          double mm = kn[m + 1].t - kn[m].t, Q = q[1];
          std::vector<int> v = {toint(2 * std::pow(Q, 5) * s[0], 2e-3), toint(2 * std::pow(Q, 4) * mm * s[1], 2e-3), toint(2 * std::pow(Q, 3) * mm * mm * s[2], 2e-3)};
          e.kv("i", frame_no(j->frame_from_ref().into())).kv("f", frame_no(j->frame_from_ref().from())).kv("on", on).kv("v", v);
        }
      // close to the ends of a segment, against the quintic in doubles
      for (size_t m : order)
        if (m + 1 < kn.size() && !far) for (int end = 0; end < 2; ++end) {
          const double a = k.control_pts()[m].time, b = k.control_pts()[m + 1].time;
          const double off = (b - a) * std::pow(10, -1.5 - rnd(400) / 100.0), at = end ? b - off : a + off;
          std::optional<Jet> j;
          const bool err = refused([&] { j.emplace(k.point_at(at)); });
          double s[3], r = 1e3;
          if (!err && scalars(*j, s)) {
            const double T = kn[m + 1].t - kn[m].t, u = (at - a) / (b - a), D = kn[m + 1].s[0] - kn[m].s[0];
            const double V = kn[m].s[1] * T, W = kn[m + 1].s[1] * T, A = kn[m].s[2] * T * T, B = kn[m + 1].s[2] * T * T;
            const double c2 = A / 2, c3 = 10 * D - 6 * V - 4 * W - 1.5 * A + 0.5 * B, c4 = -15 * D + 8 * V + 7 * W + 1.5 * A - B, c5 = 6 * D - 3 * V - 3 * W - 0.5 * A + 0.5 * B;
            const double w0 = kn[m].s[0] + u * (V + u * (c2 + u * (c3 + u * (c4 + u * c5)))), w1 = V + u * (2 * c2 + u * (3 * c3 + u * (4 * c4 + u * 5 * c5))), w2 = 2 * c2 + u * (6 * c3 + u * (12 * c4 + u * 20 * c5));
            const double scale = 20 + std::fabs(D) + std::fabs(V) + std::fabs(W) + std::fabs(A) + std::fabs(B);
            r = std::max({std::fabs(s[0] - w0), std::fabs(s[1] * T - w1), std::fabs(s[2] * T * T - w2)}) / scale;
          }
          vt::Ev("Close").kv("c", c).kv("k", (int)m + 1).kv("err", err).kv("r", micro(r));
        }
    }
    if (kn.size() >= 2) {
      // the same curve under another reference pose, and with another time origin
      P move = {rots[rnd(rots.size())], V3(rnd(7) - 3, rnd(7) - 3, rnd(7) - 3)};
      if (G::DOF == 3) move.t.setZero();
      double dt = (1 + rnd(5)) * unit;
      Curve moved, shifted;
      bool err = refused([&] {
        for (auto &p : k.control_pts()) {
          P g = mul(O::pose(p.point.frame_from_ref()), move);
          moved.append(Control{p.time, Jet(O::make(g, kn[0].i, kn[0].f), p.point.d_frame_from_ref(), p.point.d2_frame_from_ref())});
          shifted.append(Control{p.time + dt, p.point});
        }
      });
      for (size_t m : order) {
        if (m + 1 >= kn.size()) continue;
        double a = k.control_pts()[m].time, b = k.control_pts()[m + 1].time;
        double u = (1 + rnd(7)) / 8.0;
        double at = a + (b - a) * u, h = (b - a) / 64;
        std::vector<Jet> js;
        std::optional<Jet> jm, jsft;
        bool err2 = err || refused([&] {
          for (int n = -2; n <= 2; ++n) js.push_back(k.point_at(at + n * h));
          jm.emplace(moved.point_at(at));
          jsft.emplace(shifted.point_at(at + dt));
        });
        vt::Ev e("Smooth");
        e.kv("c", c).kv("err", err2);
        if (err2) continue;
        // numerical left derivative of the pose and derivative of the recorded first derivative (five-point stencil);
        // errors are relative to h^4 times sixth-order quantities: compare on the scale of the segment's motion
        const double w[5] = {1. / 12, -8. / 12, 0, 8. / 12, -1. / 12};
        M3 Rd = M3::Zero();
        V3 td = V3::Zero();
        V6 dd = V6::Zero();
        P x = O::pose(js[2].frame_from_ref());
        double scale = 1;
        for (int n = 0; n < 5; ++n) {
          P y = O::pose(js[n].frame_from_ref());
          Rd += w[n] / h * y.R; td += w[n] / h * y.t;
          dd += w[n] / h * O::wide(js[n].d_frame_from_ref());
        }
        M3 W = Rd * x.R.transpose();
        V6 d;
        d.head<3>() = V3(W(2, 1), W(0, 2), W(1, 0));
        d.tail<3>() = td - V3(d.head<3>()).cross(x.t);
        if (G::DOF == 3) d.tail<3>().setZero();
        for (int n = 0; n < 5; ++n) {
          V6 v = O::wide(js[n].d_frame_from_ref()) * (b - a), z = O::wide(js[n].d2_frame_from_ref()) * (b - a) * (b - a);
          scale = std::max({scale, v.norm() * (1 + v.head<3>().squaredNorm()), z.norm(), v.norm() * x.t.norm()});
        }
        scale *= 1 + std::pow(scale / 4, 3);
        double r1 = (d - O::wide(js[2].d_frame_from_ref())).norm() * (b - a) / scale;
        double r2 = (dd - O::wide(js[2].d2_frame_from_ref())).norm() * (b - a) * (b - a) / scale;
        auto diff = [&](const Jet &p, const P &g, const Jet &q) {
          P y = O::pose(p.frame_from_ref());
          double s = 1 + g.t.norm();
          return ((y.R - g.R).norm() + (y.t - g.t).norm()) / s + (O::wide(p.d_frame_from_ref()) - O::wide(q.d_frame_from_ref())).norm() * (b - a) / scale +
                 (O::wide(p.d2_frame_from_ref()) - O::wide(q.d2_frame_from_ref())).norm() * (b - a) * (b - a) / scale;
        };
        e.kv("i", frame_no(js[2].frame_from_ref().into())).kv("f", frame_no(js[2].frame_from_ref().from()));
        e.kv("r1", micro(r1)).kv("r2", micro(r2)).kv("move", micro(diff(*jm, mul(x, move), js[2]))).kv("shift", micro(diff(*jsft, x, js[2])));
      }
    }
    double lo = kn.empty() ? t0 : k.control_pts().front().time, hi = kn.empty() ? t0 : k.control_pts().back().time;
    out(c, std::nextafter(lo, -inf), "just below");
    out(c, lo - unit, "below");
    out(c, -inf, "-inf");
    out(c, std::nextafter(hi, inf), "just above");
    out(c, hi + unit, "above");
    out(c, inf, "inf");
    out(c, std::nan(""), "nan");
  }

  void fresh(int straight = -1) {
    curves_.clear();
    known.clear();
    curves_.emplace_back();
    known.emplace_back();
    line = straight < 0 ? rnd(2) : straight;
    double units[] = {1, 0.5, 0.125, 0.1, 2, 0.3, 1e-3, 3e3, 1e-10, 1e7};
    unit = units[rnd(10)];
    double starts[] = {0, 0, 1, -3.5, 1000, -256};
    t0 = starts[rnd(6)] * (unit > 0.05 && unit < 10 ? 1 : unit);
    // far from the origin of time (a clock's epoch): only dyadic times, which are still exact there
    far = rnd(5) == 0;
    if (far) {
      double fars[] = {0x1p24, 0x1p25 + 1, -0x1p26 - 8, 0x1.954fc4p+30};
      int n = rnd(4);
      unit = n == 3 ? 64 : 1 + rnd(2) * 0.5 ;
      t0 = fars[n];
    }
    double lens[] = {1, 1, 1e-3, 1e4, 0.5};
    len = G::DOF == 3 ? 1 : lens[rnd(5)];
    base = {rots[rnd(rots.size())], V3(rnd(7) - 3, rnd(7) - 3, rnd(7) - 3)};
    conj = {rots[rnd(rots.size())], V3(rnd(5) - 2, rnd(5) - 2, rnd(5) - 2)};
    if (G::DOF == 3) base.t.setZero(), conj.t.setZero();
    int kind = G::DOF == 3 ? 0 : rnd(3);  // rotation, translation, screw
    const double fine[] = {1, 1, 1, 1e-3, 1e-6};
    const double fi = far ? 1 : fine[rnd(5)];
    angle = kind == 1 ? 0 : ANGLE * fi;
    pitch = fi * (kind == 0 ? 0 : kind == 1 ? 1 : 0.25);
    small = rnd(2);
    vt::Ev("Begin").kv("group", O::name()).kv("line", line);
  }
  Ctl ctl(const std::vector<Ctl> &cur, int dt, int fr) {
    int fx[5][2] = {{0, 0}, {1, 2}, {1, 3}, {3, 2}, {2, 1}};
    Ctl k{};
    k.t = cur.empty() ? rnd(5) - 2 : cur.back().t + dt;
    if (!cur.empty() && dt <= 0 && rnd(2)) k.t = rnd(2) ? cur.front().t - rnd(3) : cur[rnd(cur.size())].t;  // not only just before the last
    k.i = fx[fr][0];
    k.f = fx[fr][1];
    int D = small ? 1 : 3;
    auto v6 = [&](int r) { V6 v; for (int a = 0; a < 6; ++a) v(a) = rnd(2 * r + 1) - r; if (G::DOF == 3) v.tail(3).setZero(); return v; };
    // consecutive poses less than a half turn apart
    P last = cur.empty() ? P{} : cur.back().g;
    do { k.g = mul(P{rots[rnd(3) ? rnd(rots.size()) : 0], V3(rnd(7) - 3, rnd(7) - 3, rnd(7) - 3)}, last); }
    while ((k.g.R * last.R.transpose()).trace() < -0.5);
    if (G::DOF == 3) k.g.t.setZero();
    k.d = v6(D);
    k.dd = v6(D);
    k.s[0] = rnd(41) - 20;
    k.s[1] = rnd(11) - 5;
    k.s[2] = rnd(7) - 3;
    if (!cur.empty() && k.t == cur.back().t && rnd(2)) {  // the same state once more is no better
      const int i = k.i, f = k.f;
      k = cur.back();
      k.i = i, k.f = f;
    }
    return k;
  }

  void vast(int n) {
    fresh(1);
    const int fr = rnd(3) == 0 ? 0 : 1;
    std::vector<Ctl> gs;
    for (int k = 0; k < n; ++k) gs.push_back(ctl(gs, 1 + rnd(4), fr));
    for (Ctl &k : gs) k.g = P{};
    make(gs, 0);
    if (known.size() != 2) return;
    append(2, {ctl(gs, 1, fr ? 2 + rnd(3) : 1 + rnd(4))}, 0);
    for (int k = 0; k < 3; ++k) append(2, {ctl(gs, -k, fr)}, 0);
    append_nan(2);
    queries(2, 40);
  }
  void script(const std::string &text) {
    fresh();
    std::istringstream is(text);
    std::string op;
    int m, f, c;
    while (is >> op >> m >> f >> c) {
      if (c > (int)known.size()) c = known.size();
      if (op == "C") { copy(c); continue; }
      std::vector<Ctl> gs, cur = known[c - 1];
      gs.push_back(ctl(cur, op == "L" ? 1 : m, op == "L" ? 1 : f));
      if (op == "L") { cur.push_back(gs[0]); gs.push_back(ctl(cur, m, f)); }
      append(c, gs, rnd(2));
    }
    for (size_t k = 1; k <= known.size(); ++k) queries(k);
  }
  void random() {
    fresh();
    int fr = rnd(3) == 0 ? 0 : 1;
    bool lengthy = rnd(15) == 0;
    int n = lengthy ? 30 + rnd(40) : 2 + rnd(6);
    auto pick = [&](const std::vector<Ctl> &cur) {
      int f = rnd(8) == 0 ? rnd(5) : fr;
      int dt = rnd(8) == 0 ? -rnd(3) : 1 + rnd(4);
      return ctl(cur, dt, f);
    };
    for (int s = 0; s < n; ++s) {
      int c = lengthy && rnd(3) ? 1 : 1 + rnd(known.size()), o = rnd(10);
      if (o == 0 && known.size() < 3) { copy(c); continue; }
      std::vector<Ctl> gs, cur;
      if (o == 1 && known.size() < 3) {
        int k = 2 + rnd(2);
        for (int j = 0; j < k; ++j) { gs.push_back(pick(cur)); cur.push_back(gs.back()); }
        make(gs, rnd(2));
        continue;
      }
      cur = known[c - 1];
      if (o == 9) { if (!lengthy || rnd(3) == 0) queries(c); continue; }
      if (o == 8 && rnd(3) == 0) { if (rnd(2)) assign(c, 1 + rnd(known.size())); else if (!lengthy && rnd(2)) twin(c); else append_nan(c); continue; }
      if (cur.size() > (lengthy ? 60 : 6)) continue;
      int k = o < 5 ? 1 + rnd(3) : 1;
      for (int j = 0; j < k; ++j) { gs.push_back(pick(cur)); cur.push_back(gs.back()); }
      append(c, gs, rnd(2));
    }
    for (size_t k = 1; k <= known.size(); ++k) queries(k);
  }
};

int main(int argc, char **argv) {
  if (argc != 5) return 97;
  rng.seed(atol(argv[1]));
  int nprog = atoi(argv[2]);
  make_rots();
  for (int i = 0; i < 4; ++i) frames.push_back(F3::new_frame());
  vt::open(argv[4]);
  Machine<SE3> a;
  Machine<SO3> b;
  std::ifstream sc(argv[3]);
  std::string line;
  int n = 0;
  while (std::getline(sc, line)) { if (n++ % 2) b.script(line); else a.script(line); }
  for (int p = 0; p < nprog; ++p) { if (p % 3 == 0) b.random(); else a.random(); }
  a.vast(150 + rnd(100));
  b.vast(350 + rnd(200));
  a.vast(1100 + rnd(200));
  return vt::done();
}
