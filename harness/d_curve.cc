// C13: distance curves over lattice poses.   d_curve SEED NPROG SCRIPT OUT
#include <algorithm>
#include <cmath>
#include <fstream>
#include <list>
#include <limits>
#include <random>
#include <memory>
#include <optional>
#include <sstream>

#include "resim/curves/d_curve.hh"
#include "resim/transforms/frame.hh"
#include "resim/transforms/se3.hh"
#include "trace.hh"

using namespace resim;
using transforms::SE3;
using transforms::SO3;
using F3 = transforms::Frame<3>;
using Curve = curves::DCurve<SE3>;
using M3 = Eigen::Matrix3d;
using V3 = Eigen::Vector3d;
constexpr int NONINT = 99999;
static double unit = 1;  // of length: everything recorded is in this unit

static std::mt19937_64 rng;
static std::vector<F3> frames;
static int frame_no(const F3 &f) {
  if (f == F3::null_frame()) return 0;
  for (size_t i = 0; i < frames.size(); ++i)
    if (frames[i] == f) return i + 1;
  return 77;
}
static F3 frame_of(int n) { return n ? frames.at(n - 1) : F3::null_frame(); }

struct P {  // lattice pose
  M3 R = M3::Identity();
  V3 t = V3::Zero();
  int i = 0, f = 0;
};
static P mul(const P &a, const P &b) { P r = a; r.R = a.R * b.R; r.t = a.R * b.t + a.t; return r; }
static P inv(const P &a) { P r = a; r.R = a.R.transpose(); r.t = -(r.R * a.t); return r; }
static int toint(double x) {
  double r = std::nearbyint(x);
  return std::fabs(x - r) < 1e-6 && std::fabs(r) < 90000 ? (int)r : NONINT;
}
template <class M> static std::vector<int> ints(const M &m) {
  std::vector<int> v;
  for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) v.push_back(toint(m(i, j)));
  return v;
}
static vt::Obj proj(const P &p) { return vt::Obj().kv("R", ints(p.R)).kv("t", ints(p.t)).kv("i", p.i).kv("f", p.f); }
static P from(const SE3 &g) { P p; p.R = g.rotation().rotation_matrix(); p.t = g.translation() / unit; p.i = frame_no(g.into()); p.f = frame_no(g.from()); return p; }
static vt::J proj(const SE3 &g) { return proj(from(g)).kv("bare", !g.rotation().is_framed()).j(); }
static SE3 se3(const P &p) {
  if (p.i == 0 && p.f == 0) return SE3(SO3(p.R), p.t * unit);
  return SE3(SO3(p.R), p.t * unit, frame_of(p.i), frame_of(p.f));
}

static std::vector<M3> rots;
static void make_rots() {
  int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  for (auto &p : perm)
    for (int s = 0; s < 8; ++s) {
      M3 R = M3::Zero();
      for (int i = 0; i < 3; ++i) R(i, p[i]) = (s >> i & 1) ? -1 : 1;
      if (R.determinant() > 0) rots.push_back(R);
    }
}

// std::deque-free storage: Curve is not assignable
static std::list<Curve> curves_;
static std::vector<std::vector<P>> known;  // what was put in
static Curve &cv(int c) { auto it = curves_.begin(); std::advance(it, c - 1); return *it; }

template <class F> static bool refused(F &&f) { try { f(); return false; } catch (...) { return true; } }

static vt::J after() {
  std::vector<vt::J> all;
  for (const Curve &c : curves_) {
    std::vector<vt::J> pts, l2;
    bool same = true;
    const auto &cp = c.control_pts();
    const auto &sg = c.segments();
    for (const auto &p : cp) pts.push_back(proj(*p.ref_from_control));
    if (sg.size() != (cp.empty() ? 0 : cp.size() - 1)) same = false;
    for (size_t k = 0; same && k + 1 < cp.size(); ++k) {
      double len = (cp[k + 1].arc_length - cp[k].arc_length) / unit;
      double sq = len * len * 1e6;
      l2.push_back(vt::js(sq < 2e9 && std::isfinite(sq) && len >= 0 ? (int)std::lround(sq) : -1));
      same = same && sg[k].orig_arc_length == cp[k].arc_length && sg[k].dest_arc_length == cp[k + 1].arc_length;
      same = same && sg[k].ref_from_orig->is_approx(*cp[k].ref_from_control) && sg[k].ref_from_dest->is_approx(*cp[k + 1].ref_from_control);
      SE3 back = *sg[k].ref_from_orig * sg[k].orig_from_dest;
      same = same && back.rotation().is_approx(sg[k].ref_from_dest->rotation()) && (back.translation() - sg[k].ref_from_dest->translation()).norm() < 1e-9 * unit;
    }
    same = same && (cp.empty() || cp.front().arc_length == 0);
    same = same && c.curve_length() == (cp.empty() ? 0 : cp.back().arc_length);
    std::vector<int> fr;
    bool r1 = refused([&] { fr.push_back(c.is_framed()); });
    bool r2 = refused([&] { fr.push_back(frame_no(c.point_frame())); });
    bool r3 = refused([&] { fr.push_back(frame_no(c.reference_frame())); });
    if ((r1 || r2 || r3) && !(r1 && r2 && r3)) same = false;
    all.push_back(vt::Obj().kv("pts", pts).kv("l2", l2).kv("same", same).kv("frames", fr).j());
  }
  return vt::js(all);
}

static void resync() {  // the harness's own idea of the curves, for choosing later inputs only
  for (size_t c = 0; c < known.size(); ++c) {
    known[c].clear();
    for (const auto &p : cv(c + 1).control_pts()) {
      P q = from(*p.ref_from_control);
      for (int i = 0; i < 3; ++i) { q.t(i) = std::nearbyint(q.t(i)); for (int j = 0; j < 3; ++j) q.R(i, j) = std::nearbyint(q.R(i, j)); }
      known[c].push_back(q);
    }
  }
}

static void append(int c, const std::vector<P> &gs, int how) {
  std::vector<vt::J> in;
  for (auto &g : gs) in.push_back(proj(g).j());
  Curve &k = cv(c);
  bool err = refused([&] {
    if (gs.size() == 1 && how == 0) k.append(se3(gs[0]));
    else if (gs.size() == 1) k.append({se3(gs[0])});
    else if (gs.size() == 2) k.append({se3(gs[0]), se3(gs[1])});
    else k.append({se3(gs[0]), se3(gs[1]), se3(gs[2])});
  });
  vt::Ev("Append").kv("c", c).kv("gs", in).kv("err", err).kv("after", after());
  resync();
}
static void copy(int c) {
  curves_.push_back(Curve(cv(c)));
  known.push_back(known[c - 1]);
  vt::Ev("Copy").kv("c", c).kv("after", after());
}
static void make(const std::vector<P> &gs, int how) {
  std::vector<vt::J> in;
  for (auto &g : gs) in.push_back(proj(g).j());
  std::vector<SE3> v;
  for (auto &g : gs) v.push_back(se3(g));
  bool err = refused([&] {
    if (how == 0) curves_.push_back(Curve(v));
    else if (gs.size() == 2) curves_.push_back(Curve{v[0], v[1]});
    else curves_.push_back(Curve{v[0], v[1], v[2]});
  });
  if (!err) known.push_back({});
  vt::Ev("Make").kv("gs", in).kv("err", err).kv("after", after());
  resync();
}

static void out(int c, double x, const char *what) {
  const Curve &k = cv(c);
  vt::Ev("Out").kv("c", c).kv("what", what).kv("err", refused([&] { k.point_at(x); }));
}

static void queries(int c) {
  const Curve &k = cv(c);
  const auto kn = known[c - 1];
  const double inf = std::numeric_limits<double>::infinity();
  std::vector<size_t> order;
  for (size_t m = 0; m < (kn.empty() ? 1 : kn.size()); ++m) order.push_back(m);
  if (rng() % 2) std::shuffle(order.begin(), order.end(), rng);
  for (size_t m : order) {
    double at = kn.empty() ? 0 : k.control_pts()[m].arc_length;
    std::optional<SE3> g;
    bool err = refused([&] { g.emplace(k.point_at(at)); });
    vt::Ev e("Ctrl");
    e.kv("c", c).kv("k", (int)m + 1).kv("err", err);
    if (!err) e.kv("pt", proj(*g));
  }
  int qs[][2] = {{1, 2}, {1, 3}, {2, 3}, {1, 4}, {3, 4}, {2, 5}};
  for (size_t m : order) {
    if (m + 1 >= kn.size()) continue;
    P S = mul(inv(kn[m]), kn[m + 1]);
    if (S.t.isZero()) continue;
    double a = k.control_pts()[m].arc_length, b = k.control_pts()[m + 1].arc_length;
    for (auto &q : qs) {
      double at = a + (b - a) * q[0] / q[1];
      std::optional<SE3> g;
      bool err = refused([&] { g.emplace(k.point_at(at)); });
      vt::Ev e("Mid");
      e.kv("c", c).kv("k", (int)m + 1).kv("p", q[0]).kv("q", q[1]).kv("err", err);
      if (err) continue;
      P x = from(*g);
      P fwd = mul(inv(kn[m]), x), bwd = mul(inv(x), kn[m + 1]);
      P fq, bq;
      for (int n = 0; n < q[1]; ++n) { fq = mul(fq, fwd); bq = mul(bq, bwd); }
      bool near = fwd.R.trace() >= S.R.trace() - 1e-9 && bwd.R.trace() >= S.R.trace() - 1e-9;
      e.kv("bare", !g->rotation().is_framed()).kv("i", x.i).kv("f", x.f).kv("fwd", proj(fq).j()).kv("bwd", proj(bq).j()).kv("near", near);
    }
  }
  double len = k.curve_length();
  out(c, -std::numeric_limits<double>::denorm_min(), "just below");
  out(c, -unit, "below");
  out(c, -inf, "-inf");
  out(c, std::nextafter(len, inf), "just above");
  out(c, len + unit, "above");
  out(c, inf, "inf");
  out(c, std::nan(""), "nan");
}

static void assign(int c, int s) {
  Curve &to = cv(c);
  if (c != s) {  // in the same place in memory
    Curve other(cv(s));
    std::destroy_at(&to);
    new (&to) Curve(std::move(other));
  }
  known[c - 1] = std::vector<P>(known[s - 1]);
  vt::Ev("Assign").kv("c", c).kv("s", s).kv("after", after());
}
static void control_query(int c, size_t m) {
  const Curve &k = cv(c);
  if (m >= k.control_pts().size()) return;
  std::optional<SE3> g;
  const bool err = refused([&] { g.emplace(k.point_at(k.control_pts()[m].arc_length)); });
  vt::Ev e("Ctrl");
  e.kv("c", c).kv("k", (int)m + 1).kv("err", err);
  if (!err) e.kv("pt", proj(*g));
}
// the same curve elsewhere, so all distances as before, takes the place of one that has just been asked
static void twin(int c) {
  const auto was = known[c - 1];
  if (was.empty() || known.size() > 3) return;
  P by;
  by.R = rots[1 + rng() % (rots.size() - 1)];
  by.t = V3(1 + rng() % 5, rng() % 5, rng() % 5);
  std::vector<P> gs;
  for (const P &p : was) { P q = mul(by, p); q.i = p.i; q.f = p.f; gs.push_back(q); }
  const size_t n = known.size();
  make(gs, 0);
  if (known.size() == n) return;
  const size_t m = rng() % was.size();
  control_query(c, m);
  assign(c, n + 1);
  control_query(c, m);
}

static void fresh() {
  curves_.clear();
  known.clear();
  curves_.emplace_back();
  known.emplace_back();
  double units[] = {1, 1, 1e-6, 1e-3, 0.7, 1e5};
  unit = units[rng() % 6];
  vt::Ev("Begin");
}

// arbitrary segments: the screw motion between consecutive points, by an independent logarithm
struct Screw { V3 w, v; };
static Screw log_of(const P &p) {
  V3 x(p.R(2, 1) - p.R(1, 2), p.R(0, 2) - p.R(2, 0), p.R(1, 0) - p.R(0, 1));
  double s = x.norm() / 2, a = std::atan2(s, (p.R.trace() - 1) / 2);
  Screw r;
  r.w = s > 1e-12 ? V3(x * (a / (2 * s))) : V3(x / 2);
  double k = a < 1e-2 ? 1. / 12 + a * a / 720 + a * a * a * a / 30240 : (1 - a / 2 * std::cos(a / 2) / std::sin(a / 2)) / (a * a);
  r.v = p.t - 0.5 * r.w.cross(p.t) + k * r.w.cross(r.w.cross(p.t));
  return r;
}
static int micro(double x) { return std::isfinite(x) && std::fabs(x) < 1000 ? (int)std::ceil(std::fabs(x) * 1e6) : 2000000000; }
static void generic(int many = 0) {
  auto uni = [&] { return (double)(rng() >> 11) / 9007199254740992.0; };
  auto dir = [&] { V3 v; do { v = V3(2 * uni() - 1, 2 * uni() - 1, 2 * uni() - 1); } while (v.norm() > 1 || v.norm() < 0.1); return V3(v.normalized()); };
  double units[] = {1, 1, 1e-6, 1e-3, 0.7, 1e5};
  unit = units[rng() % 6];
  std::vector<P> ps;
  int n = rng() % 12 ? 2 + rng() % 4 : 30;
  if (many) n = many;
  bool framed = rng() % 2;
  for (int k = 0; k < n; ++k) {
    double angles[] = {0, 1e-8, 1e-6, 1e-4, 1e-2, 1, 1, 1, 3.1};
    double a = angles[rng() % 9];
    a = a == 1 ? 3.1 * uni() : a;
    P m;
    m.R = Eigen::AngleAxisd(a, dir()).toRotationMatrix();
    double lens[] = {1, 1, 1, 1e-2, 1e2};
    m.t = lens[rng() % 5] * (0.2 + 3 * uni()) * dir();
    P q = ps.empty() ? m : mul(ps.back(), m);
    if (ps.size() > 1 && rng() % 4 == 0) {  // back to where it has been, unless that is half a turn away
      const P &r = ps[rng() % 2 ? 0 : rng() % (ps.size() - 1)];
      P way = mul(inv(ps.back()), r);
      if (way.R.trace() > -0.9 && way.t.norm() > 1e-3) q = r;
    }
    q.i = framed ? 1 : 0; q.f = framed ? 2 : 0;
    ps.push_back(q);
  }
  std::vector<SE3> v;
  for (auto &q : ps) v.push_back(se3(q));
  Curve c(v);
  auto &cp = c.control_pts();
  double worst[5] = {};   // length, turn, displacement, total, ends
  bool frames_ok = true, err = cp.size() != ps.size();
  double total = 0;
  for (int k = 0; !err && k + 1 < n; ++k) {
    P A = from(v[k]), B = from(v[k + 1]);
    Screw S = log_of(mul(inv(A), B));
    double len = S.v.norm(), a = cp[k].arc_length, b = cp[k + 1].arc_length;
    total += len;
    worst[0] = std::max(worst[0], std::fabs((b - a) / unit - len) / (len + 1e-6 * total));
    for (int end = 0; end < 2; ++end) {  // at the controls themselves
      err = err || refused([&] {
        const P &want = end ? B : A;
        P g = from(c.point_at(end ? b : a));
        worst[4] = std::max({worst[4], (g.R - want.R).norm(), (g.t - want.t).norm() / (len + 1e-6 * (total + A.t.norm()))});
      });
    }
    for (double u : {0.5, uni(), 1e-3, 0.999, std::pow(10, -2 - 3.6 * uni()), 1 - std::pow(10, -2 - 3.6 * uni())}) {
      err = err || refused([&] {
        SE3 g = c.point_at(a + (b - a) * u);
        frames_ok = frames_ok && frame_no(g.into()) == ps[0].i && frame_no(g.from()) == ps[0].f;
        Screw f = log_of(mul(inv(A), from(g)));
        worst[1] = std::max(worst[1], (f.w - u * S.w).norm() / (S.w.norm() + 1e-6));
        worst[2] = std::max(worst[2], (f.v - u * S.v).norm() / (len + 1e-6 * (total + A.t.norm())));
      });
    }
  }
  worst[3] = std::fabs(c.curve_length() / unit - total) / total;
  // however long it is, a point in other frames does not fit
  P odd = ps.back();
  odd.i = 3, odd.f = rng() % 2 ? 2 : 1;
  const bool misfit = refused([&] { c.append(se3(odd)); }) && c.control_pts().size() == ps.size() && c.segments().size() + 1 == ps.size();
  vt::Ev("Begin");
  vt::Ev("Generic").kv("misfit", misfit).kv("n", n).kv("err", err).kv("frames", frames_ok).kv("length", micro(worst[0])).kv("turn", micro(worst[1])).kv("shift", micro(worst[2])).kv("total", micro(worst[3])).kv("ends", micro(worst[4]));
}

int main(int argc, char **argv) {
  if (argc != 5) return 97;
  rng.seed(atol(argv[1]));
  int nprog = atoi(argv[2]);
  make_rots();
  for (int i = 0; i < 4; ++i) frames.push_back(F3::new_frame());
  vt::open(argv[4]);
  auto rnd = [&](int n) { return (int)(rng() % n); };
  auto framed = [&](P p, int f) {
    int fr[5][2] = {{0, 0}, {1, 2}, {1, 3}, {3, 2}, {2, 1}};
    p.i = fr[f][0]; p.f = fr[f][1];
    return p;
  };
  auto motion = [&](int m) {  // 0 in place, 1 turn in place, 2 straight, 3 arc, 4 screw
    P s;
    int r = m == 0 || m == 2 ? 0 : 1 + rnd(rots.size() - 1);
    if (r) s.R = rots[r];
    if (m >= 2) do { s.t = V3(rnd(9) - 4, rnd(9) - 4, rnd(9) - 4); } while (s.t.isZero());
    return s;
  };
  auto next = [&](const std::vector<P> &c, int m) { return c.empty() ? mul(motion(4), motion(4)) : mul(c.back(), motion(m)); };
  std::ifstream sc(argv[3]);
  std::string line;
  while (std::getline(sc, line)) {
    fresh();
    std::istringstream is(line);
    std::string op;
    int m, f, c;
    while (is >> op >> m >> f >> c) {
      if (c > (int)known.size()) c = known.size();
      if (op == "C") { copy(c); continue; }
      std::vector<P> gs;
      auto cur = known[c - 1];
      gs.push_back(framed(next(cur, m), op == "L" ? 1 : f));
      if (op == "L") { cur.push_back(gs[0]); gs.push_back(framed(next(cur, m), f)); }
      append(c, gs, rnd(2));
    }
    for (size_t k = 1; k <= known.size(); ++k) queries(k);
  }
  for (int p = 0; p < nprog; ++p) {
    fresh();
    bool unframed = rnd(4) == 0;
    bool lengthy = rnd(40) == 0;
    int n = lengthy ? 15 + rnd(20) : 2 + rnd(7);
    for (int i = 0; i < n; ++i) {
      int c = 1 + rnd(known.size());
      int o = rnd(10);
      auto pick = [&](const std::vector<P> &cur) {
        int f = unframed ? 0 : rnd(7) == 0 ? (cur.empty() ? 1 + rnd(4) : rnd(5)) : 1;
        int m = rnd(10);
        if (cur.size() > 1 && rnd(6) == 0) {  // back to where it has been, if the model can hold the squared length
          const P &r = cur[rnd(2) ? 0 : rnd(cur.size())];
          if ((r.t - cur.back().t).squaredNorm() <= 200) return framed(r, f);
        }
        return framed(next(cur, m > 4 ? 2 + m % 3 : m), f);
      };
      if (o == 0 && known.size() < 3) { copy(c); continue; }
      if (o == 1 && known.size() < 3) {
        std::vector<P> gs, cur;
        int k = 2 + rnd(2);
        for (int j = 0; j < k; ++j) { gs.push_back(pick(cur)); cur.push_back(gs.back()); }
        make(gs, rnd(2));
        continue;
      }
      if (o == 2) { queries(c); continue; }
      if (o == 3 && rnd(2)) { if (rnd(2)) assign(c, 1 + rnd(known.size())); else twin(c); continue; }
      std::vector<P> gs, cur = known[c - 1];
      int k = o < 5 ? 1 + rnd(3) : 1;
      for (int j = 0; j < k; ++j) { gs.push_back(pick(cur)); cur.push_back(gs.back()); }
      bool big = false;
      for (auto &g : gs) big = big || g.t.cwiseAbs().maxCoeff() > 60;
      if (big && lengthy) continue;
      if (big) break;
      append(c, gs, rnd(2));
    }
    for (size_t k = 1; k <= known.size(); ++k) queries(k);
    for (int k = 0; k < 3; ++k) generic();
    if (p % 150 == 0) generic(100 + rnd(1200));
  }
  return vt::done();
}
