// C10, C11, C12: register machine over SO3, SE3, framed vectors, two-jets and rigid-body states with lattice values
// (signed permutation rotations, small integer translations and derivatives), so that results are exact integers.
//   group MODE SEED NPROG SCRIPTFILE OUT      MODE: frames | words | jets
// SCRIPTFILE: one program per line, instructions separated by ';':  "op a b x"
#include <cmath>
#include <fstream>
#include <iostream>
#include <optional>
#include <sstream>

#include "resim/actor/state/rigid_body_state.hh"
#include "resim/curves/two_jet.hh"
#include "resim/transforms/frame.hh"
#include "resim/transforms/framed_vector.hh"
#include "resim/transforms/se3.hh"
#include "resim/transforms/so3.hh"
#include "trace.hh"

using namespace resim;
using namespace resim::transforms;
using F3 = Frame<3>;
using FV = FramedVector<3>;
template <class G> using JL = curves::TwoJetL<G>;
template <class G> using JR = curves::TwoJetR<G>;
using RBS = actor::state::RigidBodyState<SE3>;
using V3 = Eigen::Vector3d;

constexpr int BOUND = 300;
constexpr int NONINT = 99999;

// ---------------------------------------------------------------------------------------------- projection
static std::vector<std::pair<std::string, F3>> frames;  // index+1 = frame number, 0 = null
static int frame_no(const F3 &f) {
  std::string s = f.id().to_string();
  if (s == "00000000-0000-0000-0000-000000000000") return 0;
  for (size_t i = 0; i < frames.size(); ++i)
    if (frames[i].first == s) return i + 1;
  frames.push_back({s, f});
  return frames.size();
}
static F3 frame_of(int n) { return n == 0 ? F3::null_frame() : frames.at(n - 1).second; }

// One answer, however the argument is qualified (9 if they differ).
static int both(bool a, bool b) { return a == b ? int(a) : 9; }

static int maxabs;
static bool exact;
static int toint(double x) {
  double r = std::nearbyint(x);
  if (!(std::fabs(x - r) < 1e-6) || std::fabs(r) > 90000) { maxabs = 90001; return NONINT; }
  if (x != r) exact = false;
  if (std::fabs(r) > maxabs) maxabs = std::fabs(r);
  return (int)r;
}
template <class M>
static std::vector<int> ints(const M &m) {  // row major
  std::vector<int> v;
  for (int i = 0; i < m.rows(); ++i)
    for (int j = 0; j < m.cols(); ++j) v.push_back(toint(m(i, j)));
  return v;
}
// Units: lengths are multiples of L, time derivatives of order p multiples of S^p.  Both are powers of two, so every
// law of the lattice holds at any scale, exactly.
static double L = 1, S = 1;
template <class V>
static std::vector<int> lens(const V &v) { return ints((v / L).eval()); }
template <class V>
static std::vector<int> rates(const V &v, int p, bool linear = false) { return ints((v / (std::pow(S, p) * (linear ? L : 1.))).eval()); }
template <class T>
static std::vector<int> tans(const T &t, int p) {  // tangent of order p; SE3: angular part first
  auto r = rates(t.template head<3>(), p);
  if constexpr (T::RowsAtCompileTime == 6)
    for (int x : rates(t.template tail<3>(), p, true)) r.push_back(x);
  return r;
}
template <class M>
static std::vector<int> maps(M m, int p) {  // linear map on tangents, of order p
  m /= std::pow(S, p);
  if constexpr (M::RowsAtCompileTime == 6) {
    m.template bottomLeftCorner<3, 3>() /= L;
    m.template topRightCorner<3, 3>() *= L;
  }
  return ints(m);
}
static vt::J proj(const SO3 &g) { return vt::Obj().kv("k", "so3").kv("R", ints(g.rotation_matrix())).kv("i", frame_no(g.into())).kv("f", frame_no(g.from())).j(); }
static vt::J proj(const SE3 &g) {
  // the rotation inside never carries frames of its own
  bool bare = !g.rotation().is_framed() && g.rotation().from().is_null();
  return vt::Obj().kv("k", "se3").kv("R", ints(g.rotation().rotation_matrix())).kv("t", lens(g.translation())).kv("i", frame_no(g.into())).kv("f", frame_no(g.from())).kv("bare", bare).j();
}
static vt::J proj(const FV &v) { return vt::Obj().kv("k", "vec").kv("v", lens(v.vector())).kv("fr", frame_no(v.frame())).j(); }
template <class G>
static vt::J proj(const JL<G> &j) { return vt::Obj().kv("k", G::DOF == 3 ? "jl3" : "jl6").kv("g", proj(j.frame_from_ref())).kv("d", tans(j.d_frame_from_ref(), 1)).kv("dd", tans(j.d2_frame_from_ref(), 2)).j(); }
template <class G>
static vt::J proj(const JR<G> &j) { return vt::Obj().kv("k", G::DOF == 3 ? "jr3" : "jr6").kv("g", proj(j.ref_from_frame())).kv("d", tans(j.d_ref_from_frame(), 1)).kv("dd", tans(j.d2_ref_from_frame(), 2)).j(); }
static vt::J proj(const RBS &s) {
  // through the state's own getters, angular part first
  std::vector<int> d = rates(s.body_angular_velocity_radps(), 1), dd = rates(s.body_angular_acceleration_radpss(), 2);
  for (int x : rates(s.body_linear_velocity_mps(), 1, true)) d.push_back(x);
  for (int x : rates(s.body_linear_acceleration_mpss(), 2, true)) dd.push_back(x);
  auto q = s.body_derivatives();
  std::vector<int> qd = rates(q.velocity.angular_radps, 1), qdd = rates(q.acceleration.angular_radpss, 2);
  for (int x : rates(q.velocity.linear_mps, 1, true)) qd.push_back(x);
  for (int x : rates(q.acceleration.linear_mpss, 2, true)) qdd.push_back(x);
  const auto &j = s.ref_from_body_two_jet();
  bool same = qd == d && qdd == dd && tans(j.d_ref_from_frame(), 1) == d && tans(j.d2_ref_from_frame(), 2) == dd;
  return vt::Obj().kv("k", "rbs").kv("g", proj(s.ref_from_body())).kv("d", d).kv("dd", dd).kv("same", same).j();
}

// ---------------------------------------------------------------------------------------------- values
struct Val {
  int k = -1;
  SO3 so3; SE3 se3; FV vec; JL<SO3> jl3; JR<SO3> jr3; JL<SE3> jl6; JR<SE3> jr6; RBS rbs;
  bool exact = true;
  vt::J show() const {
    switch (k) {
      case 0: return proj(so3);
      case 1: return proj(se3);
      case 2: return proj(vec);
      case 3: return proj(jl3);
      case 4: return proj(jr3);
      case 5: return proj(jl6);
      case 6: return proj(jr6);
      default: return proj(rbs);
    }
  }
};
static Val val(const SO3 &g) { Val v; v.k = 0; v.so3 = g; return v; }
static Val val(const SE3 &g) { Val v; v.k = 1; v.se3 = g; return v; }
static Val val(const FV &g) { Val v; v.k = 2; v.vec = g; return v; }
static Val val(const JL<SO3> &g) { Val v; v.k = 3; v.jl3 = g; return v; }
static Val val(const JR<SO3> &g) { Val v; v.k = 4; v.jr3 = g; return v; }
static Val val(const JL<SE3> &g) { Val v; v.k = 5; v.jl6 = g; return v; }
static Val val(const JR<SE3> &g) { Val v; v.k = 6; v.jr6 = g; return v; }
static Val val(const RBS &g) { Val v; v.k = 7; v.rbs = g; return v; }

static Eigen::Matrix3d lattice_rotation(int n) {
  // 24 rotations: permutation p (6) x signs (4 with determinant 1)
  static const int P[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  n = ((n % 24) + 24) % 24;
  for (int s = 0, c = 0;; ++s) {
    Eigen::Matrix3d m = Eigen::Matrix3d::Zero();
    for (int i = 0; i < 3; ++i) m(i, P[n / 4][i]) = (s >> i & 1) ? -1 : 1;
    if (m.determinant() > 0 && c++ == n % 4) return m;
  }
}

static std::vector<Val> regs;
static int guard_limit;

struct Stop {};

// run f, log its result; on success store it in a new register (or over register dst)
template <class Fn>
static void op(const char *name, int a, int b, const std::vector<int> &x, Fn f, int dst = -1) {
  std::optional<Val> r;
  bool err = false;
  try {
    r = f();
  } catch (const std::exception &) {
    err = true;
  }
  maxabs = 0;
  exact = true;
  vt::J j{"{}"};
  if (!err) {
    j = r->show();
    if (maxabs > guard_limit && maxabs <= 90000) throw Stop{};  // too large for exact checking: not recorded
    r->exact = exact;
  }
  vt::Ev("Op").kv("op", name).kv("a", a + 1).kv("b", b + 1).kv("x", x).kv("err", err).kv("res", j);
  if (err) return;
  if (dst < 0) regs.push_back(*r);
  else regs[dst] = *r;
}
// an operation that mutates register a in place; what the register holds afterwards is logged in any case
template <class Fn>
static void mut(const char *name, int a, int b, const std::vector<int> &x, Fn f) {
  bool err = false;
  try {
    f(regs[a]);
  } catch (const std::exception &) {
    err = true;
  }
  maxabs = 0;
  exact = true;
  vt::J j = regs[a].show();
  regs[a].exact = exact;
  vt::Ev("Mut").kv("op", name).kv("a", a + 1).kv("b", b + 1).kv("x", x).kv("err", err).kv("res", j);
}
template <class Fn>
static void ask(const char *name, int a, int b, const std::vector<int> &x, Fn f) {
  std::vector<int> r;
  bool err = false;
  maxabs = 0;
  try {
    r = f();
  } catch (const std::exception &) {
    err = true;
  }
  if (maxabs > 90000 && !err) {}
  vt::Ev("Ask").kv("op", name).kv("a", a + 1).kv("b", b + 1).kv("x", x).kv("err", err).kv("r", r);
}

static V3 v3(const std::vector<int> &x, int o = 0) { return V3(x.at(o), x.at(o + 1), x.at(o + 2)); }
static V3 len3(const std::vector<int> &x, int o = 0) { return v3(x, o) * L; }
static V3 rate3(const std::vector<int> &x, int o, int p, bool linear = false) { return v3(x, o) * (std::pow(S, p) * (linear ? L : 1.)); }
template <class G>
static typename G::TangentVector tan(const std::vector<int> &x, int o, int p) {
  typename G::TangentVector t;
  for (int i = 0; i < (int)G::DOF; ++i) t(i) = x.at(o + i) * std::pow(S, p) * (i >= 3 ? L : 1.);
  return t;
}

template <class J>
static void jet_mut(const std::string &o, int a, int b, const std::vector<int> &x);

static bool is_group(int a) { return regs[a].k <= 1; }

// one instruction; false if it does not apply to the operands
static bool exec(const std::string &o, int a, int b, const std::vector<int> &x) {
  int n = regs.size();
  auto ok = [&](int r) { return r >= 0 && r < n; };
  auto kind = [&](int r) { return ok(r) ? regs[r].k : -1; };
  auto fr = [&](int i) { return frame_of(x.at(i)); };
  int ka = kind(a), kb = kind(b);
  auto gop = [&](auto f) {  // unary on a group
    if (ka == 0) op(o.c_str(), a, b, x, [&] { return val(f(regs[a].so3)); });
    else if (ka == 1) op(o.c_str(), a, b, x, [&] { return val(f(regs[a].se3)); });
    else return false;
    return true;
  };
  // ---- constructions: x = rotation, (translation), into, from, with frames?
  if (o == "so3") {  // rotation way framed into from
    Eigen::Matrix3d m = lattice_rotation(x.at(0));
    std::vector<int> y{ints(m)};
    y.push_back(x.at(2)); y.push_back(x.at(3)); y.push_back(x.at(4));
    bool fd = x.at(2);
    F3 i = fr(3), f = fr(4);
    Eigen::AngleAxisd aa(m);
    Eigen::Quaterniond q(m);
    SO3::TangentVector t = aa.axis() * aa.angle();
    op("so3", -1, -1, y, [&]() -> Val {
      switch (x.at(1) % 6) {
        case 0: return val(fd ? SO3(m, i, f) : SO3(m));
        case 1: return val(fd ? SO3(aa, i, f) : SO3(aa));
        case 2: return val(fd ? SO3(aa.angle(), aa.axis(), i, f) : SO3(aa.angle(), aa.axis()));
        case 3: return val(fd ? SO3(q, i, f) : SO3(q));
        case 4: return val(fd ? SO3::exp(t, (const F3 &)i, (const F3 &)f) : SO3::exp(t));
        default: {
          Eigen::Quaterniond nq(-q.w(), -q.x(), -q.y(), -q.z());  // the other cover
          return val(fd ? SO3(nq, i, f) : SO3(nq));
        }
      }
    });
    return true;
  }
  if (o == "so3id") { op("so3id", -1, -1, x, [&] { return val(x.at(0) ? SO3::identity((const F3 &)fr(1), (const F3 &)fr(2)) : SO3::identity()); }); return true; }
  if (o == "se3id") { op("se3id", -1, -1, x, [&] { return val(x.at(0) ? SE3::identity((const F3 &)fr(1), (const F3 &)fr(2)) : SE3::identity()); }); return true; }
  if (o == "se3t") { op("se3t", -1, -1, x, [&] { return val(x.at(3) ? SE3(len3(x), fr(4), fr(5)) : SE3(len3(x))); }); return true; }
  if (o == "se3rt") { if (ka != 0) return false; op("se3rt", a, -1, x, [&] { return val(x.at(3) ? SE3(regs[a].so3, len3(x), fr(4), fr(5)) : SE3(regs[a].so3, len3(x))); }); return true; }
  if (o == "se3r") { if (ka != 0) return false; op("se3r", a, -1, x, [&] { return val(x.at(0) ? SE3(regs[a].so3, fr(1), fr(2)) : SE3(regs[a].so3)); }); return true; }
  if (o == "rot") { if (ka != 1) return false; op("rot", a, -1, x, [&] { return val(regs[a].se3.rotation()); }); return true; }
  if (o == "vec") { op("vec", -1, -1, x, [&] { return val(FV(len3(x), fr(3))); }); return true; }
  if (o == "vecnew") { op("vecnew", -1, -1, x, [&] { return val(FV(len3(x))); }); return true; }
  // ---- groups
  if (o == "mul") {
    if (ka != kb) return false;
    switch (ka) {
      case 0: op("mul", a, b, x, [&] { return val(regs[a].so3 * regs[b].so3); }); return true;
      case 1: op("mul", a, b, x, [&] { return val(regs[a].se3 * regs[b].se3); }); return true;
      case 3: op("mul", a, b, x, [&] { return val(regs[a].jl3 * regs[b].jl3); }); return true;
      case 4: op("mul", a, b, x, [&] { return val(regs[a].jr3 * regs[b].jr3); }); return true;
      case 5: op("mul", a, b, x, [&] { return val(regs[a].jl6 * regs[b].jl6); }); return true;
      case 6: op("mul", a, b, x, [&] { return val(regs[a].jr6 * regs[b].jr6); }); return true;
      case 7: op("mul", a, b, x, [&] { return val(regs[a].rbs * regs[b].rbs); }); return true;
    }
    return false;
  }
  if (o == "invtimes") { if (ka != 7 || kb != 7) return false; op("invtimes", a, b, x, [&] { return val(regs[a].rbs.inverse_times(regs[b].rbs)); }); return true; }
  if (o == "inv") {
    switch (ka) {
      case 0: case 1: return gop([](auto &g) { return g.inverse(); });
      case 3: op("inv", a, b, x, [&] { return val(regs[a].jl3.inverse()); }); return true;
      case 4: op("inv", a, b, x, [&] { return val(regs[a].jr3.inverse()); }); return true;
      case 5: op("inv", a, b, x, [&] { return val(regs[a].jl6.inverse()); }); return true;
      case 6: op("inv", a, b, x, [&] { return val(regs[a].jr6.inverse()); }); return true;
    }
    return false;
  }
  if (o == "interp") return gop([&](auto &g) { return g.interp(x.at(0)); });
  if (o == "interpf") return gop([&](auto &g) { return g.interp(x.at(0), fr(1)); });
  if (o == "explog") {
    if (ka == 0) op("explog", a, b, x, [&] { return val(SO3::exp(regs[a].so3.log(), (const F3 &)regs[a].so3.into(), (const F3 &)regs[a].so3.from())); });
    else if (ka == 1) op("explog", a, b, x, [&] { return val(SE3::exp(regs[a].se3.log(), (const F3 &)regs[a].se3.into(), (const F3 &)regs[a].se3.from())); });
    else return false;
    return true;
  }
  if (o == "requat") { if (ka != 0) return false; op("requat", a, b, x, [&] { return val(SO3(regs[a].so3.quaternion(), regs[a].so3.into(), regs[a].so3.from())); }); return true; }
  if (o == "rotv") {
    if (kb != 2) return false;
    if (ka == 0) op("rotv", a, b, x, [&] { return val(regs[a].so3.rotate(regs[b].vec)); });
    else if (ka == 1) op("rotv", a, b, x, [&] { return val(regs[a].se3.rotate(regs[b].vec)); });
    else return false;
    return true;
  }
  if (o == "addv") { if (ka != 2 || kb != 2) return false; op("addv", a, b, x, [&] { return val(regs[a].vec + regs[b].vec); }); return true; }
  if (o == "scalev") { if (ka != 2) return false; op("scalev", a, b, x, [&] { return val(x.at(1) ? double(x.at(0)) * regs[a].vec : regs[a].vec * double(x.at(0))); }); return true; }
  if (o == "copy") { if (ka < 0) return false; op("copy", a, b, x, [&] { return regs[a]; }); return true; }
  // ---- mutation
  if (o == "assign") {  // a = b, or by way of moving
    if (ka < 0 || ka != kb) return false;
    const bool move = !x.empty() && x[0];
    auto put = [&](auto &to, const auto &from) { if (move) { auto tmp = from; to = std::move(tmp); } else to = from; };
    mut("assign", a, b, x, [&](Val &v) {
      const Val &w = regs[b];
      switch (ka) {
        case 0: put(v.so3, w.so3); break;
        case 1: put(v.se3, w.se3); break;
        case 2: put(v.vec, w.vec); break;
        case 3: put(v.jl3, w.jl3); break;
        case 4: put(v.jr3, w.jr3); break;
        case 5: put(v.jl6, w.jl6); break;
        case 6: put(v.jr6, w.jr6); break;
        default: put(v.rbs, w.rbs); break;
      }
    });
    return true;
  }
  if (o == "setframes") {
    // a frame that the transform already has is handed over as the transform's own
    auto set = [&](auto &g) {
      const F3 into = fr(0), from = fr(1);
      auto own = [&](const F3 &f) -> const F3 & { return f == g.into() ? g.into() : f == g.from() ? g.from() : f; };
      g.set_frames(own(into), own(from));
    };
    if (ka == 0) mut("setframes", a, b, x, [&](Val &v) { set(v.so3); });
    else if (ka == 1) mut("setframes", a, b, x, [&](Val &v) { set(v.se3); });
    else return false;
    return true;
  }
  if (o == "unframe") {
    if (ka == 0) mut("unframe", a, b, x, [&](Val &v) { v.so3.set_unframed(); });
    else if (ka == 1) mut("unframe", a, b, x, [&](Val &v) { v.se3.set_unframed(); });
    else return false;
    return true;
  }
  if (o == "setvframe") { if (ka != 2) return false; mut("setvframe", a, b, x, [&](Val &v) { v.vec.set_frame(fr(0)); }); return true; }
  // ---- questions
  if (o == "verify") {  // verify_into, verify_from, verify_frames, is_framed
    auto q = [&](auto &g) { return std::vector<int>{g.verify_into(fr(0)), g.verify_from(fr(1)), g.verify_frames(fr(0), fr(1)), g.is_framed()}; };
    if (ka == 0) ask("verify", a, b, x, [&] { return q(regs[a].so3); });
    else if (ka == 1) ask("verify", a, b, x, [&] { return q(regs[a].se3); });
    else return false;
    return true;
  }
  if (o == "approx") {
    // relative comparison, part by part: a tangent of SE3 is one part, so its two halves have to be of one scale
    if (ka != kb || !ok(a) || !regs[a].exact || !regs[b].exact || (ka >= 5 && L != 1)) return false;
    switch (ka) {
      case 0: ask("approx", a, b, x, [&] { return std::vector<int>{regs[a].so3.is_approx(regs[b].so3), regs[a].so3.is_approx_transform(regs[b].so3)}; }); return true;
      case 1: ask("approx", a, b, x, [&] { return std::vector<int>{regs[a].se3.is_approx(regs[b].se3), regs[a].se3.is_approx_transform(regs[b].se3)}; }); return true;
      case 2: ask("approx", a, b, x, [&] { return std::vector<int>{regs[a].vec == regs[b].vec, both(regs[a].vec.isApprox(regs[b].vec), regs[a].vec.isApprox(std::as_const(regs[b].vec)))}; }); return true;
      case 3: ask("approx", a, b, x, [&] { return std::vector<int>{regs[a].jl3.is_approx(regs[b].jl3)}; }); return true;
      case 4: ask("approx", a, b, x, [&] { return std::vector<int>{regs[a].jr3.is_approx(regs[b].jr3)}; }); return true;
      case 5: ask("approx", a, b, x, [&] { return std::vector<int>{regs[a].jl6.is_approx(regs[b].jl6)}; }); return true;
      case 6: ask("approx", a, b, x, [&] { return std::vector<int>{regs[a].jr6.is_approx(regs[b].jr6)}; }); return true;
    }
    return false;
  }
  if (o == "near") {  // x = part, far?: against a copy with that part off by 1e-5 of itself, or by the last bit
    if (!ok(a) || !regs[a].exact || (ka >= 5 && L != 1)) return false;
    const double k = x.at(1) ? 1 + 1e-5 : 1 + 0x1p-52;
    const int part = x.at(0);
    auto se3 = [&](const SE3 &g) { SE3 h = g.is_framed() ? SE3(g.rotation(), k * g.translation(), g.into(), g.from()) : SE3(g.rotation(), k * g.translation()); return h; };
    auto jet = [&](auto j) { using Jet = decltype(j); if constexpr (requires { j.frame_from_ref(); }) return part == 1 ? Jet(j.frame_from_ref(), k * j.d_frame_from_ref(), j.d2_frame_from_ref()) : Jet(j.frame_from_ref(), j.d_frame_from_ref(), k * j.d2_frame_from_ref()); else return part == 1 ? Jet(j.ref_from_frame(), k * j.d_ref_from_frame(), j.d2_ref_from_frame()) : Jet(j.ref_from_frame(), j.d_ref_from_frame(), k * j.d2_ref_from_frame()); };
    auto q = [&](const auto &u, const auto &v) { return std::vector<int>{both(u.is_approx(v), v.is_approx(u))}; };
    switch (ka) {
      case 1: if (part != 0) return false; ask("near", a, b, x, [&] { return q(regs[a].se3, se3(regs[a].se3)); }); return true;
      case 2: if (part != 0) return false; ask("near", a, b, x, [&] { FV w = k * regs[a].vec; return std::vector<int>{both(regs[a].vec.isApprox(w), w.isApprox(regs[a].vec))}; }); return true;
      case 3: if (part == 0) return false; ask("near", a, b, x, [&] { return q(regs[a].jl3, jet(regs[a].jl3)); }); return true;
      case 4: if (part == 0) return false; ask("near", a, b, x, [&] { return q(regs[a].jr3, jet(regs[a].jr3)); }); return true;
      case 5:
        if (part == 0) { ask("near", a, b, x, [&] { auto j = regs[a].jl6; j.set_frame_from_ref(se3(j.frame_from_ref())); return q(regs[a].jl6, j); }); return true; }
        ask("near", a, b, x, [&] { return q(regs[a].jl6, jet(regs[a].jl6)); }); return true;
      case 6:
        if (part == 0) { ask("near", a, b, x, [&] { auto j = regs[a].jr6; j.set_ref_from_frame(se3(j.ref_from_frame())); return q(regs[a].jr6, j); }); return true; }
        ask("near", a, b, x, [&] { return q(regs[a].jr6, jet(regs[a].jr6)); }); return true;
    }
    return false;
  }
  if (o == "dist") {  // squared distances
    if (ka != 1 || kb != 1 || L != 1) return false;
    ask("dist", a, b, x, [&] { double d = se3_distance(regs[a].se3, regs[b].se3); return std::vector<int>{d < 0 ? NONINT : toint(d * d)}; });
    ask("invdist", a, b, x, [&] { double d = se3_inverse_distance(regs[a].se3, regs[b].se3); return std::vector<int>{d < 0 ? NONINT : toint(d * d)}; });
    return true;
  }
  if (o == "act") {  // on a point: composition with translation, rotation only
    if (ka == 0) ask("act", a, b, x, [&] { auto r = lens(regs[a].so3 * len3(x)); for (int y : lens(regs[a].so3.rotate(len3(x)))) r.push_back(y); return r; });
    else if (ka == 1) ask("act", a, b, x, [&] { auto r = lens(regs[a].se3 * len3(x)); for (int y : lens(regs[a].se3.rotate(len3(x)))) r.push_back(y); return r; });
    else return false;
    return true;
  }
  if (o == "adj") {  // Ad x three times over: matrix and direct
    if (ka == 0) ask("adj", a, b, x, [&] { auto t = tan<SO3>(x, 0, 1); auto r = maps(regs[a].so3.adjoint(), 0); for (int y : tans(regs[a].so3.adjoint_times(t), 1)) r.push_back(y); return r; });
    else if (ka == 1) ask("adj", a, b, x, [&] { auto t = tan<SE3>(x, 0, 1); auto r = maps(regs[a].se3.adjoint(), 0); for (int y : tans(regs[a].se3.adjoint_times(t), 1)) r.push_back(y); return r; });
    else return false;
    return true;
  }
  if (o == "lie3") { ask("lie3", -1, -1, x, [&] { auto r = maps(SO3::adjoint(tan<SO3>(x, 0, 1)), 1); for (int y : tans(SO3::adjoint_times(tan<SO3>(x, 0, 1), tan<SO3>(x, 3, 1)), 2)) r.push_back(y); return r; }); return true; }
  if (o == "lie6") { ask("lie6", -1, -1, x, [&] { auto r = maps(SE3::adjoint(tan<SE3>(x, 0, 1)), 1); for (int y : tans(SE3::adjoint_times(tan<SE3>(x, 0, 1), tan<SE3>(x, 6, 1)), 2)) r.push_back(y); return r; }); return true; }
  if (o == "tparts") {
    ask("tparts", -1, -1, x, [&] {
      SE3::TangentVector t = SE3::tangent_vector_from_parts(v3(x), v3(x, 3));
      const SE3::TangentVector ct = t;
      auto r = ints(t);
      for (int y : ints(SE3::tangent_vector_rotation_part(ct))) r.push_back(y);
      for (int y : ints(SE3::tangent_vector_translation_part(ct))) r.push_back(y);
      SE3::tangent_vector_rotation_part(t) = v3(x, 3);
      for (int y : ints(t)) r.push_back(y);
      t = ct;
      SE3::tangent_vector_translation_part(t) = v3(x);
      for (int y : ints(t)) r.push_back(y);
      return r;
    });
    return true;
  }
  // ---- jets
  if (o == "jl" || o == "jr") {
    bool l = o == "jl";
    if (ka == 0) op(o.c_str(), a, b, x, [&] { return l ? val(JL<SO3>(regs[a].so3, tan<SO3>(x, 0, 1), tan<SO3>(x, 6, 2))) : val(JR<SO3>(regs[a].so3, tan<SO3>(x, 0, 1), tan<SO3>(x, 6, 2))); });
    else if (ka == 1) op(o.c_str(), a, b, x, [&] { return l ? val(JL<SE3>(regs[a].se3, tan<SE3>(x, 0, 1), tan<SE3>(x, 6, 2))) : val(JR<SE3>(regs[a].se3, tan<SE3>(x, 0, 1), tan<SE3>(x, 6, 2))); });
    else return false;
    return true;
  }
  if (o == "jid") {  // kind framed into from
    op("jid", -1, -1, x, [&]() -> Val {
      const F3 i = fr(2), f = fr(3);
      bool fd = x.at(1);
      switch (x.at(0)) {
        case 3: return val(fd ? JL<SO3>::identity(i, f) : JL<SO3>());
        case 4: return val(fd ? JR<SO3>::identity(i, f) : JR<SO3>());
        case 5: return val(fd ? JL<SE3>::identity(i, f) : JL<SE3>());
        case 6: return val(fd ? JR<SE3>::identity(i, f) : JR<SE3>());
        default: return val(fd ? RBS::identity(i, f) : RBS::identity());
      }
    });
    return true;
  }
  if (o == "flip") {
    switch (ka) {
      case 3: op("flip", a, b, x, [&] { return val(regs[a].jl3.right_two_jet()); }); return true;
      case 4: op("flip", a, b, x, [&] { return val(regs[a].jr3.left_two_jet()); }); return true;
      case 5: op("flip", a, b, x, [&] { return val(regs[a].jl6.right_two_jet()); }); return true;
      case 6: op("flip", a, b, x, [&] { return val(regs[a].jr6.left_two_jet()); }); return true;
    }
    return false;
  }
  if (o == "jpose") {
    switch (ka) {
      case 3: op("jpose", a, b, x, [&] { return val(regs[a].jl3.frame_from_ref()); }); return true;
      case 4: op("jpose", a, b, x, [&] { return val(regs[a].jr3.ref_from_frame()); }); return true;
      case 5: op("jpose", a, b, x, [&] { return val(regs[a].jl6.frame_from_ref()); }); return true;
      case 6: op("jpose", a, b, x, [&] { return val(regs[a].jr6.ref_from_frame()); }); return true;
      case 7: op("jpose", a, b, x, [&] { return val(regs[a].rbs.ref_from_body()); }); return true;
    }
    return false;
  }
  if (o == "jsetg") {
    if (ka == 3 && kb == 0) mut("jsetg", a, b, x, [&](Val &v) { v.jl3.set_frame_from_ref(regs[b].so3); });
    else if (ka == 4 && kb == 0) mut("jsetg", a, b, x, [&](Val &v) { v.jr3.set_ref_from_frame(regs[b].so3); });
    else if (ka == 5 && kb == 1) mut("jsetg", a, b, x, [&](Val &v) { v.jl6.set_frame_from_ref(regs[b].se3); });
    else if (ka == 6 && kb == 1) mut("jsetg", a, b, x, [&](Val &v) { v.jr6.set_ref_from_frame(regs[b].se3); });
    else if (ka == 7 && kb == 1) mut("jsetg", a, b, x, [&](Val &v) { v.rbs.set_ref_from_body(regs[b].se3); });
    else return false;
    return true;
  }
  if (o == "jsetd" || o == "jsetdd") {
    bool d = o == "jsetd";
    switch (ka) {
      case 3: mut(o.c_str(), a, b, x, [&](Val &v) { d ? v.jl3.set_d_frame_from_ref(tan<SO3>(x, 0, 1)) : v.jl3.set_d2_frame_from_ref(tan<SO3>(x, 0, 2)); }); return true;
      case 4: mut(o.c_str(), a, b, x, [&](Val &v) { d ? v.jr3.set_d_ref_from_frame(tan<SO3>(x, 0, 1)) : v.jr3.set_d2_ref_from_frame(tan<SO3>(x, 0, 2)); }); return true;
      case 5: mut(o.c_str(), a, b, x, [&](Val &v) { d ? v.jl6.set_d_frame_from_ref(tan<SE3>(x, 0, 1)) : v.jl6.set_d2_frame_from_ref(tan<SE3>(x, 0, 2)); }); return true;
      case 6: mut(o.c_str(), a, b, x, [&](Val &v) { d ? v.jr6.set_d_ref_from_frame(tan<SE3>(x, 0, 1)) : v.jr6.set_d2_ref_from_frame(tan<SE3>(x, 0, 2)); }); return true;
    }
    return false;
  }
  if (o == "rbs") {  // x = angular vel, linear vel, angular acc, linear acc
    if (ka != 1) return false;
    op("rbs", a, b, x, [&] {
      RBS::StateDerivatives s;
      s.velocity.angular_radps = rate3(x, 0, 1);
      s.velocity.linear_mps = rate3(x, 3, 1, true);
      s.acceleration.angular_radpss = rate3(x, 6, 2);
      s.acceleration.linear_mpss = rate3(x, 9, 2, true);
      return val(RBS(regs[a].se3, s));
    });
    return true;
  }
  if (o == "rbspose") { if (ka != 1) return false; op("rbspose", a, b, x, [&] { return val(RBS(regs[a].se3)); }); return true; }
  if (o == "rbsjet") { if (ka != 6) return false; op("rbsjet", a, b, x, [&] { return val(RBS(regs[a].jr6)); }); return true; }
  if (o == "jetrbs") { if (ka != 7) return false; op("jetrbs", a, b, x, [&] { return val(regs[a].rbs.ref_from_body_two_jet()); }); return true; }
  if (o == "setlv") { if (ka != 7) return false; mut("setlv", a, b, x, [&](Val &v) { v.rbs.set_body_linear_velocity_mps(rate3(x, 0, 1, true)); }); return true; }
  if (o == "setav") { if (ka != 7) return false; mut("setav", a, b, x, [&](Val &v) { v.rbs.set_body_angular_velocity_radps(rate3(x, 0, 1)); }); return true; }
  if (o == "setla") { if (ka != 7) return false; mut("setla", a, b, x, [&](Val &v) { v.rbs.set_body_linear_acceleration_mpss(rate3(x, 0, 2, true)); }); return true; }
  if (o == "setaa") { if (ka != 7) return false; mut("setaa", a, b, x, [&](Val &v) { v.rbs.set_body_angular_acceleration_radpss(rate3(x, 0, 2)); }); return true; }
  // ---- frames
  if (o == "newframe") {
    F3 f = F3::new_frame();
    std::vector<int> r{f.is_null(), f == F3{}, f != F3{}, f == f, f != f};
    for (auto &g : frames) r.push_back(f == g.second), r.push_back(f != g.second);
    int before = frames.size();
    int no = frame_no(f);
    F3 back{f.id()};
    vt::Ev("NewFrame").kv("before", before).kv("no", no).kv("r", r).kv("back", back == f && back.id() == f.id());
    return true;
  }
  fprintf(stderr, "unknown op %s\n", o.c_str());
  exit(97);
}

static void begin(int nframes, double l = 1, double t = 1) {
  L = l;
  S = t;
  regs.clear();
  frames.clear();
  vt::Ev("Begin").kv("x", 0);
  for (int i = 0; i < nframes; ++i) exec("newframe", -1, -1, {});
}

struct Gen {
  std::mt19937_64 g;
  int u(int n) { return g() % n; }
  std::vector<int> sm(int n, int m) { std::vector<int> v; if (g() % 10 == 0) return std::vector<int>(n, 0); for (int i = 0; i < n; ++i) v.push_back(u(4) ? u(2 * m + 1) - m : 0); return v; }
};

int main(int argc, char **argv) {
  if (argc != 6) return 97;
  std::string mode = argv[1];
  Gen G;
  G.g.seed(strtoull(argv[2], nullptr, 10));
  int np = atoi(argv[3]);
  vt::open(argv[5]);
  guard_limit = BOUND;
  std::ifstream in(argv[4]);
  std::string line;
  while (std::getline(in, line)) {
    begin(3);
    std::istringstream is(line);
    std::string ins;
    try {
      while (std::getline(is, ins, ';')) {
        std::istringstream q(ins);
        std::string o;
        int a, b, y;
        q >> o >> a >> b;
        std::vector<int> x;
        while (q >> y) x.push_back(y);
        exec(o, a - 1, b - 1, x);
      }
    } catch (const Stop &) {
    }
  }
  const std::vector<const char *> FR = {"so3", "so3id", "se3id", "se3t", "se3rt", "se3r", "rot", "vec", "vecnew", "mul", "mul", "mul", "inv", "interp", "interpf", "interpf", "rotv", "rotv", "addv", "scalev", "copy", "setframes", "setframes", "unframe", "assign", "assign", "setvframe", "verify", "verify", "approx", "approx", "dist", "dist", "jl", "jr", "jid", "flip", "jpose", "jsetg", "rbs", "rbspose", "rbsjet", "jetrbs", "invtimes", "newframe", "explog"};
  const std::vector<const char *> WO = {"so3", "se3t", "se3rt", "se3r", "mul", "mul", "mul", "mul", "inv", "inv", "interp", "explog", "requat", "act", "adj", "lie3", "lie6", "tparts", "rot", "assign", "approx", "dist", "so3id", "se3id"};
  const std::vector<const char *> JE = {"jl", "jr", "jl", "jr", "jid", "flip", "flip", "jpose", "jsetg", "jsetd", "jsetdd", "mul", "mul", "mul", "mul", "inv", "inv", "rbs", "rbs", "rbspose", "rbsjet", "jetrbs", "setlv", "setav", "setla", "setaa", "invtimes", "invtimes", "assign", "assign", "approx", "copy", "se3rt", "so3", "se3t"};
  const auto &OPS = mode == "frames" ? FR : mode == "words" ? WO : JE;
  for (int p = 0; p < np; ++p) {
    const double unit = p % 3 ? 1 : std::ldexp(1., G.u(81) - 50), rate = p % 3 || p % 2 ? 1 : std::ldexp(1., G.u(61) - 40);
    begin(mode == "frames" ? 1 + G.u(4) : G.u(2), unit, rate);
    int nf = frames.size();
    auto fr = [&](bool nz = false) { return nf == 0 ? 0 : (nz || G.u(6)) ? 1 + G.u(nf) : 0; };
    bool framed_prog = nf > 0 && (mode == "frames" || G.u(2));
    auto fx = [&](std::vector<int> v) { bool f = framed_prog && G.u(mode == "frames" ? 3 : 2); v.push_back(f); bool both = mode != "frames"; v.push_back(fr(both)); v.push_back(fr(both)); return v; };
    int len = 6 + G.u(14);
    int T = mode == "jets" ? 3 : 5;
    try {
      exec("so3", -1, -1, fx({G.u(24), G.u(6)}));
      exec("so3", -1, -1, fx({G.u(24), mode == "words" ? G.u(6) : 0}));
      exec("se3rt", 0, -1, fx(G.sm(3, T)));
      exec("se3rt", regs.size() > 1 ? 1 : 0, -1, fx(G.sm(3, T)));
      for (int i = 0; i < len; ++i) {
        if (G.u(7) == 0 && !regs.empty()) {  // a copy that differs in at most one part, compared
          int a = G.u(regs.size());
          if (!exec("copy", a, -1, {})) continue;
          int c = regs.size() - 1;
          nf = frames.size();
          switch (G.u(5)) {
            case 0: exec("setframes", c, -1, {fr(), fr()}); exec("setvframe", c, -1, {fr()}); break;
            case 1: exec("unframe", c, -1, {}); break;
            case 2: exec("jsetd", c, -1, G.sm(6, 2)); break;
            case 3: exec("jsetdd", c, -1, G.sm(6, 2)); break;
            default: break;
          }
          exec("approx", a, c, {});
          exec("approx", c, a, {});
          exec("near", a, -1, {G.u(3), G.u(2)});
          continue;
        }
        if (mode == "frames" && G.u(12) == 0) {  // a neutral element in some frame meets a value
          nf = frames.size();
          int c = regs.size(), k = G.u(3);
          if (k == 0) exec("vec", -1, -1, {0, 0, 0, fr()});
          else if (k == 1) exec("se3id", -1, -1, {1, fr(), fr()});
          else exec("so3id", -1, -1, {1, fr(), fr()});
          if ((int)regs.size() > c)
            for (int r = 0; r < c; ++r) {
              if (regs[r].k != regs[c].k && !(regs[c].k == 2 && regs[r].k < 2)) continue;
              if (G.u(2)) continue;
              if (regs[c].k == 2) { exec("addv", r, c, {}); exec("addv", c, r, {}); exec("rotv", r, c, {}); }
              else { exec("mul", r, c, {}); exec("mul", c, r, {}); exec("dist", r, c, {}); }
            }
          continue;
        }
        std::string o = OPS[G.u(OPS.size())];
        nf = frames.size();
        std::vector<int> x;
        if (o == "so3") x = fx({G.u(24), G.u(6)});
        else if (o == "so3id" || o == "se3id" || o == "se3r") x = fx({});
        else if (o == "se3t" || o == "se3rt") x = fx(G.sm(3, T));
        else if (o == "vec") { x = G.sm(3, T); x.push_back(fr()); }
        else if (o == "vecnew") x = G.sm(3, T);
        else if (o == "interp") x = {G.u(5) - 2};
        else if (o == "interpf") x = {G.u(5) - 2, fr()};
        else if (o == "scalev") x = {G.u(7) - 3, G.u(2)};
        else if (o == "setframes" || o == "verify") x = {fr(), fr()};
        else if (o == "setvframe") x = {fr()};
        else if (o == "assign") x = {G.u(2)};
        else if (o == "act") x = G.sm(3, 20);
        else if (o == "adj") x = G.sm(6, 9);
        else if (o == "lie3" || o == "tparts") x = G.sm(6, 20);
        else if (o == "lie6") x = G.sm(12, 20);
        else if (o == "jl" || o == "jr") x = G.sm(12, T);
        else if (o == "jid") { auto y = fx({}); x = {3 + G.u(5), y[0], y[1], y[2]}; }
        else if (o == "jsetd" || o == "jsetdd") x = G.sm(6, T);
        else if (o == "rbs") x = G.sm(12, T);
        else if (o[0] == 's' && o[1] == 'e' && o[2] == 't') x = G.sm(3, T);
        // operands: retry until the instruction applies
        for (int tries = 0; tries < 12; ++tries)
          if (exec(o, regs.empty() ? -1 : G.u(regs.size()), regs.empty() ? -1 : G.u(regs.size()), x)) break;
      }
    } catch (const Stop &) {
    }
  }
  return vt::done();
}
