// C04, C16: packing and unpacking.   codec MODE SEED NRANDOM SCRIPT OUT     MODE: data | view
#include <cmath>
#include <cstring>
#include <fstream>
#include <limits>
#include <optional>
#include <sstream>

#include "resim/actor/state/proto/trajectory.pb.h"
#include "resim/actor/state/proto/trajectory_to_proto.hh"
#include "resim/actor/state/trajectory.hh"
#include "resim/curves/d_curve.hh"
#include "resim/curves/proto/d_curve.pb.h"
#include "resim/curves/proto/d_curve_se3_to_proto.hh"
#include "resim/curves/proto/t_curve.pb.h"
#include "resim/curves/proto/t_curve_se3_to_proto.hh"
#include "resim/curves/proto/t_curve_so3_to_proto.hh"
#include "resim/curves/proto/two_jet.pb.h"
#include "resim/curves/proto/two_jetl_se3_to_proto.hh"
#include "resim/curves/proto/two_jetl_so3_to_proto.hh"
#include "resim/curves/proto/two_jetr_se3_to_proto.hh"
#include "resim/curves/proto/two_jetr_so3_to_proto.hh"
#include "resim/curves/t_curve.hh"
#include "resim/curves/two_jet.hh"
#if __has_include("resim/curves/proto/d_curve_to_proto.hh")
#include "resim/curves/proto/d_curve_to_proto.hh"
#endif
#if __has_include("resim/curves/proto/t_curve_to_proto.hh")
#include "resim/curves/proto/t_curve_to_proto.hh"
#endif
#if __has_include("resim/curves/proto/two_jet_to_proto.hh")
#include "resim/curves/proto/two_jet_to_proto.hh"
#endif
#if __has_include("resim/transforms/proto/liegroup_to_proto.hh")
#include "resim/transforms/proto/liegroup_to_proto.hh"
#endif
#include "resim/math/proto/matrix_to_proto.hh"
#include "resim/transforms/frame.hh"
#include "resim/transforms/framed_vector.hh"
#include "resim/transforms/proto/frame_3.pb.h"
#include "resim/transforms/proto/frame_3_to_proto.hh"
#include "resim/transforms/proto/framed_vector_3.pb.h"
#include "resim/transforms/proto/framed_vector_3_to_proto.hh"
#include "resim/transforms/proto/se3.pb.h"
#include "resim/transforms/proto/se3_to_proto.hh"
#include "resim/transforms/proto/so3.pb.h"
#include "resim/transforms/proto/so3_to_proto.hh"
#include "resim/transforms/se3.hh"
#include "resim/transforms/so3.hh"
#include "resim/utils/proto/uuid.pb.h"
#include "resim/utils/proto/uuid_to_proto.hh"
#include "resim/utils/uuid.hh"
#ifdef VT_VIEW
#include "resim/visualization/proto/view_primitive.pb.h"
#include "resim/visualization/proto/view_primitive_to_proto.hh"
#include "resim/visualization/proto/view_update.pb.h"
#include "resim/visualization/proto/view_update_to_proto.hh"
#include "resim/visualization/view_primitive.hh"
#include "resim/visualization/view_update.hh"
#endif
#include "trace.hh"

using namespace resim;
using transforms::SE3;
using transforms::SO3;
using F3 = transforms::Frame<3>;
using FV = transforms::FramedVector<3>;
using M3 = Eigen::Matrix3d;
using V3 = Eigen::Vector3d;
using Traj = actor::state::Trajectory;
namespace tp = transforms::proto;
namespace cp = curves::proto;
namespace ap = actor::state::proto;
static std::mt19937_64 rng;
static int rnd(int n) { return (int)(rng() % n); }
template <class F> static bool refused(F &&f) { try { f(); return false; } catch (...) { return true; } }
static std::vector<M3> rots;
static std::vector<F3> frames;
static void setup() {
  int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  for (auto &p : perm)
    for (int s = 0; s < 8; ++s) {
      M3 R = M3::Zero();
      for (int i = 0; i < 3; ++i) R(i, p[i]) = (s >> i & 1) ? -1 : 1;
      if (R.determinant() > 0) rots.push_back(R);
    }
  for (int i = 0; i < 4; ++i) frames.push_back(F3::new_frame());
}
static double rdouble() {  // any finite double, bit-exact
  switch (rnd(8)) {
    case 0: return 0;
    case 1: return -0.0;
    case 2: return rnd(11) - 5;
    case 3: return (rnd(2001) - 1000) / 7.0;
    case 4: return std::numeric_limits<double>::denorm_min();
    case 5: return -1e300;
    case 6: return 1 + std::numeric_limits<double>::epsilon();
    default: { uint64_t b; double d; do { b = rng(); memcpy(&d, &b, 8); } while (!std::isfinite(d)); return d; }
  }
}
static double any() {  // and those that are not finite
  const double odd[] = {std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::nan("")};
  return rnd(8) ? rdouble() : odd[rnd(3)];
}
static double mild() { return rnd(3) ? rnd(11) - 5 : (rnd(2001) - 1000) / 64.0 + 1 / 3.0; }
static std::string hex(double d) { char b[64]; snprintf(b, sizeof b, "%a", d); return b; }
template <class M> static vt::J exact(const M &m) {
  std::vector<std::string> v;
  for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) v.push_back(hex(m(i, j)));
  std::vector<vt::J> js;
  for (auto &s : v) js.push_back(vt::js(s));
  return vt::js(js);
}
static std::string uid(const UUID &u) { std::string s; char b[4]; for (auto c : u.id()) { snprintf(b, sizeof b, "%02x", c); s += b; } return s; }
static UUID ruuid() {
  if (rnd(6) == 0) return UUID();
  std::array<unsigned char, 16> a;
  for (auto &c : a) c = rng();
  return UUID(a);
}
struct Fr { bool on; F3 i, f; };
static Fr rframes() { Fr r; r.on = rnd(3); r.i = frames[rnd(4)]; r.f = frames[rnd(4)]; return r; }
// poses are identified by the registered value they equal (within a relative 1e-6); values of one episode are well apart
template <class G> struct Registry { static inline std::vector<G> all; };
static double mild();
static double dist(const SO3 &a, const SO3 &b) {
  double turn = (b.rotation_matrix() - M3::Identity()).norm();
  return (a.rotation_matrix() - b.rotation_matrix()).norm() / (std::min(1.0, turn) + 1e-6);
}
static double dist(const SE3 &a, const SE3 &b) {
  double n = b.translation().norm(), d = (a.translation() - b.translation()).norm();
  return dist(a.rotation(), b.rotation()) + (n > 0 ? d / n : d * 1e6);
}
template <class G> static int which(const G &g) {
  auto &all = Registry<G>::all;
  for (int i = (int)all.size() - 1; i >= 0; --i) if (dist(g, all[i]) < 1e-6) return i;
  return -1;
}
static SO3 gso3() {
  V3 ax(mild(), mild(), mild());
  if (ax.norm() < 1e-3 || rnd(3) == 0) { ax = V3::Zero(); ax(rnd(3)) = rnd(2) ? 1 : -1; }
  ax.normalize();
  double eps[] = {0, 1e-3, 1e-5, 1e-7, 1e-9, 1e-12};
  double e = eps[rnd(6)], u = (rnd(20001) - 10000) / 10000.0;
  double ang[] = {e, M_PI - e, M_PI / 2 + u, M_PI * u, -e, M_PI + e, 2 * M_PI - e};
  return SO3(ang[rnd(7)], ax);
}
template <class G> static G ggroup();
template <> SO3 ggroup<SO3>() { return rnd(3) ? gso3() : SO3(rots[rnd(rots.size())]); }
template <> SE3 ggroup<SE3>() {
  if (rnd(3) == 0) return SE3(SO3(rots[rnd(rots.size())]), V3(rnd(11) - 5, rnd(11) - 5, rnd(11) - 5));
  double sc[] = {0, 1e-6, 1, 1, 1e3, 1e7};
  return SE3(gso3(), sc[rnd(6)] * V3(mild(), mild(), mild()));
}
template <class G> static G reg() {
  auto &all = Registry<G>::all;
  G g = ggroup<G>();
  for (auto &o : all) if (dist(g, o) < 1e-4 || dist(o, g) < 1e-4) return o;
  all.push_back(g);
  return g;
}
static SO3 rso3(const Fr &w) { SO3 g = reg<SO3>(); return w.on ? SO3(g.rotation_matrix(), w.i, w.f) : g; }
static SE3 rse3(const Fr &w) { SE3 g = reg<SE3>(); return w.on ? SE3(g.rotation(), g.translation(), w.i, w.f) : g; }
template <class G> static G rgroup(const Fr &w);
template <> SO3 rgroup<SO3>(const Fr &w) { return rso3(w); }
template <> SE3 rgroup<SE3>(const Fr &w) { return rse3(w); }
static int bulk = 0;  // if not 0, the next list has this size
static int rsize(int small, int big) { if (bulk) { int n = bulk; bulk = 0; return n; } int r = rnd(60); return r == 0 ? rnd(big) : r < 5 ? rnd(5 * small) : rnd(small); }
template <class G> static typename G::TangentVector rtan() { typename G::TangentVector v; for (int i = 0; i < v.size(); ++i) v(i) = rdouble(); return v; }
template <class G> static typename G::TangentVector mtan() { typename G::TangentVector v; for (int i = 0; i < v.size(); ++i) v(i) = mild(); return v; }

static vt::J proj(const UUID &u) { return vt::js(uid(u)); }
static vt::J proj(const F3 &f) { return vt::js(uid(f.id())); }
static vt::J proj(const FV &v) { return vt::Obj().kv("v", exact(v.vector())).kv("fr", proj(v.frame())).j(); }
static vt::J proj(const SO3 &g) { return vt::Obj().kv("R", which(g)).kv("i", proj(g.into())).kv("f", proj(g.from())).j(); }
static vt::J proj(const SE3 &g) { return vt::Obj().kv("T", which(g)).kv("bare", !g.rotation().is_framed()).kv("i", proj(g.into())).kv("f", proj(g.from())).j(); }
template <class G> static vt::J proj(const curves::TwoJetL<G> &j) { return vt::Obj().kv("g", proj(j.frame_from_ref())).kv("d", exact(j.d_frame_from_ref())).kv("dd", exact(j.d2_frame_from_ref())).j(); }
template <class G> static vt::J proj(const curves::TwoJetR<G> &j) { return vt::Obj().kv("g", proj(j.ref_from_frame())).kv("d", exact(j.d_ref_from_frame())).kv("dd", exact(j.d2_ref_from_frame())).j(); }
static vt::J proj(const curves::DCurve<SE3> &c) { std::vector<vt::J> v; for (auto &p : c.control_pts()) v.push_back(proj(*p.ref_from_control)); return vt::js(v); }
template <class G> static vt::J proj(const curves::TCurve<G> &c) { std::vector<vt::J> v; for (auto &p : c.control_pts()) v.push_back(vt::Obj().kv("t", hex(p.time)).kv("p", proj(p.point)).j()); return vt::js(v); }
static vt::J proj(const Traj &t) { return vt::Obj().kv("pts", proj(t.curve())).kv("start", std::to_string(t.start_time().time_since_epoch().count())).j(); }

// ------------------------------------------------------------------------------ corruptions
static void bad_id(resim::proto::UUID *u) {
  std::string s = "d1b5e24f-8e5b-4a62-9d67-1c3f0d6a2b77";
  switch (rnd(6)) {
    case 0: s = ""; break;
    case 1: s.pop_back(); break;
    case 2: s += "0"; break;
    case 3: s[rnd(8)] = 'g'; break;
    case 4: s[8] = '0'; break;
    default: s = "not an identifier"; break;
  }
  u->set_data(s);
}
static void bad_count(google::protobuf::RepeatedField<double> *f) { if (rnd(2) && f->size()) f->RemoveLast(); else f->Add(1.5); if (rnd(4) == 0) f->Clear(); }
static const char *NULLID = "00000000-0000-0000-0000-000000000000";
static const char *SOMEID = "d1b5e24f-8e5b-4a62-9d67-1c3f0d6a2b77";
template <class M> static bool corrupt_group(M &m) {
  switch (rnd(4)) {
    case 0: bad_count(m.mutable_algebra()); return true;
    case 1: bad_id(rnd(2) ? m.mutable_into()->mutable_id() : m.mutable_from()->mutable_id()); return true;
    case 2: {
      const int which = rnd(3);  // one or both missing
      if (which != 0) m.clear_into();
      if (which != 1) m.clear_from();
      return true;
    }
    default:  // half a pair
      m.mutable_into()->mutable_id()->set_data(rnd(2) ? NULLID : SOMEID);
      m.mutable_from()->mutable_id()->set_data(m.into().id().data() == NULLID ? SOMEID : NULLID);
      return true;
  }
}
static bool corrupt(resim::proto::UUID &m) { bad_id(&m); return true; }
static bool corrupt(tp::Frame_3 &m) { if (rnd(3) == 0) m.clear_id(); else bad_id(m.mutable_id()); return true; }
static bool corrupt(tp::FramedVector_3 &m) { if (rnd(2)) bad_count(m.mutable_algebra()); else corrupt(*m.mutable_frame()); return true; }
static bool corrupt(tp::SO3 &m) { return corrupt_group(m); }
static bool corrupt(tp::SE3 &m) { return corrupt_group(m); }
template <class M> static bool corrupt_jl(M &m) { int r = rnd(4); if (r == 0) bad_count(m.mutable_d_frame_from_ref()); else if (r == 1) bad_count(m.mutable_d2_frame_from_ref()); else if (r == 2) corrupt(*m.mutable_frame_from_ref()); else m.clear_frame_from_ref(); return true; }
template <class M> static bool corrupt_jr(M &m) { int r = rnd(4); if (r == 0) bad_count(m.mutable_d_ref_from_frame()); else if (r == 1) bad_count(m.mutable_d2_ref_from_frame()); else if (r == 2) corrupt(*m.mutable_ref_from_frame()); else m.clear_ref_from_frame(); return true; }
static bool corrupt(cp::TwoJetL_SE3 &m) { return corrupt_jl(m); }
static bool corrupt(cp::TwoJetL_SO3 &m) { return corrupt_jl(m); }
static bool corrupt(cp::TwoJetR_SE3 &m) { return corrupt_jr(m); }
static bool corrupt(cp::TwoJetR_SO3 &m) { return corrupt_jr(m); }
static bool corrupt(cp::DCurve_SE3 &m) {
  if (m.ref_from_control_size() == 0 || rnd(3) == 0) { m.add_ref_from_control(); return true; }
  return corrupt(*m.mutable_ref_from_control(rnd(m.ref_from_control_size())));
}
template <class M> static bool corrupt_tc(M &m) {
  int n = m.points_size();
  if (n == 0) { m.add_points(); return true; }
  if (n >= 2 && rnd(2)) {  // times not increasing
    int k = 1 + rnd(n - 1);
    m.mutable_points(k)->set_time(m.points(k - 1).time() - (rnd(2) ? 1 : 0));
    return true;
  }
  return corrupt(*m.mutable_points(rnd(n))->mutable_point());
}
static bool corrupt(cp::TCurve_SE3 &m) { return corrupt_tc(m); }
static bool corrupt(cp::TCurve_SO3 &m) { return corrupt_tc(m); }
static bool corrupt(ap::Trajectory &m) { return corrupt(*m.mutable_curve()); }

// ------------------------------------------------------------------------------ types
template <class T_, class M_> struct Plain {
  using T = T_;
  using Msg = M_;
  static void put(const T &v, Msg *m) { pack(v, m); }
  static T get(const Msg &m) { return unpack(m); }
};
// Some types can also be unpacked into a value that already holds something.
template <class M, class T> static bool unpack_over(const M &m, T &v) {
  if constexpr (requires { unpack_liegroup(m, InOut(v)); }) return unpack_liegroup(m, InOut(v)), true;
  else if constexpr (requires { unpack_two_jetl(m, InOut(v)); }) return unpack_two_jetl(m, InOut(v)), true;
  else if constexpr (requires { unpack_two_jetr(m, InOut(v)); }) return unpack_two_jetr(m, InOut(v)), true;
  else if constexpr (requires { unpack_d_curve(m, InOut(v)); }) return unpack_d_curve(m, InOut(v)), true;
  else if constexpr (requires { unpack_t_curve(m, InOut(v)); }) return unpack_t_curve(m, InOut(v)), true;
  else return false;
}
struct CUuid : Plain<UUID, resim::proto::UUID> { static constexpr auto name = "uuid"; static T make() { return ruuid(); } };
struct CFrame : Plain<F3, tp::Frame_3> { static constexpr auto name = "frame"; static T make() { return F3(ruuid()); } };
struct CVec : Plain<FV, tp::FramedVector_3> { static constexpr auto name = "vec"; static T make() { return FV(V3(any(), any(), any()), rnd(3) ? frames[rnd(4)] : F3::null_frame()); } };
struct CSO3 : Plain<SO3, tp::SO3> { static constexpr auto name = "so3"; static T make() { return rso3(rframes()); } };
struct CSE3 : Plain<SE3, tp::SE3> { static constexpr auto name = "se3"; static T make() { return rse3(rframes()); } };
struct CJL6 : Plain<curves::TwoJetL<SE3>, cp::TwoJetL_SE3> { static constexpr auto name = "jl6"; static T make() { return T(rse3(rframes()), rtan<SE3>(), rtan<SE3>()); } };
struct CJL3 : Plain<curves::TwoJetL<SO3>, cp::TwoJetL_SO3> { static constexpr auto name = "jl3"; static T make() { return T(rso3(rframes()), rtan<SO3>(), rtan<SO3>()); } };
struct CJR6 : Plain<curves::TwoJetR<SE3>, cp::TwoJetR_SE3> { static constexpr auto name = "jr6"; static T make() { return T(rse3(rframes()), rtan<SE3>(), rtan<SE3>()); } };
struct CJR3 : Plain<curves::TwoJetR<SO3>, cp::TwoJetR_SO3> { static constexpr auto name = "jr3"; static T make() { return T(rso3(rframes()), rtan<SO3>(), rtan<SO3>()); } };
static curves::DCurve<SE3> rdcurve() { Fr w = rframes(); std::vector<SE3> p; for (int n = rsize(5, 150); n--;) p.push_back(p.empty() || rnd(6) ? rse3(w) : p[rnd(2) ? p.size() - 1 : rnd(p.size())]); return curves::DCurve<SE3>(p); }
template <class G> static curves::TCurve<G> rtcurve(bool zero) {
  Fr w = rframes();
  curves::TCurve<G> c;
  double scales[] = {1, 1, 1e-6, 1e6}, origins[] = {1, 1, 1e9, -1e6};
  double k = scales[rnd(4)], t = zero ? 0 : mild() * origins[rnd(4)];
  for (int n = rsize(5, 150); n--;) {
    if (!c.control_pts().empty() && rnd(6) == 0) c.append({t, curves::TwoJetL<G>(c.control_pts().back().point)});  // standing still
    else c.append({t, curves::TwoJetL<G>(rgroup<G>(w), mtan<G>(), mtan<G>())});
    double dt = (1e-3 + std::fabs(mild())) * k;
    t = t + dt > t ? t + dt : t + std::max(1.0, std::fabs(t) * 1e-9);
  }
  return c;
}
static Traj rtraj() {
  int64_t starts[] = {0, 1, -1, 1690000000123456789, -1690000000123456789, 999999999, 1000000000, -999999999, -1500000000, (int64_t)(rng() % 4000000000000000000) - 2000000000000000000};
  return Traj(rtcurve<SE3>(true), time::Timestamp(time::Duration(starts[rnd(10)])));
}
struct CDC : Plain<curves::DCurve<SE3>, cp::DCurve_SE3> { static constexpr auto name = "dcurve"; static T make() { return rdcurve(); } };
struct CTC6 : Plain<curves::TCurve<SE3>, cp::TCurve_SE3> { static constexpr auto name = "tcurve6"; static T make() { return rtcurve<SE3>(false); } };
struct CTC3 : Plain<curves::TCurve<SO3>, cp::TCurve_SO3> { static constexpr auto name = "tcurve3"; static T make() { return rtcurve<SO3>(false); } };
struct CTraj : Plain<Traj, ap::Trajectory> { static constexpr auto name = "trajectory"; static T make() { return rtraj(); } };
// matrices travel in a repeated field
template <class M> struct Mx {
  using T = M;
  using Msg = tp::FramedVector_3;
  static constexpr int R = M::RowsAtCompileTime == Eigen::Dynamic ? 3 : M::RowsAtCompileTime;
  static constexpr int C = M::ColsAtCompileTime == Eigen::Dynamic ? 2 : M::ColsAtCompileTime;
  static T make() { T m(R, C); for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) m(i, j) = any(); return m; }
  static void put(const T &v, Msg *m) { math::proto::pack_matrix(v, m ? m->mutable_algebra() : nullptr); }
  static T get(const Msg &m) { T v(R, C); v.setConstant(77); math::proto::unpack_matrix(m.algebra(), InOut(v)); return v; }
};
struct CM1 : Mx<M3> { static constexpr auto name = "m33"; };
struct CM2 : Mx<Eigen::Matrix<double, 2, 3>> { static constexpr auto name = "m23"; };
struct CM3 : Mx<Eigen::Matrix<double, 2, 3, Eigen::RowMajor>> { static constexpr auto name = "m23r"; };
template <class M> static M rmat(int r, int c) { M m(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = any(); return m; }
// of any size: the sizes are drawn once per episode
static int xr = 3, xc = 2;
struct CM4 : Mx<Eigen::MatrixXd> { static constexpr auto name = "mxx"; static T make() { return rmat<T>(xr, xc); }
  static T get(const Msg &m) { T v(xr, xc); v.setConstant(77); math::proto::unpack_matrix(m.algebra(), InOut(v)); return v; } };
struct CM7 : Mx<Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>> { static constexpr auto name = "mxxr"; static T make() { return rmat<T>(xr, xc); }
  static T get(const Msg &m) { T v(xr, xc); v.setConstant(77); math::proto::unpack_matrix(m.algebra(), InOut(v)); return v; } };
struct CM8 : Mx<Eigen::Matrix<double, 6, 6>> { static constexpr auto name = "m66"; };
struct CM9 : Mx<Eigen::RowVector4d> { static constexpr auto name = "r4"; };
struct CM5 : Mx<V3> { static constexpr auto name = "v3"; };
struct CM6 : Mx<Eigen::VectorXd> { static constexpr auto name = "vx"; static T make() { return rmat<T>(xr * xc, 1); }
  static T get(const Msg &m) { T v(xr * xc); v.setConstant(77); math::proto::unpack_matrix(m.algebra(), InOut(v)); return v; } };
#ifdef VT_VIEW
namespace vp = visualization::proto;
using VPrim = visualization::ViewPrimitive;
using VUp = visualization::ViewUpdate;
static VPrim rprim() {
  VPrim p;
  p.id = ruuid();
  switch (rnd(7)) {
    case 0: p.payload.emplace<SE3>(rse3(rframes())); break;
    case 1: p.payload.emplace<SO3>(rso3(rframes())); break;
    case 2: p.payload.emplace<curves::DCurve<SE3>>(rdcurve()); break;
    case 3: p.payload.emplace<curves::TCurve<SE3>>(rtcurve<SE3>(false)); break;
    case 4: p.payload.emplace<Traj>(rtraj()); break;
    case 5: p.payload.emplace<F3>(F3(ruuid())); break;
    default: p.payload.emplace<FV>(CVec::make()); break;
  }
  const std::string names[] = {"", "a", "pose of the ego", "caf\xc3\xa9 \xe2\x9c\x93", "a longer name / with: punctuation \"quoted\" and\nnew line", std::string("nul\0inside", 10), std::string(rnd(rnd(4) ? 300 : 6000), 'n') + std::to_string(rnd(1000)), " ", "\t%s%d\x7f"};
  if (rnd(3)) p.user_defined_name = names[rnd(9)];
  const std::string files[] = {"", "x.cc", "/some/where/deep/file name.cc", std::string(rnd(rnd(4) ? 600 : 6000), '/') + "y.hh", "a.cc:12", "..\\w.cc"};
  p.file_name = files[rnd(6)];
  int lines[] = {0, 1, 42, -1, 2147483647, -2147483647, rnd(100000)};
  p.line_number = lines[rnd(7)];
  return p;
}
static vt::J proj(const VPrim &p) {
  vt::J pay = std::visit([](const auto &x) { return proj(x); }, p.payload);
  // an empty name is the same as none
  return vt::Obj().kv("id", proj(p.id)).kv("kind", (int)p.payload.index()).kv("pay", pay).kv("name", p.user_defined_name.has_value() ? *p.user_defined_name : std::string())
      .kv("file", p.file_name).kv("line", p.line_number).j();
}
static vt::J proj(const VUp &u) { std::vector<vt::J> v; for (auto &p : u.primitives) v.push_back(proj(p)); return vt::js(v); }
static bool corrupt(vp::ViewPrimitive &m) {
  switch (rnd(3)) {
    case 0: m.clear_payload(); return true;
    case 1: if (rnd(3) == 0) m.clear_id(); else bad_id(m.mutable_id()); return true;
    default:
      switch (m.payload_case()) {
        case vp::ViewPrimitive::kSe3: return corrupt(*m.mutable_se3());
        case vp::ViewPrimitive::kSo3: return corrupt(*m.mutable_so3());
        case vp::ViewPrimitive::kDCurveSe3: return corrupt(*m.mutable_d_curve_se3());
        case vp::ViewPrimitive::kTCurveSe3: return corrupt(*m.mutable_t_curve_se3());
        case vp::ViewPrimitive::kTrajectory: return corrupt(*m.mutable_trajectory());
        case vp::ViewPrimitive::kFrame: return corrupt(*m.mutable_frame());
        case vp::ViewPrimitive::kFramedVector: return corrupt(*m.mutable_framed_vector());
        default: m.clear_id(); return true;
      }
  }
}
static bool corrupt(vp::ViewUpdate &m) {
  if (m.primitive_size() == 0 || rnd(4) == 0) { m.add_primitive(); return true; }
  return corrupt(*m.mutable_primitive(rnd(m.primitive_size())));
}
struct CPrim : Plain<VPrim, vp::ViewPrimitive> { static constexpr auto name = "primitive"; static T make() { return rprim(); } };
struct CUpdate : Plain<VUp, vp::ViewUpdate> { static constexpr auto name = "update"; static T make() { T u; for (int n = rsize(7, 60); n--;) u.primitives.push_back(u.primitives.empty() || rnd(6) ? rprim() : VPrim(u.primitives[rnd(u.primitives.size())])); return u; } };
#endif

template <class C, class T> static vt::J show(const T &v) { if constexpr (std::is_base_of_v<Eigen::MatrixBase<T>, T> && !std::is_same_v<T, FV>) return exact(v); else return proj(v); }
static bool corrupt_any(tp::FramedVector_3 &m, bool matrix) { if (matrix) { bad_count(m.mutable_algebra()); return true; } return corrupt(m); }
template <class M> static bool corrupt_any(M &m, bool) { return corrupt(m); }

template <class C> static void run(const std::vector<std::string> &ops) {
  using Msg = typename C::Msg;
  constexpr bool matrix = std::is_base_of_v<Eigen::MatrixBase<typename C::T>, typename C::T> && !std::is_same_v<typename C::T, FV>;
  Registry<SO3>::all.clear();
  Registry<SE3>::all.clear();
  xr = 2 + rnd(bulk ? 30 : 7), xc = 1 + rnd(bulk ? 30 : 8);  // not 1 x 1: adding a number to an empty message would make it valid
  Msg slot[3];
  bool bad[3] = {};  // a second corruption could undo the first
  vt::Ev("Begin").kv("type", C::name);
  auto unpack_slot = [&](int s) {
    vt::J v;
    bool over = rnd(2);
    bool err = refused([&] {
      if constexpr (!matrix) if (over) {
        auto used = C::make();
        if (unpack_over(slot[s], used)) { v = show<C>(used); return; }
      }
      v = show<C>(C::get(slot[s]));
    });
    vt::Ev e("Unpack");
    e.kv("s", s).kv("err", err);
    if (!err) e.kv("v", v);
  };
  if (rnd(8) == 0) { unpack_slot(1); }
  for (auto &o : ops) {
    int s = o[1] - '0';
    switch (o[0]) {
      case 'P': {
        bad[s] = false;
        auto v = C::make();
        Msg other;
        bool err = refused([&] { C::put(v, &slot[s]); C::put(v, &other); });
        vt::Ev("Pack").kv("s", s).kv("err", err).kv("fresh", err || slot[s].SerializeAsString() == other.SerializeAsString()).kv("v", show<C>(v));
        unpack_slot(s);
        break;
      }
      case 'N': {
        auto v = C::make();
        vt::Ev("PackNull").kv("err", refused([&] { C::put(v, nullptr); }));
        break;
      }
      case 'W': {
        bad[3 - s] = bad[s];
        std::string bytes;
        bool ok = slot[s].SerializeToString(&bytes);
        Msg in;
        in.CopyFrom(slot[3 - s]);
        ok = ok && slot[3 - s].ParseFromString(bytes);
        vt::Ev("Wire").kv("s", s).kv("err", !ok);
        unpack_slot(3 - s);
        break;
      }
      case 'X':
        if (!bad[s] && corrupt_any(slot[s], matrix)) {
          bad[s] = true;
          vt::Ev("Corrupt").kv("s", s);
          unpack_slot(s);
        }
        break;
    }
  }
  unpack_slot(1);
  unpack_slot(2);
}

int main(int argc, char **argv) {
  if (argc != 6) return 97;
  std::string mode = argv[1];
  rng.seed(atol(argv[2]));
  int nrand = atoi(argv[3]);
  setup();
  vt::open(argv[5]);
  using Run = void (*)(const std::vector<std::string> &);
  std::vector<Run> runs;
#ifdef VT_VIEW
  runs = {run<CPrim>, run<CUpdate>};
#else
  runs = {run<CUuid>, run<CFrame>, run<CVec>, run<CSO3>, run<CSE3>, run<CJL6>, run<CJL3>, run<CJR6>, run<CJR3>, run<CDC>, run<CTC6>, run<CTC3>, run<CTraj>,
          run<CM1>, run<CM2>, run<CM3>, run<CM4>, run<CM5>, run<CM6>, run<CM7>, run<CM8>, run<CM9>};
#endif
  std::ifstream sc(argv[4]);
  std::string line;
  size_t n = 0;
  while (std::getline(sc, line)) {
    std::istringstream is(line);
    std::vector<std::string> ops;
    std::string o;
    while (is >> o) ops.push_back(o);
    runs[n++ % runs.size()](ops);
    runs[rnd(runs.size())](ops);
  }
  const char *all[] = {"P1", "P2", "W1", "W2", "X1", "X2", "N1", "P1", "W1", "P2"};
  for (int i = 0; i < nrand; ++i) {
    std::vector<std::string> ops;
    for (int k = 1 + rnd(12); k--;) ops.push_back(all[rnd(10)]);
    runs[i % runs.size()](ops);
  }
  for (size_t k = 0; k < (runs.size() < 5 ? 10 : 4) * runs.size(); ++k) {
    bulk = k / runs.size() % 4 < 2 ? 130 + rnd(500) : 1050 + rnd(400);
    runs[k % runs.size()]({"P1", "W1"});
    bulk = 0;
  }
  return vt::done();
}
