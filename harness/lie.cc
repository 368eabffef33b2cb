// C11: elements of one-parameter subgroups exp(n h xi) of SO3 and SE3 for every magnitude of the angle, walked by
// composition, inversion, interpolation, exp and log, compared with an extended-precision reference.
//   lie SEED NEPISODES OUT
// n is an integer (in units of 1/16); residuals are logged in units of machine epsilon relative to the magnitude of
// the numbers involved.
#include <cmath>
#include <optional>

#include "resim/transforms/frame.hh"
#include "resim/transforms/se3.hh"
#include "resim/transforms/so3.hh"
#include "trace.hh"

using namespace resim::transforms;
using V3 = Eigen::Vector3d;
typedef long double L;
using L3 = Eigen::Matrix<L, 3, 1>;
using M3 = Eigen::Matrix<L, 3, 3>;
static const L EPS = 2.220446049250313e-16L;
static const L PI_ = 3.14159265358979323846264338327950288L;

static M3 hat(const L3 &w) {
  M3 m;
  m << 0, -w(2), w(1), w(2), 0, -w(0), -w(1), w(0), 0;
  return m;
}
static void coeffs(L th, L &a, L &b, L &c) {  // sin t/t, (1-cos t)/t^2, (t - sin t)/t^3
  if (th < 0.3L) {
    L q = th * th;
    a = 1 - q / 6 * (1 - q / 20 * (1 - q / 42 * (1 - q / 72 * (1 - q / 110 * (1 - q / 156 * (1 - q / 210))))));
    b = 0.5L * (1 - q / 12 * (1 - q / 30 * (1 - q / 56 * (1 - q / 90 * (1 - q / 132 * (1 - q / 182))))));
    c = 1 / 6.0L * (1 - q / 20 * (1 - q / 42 * (1 - q / 72 * (1 - q / 110 * (1 - q / 156 * (1 - q / 210))))));
  } else {
    a = sinl(th) / th;
    L s = sinl(th / 2);
    b = 2 * s * s / (th * th);
    c = (th - sinl(th)) / (th * th * th);
  }
}
struct Ref {
  M3 R;
  L3 t;
};
static Ref ref_exp(const L3 &w, const L3 &v) {
  L th = w.norm(), a, b, c;
  coeffs(th, a, b, c);
  Ref r;
  M3 H = hat(w);
  r.R = M3::Identity() + a * H + b * H * H;
  r.t = v + b * w.cross(v) + c * w.cross(w.cross(v));
  return r;
}
static int units(L x) {
  if (!(x == x)) return 2000000000;
  L u = x / EPS;
  return u > 2e9L ? 2000000000 : (int)ceill(u);
}

struct El {
  long n;      // exp(n/16 * h * xi)
  L mag;       // magnitude of translations that went into it
  L turned;    // and of angles
  int depth;   // roundings
  SO3 r;
  SE3 g;
};

int main(int argc, char **argv) {
  if (argc != 4) return 97;
  std::mt19937_64 g(strtoull(argv[1], nullptr, 10));
  int ne = atoi(argv[2]);
  vt::open(argv[3]);
  auto u = [&](int n) { return (int)(g() % n); };
  const double axes[][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1. / 3, 2. / 3, 2. / 3}, {-2. / 3, 1. / 3, 2. / 3}, {2. / 7, 3. / 7, 6. / 7}, {-6. / 7, 2. / 7, -3. / 7}, {4. / 9, -4. / 9, 7. / 9}, {0.6, 0.8, 0}, {0, -0.8, 0.6}, {-1, 0, 0}, {0, 0, -1}};
  const double hs[] = {1e-60, 1e-20, 1e-12, 1e-9, 3e-8, 1e-7, 1e-6, 1e-5, 1e-4, 5e-4, 1e-3, 1.5e-3, 1.9e-3, 1.999e-3, 2.001e-3, 2.1e-3, 3e-3, 1e-2, 0.05, 0.1, 0.3, 0.5, 1, 1.5, 2, 2.5, 2.9, 2.99, 3.01, 3.1, 3.13, 3.1415, 3.14159265, M_PI, 3.1416, 4, 6.2, 2 * M_PI, 7, 20, 90, 400};
  for (int e = 0; e < ne; ++e) {
    double h = hs[e % (sizeof hs / sizeof *hs)];
    if (e / 40 % 3 == 1) h *= 0.5 + (g() % 1000) / 1000.0;
    const double *ax = axes[u(12)];
    V3 w(ax[0], ax[1], ax[2]);
    w /= w.norm();
    double vs = std::pow(10.0, u(9) - 4);
    V3 v(u(7) - 3, u(7) - 3, u(7) - 3);
    v *= vs;
    if (u(4) == 0) v = w * vs;  // pure screw
    L3 wl = w.cast<L>(), vl = v.cast<L>();
    std::vector<El> reg;
    vt::Ev("Begin").kv("turns", units(0));
    auto refn = [&](long n) { L s = (L)n / 16 * (L)h; return ref_exp(wl * s, vl * s); };
    auto record = [&](const char *op, int a, int b, int p, const El &x) {
      Ref r = refn(x.n);
      L er = (x.r.rotation_matrix().cast<L>() - r.R).cwiseAbs().maxCoeff();
      er = std::max(er, (x.g.rotation().rotation_matrix().cast<L>() - r.R).cwiseAbs().maxCoeff());
      // the angle itself is rounded: n h is known to relative EPS
      L ang = x.turned;
      L et = (x.g.translation().cast<L>() - r.t).cwiseAbs().maxCoeff();
      L ortho = (x.r.rotation_matrix() * x.r.rotation_matrix().transpose() - Eigen::Matrix3d::Identity()).cwiseAbs().maxCoeff();
      L tm = x.mag > 0 ? x.mag : 1;
      vt::Ev("El").kv("op", op).kv("a", a + 1).kv("b", b + 1).kv("p", p).kv("n", (long)x.n).kv("rr", units(er / (1 + ang))).kv("tr", units(et / tm / (1 + ang))).kv("ortho", units(ortho)).kv("depth", x.depth);
      reg.push_back(x);
    };
    const Frame<3> fi = Frame<3>::new_frame(), ff = Frame<3>::new_frame(), fn = Frame<3>::new_frame();
    auto make_exp = [&](long n) {
      double s = n / 16.0 * h;
      if (u(3) == 0) {  // the same element by its angle and axis
        const SO3 r(s, w);
        const Ref ref = refn(n);
        return El{n, fabsl((L)s) * vl.norm(), fabsl((L)s), 1, r, SE3(SO3(Eigen::AngleAxisd(s, w)), V3(ref.t.cast<double>()))};
      }
      SE3::TangentVector t = SE3::tangent_vector_from_parts(w * s, v * s);
      return El{n, fabsl((L)s) * vl.norm(), fabsl((L)s), 1, SO3::exp(SO3::TangentVector(w * s)), SE3::exp(t)};
    };
    record("exp", -1, -1, 0, make_exp(16));
    record("exp", -1, -1, 0, make_exp(-16 * (1 + u(2))));
    record("exp", -1, -1, 0, make_exp(4 * (u(9) - 4)));
    int len = 10 + u(8);
    for (int i = 0; i < len; ++i) {
      int a = u(reg.size()), b = u(reg.size());
      El A = reg[a], B = reg[b];
      L ang = fabsl((L)A.n / 16 * h);
      bool principal = ang < PI_ - 1e-6L;
      if (A.depth > 12 || labs(A.n) > 4000) continue;
      switch (u(9)) {
        case 0: case 1:
          record("mul", a, b, 0, El{A.n + B.n, A.mag + B.mag, A.turned + B.turned, A.depth + B.depth + 1, A.r * B.r, A.g * B.g});
          break;
        case 2: record("inv", a, -1, 0, El{-A.n, A.mag, A.turned, A.depth + 1, A.r.inverse(), A.g.inverse()}); break;
        case 3: {  // interpolation at p/4
          if (!principal) break;
          int p = u(17) - 4;
          if (A.n * p % 4) p *= 4;
          if (ang * std::abs(p) / 4 > 60) break;
          double f = p / 4.0;
          if (u(2)) {  // with a frame of its own
            const SO3 r = SO3(A.r.rotation_matrix(), fi, ff).interp(f, fn);
            const SE3 t = SE3(A.g.rotation(), A.g.translation(), fi, ff).interp(f, fn);
            record("interp", a, -1, p, El{A.n * p / 4, A.mag * std::max<L>(fabsl((L)f), 1), A.turned * std::max<L>(fabsl((L)f), 1), A.depth * (1 + std::abs(p)) + 3, SO3(r.rotation_matrix()), SE3(t.rotation(), t.translation())});
            break;
          }
          record("interp", a, -1, p, El{A.n * p / 4, A.mag * std::max<L>(fabsl((L)f), 1), A.turned * std::max<L>(fabsl((L)f), 1), A.depth * (1 + std::abs(p)) + 3, A.r.interp(f), A.g.interp(f)});
          break;
        }
        case 4: case 5: {
          SO3::TangentVector lr = A.r.log();
          SE3::TangentVector lg = A.g.log();
          bool angle_ok = lr.norm() <= M_PI * (1 + 1e-15) && lg.head<3>().norm() <= M_PI * (1 + 1e-15);
          // back through exp
          SO3 er = SO3::exp(lr);
          SE3 eg = SE3::exp(lg);
          L bk = std::max((er.rotation_matrix() - A.r.rotation_matrix()).cwiseAbs().maxCoeff(), (eg.rotation().rotation_matrix() - A.g.rotation().rotation_matrix()).cwiseAbs().maxCoeff());
          L bt = (eg.translation() - A.g.translation()).cwiseAbs().maxCoeff();
          L tm = A.mag > 0 ? A.mag : 1;
          long m = 0;
          int rel = 0, relt = 0;
          if (principal) {
            // which multiple of h xi is it?
            L d = (lr.cast<L>().dot(wl)) / (L)h * 16;
            m = lroundl(d);
            L3 xr = wl * ((L)A.n / 16 * h), xt = vl * ((L)A.n / 16 * h);
            L sc = std::max(ang, (L)0);
            if (A.n == 0) sc = h;
            rel = units(std::max((lr.cast<L>() - xr).cwiseAbs().maxCoeff(), (lg.head<3>().cast<L>() - xr).cwiseAbs().maxCoeff()) / std::max(sc, (L)1) / (1 + A.turned));
            relt = units((lg.tail<3>().cast<L>() - xt).cwiseAbs().maxCoeff() / tm * (PI_ - ang) / (1 + A.turned));
          }
          vt::Ev("Log").kv("a", a + 1).kv("principal", principal).kv("m", m).kv("angle_ok", angle_ok).kv("rr", rel).kv("tr", relt).kv("bk", units(bk)).kv("bt", units(bt / tm)).kv("depth", A.depth).kv("small", ang < 1e-7L);
          break;
        }
        case 6: {  // conjugation: g exp(x) g^-1 = exp(Ad_g x), bracket as derivative of the adjoint
          SE3::TangentVector x;
          for (int k = 0; k < 6; ++k) x(k) = (u(2001) - 1000) / 1000.0;
          SE3 c = A.g * SE3::exp(x) * A.g.inverse();
          SE3 d = SE3::exp(A.g.adjoint_times(x));
          SE3 d2 = SE3::exp(A.g.adjoint() * x);
          SO3::TangentVector y = x.head<3>();
          SO3 cr = A.r * SO3::exp(y) * A.r.inverse(), dr = SO3::exp(A.r.adjoint_times(y)), dr2 = SO3::exp(A.r.adjoint() * y);
          L er = std::max({(c.rotation().rotation_matrix() - d.rotation().rotation_matrix()).cwiseAbs().maxCoeff(), (c.rotation().rotation_matrix() - d2.rotation().rotation_matrix()).cwiseAbs().maxCoeff(), (cr.rotation_matrix() - dr.rotation_matrix()).cwiseAbs().maxCoeff(), (cr.rotation_matrix() - dr2.rotation_matrix()).cwiseAbs().maxCoeff()});
          L et = std::max((c.translation() - d.translation()).cwiseAbs().maxCoeff(), (c.translation() - d2.translation()).cwiseAbs().maxCoeff());
          vt::Ev("Conj").kv("a", a + 1).kv("rr", units(er)).kv("tr", units(et / (1 + A.mag))).kv("depth", A.depth);
          break;
        }
        case 7: {  // derivative of exp: exp(x + s y) ~ exp(s D y) exp(x)
          if (ang > 20) break;
          L3 x = wl * ((L)A.n / 16 * h);
          SO3::TangentVector xd = x.cast<double>();
          x = xd.cast<L>();
          SO3::TangentMapping D = SO3::exp_diff(xd);
          L a1, b1, c1;
          coeffs(x.norm(), a1, b1, c1);
          M3 H = hat(x);
          M3 ref = M3::Identity() + b1 * H + c1 * H * H;
          L er = (D.cast<L>() - ref).cwiseAbs().maxCoeff();
          // and the reference is the derivative: central difference in extended precision
          L3 y(0.3L, -0.5L, 0.2L);
          L s = 1e-6L;
          M3 num = (ref_exp(x + s * y, L3::Zero()).R - ref_exp(x - s * y, L3::Zero()).R) / (2 * s) * ref_exp(x, L3::Zero()).R.transpose();
          L sanity = (num - hat(ref * y)).cwiseAbs().maxCoeff();
          vt::Ev("Diff").kv("a", a + 1).kv("rr", units(er / (1 + ang))).kv("sane", sanity < 1e-9L);
          break;
        }
        case 8: {  // action agrees with composition, arc length of a pure translation-like motion
          V3 q(u(21) - 10, u(21) - 10, u(21) - 10);
          L er = ((A.g * B.g) * q - A.g * (B.g * q)).cwiseAbs().maxCoeff();
          L er2 = ((A.r * B.r) * q - A.r * (B.r * q)).cwiseAbs().maxCoeff();
          // a matrix-vector form of the same
          V3 direct = A.g.rotation().rotation_matrix() * q + A.g.translation();
          L er3 = (A.g * q - direct).cwiseAbs().maxCoeff();
          L al = 0;
          if (principal && PI_ - ang > 1e-3L) al = fabsl(A.g.arc_length() - fabsl((L)A.n / 16 * h) * vl.norm());
          L m = 20 + A.mag + B.mag;
          vt::Ev("Act").kv("a", a + 1).kv("rr", units(std::max({er, er2, er3}) / m)).kv("arc", units(al / (A.mag > 0 ? A.mag : 1) / (1 + A.turned) / 1000)).kv("depth", A.depth + B.depth);
          break;
        }
      }
    }
  }
  return vt::done();
}
