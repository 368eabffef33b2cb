// C19: Gaussians and sample statistics.   gauss SEED NRANDOM ENT3 SCRIPT OUT
#include <algorithm>
#include <cmath>
#include <cstring>
#include <deque>
#include <fstream>
#include <memory>
#include <sstream>

#include "resim/math/multivariate_gaussian.hh"
#include "resim/math/sample_statistics.hh"
#include "trace.hh"

using resim::math::Gaussian;
using Vec = Eigen::VectorXd;
using Mat = Eigen::MatrixXd;
static std::mt19937_64 rng;
static int rnd(int n) { return (int)(rng() % n); }
constexpr int NONINT = 1999999999;
static int toint(double x) { double r = std::nearbyint(x); return std::fabs(x - r) < 1e-5 && std::fabs(r) < 1e9 ? (int)r : NONINT; }
static vt::J rows(const Mat &m) {
  std::vector<std::vector<int>> v;
  for (int i = 0; i < m.rows(); ++i) { v.emplace_back(); for (int j = 0; j < m.cols(); ++j) v.back().push_back(toint(m(i, j))); }
  return vt::js(v);
}
static vt::J list(const Vec &m) { std::vector<int> v; for (int i = 0; i < m.size(); ++i) v.push_back(toint(m(i))); return vt::js(v); }
static std::string fp(const Mat &m) {  // exact
  uint64_t h = 1469598103934665603ull;
  for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) { double d = m(i, j) + 0.0; unsigned char b[8]; memcpy(b, &d, 8); for (auto c : b) h = (h ^ c) * 1099511628211ull; }
  char s[32];
  snprintf(s, sizeof s, "%016lx", h);
  return s;
}
static std::deque<Mat> zs;
static int zid(const Mat &z) {
  for (size_t i = 0; i < zs.size(); ++i) if (zs[i].rows() == z.rows() && zs[i].cols() == z.cols() && (zs[i] - z).cwiseAbs().maxCoeff() < 1e-6) return (int)i;
  zs.push_back(z);
  return (int)zs.size() - 1;
}
struct Param { Vec mu; Mat cov; int e; double f = 1; };  // covariance is cov * 2^e, mean mu * f
static Vec mean(const Param &p) { return p.mu * p.f; }
static std::unique_ptr<Gaussian> make(const Param &p, bool keep, const Mat *b = nullptr, const Vec *v = nullptr, int m = 0) {
  std::unique_ptr<Gaussian> g;
  double s = std::ldexp(1.0, p.e);
  bool err = false;
  const Mat C = p.cov * s;
  try { g = std::make_unique<Gaussian>(mean(p), C); } catch (...) { err = true; }
  vt::Ev e(b ? "Large" : "New");
  if (b) e.kv("b", rows(*b)).kv("v", list(*v)).kv("m", m);
  e.kv("mu", list(p.mu)).kv("f", p.f == 1 ? 0 : p.f < 1 ? 1 : 2).kv("cov", rows(p.cov)).kv("scale", p.e).kv("err", err).kv("keep", keep);
  if (!err) {
    const Vec &ev = g->eigenvalues();
    const Mat &V = g->eigenvectors();
    Mat root = g->sqrt_eigenvalues_mat();
    Mat D = ev.asDiagonal();
    double sc = std::max(C.cwiseAbs().maxCoeff(), 1e-300);
    e.kv("dims", (int)g->dimensionality()).kv("gmu", g->mu() == mean(p)).kv("gcov", g->cov() == C).kv("nonneg", ev.minCoeff() >= 0).kv("root", (root * root - D).norm() < 1e-9 * sc);
    e.kv("ortho", (V.transpose() * V - Mat::Identity(V.rows(), V.cols())).norm() < 1e-9).kv("recon", rows(V * D * V.transpose() / s));
  }
  return g;
}
// deviations along directions without variance vanish
static bool flat(const Param &p, const Mat &s) {
  if (s.rows() == 0) return true;
  Eigen::FullPivLU<Mat> lu(p.cov);
  if (lu.isInvertible()) return true;
  const Mat K = lu.kernel();
  const Vec m = mean(p);
  double sc = 1 + m.norm() + std::sqrt(p.cov.norm() * std::ldexp(1.0, p.e));
  return ((s.rowwise() - m.transpose()) * K).cwiseAbs().maxCoeff() < 1e-5 * sc;
}
static bool definite(const Param &p) { return Eigen::LLT<Mat>(p.cov).info() == Eigen::Success && p.cov.determinant() > 0.5; }
static Mat standardise(const Gaussian &g, const Mat &s) { return (s.rowwise() - g.mu().transpose()) * g.eigenvectors() * g.eigenvalues().cwiseSqrt().cwiseInverse().asDiagonal(); }
static Mat random_psd(int d) {
  if (rnd(8) == 0) return Mat::Constant(d, d, 1 + rnd(9));  // singular with equal elements
  int k = rnd(3) ? d : rnd(d + 1);
  Mat B = Mat::Zero(d, std::max(k, 1));
  if (k) for (int i = 0; i < d; ++i) for (int j = 0; j < k; ++j) B(i, j) = rnd(5) - 2;
  return B * B.transpose();
}
static Param random_param(int d) { Param p; p.mu = Vec::Zero(d); if (rnd(4)) for (int i = 0; i < d; ++i) p.mu(i) = rnd(21) - 10; p.cov = random_psd(d); double fs[] = {1, 1, 1. / 3, 1e5 / 7}; p.f = fs[rnd(4)]; int es[] = {0, 0, 0, 2, -4, 10, 60, -60}; p.e = es[rnd(8)]; return p; }

static void history(const std::vector<std::string> &op, const std::vector<int> &o, const std::vector<int> &n) {
  zs.clear();
  vt::Ev("Begin");
  int d = 1 + rnd(3);
  std::deque<Param> ps;
  std::deque<std::unique_ptr<Gaussian>> gs, centred;  // the latter with the same histories and zero mean
  auto fresh = [&](const Param &p) { auto g = make(p, true); if (g) { gs.push_back(std::move(g)); ps.push_back(p); centred.push_back(std::make_unique<Gaussian>(Vec::Zero(d), p.cov * std::ldexp(1.0, p.e))); } };
  Param p0 = random_param(d);
  fresh(p0);
  for (size_t i = 0; i < op.size(); ++i) {
    int k = o[i] - 1;
    if (k >= (int)gs.size()) continue;
    Gaussian &g = *gs[k];
    if (op[i] == "S" || op[i] == "O") {
      Mat s = op[i] == "O" ? Mat(g.sample()) : Mat(g.samples(n[i]));
      Mat c = op[i] == "O" ? Mat(centred[k]->sample()) : Mat(centred[k]->samples(n[i]));
      const Vec m = mean(ps[k]);
      bool shifted = s.rows() == c.rows() && s.cols() == c.cols();
      if (shifted && s.size() > 0 && s.cols() == d) shifted = (s - (c.rowwise() + m.transpose())).cwiseAbs().maxCoeff() <= 1e-13 * (m.norm() + c.cwiseAbs().maxCoeff());
      vt::Ev e("Draw");
      e.kv("o", k + 1).kv("n", op[i] == "O" ? 1 : n[i]).kv("rows", (int)s.rows()).kv("cols", (int)s.cols()).kv("fp", fp(s)).kv("shifted", shifted).kv("flat", s.cols() != d || flat(ps[k], s));
      if (s.rows() > 0 && s.cols() == d && definite(ps[k])) e.kv("z", zid(standardise(*centred[k], c))); else e.kv("z", -1);
    } else if (op[i] == "C" || op[i] == "M") {
      gs.push_back(std::make_unique<Gaussian>(g));
      if (op[i] == "M") { auto t = std::make_unique<Gaussian>(std::move(*gs.back())); gs.back() = std::move(t); }
      ps.push_back(ps[k]);
      centred.push_back(std::make_unique<Gaussian>(*centred[k]));
      vt::Ev("Copy").kv("o", k + 1);
    } else {
      fresh(rnd(2) ? p0 : random_param(d));
    }
  }
}
static void classify(const Mat &m) { Param p; p.mu = Vec::Zero(m.rows()); p.cov = m; int es[] = {0, 0, 20, -20, 40, 200, -200}; p.e = es[rnd(7)]; make(p, false); }
// a + b * 2^-k, all integer; v with a v = 0 witnesses indefiniteness
static void near(int d) {
  Mat a = random_psd(d), b = Mat::Zero(d, d);
  Vec v = Vec::Zero(d);
  int kind = rnd(4), k = 6 + rnd(23), e = rnd(3) ? 0 : rnd(60);
  if (kind == 0) {  // not quite symmetric
    if (a.cwiseAbs().maxCoeff() == 0) a = Mat::Identity(d, d);
    int i = rnd(d), j = (i + 1 + rnd(d - 1)) % d;
    b(i, j) = rnd(2) ? 1 : -1;
  } else if (kind == 1) {  // not quite positive
    Vec w = Vec::Zero(d);
    for (int i = 0; i < d; ++i) w(i) = rnd(3) - 1;
    int i = rnd(d), j = (i + 1 + rnd(d - 1)) % d;
    v(i) = 1;
    if (rnd(2)) v(j) = rnd(2) ? 1 : -1;
    // project onto integer vectors orthogonal to v
    a = Mat::Zero(d, d);
    for (int r = 0; r < d; ++r) {
      Vec x = Vec::Zero(d);
      for (int q = 0; q < d; ++q) x(q) = rnd(5) - 2;
      x = x * v.squaredNorm() - v * v.dot(x);
      a += x * x.transpose();
    }
    if (a.cwiseAbs().maxCoeff() == 0) a = 0 * a;
    b = -(v * v.transpose());
  } else {
    b = random_psd(d);
    if (kind == 3) b.setZero(), b(rnd(d), rnd(d)) = 0, b.diagonal().setOnes();
  }
  const Mat c = (a + b * std::ldexp(1.0, -k)) * std::ldexp(1.0, e);
  bool err = false, kept = true, whole = true;
  try {
    Gaussian g(Vec::Zero(d), c);
    kept = g.cov() == c;
    // small variances are not lost: the factors give the covariance back, and so do the draws along its own axes
    const Mat V = g.eigenvectors(), root = g.sqrt_eigenvalues_mat(), D = g.eigenvalues().asDiagonal();
    whole = (V * D * V.transpose() - c).norm() <= 1e-13 * c.norm() && (V * root * root * V.transpose() - c).norm() <= 1e-13 * c.norm();
    Eigen::SelfAdjointEigenSolver<Mat> own(c);
    const Mat y = Mat(g.samples(400)) * own.eigenvectors();
    for (int q = 0; q < d; ++q) {
      const double l = own.eigenvalues()(q);
      // less than this is rounding
      if (l > 1e-11 * c.norm()) { const double r = y.col(q).squaredNorm() / 400 / l; whole = whole && r > 0.5 && r < 2; }
    }
  } catch (...) { err = true; }
  vt::Ev("Near").kv("whole", whole).kv("a", rows(a)).kv("b", rows(b)).kv("k", k).kv("v", list(v)).kv("err", err).kv("kept", kept);
}
static void moments(int d) {
  zs.clear();
  vt::Ev("Begin");
  Param p;
  do p = random_param(d); while (!definite(p));
  auto g = make(p, true);
  if (!g) return;
  constexpr int N = 4000;
  Mat s(N, d);
  int at = 0;
  while (at < N) { int k = std::min(N - at, 1 + rnd(rnd(2) ? 3 : 500)); s.middleRows(at, k) = g->samples(k); at += k; }
  Mat z = standardise(*g, s);
  double lim = 5 / std::sqrt((double)N);
  bool mean = true, var = true, corr = true, lag = true, kurt = true;
  for (int a = 0; a < d; ++a) {
    mean &= std::fabs(z.col(a).mean()) < lim;
    var &= std::fabs(z.col(a).squaredNorm() / N - 1) < lim * std::sqrt(2.0);
    kurt &= std::fabs(z.col(a).array().pow(4).mean() - 3) < lim * std::sqrt(96.0);
    for (int b = 0; b < d; ++b) {
      if (b < a) corr &= std::fabs(z.col(a).dot(z.col(b)) / N) < lim;
      lag &= std::fabs(z.col(a).head(N - 1).dot(z.col(b).tail(N - 1)) / N) < lim;
    }
  }
  // one large draw: no two numbers alike, not even up to sign
  Gaussian big(Vec::Zero(d), p.cov * std::ldexp(1.0, p.e));
  const int M = 4097 + rnd(9000);
  Vec col = Mat(big.samples(M)).col(rnd(d)).cwiseAbs() / std::sqrt(p.cov.diagonal().maxCoeff() * std::ldexp(1.0, p.e));
  std::sort(col.data(), col.data() + M);
  bool apart = true;
  for (int k = 0; k + 1 < M; ++k) apart &= col(k + 1) - col(k) > 1e-13 * col(k);
  vt::Ev("Moments").kv("apart", apart).kv("mean", mean).kv("var", var).kv("corr", corr).kv("lag", lag).kv("kurt", kurt).kv("flat", flat(p, s));
}
// in many dimensions: the covariance is b b^T minus m v v^T, where b^T v = 0, so a covariance exactly if m = 0
static void large(int d) {
  zs.clear();
  vt::Ev("Begin");
  Mat b(d, d);
  for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) b(i, j) = rnd(4) ? 0 : rnd(5) - 2;
  b.diagonal().array() += 1;
  Vec v = Vec::Zero(d);
  const int m = rnd(3) == 0, i = rnd(d), j = (i + 1 + rnd(d - 1)) % d;
  if (m) { v(i) = 1; v(j) = rnd(2) ? 1 : -1; b.row(j) = -v(j) * b.row(i); }
  else if (rnd(3) == 0) b.col(rnd(d)).setZero();
  Param p;
  p.mu = Vec::Zero(d);
  for (int k = 0; k < d; ++k) p.mu(k) = rnd(21) - 10;
  p.cov = b * b.transpose() - m * (v * v.transpose());
  p.e = rnd(3) ? 0 : rnd(20) - 10;
  auto g = make(p, false, &b, &v, m);
  if (!g) return;
  constexpr int N = 4000;
  const Mat s = g->samples(N);
  // along the covariance's own axes
  Eigen::SelfAdjointEigenSolver<Mat> own(p.cov * std::ldexp(1.0, p.e));
  const Mat y = (s.rowwise() - p.mu.transpose()) * own.eigenvectors();
  const double lim = 6 / std::sqrt((double)N), top = own.eigenvalues().maxCoeff();
  bool mean = true, var = true, corr = true, flat = true;
  for (int q = 0; q < d; ++q) {
    const double l = own.eigenvalues()(q);
    if (l < 1e-9 * top) { flat &= y.col(q).cwiseAbs().maxCoeff() < 1e-3 * std::sqrt(top); continue; }
    mean &= std::fabs(y.col(q).mean()) < lim * std::sqrt(l);
    var &= std::fabs(y.col(q).squaredNorm() / N - l) < lim * std::sqrt(2.0) * l;
    for (int r = 0; r < q; ++r) {
      const double k = own.eigenvalues()(r);
      if (k > 1e-9 * top) corr &= std::fabs(y.col(q).dot(y.col(r)) / N) < lim * std::sqrt(l * k);
    }
  }
  vt::Ev("Moments").kv("apart", s.rows() == N && s.cols() == d).kv("mean", mean).kv("var", var).kv("corr", corr).kv("lag", true).kv("kurt", true).kv("flat", flat);
}
// many samples, many columns, against whole-number sums
static void census(int n, int d) {
  vt::Ev("Begin");
  Mat x(n, d);
  for (int i = 0; i < n; ++i) for (int j = 0; j < d; ++j) x(i, j) = rnd(2001) - 1000;
  if (d > 1) x.col(d - 1) = x.col(0) + x.col(d - 1);
  const Vec m = resim::math::mean(x);
  const Mat c = resim::math::covariance(x);
  bool mean = m.size() == d, cov = c.rows() == d && c.cols() == d;
  for (int a = 0; mean && cov && a < d; ++a) {
    __int128 sa = 0;
    for (int i = 0; i < n; ++i) sa += (int64_t)x(i, a);
    mean &= std::fabs(m(a) - (double)sa / n) < 1e-7;
    for (int b = 0; b < d; ++b) {
      __int128 sb = 0, sab = 0;
      for (int i = 0; i < n; ++i) sb += (int64_t)x(i, b), sab += (int64_t)x(i, a) * (int64_t)x(i, b);
      const double want = (double)(n * sab - sa * sb) / n / (n - 1);
      cov &= std::fabs(c(a, b) - want) < 1e-8 * 1e6;
    }
  }
  vt::Ev("Census").kv("n", n).kv("d", d).kv("mean", mean).kv("cov", cov);
}
static void statistics() {
  vt::Ev("Begin");
  for (int k = 0; k < 6; ++k) {
    int n = rnd(7), d = 1 + rnd(3), lim = rnd(2) ? 3 : 30;
    if (k == 0) n = 1;
    if (k == 5 && rnd(10) == 0) n = 250 + rnd(1500), lim = 3;
    const double unit = std::ldexp(1.0, rnd(3) ? 0 : rnd(401) - 200);
    Mat x(n, d);
    for (int i = 0; i < n; ++i) for (int j = 0; j < d; ++j) x(i, j) = rnd(2 * lim + 1) - lim;
    double off = rnd(3) || n > 200 ? 0 : std::ldexp(1.0, 26);  // n roundings of it must stay small
    Mat y = (x.array() + off).matrix() * unit;
    if (n > 0) vt::Ev("Mean").kv("x", rows(x)).kv("mean", list(((resim::math::mean(y) / unit).array() - off).matrix() * n));
    Mat c;
    bool err = false;
    try { c = resim::math::covariance(y); } catch (...) { err = true; }
    vt::Ev e("Cov");
    e.kv("x", rows(x)).kv("err", err);
    if (!err) e.kv("cov", rows(c / unit / unit * n * (n - 1)));
  }
}

int main(int argc, char **argv) {
  if (argc != 6) return 97;
  rng.seed(atol(argv[1]));
  int n = atoi(argv[2]), e3 = atoi(argv[3]);
  vt::open(argv[5]);
  // before anything else has happened in this process: object 1 draws first
  history({"O", "N", "O", "S", "S", "N", "O", "C", "O"}, {1, 1, 2, 1, 2, 1, 3, 3, 4}, {1, 1, 1, 1, 1, 1, 1, 1, 1});
  // all small symmetric matrices
  for (int a = -3; a <= 3; ++a) {
    vt::Ev("Begin");
    { Mat m(1, 1); m << a; classify(m); }
    for (int b = -3; b <= 3; ++b) for (int c = -3; c <= 3; ++c) { Mat m(2, 2); m << a, b, b, c; classify(m); if (a != c) { m << c, b, b + 1, a; classify(m); } }
  }
  for (int a = 0; a <= e3; ++a) for (int d = 0; d <= e3; ++d) {
    vt::Ev("Begin");
    for (int f = 0; f <= e3; ++f) for (int b = -e3; b <= e3; ++b) for (int c = -e3; c <= e3; ++c) for (int e = -e3; e <= e3; ++e) { Mat m(3, 3); m << a, b, c, b, d, e, c, e, f; classify(m); }
  }
  for (int i = 0; i < n; ++i) {  // larger ones, valid, perturbed, asymmetric and of wrong shape
    vt::Ev("Begin");
    for (int k = 0; k < 4; ++k) {
      int d = 2 + rnd(3);
      Mat m = random_psd(d);
      if (k == 1) m(rnd(d), rnd(d)) += rnd(2) ? 1 : -1;
      if (k == 2) { int a = rnd(d), b = rnd(d); m(a, b) += rnd(2) ? 1 : -1; if (a != b) m(b, a) = m(a, b); }
      if (k < 3) classify(m);
      else {
        Param p;
        p.e = 0;
        p.mu = Vec::Zero(1 + rnd(4));
        p.cov = rnd(2) ? m : Mat(m.topRows(d - 1));
        if (rnd(3) == 0) {  // the right number of elements
          p.mu = Vec::Zero(d);
          p.cov = Mat(m.reshaped());
          if (rnd(2)) p.cov = Mat(p.cov.transpose());
          if (d == 4 && rnd(2)) p.cov = Mat(m.reshaped(2, 8));
        }
        make(p, false);
      }
    }
    for (int k = 0; k < 4; ++k) near(2 + rnd(3));
  }
  std::ifstream sc(argv[4]);
  std::string line;
  while (std::getline(sc, line)) {
    std::istringstream is(line);
    std::vector<std::string> op;
    std::vector<int> o, k;
    std::string a;
    int b, c;
    while (is >> a >> b >> c) { op.push_back(a); o.push_back(b); k.push_back(c); }
    history(op, o, k);
  }
  for (int i = 0; i < n / 4; ++i) {
    std::vector<std::string> op;
    std::vector<int> o, k;
    const char *all[] = {"S", "S", "S", "O", "C", "M", "N", "N"};
    for (int len = 4 + rnd(12); len--;) { op.push_back(all[rnd(8)]); o.push_back(1 + rnd(4)); k.push_back(rnd(7)); }
    history(op, o, k);
  }
  for (int i = 0; i < 4; ++i) {  // long lives, large draws
    std::vector<std::string> op;
    std::vector<int> o, k;
    for (int len = 60 + rnd(60); len--;) { op.push_back(rnd(6) ? "S" : "O"); o.push_back(1); k.push_back(i % 2 == 0 ? rnd(9) : i == 3 && len % 20 == 0 ? 10001 + 60000 * (len % 40 / 20) : rnd(3000)); }
    history(op, o, k);
  }
  for (int i = 0; i < n / 2; ++i) statistics();
  for (int d = 1; d <= 6; ++d) moments(d);
  for (int d = 2; d <= 20; ++d) large(d);
  for (int k = 0; k < 6; ++k) large(7 + rnd(30));
  for (int d = 1; d <= 9; ++d) census(2 + rnd(40), d);
  census(5001 + rnd(3000), 1 + rnd(5));
  census(20000 + rnd(100), 2);
  census(70000, 2);
  return vt::done();
}
