// C06 / C07 harness.
#include <cmath>
#include <limits>
#include <cstring>
#include <new>
#include <unistd.h>

#include "resim/assert/assert.hh"
#include "resim/time/sample_interval.hh"
#include "trace.hh"
using vt::Ev;
using namespace resim::time;

namespace {
struct Stop {};
int in_ep = 0;
void begin() {
  if (in_ep == 0) Ev("Begin");
  in_ep = (in_ep + 1) % 20;
}

// what a visitor does in between is its own business, other samplings included
void meanwhile(int at) {
  if (at % 3 != 1) return;
  sample_interval(Timestamp{Duration{41 + at}}, Timestamp{Duration{3}}, Duration{7}, [](Timestamp) {});
  sample_interval(-0.75 - at, 11.5, 2.25, [](double) {});
  (void)num_samples(2., 9. + at, 0.5);
  (void)num_samples(Timestamp{Duration{5}}, Timestamp{Duration{500 + at}}, Duration{9});
}

// stride: of a long run only the first and last few samples and every stride-th one are logged, with their index
void stamp_call(int64_t s, int64_t e, int64_t dt, int limit, int stride = 1) {
  begin();
  const Timestamp S{Duration{s}}, T{Duration{e}};
  int64_t num = 0;
  bool num_ok = true;
  try { num = num_samples(S, T, Duration{dt}); } catch (const resim::AssertException &) { num_ok = false; }
  {
    Ev c("Call");
    c.kv("s", vt::big(s)).kv("e", vt::big(e)).kv("dt", vt::big(dt)).kv("num_ok", num_ok);
    if (num_ok) c.kv("num", vt::big(num));
  }
  int count = 0;
  std::string how = "return";
  try {
    sample_interval(S, T, Duration{dt}, [&](Timestamp t) {
      const int at = count++;
      if (at >= limit) throw Stop{};
      if (stride > 1 && at >= 5 && at < num - 5 && at % stride) return;
      Ev("Sample").kv("at", at).kv("off", vt::big((__int128)t.time_since_epoch().count() - s));
      meanwhile(at);
    });
  } catch (const Stop &) { how = "stopped"; }
  catch (const resim::AssertException &) { how = "reject"; }
  catch (...) { how = "other"; }
  Ev("End").kv("how", how).kv("count", count);
}

void c06(std::mt19937_64 &rng, int n) {
  const int64_t MX = INT64_MAX, MN = INT64_MIN;
  // every small interval and step, both directions
  for (int s : {0, -3, 5})
    for (int len = -9; len <= 9; ++len)
      for (int dt = 1; dt <= 10; ++dt) stamp_call(s, s + len, dt, 1000);
  for (int dt : {0, -1}) { stamp_call(1, 4, dt, 10); stamp_call(3, 3, dt, 10); }
  stamp_call(0, 9, MN, 10); stamp_call(MN, MX, 5, 10); stamp_call(MX, MN, 5, 10); stamp_call(MN, 0, 5, 10);
  stamp_call(0, MN, 5, 10); stamp_call(0, MX, 1, 10); stamp_call(MX, 0, 1, 10); stamp_call(1, MX, 1, 20); stamp_call(MX, 1, 1, 20);
  stamp_call(-1, MX - 1, 1, 10); stamp_call(MN + 1, 0, 1, 10); stamp_call(0, MN + 1, 1, 10);
  stamp_call(0, MX, 2, 20); stamp_call(0, MX, 3, 20); stamp_call(MN + 1, 0, 2, 20); stamp_call(0, MN + 1, 3, 20);
  stamp_call(0, MX - 1, 1, 20); stamp_call(MX - 1, 0, 1, 20);
  for (int64_t d : {MX, MX - 1, MX / 2, MX / 2 + 1, MX / 2 + 2, MX / 3, MX / 3 + 1, MX / 7, MX / 19, (int64_t)1 << 60}) {
    stamp_call(0, MX, d, 64); stamp_call(MX, 0, d, 64); stamp_call(MN / 2, MX / 2, d, 64);
    stamp_call(MX / 2, MN / 2, d, 64); stamp_call(MN + 1, 0, d, 64); stamp_call(-1, MN, d, 64); stamp_call(-2, MN + 3, d, 64);
    stamp_call(7, 7, d, 10); stamp_call(7, 8, d, 10);
  }
  // long runs, across the limits of small counters
  for (int64_t len : {(int64_t)70001, (int64_t)65536 * 3 + 1, (int64_t)1000003 * 977, MX / 3, -(MX / 5)})
    for (int k : {65535, 65536, 70000, 1000003}) {
      const int64_t dt = std::max<int64_t>(1, (len < 0 ? -len : len) / k + 1);
      stamp_call(len < 0 ? -17 : 12345, (len < 0 ? -17 : 12345) + len, dt, 3000000, 9973);
    }
  for (int i = 0; i < n; ++i) {
    const int64_t s = (int64_t)rng() >> (1 + rng() % 60);
    const int64_t len = (int64_t)rng() >> (1 + rng() % 62);
    __int128 e = (__int128)s + len;
    if (e > MX || e < MN) continue;
    int64_t a = len < 0 ? -(len + 1) : len;
    int k = 1 + rng() % 25;
    int64_t dt = a / k + (int64_t)(rng() % 3) - 1;
    if (dt < 1) dt = 1;
    stamp_call(s, (int64_t)e, dt, 40);
    if (i % 8 == 0) stamp_call((int64_t)e, s, dt, 40);
    if (i % 64 == 0) stamp_call(s, (int64_t)e, 1 + (int64_t)(rng() >> (1 + rng() % 62)), 12);
  }
}

// C07: times are a/2^k; logged exactly as integers over the common denominator.
void real_call(int64_t a, int64_t b, int64_t c, int k, int limit, int stride = 1) {
  begin();
  const double u = std::ldexp(1., -k);
  const double s = (double)a * u, e = (double)b * u, dt = (double)c * u;
  int64_t num = 0;
  bool num_ok = true;
  try { num = num_samples(s, e, dt); } catch (const resim::AssertException &) { num_ok = false; }
  {
    Ev v("Call");
    v.kv("s", vt::big(a)).kv("e", vt::big(b)).kv("dt", vt::big(c)).kv("num_ok", num_ok);
    if (num_ok) v.kv("num", vt::big(num));
  }
  // beyond exact projection only the count is checked
  if (num_ok && ((double)std::abs(a) + (double)std::abs(b)) * (double)num > 0x1p50) limit = 0;
  int count = 0;
  std::string how = "return";
  try {
    sample_interval(s, e, dt, [&](double t) {
      const int at = count++;
      if (at >= limit) throw Stop{};
      if (stride > 1 && at >= 5 && at < num - 5 && at % stride) return;
      // position over the denominator 2^k * (num - 1)
      const long double m = num_ok && num > 1 ? (long double)(num - 1) : 1;
      const long double x = (long double)t / u * m;
      const long double r = std::nearbyintl(x);
      // the ideal position is an integer; double rounding leaves it within a relative 2^-50
      const long double mag = (std::fabs((long double)a) + std::fabs((long double)b) + 1) * m;
      const bool on = std::isfinite((double)x) && std::fabs(x - r) <= mag * 0x1p-50L && std::fabs(r) < 1e30L;
      Ev v("Sample");
      v.kv("at", at).kv("on", on).kv("pos", vt::big(on ? (__int128)r : 0)).kv("isstart", t == s).kv("isend", t == e);
      meanwhile(at);
    });
  } catch (const Stop &) { how = "stopped"; }
  catch (const resim::AssertException &) { how = "reject"; }
  catch (...) { how = "other"; }
  Ev("End").kv("how", how).kv("count", count);
}

// Arbitrary doubles: end points and step are integers times u = 2^-k with 53-bit mantissas of their own.
void rough_call(__int128 a, __int128 b, __int128 c, int k, int limit, int stride = 1) {
  begin();
  const double u = std::ldexp(1., -k);
  const double s = (double)a * u, e = (double)b * u, dt = (double)c * u;
  int64_t num = 0;
  bool num_ok = true;
  try { num = num_samples(s, e, dt); } catch (const resim::AssertException &) { num_ok = false; }
  {
    Ev v("RCall");
    v.kv("s", vt::big(a)).kv("e", vt::big(b)).kv("dt", vt::big(c)).kv("num_ok", num_ok);
    if (num_ok) v.kv("num", vt::big(num));
  }
  int count = 0;
  std::string how = "return";
  try {
    sample_interval(s, e, dt, [&](double t) {
      const int at = count++;
      if (at >= limit) throw Stop{};
      if (stride > 1 && at >= 5 && at < num - 5 && at % stride) return;
      const long double x = (long double)t / (long double)u;
      const bool fin = std::isfinite(t) && std::fabs(x) < 1e36L;
      Ev("RSample").kv("at", at).kv("fin", fin).kv("t", vt::big(fin ? (__int128)std::nearbyintl(x) : 0)).kv("isstart", t == s).kv("isend", t == e);
      meanwhile(at);
    });
  } catch (const Stop &) { how = "stopped"; }
  catch (const resim::AssertException &) { how = "reject"; }
  catch (...) { how = "other"; }
  Ev("End").kv("how", how).kv("count", count);
}
__int128 wide(std::mt19937_64 &rng) {
  __int128 m = (__int128)((rng() >> 11) >> (rng() % 3 ? rng() % 50 : 0)) << (rng() % 22);
  return rng() & 1 ? m : -m;
}

// Whole runs longer than a 32-bit counter: totals, order and greatest gap, and the samples at some positions.
template <class F>
struct Long {
  std::vector<int64_t> where;
  std::string list = "[";
  size_t next = 0;
  int64_t count = 0, limit;
  F off;
  Long(int64_t num, F o) : limit(num), off(o) {
    for (int64_t k : {(int64_t)0, (int64_t)1, (int64_t)65536, (int64_t)1 << 24, ((int64_t)1 << 31) - 1, (int64_t)1 << 31, ((int64_t)1 << 31) + 1, (int64_t)1 << 32, ((int64_t)1 << 32) + 1, num - 2, num - 1})
      if (k >= 0 && k < num && (where.empty() || k > where.back())) where.push_back(k);
  }
  template <class T>
  void see(T t) {
    if (count == where[next]) {
      list += std::string(list.size() > 1 ? "," : "") + vt::Obj().kv("at", vt::big(count)).kv("off", vt::big(off(t))).j().s;
      if (next + 1 < where.size()) ++next;
    }
    if (++count > limit) throw Stop{};
  }
};

void long_stamps(int64_t s, int64_t e, int64_t dt) {
  begin();
  const int64_t num = num_samples(Timestamp{Duration{s}}, Timestamp{Duration{e}}, Duration{dt});
  auto off = [s](Timestamp t) { return (__int128)t.time_since_epoch().count() - s; };
  Long<decltype(off)> w(num, off);
  int64_t last = s;
  uint64_t gap = 0;
  bool sorted = true;
  std::string how = "return";
  try {
    sample_interval(Timestamp{Duration{s}}, Timestamp{Duration{e}}, Duration{dt}, [&](Timestamp t) {
      const int64_t c = t.time_since_epoch().count();
      if (e > s ? c < last : c > last) sorted = false;
      const uint64_t g = e > s ? (uint64_t)c - (uint64_t)last : (uint64_t)last - (uint64_t)c;
      if (g > gap) gap = g;
      last = c;
      w.see(t);
    });
  } catch (const Stop &) { how = "stopped"; } catch (const std::bad_alloc &) { fprintf(stderr, "bad_alloc\n"); _exit(98); } catch (...) { how = "other"; }
  Ev("Long").kv("s", vt::big(s)).kv("e", vt::big(e)).kv("dt", vt::big(dt)).kv("num", vt::big(num)).kv("how", how)
      .kv("count", vt::big(w.count)).kv("sorted", sorted).kv("gap", vt::big(gap)).kv("some", vt::J{w.list + "]"});
}
// times are multiples of 2^-k
void long_reals(int64_t a, int64_t b, int64_t c, int k) {
  begin();
  const double u = std::ldexp(1., -k), s = (double)a * u, e = (double)b * u, dt = (double)c * u;
  const int64_t num = num_samples(s, e, dt);
  const double r = std::ldexp(1., 30);
  auto off = [=](double t) { return (__int128)std::nearbyint(t / u * r); };   // in units of 2^-30 u
  Long<decltype(off)> w(num, off);
  double last = s, gap = 0;
  bool sorted = true, first = false, end = false;
  std::string how = "return";
  try {
    sample_interval(s, e, dt, [&](double t) {
      if (e > s ? t < last : t > last) sorted = false;
      const double g = std::fabs(t - last);
      if (!(g <= gap)) gap = g;
      last = t;
      if (w.count == 0) first = t == s;
      end = t == e;
      w.see(t);
    });
  } catch (const Stop &) { how = "stopped"; } catch (const std::bad_alloc &) { fprintf(stderr, "bad_alloc\n"); _exit(98); } catch (...) { how = "other"; }
  Ev("Long").kv("s", vt::big(a)).kv("e", vt::big(b)).kv("dt", vt::big(c)).kv("num", vt::big(num)).kv("how", how)
      .kv("count", vt::big(w.count)).kv("sorted", sorted).kv("gap", vt::big((__int128)std::ceil(gap / u * r))).kv("first", first).kv("end", end).kv("some", vt::J{w.list + "]"});
}

void special(double s, double e, double dt) {
  begin();
  bool num_ok = true;
  int64_t num = 0;
  try { num = num_samples(s, e, dt); } catch (const resim::AssertException &) { num_ok = false; }
  std::string how = "return";
  int count = 0; bool first = false, last = false;
  try {
    sample_interval(s, e, dt, [&](double t) { if (count == 0) first = t == s; last = t == e; if (++count > 100) throw Stop{}; });
  } catch (const Stop &) { how = "stopped"; }
  catch (const resim::AssertException &) { how = "reject"; }
  catch (...) { how = "other"; }
  auto cls = [](double x) { return std::isnan(x) ? "nan" : std::isinf(x) ? (x > 0 ? "inf" : "-inf") : x > 0 ? "pos" : x < 0 ? "neg" : "zero"; };
  Ev("Special").kv("empty", s == e).kv("step", cls(dt)).kv("num_ok", num_ok).kv("num", num).kv("how", how)
      .kv("count", count).kv("first", first).kv("last", last);
}

void c07(std::mt19937_64 &rng, int n) {
  for (int s : {0, -3, 5})
    for (int len = -9; len <= 9; ++len)
      for (int dt = 1; dt <= 10; ++dt) real_call(s, s + len, dt, dt % 4, 1000);
  for (int dt : {0, -1, -7}) { real_call(1, 4, dt, 0, 10); real_call(3, 3, dt, 1, 10); real_call(4, 1, dt, 1, 10); }
  for (int64_t big : {(int64_t)1 << 31, ((int64_t)1 << 31) - 1, ((int64_t)1 << 31) + 1, (int64_t)1 << 32, (int64_t)1 << 40, ((int64_t)1 << 33) + 3}) {
    real_call(0, big, 1, 0, 4); real_call(big, 0, 1, 3, 4); real_call(-big, big, 1, 0, 4); real_call(5, 5 + big, 2, 10, 4);
  }
  for (int i = 0; i < n; ++i) {
    const int64_t a = (int64_t)(rng() % (1 << 20)) - (1 << 19);
    int64_t b = (int64_t)(rng() % (1 << 20)) - (1 << 19);
    if (i % 5 == 0) b = a + (int64_t)(rng() % 50) - 25;
    const int64_t len = std::abs(b - a);
    int64_t c = std::max<int64_t>(1, len / (1 + rng() % 25) + (int64_t)(rng() % 3) - 1);
    if (i % 7 == 0) { int64_t q = 1 + rng() % 20; c = 1 + rng() % 1000; b = a + (rng() % 2 ? 1 : -1) * q * c; }
    real_call(a, b, c, rng() % 20, 64);
  }
  for (int k : {65535, 65536, 70000, 1000003}) {
    real_call(-5, -5 + k, 1, 3, 3000000, 9973);
    real_call(3 * k, 0, 3, 7, 3000000, 9973);
    for (int j = 0; j < 3; ++j) {
      __int128 a = wide(rng), b = wide(rng);
      const double st = std::floor(std::fabs((double)b - (double)a) / k);
      if (st >= 1) rough_call(a, b, (__int128)st, (int)(rng() % 60), 3000000, 9973);
    }
  }
  for (int i = 0; i < n; ++i) {
    __int128 a = wide(rng), b = wide(rng);
    if (i % 6 == 0) a = 0;
    if (i % 7 == 0) b = 0;
    if (i % 9 == 0) b = -a;
    if (i % 11 == 0) { // neighbours of each other: a long way from zero, a short interval
      a = ((__int128)(rng() >> 12) | ((__int128)1 << 52)) << 20; b = a + (((__int128)(rng() % 4096) - 2048) << 21);
    }
    const double len = std::fabs((double)b - (double)a);
    const double q = (double)(1 + rng() % 25);
    double st = rng() % 3 ? len / (q + (double)(rng() % 1000) / 1000.) : len / q;
    st = std::floor(st);
    rough_call(a, b, (__int128)std::max(1., st), (int)(rng() % 60), 48);
  }
  const double inf = std::numeric_limits<double>::infinity(), nan = std::nan("");
  for (double dt : {inf, nan, -inf, -1., 0., -0., 1e300, 5e-1})
    for (double len : {1., -1., 0., 1e-300, -1e-300}) special(3 * (len * len < 0.5 ? 0 : 1), 3 * (len * len < 0.5 ? 0 : 1) + len, dt);
}
}  // namespace

int main(int, char **argv) {
  std::mt19937_64 rng(atol(argv[2]));
  const int n = atoi(argv[3]);
  vt::open(argv[4]);
  const std::string mode = argv[1];
  const int64_t N = ((int64_t)1 << (n > 900 ? 32 : 31)) + 11;
  if (mode == "c06") c06(rng, n);
  if (mode == "c07") c07(rng, n);
  if (mode == "long6") long_stamps(1234567, 1234567 - (N * 1000003 - 5), 1000003);
  if (mode == "long7") long_reals(5, 5 + N * 3, 3, 10);
  return vt::done();
}
