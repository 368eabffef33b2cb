// C09 harness.
#include <algorithm>
#include <cmath>
#include <cstring>
#include "resim/time/timestamp.hh"
#include "trace.hh"
using vt::Ev;
using namespace resim::time;
namespace {
// d = m * 2^-j with m a 53-bit integer
void decompose(double d, int64_t &m, int &j) {
  int e = 0;
  double f = std::frexp(d, &e);
  m = (int64_t)std::ldexp(f, 53);
  j = 53 - e;
  if (d == 0) { m = 0; j = 0; }
}
int64_t key(double d) {  // order preserving
  if (d == 0) d = 0;
  int64_t b; memcpy(&b, &d, 8);
  return b < 0 ? (int64_t)(INT64_MIN - b) : b;
}
int in_ep = 0;
void begin() { if (in_ep == 0) Ev("Begin"); in_ep = (in_ep + 1) % 200; }

void split(int64_t ns) {
  begin();
  const SecsAndNanos r = to_seconds_and_nanos(Duration{ns});
  const Duration b = from_seconds_and_nanos(r);
  Ev("Split").kv("ns", vt::big(ns)).kv("secs", vt::big(r.secs)).kv("nanos", vt::big(r.nanos)).kv("back", vt::big(b.count()));
}
void join(int64_t s, int32_t n) {
  begin();
  const Duration b = from_seconds_and_nanos(SecsAndNanos{.secs = s, .nanos = n});
  Ev("Join").kv("secs", vt::big(s)).kv("nanos", vt::big(n)).kv("ns", vt::big(b.count()));
}
void seconds(int64_t ns) {
  begin();
  const double d = as_seconds(Duration{ns}), nd = as_seconds(Duration{ns == INT64_MIN ? INT64_MAX : -ns});
  int64_t m, nm; int j, nj;
  if (!std::isfinite(d)) { Ev("NotFinite"); return; }
  decompose(d, m, j); decompose(nd, nm, nj);
  const bool safe = std::fabs(d) < 9.2e9;
  Ev("Seconds").kv("ns", vt::big(ns)).kv("m", vt::big(m)).kv("j", j).kv("negm", vt::big(nm)).kv("negj", nj)
      .kv("back", vt::big(safe ? as_duration(d).count() : ns)).kv("xkey", vt::w64(ns)).kv("ykey", vt::w64(key(d)));
}
void duration(double t) {
  begin();
  int64_t m; int j;
  decompose(t, m, j);
  // keep the exponent small and the fraction exact
  while (m && j > 0 && m % 2 == 0) { m /= 2; --j; }
  if (j > 200 || j < 0) { if (j < 0) { m <<= -j; j = 0; } else return; }
  Ev("Duration").kv("m", vt::big(m)).kv("j", j).kv("r", vt::big(as_duration(t).count()))
      .kv("negr", vt::big(as_duration(-t).count())).kv("xkey", vt::w64(key(t))).kv("ykey", vt::w64(as_duration(t).count()));
}
}  // namespace
int main(int, char **argv) {
  std::mt19937_64 rng(atol(argv[1]));
  const int n = atoi(argv[2]);
  vt::open(argv[3]);
  std::vector<int64_t> v;
  const int64_t G = 1000000000;
  for (int64_t base : {(int64_t)0, G, 2 * G, G / 2, 60 * G, 3600 * G, 86400 * G, 1700000000 * G, 9223372036 * G, (int64_t)1 << 31, (int64_t)1 << 32, (int64_t)1 << 53, (int64_t)1 << 62, INT64_MAX - 3})
    for (int d = -3; d <= 3; ++d) { v.push_back(base + d); v.push_back(-(base + d)); }
  v.push_back(INT64_MIN); v.push_back(INT64_MIN + 1);
  for (int i = 0; i < n; ++i) {
    v.push_back((int64_t)rng() >> (rng() % 63));
    v.push_back((int64_t)(rng() % 9000000000ULL) * (int64_t)(1 + rng() % 3) - G);
    v.push_back(((int64_t)(rng() % 2000000000) - G) * G + (int64_t)(rng() % 5) - 2);
  }
  for (int64_t x : v) split(x);
  for (int i = 0; i < n; ++i) join((int64_t)(rng() % 18000000000ULL) - 9000000000LL, (int32_t)(rng() % 4000000000u));
  std::sort(v.begin(), v.end());
  in_ep = 0;
  for (int64_t x : v) seconds(x);
  std::vector<double> t = {0, 0.5, 0.25, 1e-9, 1.5e-9, 0.3, 0.1, 0.7, 1e9, 9e9, 1e-10, 0.999999999, 1.000000001};
  for (int i = 0; i < n; ++i) {
    t.push_back(std::ldexp((double)(rng() % 4096), -(int)(rng() % 14)));
    t.push_back(std::ldexp((double)(rng() >> 11), -(int)(20 + rng() % 60)));
    t.push_back((double)(rng() % 1000000) * 1e-9);
    t.push_back((double)(int64_t)(rng() % 10000000000ULL) / 1e9);
  }
  const size_t k = t.size();
  for (size_t i = 0; i < k; ++i) t.push_back(-t[i]);
  std::sort(t.begin(), t.end());
  in_ep = 0;
  for (double x : t) if (std::fabs(x) < 9e9) duration(x);
  return vt::done();
}
