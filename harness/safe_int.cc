// C08 harness.
#include "resim/assert/assert.hh"
#include "resim/math/safe_integer_utils.hh"
#include "trace.hh"
#include <cstring>
#include <set>
using vt::Ev;
using namespace resim::math;

static int in_ep = 0;
template <class F>
void op(const char *name, int64_t a, int64_t b, F f) {
  if (in_ep == 0) { Ev("Begin"); }
  in_ep = (in_ep + 1) % 200;
  int64_t r = 0;
  std::string out = "ok";
  try { r = f(); }
  catch (const resim::AssertException &e) {
    out = strstr(e.what(), INT_OVERFLOW_MSG) ? "overflow" : strstr(e.what(), INT_UNDERFLOW_MSG) ? "underflow" : "other";
  } catch (...) { out = "other"; }
  Ev e("Op");
  e.kv("op", name).kv("a", vt::big(a)).kv("b", vt::big(b)).kv("out", out);
  if (out == "ok") e.kv("r", vt::big(r));
}

void all(int64_t a, int64_t b) {
  op("sum", a, b, [&] { return safe_sum(a, b); });
  op("difference", a, b, [&] { return safe_difference(a, b); });
}

int main(int, char **argv) {
  std::mt19937_64 rng(atol(argv[1]));
  const int n = atoi(argv[2]);
  vt::open(argv[3]);
  std::set<int64_t> s;
  const int64_t MX = INT64_MAX, MN = INT64_MIN;
  for (int k = 0; k < 4; ++k) { s.insert(MX - k); s.insert(MN + k); s.insert(k); s.insert(-k); }
  for (int sh : {31, 32, 53, 61, 62}) for (int k = -1; k <= 1; ++k) { s.insert(((int64_t)1 << sh) + k); s.insert(-((int64_t)1 << sh) + k); }
  for (int64_t a : s) { for (int64_t b : s) all(a, b); op("abs", a, 0, [&] { return safe_abs(a); }); }
  // pairs whose exact result lies within a few units of a bound, with random split
  for (int i = 0; i < n; ++i) {
    int64_t a = (int64_t)rng() >> (rng() % 63);
    int64_t d = (int64_t)(rng() % 7) - 3;
    __int128 bound = (rng() & 1) ? (__int128)MX : (__int128)MN;
    __int128 b = bound - a + d;          // a + b near a bound
    if (b >= MN && b <= MX) { all(a, (int64_t)b); if (-b >= MN && -b <= MX) all(a, (int64_t)-b); }
    b = (__int128)a - bound + d;         // a - b near a bound
    if (b >= MN && b <= MX) all(a, (int64_t)b);
    all((int64_t)rng() >> (rng() % 63), (int64_t)rng() >> (rng() % 63));
    int64_t x = (int64_t)rng() >> (rng() % 64);
    op("abs", x, 0, [&] { return safe_abs(x); });
    all(x, x); all(x, -(x >> 1));
  }
  return vt::done();
}
