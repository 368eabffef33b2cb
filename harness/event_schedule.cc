// C05 harness: drives resim::time::EventSchedule through its public interface and records the history.
#include <algorithm>
#include <cstring>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>

#include "resim/assert/assert.hh"
#include "resim/time/event_schedule.hh"
#include "trace.hh"

using resim::time::Timestamp;
using resim::time::Duration;
using vt::Ev;

namespace {
Timestamp at(int64_t ns) { return Timestamp{Duration{ns}}; }
int64_t ns(Timestamp t) { return t.time_since_epoch().count(); }

long value(const long &p) { return p; }
long value(const std::string &p) { return std::stol(p.substr(p.find('#') + 1)); }
void mk(long v, long &p) { p = v; }
void mk(long v, std::string &p) { p = "a payload that does not fit a small string buffer #" + std::to_string(v); }

template <class P, class C>
struct Driver {
  resim::time::EventSchedule<P, C> es;
  long next = 0;
  explicit Driver(long cap) { Ev("Begin").kv("cap", cap); }
  void observe(Ev &e) {
    e.kv("size", (long)es.size());
    if (es.size() > 0) {
      const auto &top = es.top_event();
      static const resim::time::EventSchedule<P, C> decoy = [] { resim::time::EventSchedule<P, C> d; P p; mk(-77, p); d.schedule_event(at(-77), p); return d; }();
      if (decoy.size() != 1 || ns(decoy.top_event().time) != -77 || value(decoy.top_event().payload) != -77) e.kv("decoy", "changed");  // another schedule keeps its own top
      e.kv("top", vt::Obj().kv("t", vt::w64(ns(top.time))).kv("p", value(top.payload)).j());
    }
  }
  void schedule(int64_t t) {
    P p; mk(next, p);
    bool ok = true;
    try { es.schedule_event(at(t), p); } catch (const resim::AssertException &) { ok = false; }
    Ev e("Schedule");
    e.kv("t", vt::w64(t)).kv("p", next).kv("ok", ok);
    observe(e);
    ++next;
  }
  void pop() {
    if (es.size() == 0) return;
    es.pop_event();
    Ev e("Pop");
    observe(e);
  }
  // the history goes on with a copy (or with what a copy or the original was moved into), if there can be one
  void copy(int how) {
    using S = resim::time::EventSchedule<P, C>;
    if constexpr (std::is_copy_constructible_v<S> && std::is_copy_assignable_v<S>) {
      if (how % 3 == 0) { S other(es); try { other.schedule_event(at(INT64_MIN), P{}); } catch (const resim::AssertException &) {} S again(other); again = es; es = again; }
      if (how % 3 == 1) { S other; other = es; while (es.size()) es.pop_event(); es = other; }
      if (how % 2) { S &same = es; es = same; }  // onto itself
    }
    if constexpr (std::is_move_constructible_v<S> && std::is_move_assignable_v<S>) {
      if (how % 3 == 2) { S other(std::move(es)); es = std::move(other); }
    }
    Ev e("Copy");
    observe(e);
  }
  // empty the schedule; a schedule that does not get emptier is recorded as such (the specification rejects it)
  void drain() {
    for (size_t n = es.size(); n > 0; --n) pop();
  }
  void churn(long n, int64_t t) {
    long accepted = 0; bool matched = true;
    for (long i = 0; i < n; ++i) {
      P p; mk(next, p);
      try { es.schedule_event(at(t), p); } catch (const resim::AssertException &) { matched &= es.size() == 0; continue; }
      ++accepted;
      matched &= es.size() == 1 && ns(es.top_event().time) == t && value(es.top_event().payload) == next;
      es.pop_event();
      ++next;
    }
    Ev("Churn").kv("n", n).kv("accepted", accepted).kv("matched", matched).kv("size", (long)es.size());
  }
};

// a great backlog of events at few times comes out in order of time, then of arrival
template <class P, class C> void mass(std::mt19937_64 &rng, long n, int ntimes) {
  Driver<P, C> d(-1);
  std::vector<std::pair<int64_t, long>> want;
  for (long i = 0; i < n; ++i) {
    const int64_t t = (int64_t)(rng() % ntimes) - ntimes / 2;
    P p; mk(i, p);
    d.es.schedule_event(at(t), p);
    want.emplace_back(t, i);
  }
  std::stable_sort(want.begin(), want.end(), [](auto &a, auto &b) { return a.first < b.first; });
  bool matched = (long)d.es.size() == n;
  for (long i = 0; matched && i < n; ++i) {
    matched = (long)d.es.size() == n - i && ns(d.es.top_event().time) == want[i].first && value(d.es.top_event().payload) == want[i].second;
    d.es.pop_event();
  }
  Ev("Mass").kv("n", n).kv("matched", matched).kv("size", (long)d.es.size());
}
template <class P, class C>
void random_episode(std::mt19937_64 &rng, long cap, int len, int ntimes, int bias, bool extreme) {
  Driver<P, C> d(cap);
  std::vector<int64_t> times;
  for (int i = 0; i < ntimes; ++i) {
    int64_t t = (int64_t)rng() >> (extreme ? 0 : 20 + rng() % 40);
    times.push_back(t);
  }
  if (extreme) { times.push_back(INT64_MIN); times.push_back(INT64_MAX); times.push_back(0); times.push_back(-1); 
                 times.push_back((int64_t)1 << 32); times.push_back(((int64_t)1 << 32) + 1); times.push_back((int64_t)1 << 53); times.push_back(((int64_t)1 << 53) + 1);}
  int drift = bias;
  for (int i = 0; i < len; ++i) {
    if (rng() % 29 == 0) d.copy((int)(rng() % 3));
    if (rng() % 37 == 0) drift = 20 + rng() % 60;
    if ((int)(rng() % 100) < drift) d.schedule(times[rng() % times.size()]);
    else d.pop();
  }
  d.drain();
  d.schedule(times[0]);
}
}  // namespace

int main(int argc, char **argv) {
  const long seed = atol(argv[1]);
  const int episodes = atoi(argv[2]);
  const char *script = argv[3];
  vt::open(argv[4]);
  std::mt19937_64 rng(seed);

  // behaviours generated from the specification
  std::ifstream in(script);
  std::string line;
  const int64_t base[] = {0, 1, -1};
  while (std::getline(in, line)) {
    std::istringstream ss(line);
    Driver<long, uint64_t> d(-1);
    std::string tok;
    while (ss >> tok) {
      if (tok == "P") d.pop();
      else d.schedule(std::stol(tok.substr(1)) - 2);
    }
  }
  // random histories
  for (int i = 0; i < episodes; ++i) {
    const int len = 20 + rng() % 180, nt = 1 + rng() % 6, bias = 40 + rng() % 35;
    switch (i % 4) {
      case 0: random_episode<long, uint64_t>(rng, -1, len, nt, bias, false); break;
      case 1: random_episode<long, uint64_t>(rng, -1, len, nt, bias, true); break;
      case 2: random_episode<std::string, uint64_t>(rng, -1, len, nt, bias, true); break;
      case 3: random_episode<std::string, uint8_t>(rng, 255, 500, nt, bias, true); break;
    }
  }
  mass<long, uint64_t>(rng, 300000, 3);
  mass<long, uint64_t>(rng, 100000, 70000);
  mass<std::string, uint64_t>(rng, 5000, 40);
  // counter exhaustion: many lifetimes' worth of churn
  {
    Driver<long, uint16_t> d(65535);
    d.churn(65000, 7);
    for (int i = 0; i < 300; ++i) d.schedule(i % 3);
    for (int i = 0; i < 100; ++i) d.pop();
    for (int i = 0; i < 300; ++i) d.schedule(i % 2);
    d.drain();
    d.schedule(1); d.schedule(0); d.churn(5, 0);
  }
  for (int k = 250; k <= 257; ++k) {
    Driver<long, uint8_t> d(255);
    d.churn(k, 3);
    for (int i = 0; i < 8; ++i) d.schedule(5 - i % 3);
    d.drain();
    d.schedule(1);
  }
  // default counter width keeps order over a long life with a backlog
  {
    Driver<long, uint64_t> d(-1);
    d.churn(70000, 1);
    for (int i = 0; i < 50; ++i) d.schedule(i % 2);
    d.drain();
  }
  for (int width : {8, 10, 12, 14, 15, 16, 17, 18, 20, 24}) {
    // a backlog across the boundary of a smaller counter, in a wide counter
    Driver<long, uint64_t> d(-1);
    d.churn((1L << width) - 6, 1);
    for (int i = 0; i < 12; ++i) d.schedule(4);
    d.drain();
  }
  return vt::done();
}
