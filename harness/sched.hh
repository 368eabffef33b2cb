// A cooperative scheduler: managed threads run one at a time and hand over at lock operations, one-time
// initialisation, (optionally) memory allocations and - in sources compiled with -fsanitize=thread, whose hooks are
// defined here instead of by its run-time library - at any memory access.  Choices are replayed from S->prefix, then
// drawn at random or left to the running thread.
#pragma once
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdint.h>
#include <sys/mman.h>
#include <unistd.h>

#include <map>
#include <new>
#include <thread>
#include <vector>

#include "trace.hh"

constexpr int MAXT = 4, MAXC = 4000;
struct Shared {
  int nchoices;
  unsigned char avail[MAXC], pick[MAXC], preempt[MAXC];  // enabled threads, chosen index, 1 if index 0 = go on
  int prefix_len;
  unsigned char prefix[MAXC];
  int free_run;
};
static Shared *S;

template <class F>
static F real(const char *name) { return (F)dlsym(RTLD_NEXT, name); }

static thread_local int me = -1;
static thread_local bool inside = false;
static bool coop = false;
static bool alloc_yields = false, mem_yields = false;
static uint64_t mem_rate = 300;
static int streak = 0;  // instrumented atomic operations since the last hand-over
static uint64_t rnd_state = 0;
static bool random_mode = false;
static int nthreads = 0;
static sem_t sems[MAXT];
static bool done_[MAXT];
static const void *blocked[MAXT];
constexpr int TRUSTED_FREE_RUNS = 3;  // after that many executions stuck in primitives we do not control, threads run freely

static uint64_t rnd() {
  rnd_state ^= rnd_state << 13; rnd_state ^= rnd_state >> 7; rnd_state ^= rnd_state << 17;
  return rnd_state;
}
[[noreturn]] static void finish(const char *what) {
  inside = true;
  coop = false;
  vt::Ev(what).kv("x", 0);
  fflush(vt::out);
  _exit(0);
}
static void wait_turn() {
  while (sem_wait(&sems[me]) && errno == EINTR) {}
}
// pick who runs next among the enabled threads; index 0 is the current thread if it can go on
static void reschedule() {
  if (!coop) return;
  int en[MAXT], n = 0;
  bool self = !done_[me] && !blocked[me];
  if (self) en[n++] = me;
  for (int i = 0; i < nthreads; ++i)
    if (i != me && !done_[i] && !blocked[i]) en[n++] = i;
  if (n == 0) {
    bool all = true;
    for (int i = 0; i < nthreads; ++i) all = all && done_[i];
    if (all) return;
    finish("Deadlock");
  }
  int k = 0;
  if (n > 1) {
    int c = S->nchoices;
    if (c < S->prefix_len) k = S->prefix[c] % n;
    else if (random_mode) k = self ? (rnd() % 3 == 0 ? (int)(rnd() % n) : 0) : (int)(rnd() % n);
    if (c < MAXC) {
      S->avail[c] = n;
      S->pick[c] = k;
      S->preempt[c] = self;
      S->nchoices++;
    }
  }
  int to = en[k];
  if (to == me) return;
  sem_post(&sems[to]);
  if (!done_[me]) wait_turn();
}
// hand over to somebody else, whoever the choices would have run
static void give_way() {
  int en[MAXT], n = 0;
  for (int i = 0; i < nthreads; ++i)
    if (i != me && !done_[i] && !blocked[i]) en[n++] = i;
  if (n == 0 || !coop) return;
  sem_post(&sems[en[rnd() % n]]);
  wait_turn();
}
static void yield_point() {
  if (me < 0 || inside || !coop) return;
  inside = true;
  reschedule();
  inside = false;
}
static void block_on(const void *x) {
  inside = true;
  blocked[me] = x;
  reschedule();
  inside = false;
}
static void wake(const void *x) {
  for (int i = 0; i < nthreads; ++i)
    if (blocked[i] == x) blocked[i] = nullptr;
}
#define MANAGED (me >= 0 && !inside && coop)

extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) noexcept {
  static auto lock = real<int (*)(pthread_mutex_t *)>("pthread_mutex_lock");
  static auto trylock = real<int (*)(pthread_mutex_t *)>("pthread_mutex_trylock");
  if (!MANAGED) return lock(m);
  yield_point();
  for (;;) {
    int r = trylock(m);
    if (r != EBUSY) return r;
    if (!MANAGED) return lock(m);
    block_on(m);
  }
}
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept {
  static auto f = real<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock");
  int r = f(m);
  if (MANAGED) {
    wake(m);
    yield_point();
  }
  return r;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m) noexcept {
  static auto lock = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_wrlock");
  static auto trylock = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_trywrlock");
  if (!MANAGED) return lock(m);
  yield_point();
  for (;;) {
    int r = trylock(m);
    if (r != EBUSY) return r;
    if (!MANAGED) return lock(m);
    block_on(m);
  }
}
int pthread_rwlock_rdlock(pthread_rwlock_t *m) noexcept {
  static auto lock = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_rdlock");
  static auto trylock = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_tryrdlock");
  if (!MANAGED) return lock(m);
  yield_point();
  for (;;) {
    int r = trylock(m);
    if (r != EBUSY) return r;
    if (!MANAGED) return lock(m);
    block_on(m);
  }
}
int pthread_rwlock_unlock(pthread_rwlock_t *m) noexcept {
  static auto f = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_unlock");
  int r = f(m);
  if (MANAGED) {
    wake(m);
    yield_point();
  }
  return r;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  static auto f = real<int (*)(pthread_cond_t *, pthread_mutex_t *)>("pthread_cond_wait");
  static auto unlock = real<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock");
  if (!MANAGED) return f(c, m);
  unlock(m);
  wake(m);
  block_on(c);
  return pthread_mutex_lock(m);
}
int pthread_cond_signal(pthread_cond_t *c) noexcept {
  static auto f = real<int (*)(pthread_cond_t *)>("pthread_cond_signal");
  if (MANAGED) wake(c);
  return f(c);
}
int pthread_cond_broadcast(pthread_cond_t *c) noexcept {
  static auto f = real<int (*)(pthread_cond_t *)>("pthread_cond_broadcast");
  if (MANAGED) wake(c);
  return f(c);
}
static int timed_wait(pthread_mutex_t *m) {  // time is not modelled: it has passed
  static auto unlock = real<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock");
  unlock(m);
  wake(m);
  inside = true;
  give_way();
  inside = false;
  pthread_mutex_lock(m);
  return ETIMEDOUT;
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) {
  static auto f = real<int (*)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *)>("pthread_cond_timedwait");
  return MANAGED ? timed_wait(m) : f(c, m, t);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) {
  static auto f = real<int (*)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *)>("pthread_cond_clockwait");
  return MANAGED ? timed_wait(m) : f(c, m, k, t);
}
// one-time initialisation: somebody else waits until it is over
int __cxa_guard_acquire(uint64_t *g) noexcept {
  using Fn = int (*)(uint64_t *);
  static Fn f = nullptr;  // (no guard of its own)
  if (!f) f = real<Fn>("__cxa_guard_acquire");
  if (!MANAGED) return f(g);
  char *b = (char *)g;
  yield_point();
  for (;;) {
    if (b[0]) return 0;
    if (!b[1]) { b[1] = 1; return 1; }
    block_on(g);
  }
}
void __cxa_guard_release(uint64_t *g) noexcept {
  using Fn = void (*)(uint64_t *);
  static Fn f = nullptr;  // (no guard of its own)
  if (!f) f = real<Fn>("__cxa_guard_release");
  if (!MANAGED) return f(g);
  ((char *)g)[1] = 0;
  ((char *)g)[0] = 1;
  wake(g);
  yield_point();
}
void __cxa_guard_abort(uint64_t *g) noexcept {
  using Fn = void (*)(uint64_t *);
  static Fn f = nullptr;  // (no guard of its own)
  if (!f) f = real<Fn>("__cxa_guard_abort");
  if (!MANAGED) return f(g);
  ((char *)g)[1] = 0;
  wake(g);
}
int pthread_once(pthread_once_t *o, void (*init)(void)) {
  static auto f = real<int (*)(pthread_once_t *, void (*)(void))>("pthread_once");
  if (!MANAGED) return f(o, init);
  yield_point();
  while (*o == 1) block_on(o);
  if (*o == 2) return 0;
  *o = 1;
  try { init(); } catch (...) { *o = 0; wake(o); throw; }
  *o = 2;
  wake(o);
  return 0;
}
int sched_yield() noexcept {
  static auto f = real<int (*)()>("sched_yield");
  if (MANAGED) { inside = true; give_way(); inside = false; return 0; }
  return f();
}
}
void *operator new(std::size_t n) {
  if (alloc_yields && MANAGED && rnd() % 4 == 0) yield_point();
  void *p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, std::size_t) noexcept { free(p); }

// instrumented sources
static inline void on_access() {
  if (mem_yields && MANAGED && rnd() % mem_rate == 0) {
    inside = true;
    give_way();
    inside = false;
  }
}
static inline void on_atomic() {
  if (!MANAGED) return;
  if (++streak > 200 || (random_mode && rnd() % 4 == 0)) {  // do not spin for ever
    streak = 0;
    inside = true;
    give_way();
    inside = false;
  }
}
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **, void *) { on_access(); }
void __tsan_vptr_read(void **) { on_access(); }
void __tsan_read_range(void *, size_t) { on_access(); }
void __tsan_write_range(void *, size_t) { on_access(); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { on_access(); return __builtin_memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { on_access(); return __builtin_memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { on_access(); return __builtin_memset(d, c, n); }
#define TSAN_RW(n) \
  void __tsan_read##n(void *) { on_access(); } \
  void __tsan_write##n(void *) { on_access(); } \
  void __tsan_read_write##n(void *) { on_access(); } \
  void __tsan_unaligned_read##n(void *) { on_access(); } \
  void __tsan_unaligned_write##n(void *) { on_access(); } \
  void __tsan_unaligned_read_write##n(void *) { on_access(); }
TSAN_RW(1) TSAN_RW(2) TSAN_RW(4) TSAN_RW(8) TSAN_RW(16)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}
#define TSAN_ATOMIC(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T *a, int) { on_atomic(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##bits##_store(volatile T *a, T v, int) { on_atomic(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { on_atomic(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { on_atomic(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { on_atomic(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { on_atomic(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { on_atomic(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { on_atomic(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int) { on_atomic(); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { on_atomic(); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { on_atomic(); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int) { on_atomic(); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
TSAN_ATOMIC(8, uint8_t) TSAN_ATOMIC(16, uint16_t) TSAN_ATOMIC(32, uint32_t) TSAN_ATOMIC(64, uint64_t)
}

static void on_alarm(int) {
  // a blocking primitive we do not control: let everybody run
  static int n = 0;
  if (n++) { static const char m[] = "{\"ev\":\"Hang\"}\n"; fflush(vt::out); if (write(fileno(vt::out), m, sizeof m - 1)) {} _exit(0); }
  coop = false;
  S->free_run++;
  for (int i = 0; i < nthreads; ++i) sem_post(&sems[i]);
  alarm(20);
}
template <class T>
static T *shared() {
  void *p = mmap(nullptr, sizeof(T), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) exit(97);
  return (T *)p;
}
static void prepare(uint64_t seed) {
  S->nchoices = 0;
  rnd_state = seed * 2654435761u + 88172645463325252ull;
  for (int i = 0; i < 5; ++i) rnd();
  mem_rate = 3ull << (rnd() % 11);
}
// run f(0) .. f(n-1) as managed threads; in f, "inside" is on outside the code under test
template <class F>
static void run_threads(int n, F f) {
  signal(SIGALRM, on_alarm);
  alarm(10);
  nthreads = n;
  for (int i = 0; i < n; ++i) sem_init(&sems[i], 0, 0);
  const bool managed = S->free_run < TRUSTED_FREE_RUNS;
  std::vector<std::thread> th;
  for (int i = 0; i < n; ++i)
    th.emplace_back([i, &f] {
      inside = true;
      me = i;
      wait_turn();
      inside = false;
      f(i);
      inside = true;
      done_[i] = true;
      reschedule();
    });
  coop = managed;
  int first = 0;
  if (n > 1) {
    int c = S->nchoices++;
    if (c < S->prefix_len) first = S->prefix[c] % n;
    else if (random_mode) first = rnd() % n;
    S->avail[c] = n;
    S->pick[c] = first;
    S->preempt[c] = 0;
  }
  if (managed) sem_post(&sems[first]);
  else for (int i = 0; i < n; ++i) sem_post(&sems[i]);
  for (auto &t : th) t.join();
  coop = false;
}
