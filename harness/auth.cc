// C03: token lifecycle of resim::auth::DeviceCodeClient across processes, crashes and polling histories.
//   auth SEED NRANDOM SCRIPTFILE SCRATCHDIR OUT
// Every process of a history is a forked child; a crash is _exit() inside the k-th file-system call of the operation
// (before it, after it, or half way through a write).  Time is virtual: clock_gettime and the sleeping calls are
// interposed.  Files live only under SCRATCHDIR.
// SCRIPTFILE: one history per line, words:
//   G:<fetch>    get_jwt; <fetch> = outcome if the server is asked: okN (token after N pending polls), deny (device
//                code refused), late (pending until the lifetime is over), dead (code without a lifetime), empty (empty token), junk (unparsable poll)
//   R            refresh      X  restart (new process)
//   E            the disk is full during the next operation (nothing, or half of the first write, gets through)
//   W            somebody else removes the directory of the token file
//   K            the next operation is killed at a file-system call (every call is tried), then a new process starts
#include <array>
#include <cpr/cpr.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <filesystem>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>

#include "resim/auth/device_code_client.hh"
#include "trace.hh"

// ------------------------------------------------------------------------------------------------ virtual world
struct Shared {      // survives the children
  long now_ns;       // virtual time
  int issued;        // tokens issued by the server
  int codes;         // device codes handed out
  int fscalls;       // file-system calls of the armed operation
  int crashed;
  int salt;          // which tokens are long
  int place;         // which token path is in use
  long wall_ns;      // how far the wall clock is off (it may jump; the steady clock does not)
  int jumpy;
};
static Shared *S;
static bool armed = false;   // count file-system calls and crash at crash_at
static int crash_at = 0;     // 0: never
static int full = 0;         // 1: writes fail, 2: the first write gets half through
static int crash_mode = 0;   // 0 before the call, 1 after it, 2 half way through a write
static bool vtime = false;

static void trace_flush() { fflush(vt::out); }

[[noreturn]] static void die() {
  armed = false;
  S->crashed = 1;
  vt::Ev("Crash").kv("at", S->fscalls);
  trace_flush();
  _exit(77);
}
struct Guard {
  bool mine;
  int n = 0;
  Guard() : mine(armed) {
    if (mine) {
      n = ++S->fscalls;
      if (n == crash_at && crash_mode == 0) die();
      armed = false;  // nested calls are not counted
    }
  }
  ~Guard() {
    if (mine) {
      int e = errno;
      armed = true;
      if (n == crash_at && crash_mode == 1) die();
      errno = e;
    }
  }
  bool fails() const { return mine && full == 1; }
  bool half_fails() const { return mine && full == 2; }
  bool half() const { return mine && n == crash_at && crash_mode == 2; }
};
template <class F>
static F real(const char *name) {
  F f = (F)dlsym(RTLD_NEXT, name);
  if (!f) { fprintf(stderr, "no %s\n", name); _exit(97); }
  return f;
}
#define REAL(name) static auto f = real<decltype(&name)>(#name)
extern "C" {
FILE *fopen(const char *p, const char *m) { REAL(fopen); Guard g; return f(p, m); }
FILE *fopen64(const char *p, const char *m) { REAL(fopen64); Guard g; return f(p, m); }
int open(const char *p, int fl, ...) {
  va_list a; va_start(a, fl); mode_t m = va_arg(a, mode_t); va_end(a);
  static auto f = real<int (*)(const char *, int, ...)>("open"); Guard g; return f(p, fl, m);
}
int open64(const char *p, int fl, ...) {
  va_list a; va_start(a, fl); mode_t m = va_arg(a, mode_t); va_end(a);
  static auto f = real<int (*)(const char *, int, ...)>("open64"); Guard g; return f(p, fl, m);
}
ssize_t write(int fd, const void *b, size_t n) {
  REAL(write); Guard g;
  if (g.half()) { f(fd, b, n / 2); die(); }
  if (g.fails()) { errno = ENOSPC; return -1; }
  if (g.half_fails() && n > 1) { full = 1; return f(fd, b, n / 2); }
  return f(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
  REAL(writev); Guard g;
  if (g.half()) { static auto w = real<ssize_t (*)(int, const void *, size_t)>("write"); if (n) w(fd, v[0].iov_base, v[0].iov_len / 2); die(); }
  if (g.fails()) { errno = ENOSPC; return -1; }
  if (g.half_fails() && n) { full = 1; return f(fd, v, 1); }
  return f(fd, v, n);
}
size_t fwrite(const void *p, size_t s, size_t n, FILE *fp) { REAL(fwrite); Guard g; if (g.fails() || g.half_fails()) { errno = ENOSPC; return 0; } return f(p, s, n, fp); }
int fclose(FILE *fp) { REAL(fclose); Guard g; return f(fp); }
int close(int fd) { REAL(close); Guard g; return f(fd); }
int mkdir(const char *p, mode_t m) noexcept { REAL(mkdir); Guard g; return f(p, m); }
int unlink(const char *p) noexcept { REAL(unlink); Guard g; return f(p); }
int unlinkat(int d, const char *p, int fl) noexcept { REAL(unlinkat); Guard g; return f(d, p, fl); }
int remove(const char *p) noexcept { REAL(remove); Guard g; return f(p); }
int rmdir(const char *p) noexcept { REAL(rmdir); Guard g; return f(p); }
int rename(const char *p, const char *q) noexcept { REAL(rename); Guard g; return f(p, q); }
int link(const char *p, const char *q) noexcept { REAL(link); Guard g; return f(p, q); }
int symlink(const char *p, const char *q) noexcept { REAL(symlink); Guard g; return f(p, q); }
int truncate(const char *p, off_t n) noexcept { REAL(truncate); Guard g; return f(p, n); }
int ftruncate(int d, off_t n) noexcept { REAL(ftruncate); Guard g; return f(d, n); }

int clock_gettime(clockid_t c, struct timespec *t) noexcept {
  static auto f = real<int (*)(clockid_t, struct timespec *)>("clock_gettime");
  if (!vtime) return f(c, t);
  long n = S->now_ns + (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? S->wall_ns : 0);
  t->tv_sec = n / 1000000000L;
  t->tv_nsec = n % 1000000000L;
  return 0;
}
static int vsleep(const struct timespec *r) {
  S->now_ns += r->tv_sec * 1000000000L + r->tv_nsec;
  return 0;
}
int nanosleep(const struct timespec *r, struct timespec *) { return vsleep(r); }
int clock_nanosleep(clockid_t c, int flags, const struct timespec *r, struct timespec *) {
  if (flags & TIMER_ABSTIME) {
    long t = r->tv_sec * 1000000000L + r->tv_nsec - (c == CLOCK_REALTIME ? S->wall_ns : 0);
    if (t > S->now_ns) S->now_ns = t;
    return 0;
  }
  return vsleep(r);
}
unsigned sleep(unsigned s) { struct timespec t{(time_t)s, 0}; vsleep(&t); return 0; }
int usleep(useconds_t u) { struct timespec t{(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; vsleep(&t); return 0; }
}

// ------------------------------------------------------------------------------------------------ server
struct Fetch {
  std::string kind = "ok";
  int pending = 0;      // pending answers before the final one
  int interval = 0, expires = 0, latency = 0;
};
static Fetch F;
static int polls_left;
static int polls;            // of the current operation
static std::string device_code;

static long nowsec() { return S->now_ns / 1000000000L; }

static std::string token_text(int i) {
  std::string t = "T" + std::to_string(i) + "#";
  const int form = (i + S->salt) % 4;
  if (form == 0) t += std::string(((i + S->salt) % 8 ? 30000 : 140000) + i, 'a' + i % 26);   // longer than any stream buffer
  if (form == 1) t += std::string(" with spaces\n and = / + %\ttab \r\r\n caf\xc3\xa9 \0 \x1a \x7f", 45);
  t += "#end" + std::to_string(i);
  if (form == 2) t += i % 2 ? " " : "\n";
  return t;
}
static std::string token_name(const std::string &t) {
  if (t.empty()) return "empty";
  for (int i = 1; i <= S->issued; ++i)
    if (token_text(i) == t) return "T" + std::to_string(i);
  return "corrupt";
}
static std::string field(const std::string &json, const std::string &name) {
  auto p = json.find("\"" + name + "\"");
  if (p == std::string::npos) return "<none>";
  p = json.find('"', json.find(':', p));
  auto q = json.find('"', p + 1);
  return json.substr(p + 1, q - p - 1);
}

cpr::Response vt_http(const cpr::VtRequest &q) {
  bool was = armed;
  armed = false;
  cpr::Response r;
  auto ct = q.header.find("Content-Type");
  bool json = q.method == "POST" && ct != q.header.end() && ct->second == "application/json";
  if (q.url == "http://auth/oauth/device/code") {
    bool good = json && field(q.body, "client_id") == "the client" && field(q.body, "scope") == "the scope" && field(q.body, "audience") == "the audience";
    vt::Ev("Req").kv("kind", "code").kv("t", nowsec()).kv("good", good);
    device_code = "dc" + std::to_string(++S->codes);
    polls_left = F.pending;
    if (F.kind == "deny") {
      r.status_code = std::array{403, 500, 400, 401, 404, 429, 503, 302}[S->codes % 8];
      r.text = "{\"device_code\":\"dcx\",\"expires_in\":100,\"interval\":1}";
    } else if (F.kind == "junkcode") {
      r.status_code = 200;
      r.text = "<html>";
    } else {
      r.status_code = 200;
      r.text = "{\"device_code\":\"" + device_code + "\",\"user_code\":\"u\",\"verification_uri\":\"v\",\"expires_in\":" + std::to_string(F.expires) + ",\"interval\":" + std::to_string(F.interval) + ",\"verification_uri_complete\":\"w\"}";
    }
    vt::Ev("CodeAns").kv("ok", F.kind != "deny" && F.kind != "junkcode").kv("interval", F.interval).kv("expires", F.expires).kv("t", nowsec());
  } else if (q.url == "http://auth/oauth/token") {
    bool good = json && field(q.body, "client_id") == "the client" && field(q.body, "device_code") == device_code && field(q.body, "grant_type") == "urn:ietf:params:oauth:grant-type:device_code";
    vt::Ev("Req").kv("kind", "poll").kv("t", nowsec()).kv("good", good);
    if (++polls > 600) {  // no generated lifetime holds that many: the client never stops
      vt::Ev("Runaway").kv("polls", polls);
      trace_flush();
      _exit(96);
    }
    S->now_ns += (long)F.latency * 1000000000L;  // the answer takes its time
    if (S->jumpy) S->wall_ns = (long)((polls * 2654435761u + S->jumpy) % 200001 - 100000) * 1000000000L;
    std::string res;
    if (polls_left != 0) {
      if (polls_left > 0) polls_left--;
      r.status_code = std::array{403, 400, 428, 429, 200}[polls % 5];
      r.text = polls % 7 == 3 ? "{\"error\":\"authorization_pending\",\"access_token\":\"not yet\"}" : polls_left % 2 ? "{\"error\":\"authorization_pending\",\"error_description\":\"wait\"}" : "{\"error\":\"slow_down\"}";
      res = "pending";
    } else if (F.kind == "empty") {
      r.status_code = 200;
      r.text = "{\"access_token\":\"\",\"expires_in\":10,\"token_type\":\"Bearer\"}";
      res = "empty";
    } else if (F.kind == "none") {
      r.status_code = 200;
      r.text = "{}";
      res = "empty";
    } else if (F.kind == "junk") {
      r.status_code = 502;
      r.text = "<html>bad gateway";
      res = "junk";
    } else {
      int i = ++S->issued;
      r.status_code = 200;
      std::string t = token_text(i), e;
      for (char c : t) {
        if (c == '\n') e += "\\n";
        else if (c == '\t') e += "\\t";
        else if (c == '\r') e += "\\r";
        else if (c == 0) e += "\\u0000";
        else if (c == 0x1a) e += "\\u001a";
        else e += c;
      }
      r.text = "{\"access_token\":\"" + e + "\",\"expires_in\":86400,\"token_type\":\"Bearer\"}";
      res = "T" + std::to_string(i);
    }
    vt::Ev("PollAns").kv("res", res).kv("t", nowsec());
  } else {
    vt::Ev("Req").kv("kind", "other").kv("t", nowsec()).kv("good", false);
    r.status_code = 404;
  }
  trace_flush();
  armed = was;
  return r;
}

// ------------------------------------------------------------------------------------------------ histories
static std::string dir;

struct Op {
  char k;  // G R X K B E W
  Fetch f;
};

// runs ops [i..] in one child until restart, crash or end; returns index of the next op
static size_t run_process(const std::vector<Op> &ops, size_t i, int k, int mode, bool &crashed, int &fs) {
  trace_flush();
  S->crashed = 0;
  size_t j = i;
  size_t stop = i;
  while (stop < ops.size() && ops[stop].k != 'X') {
    if (ops[stop].k == 'K') { stop += 2; break; }  // K and its operation end this process
    stop++;
  }
  if (stop > ops.size()) stop = ops.size();
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(97); }
  if (pid == 0) {
    vtime = true;
    int dn = ::open("/dev/null", O_WRONLY);
    dup2(dn, 1);
    vt::Ev("Proc");
    auto make = [] {
      const std::string where = dir + (S->place ? "/other" + std::to_string(S->place) + "/token" : "/sub/.resim/token");
      return std::make_unique<resim::auth::DeviceCodeClient>(resim::auth::DeviceCodeClient::Config{.server = "http://auth", .client_id = "the client", .scope = "the scope", .audience = "the audience", .token_path = where});
    };
    auto client = make();
    std::vector<decltype(client)> others;  // earlier clients of this process live on
    bool kill_next = false, full_next = false;
    for (; j < stop; ++j) {
      const Op &o = ops[j];
      if (o.k == 'K') { kill_next = true; continue; }
      if (o.k == 'E') { full_next = true; continue; }
      if (o.k == 'W') {
        std::error_code ec;
        std::filesystem::remove_all(dir + (S->place ? "/other" + std::to_string(S->place) : "/sub"), ec);
        vt::Ev("Wipe");
        continue;
      }
      if (o.k == 'B') {  // another client with a token file of its own, independent of the first: a history of its own
        S->place++;
        vt::Ev("Begin").kv("init", 0);
        vt::Ev("Proc");
        others.push_back(std::move(client));
        client = make();
        continue;
      }
      F = o.f;
      polls = 0;
      full = full_next ? 1 + (S->codes + S->salt) % 2 : 0;
      vt::Ev(o.k == 'G' ? "Get" : "Refresh").kv("full", full != 0);
      trace_flush();
      S->fscalls = 0;
      crash_at = kill_next ? k : 0;
      crash_mode = mode;
      std::string res;
      if (o.k == 'G') {
        try {
          armed = true;
          std::string t = client->get_jwt();
          armed = false;
          res = token_name(t);
        } catch (const std::exception &e) {
          armed = false;
          res = "error";
        }
        vt::Ev("GetRet").kv("res", res).kv("t", nowsec());
      } else {
        bool ok = true;
        try {
          armed = true;
          client->refresh();
          armed = false;
        } catch (const std::exception &) {
          armed = false;
          ok = false;
        }
        vt::Ev("RefreshRet").kv("ok", ok);
      }
      kill_next = full_next = false;
      full = 0;
      trace_flush();
    }
    trace_flush();
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  crashed = WIFEXITED(st) && WEXITSTATUS(st) == 77 && S->crashed;
  if (!crashed && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
    fprintf(stderr, "child died: status %d\n", st);
    trace_flush();
    exit(96);  // the code under test took the process down
  }
  fs = S->fscalls;
  if (stop < ops.size() && ops[stop].k == 'X') stop++;
  return stop;
}

// one history with the n-th K killed at call ks[n] in mode; returns false if some kill point lies beyond the last call
static bool history(const std::vector<Op> &ops, const std::vector<int> &ks, const std::vector<int> &modes, int init) {
  std::error_code ec;
  std::filesystem::remove_all(dir, ec);
  std::filesystem::create_directories(dir);
  if (init == 1) {  // left over by an interrupted process: an empty file
    std::filesystem::create_directories(dir + "/sub/.resim");
    std::ofstream(dir + "/sub/.resim/token").close();
  }
  S->now_ns = 1000L * 1000000000L;
  S->issued = S->codes = 0;
  S->place = 0;
  S->wall_ns = 0;
  static int count = 0;
  if (init == 0 && count % 7 == 3) {  // the directory of the token lies elsewhere
    std::filesystem::create_directories(dir + "/elsewhere");
    std::filesystem::create_directory_symlink(dir + "/elsewhere", dir + "/sub");
  }
  S->salt = count++;
  S->jumpy = count % 3 == 2 ? count : 0;
  vt::Ev("Begin").kv("init", init);
  size_t i = 0, nk = 0;
  bool all = true;
  while (i < ops.size()) {
    bool crashed = false;
    int fs = 0;
    bool hask = false;
    for (size_t j = i; j < ops.size() && ops[j].k != 'X'; ++j)
      if (ops[j].k == 'K') { hask = true; break; }
    int k = hask && nk < ks.size() ? ks[nk] : 0, m = hask && nk < modes.size() ? modes[nk] : 0;
    i = run_process(ops, i, k, m, crashed, fs);
    if (hask) {
      nk++;
      if (!crashed && k > fs) all = false;
    }
  }
  return all;
}

static Fetch parse(const std::string &w, std::mt19937_64 &g) {
  Fetch f;
  f.interval = 1 + g() % 7;
  f.expires = 100;
  f.latency = 0;
  if (w.rfind("ok", 0) == 0) f.pending = atoi(w.c_str() + 2);
  else if (w == "late") { f.pending = -1; f.expires = 3 * f.interval + (int)(g() % 3) - 1; }
  else if (w == "dead") f.expires = 0;
  else { f.kind = w; f.pending = g() % 3; }
  return f;
}

int main(int argc, char **argv) {
  if (argc != 6) return 97;
  uint64_t seed = strtoull(argv[1], nullptr, 10);
  int nr = atoi(argv[2]);
  dir = std::string(argv[4]) + "/auth-home";
  vt::open(argv[5]);
  S = (Shared *)mmap(nullptr, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (S == MAP_FAILED) return 97;
  std::mt19937_64 g(seed);
  std::ifstream in(argv[3]);
  std::string line;
  int init = 0;
  auto explore = [&](const std::vector<Op> &ops) {
    init = g() % 4 == 0 ? 1 : 0;
    int kills = 0;
    for (auto &o : ops) kills += o.k == 'K';
    if (!kills) {
      history(ops, {}, {}, init);
      return;
    }
    // every crash point and mode of the first kill; the others random
    for (int mode = 0; mode < 3; ++mode)
      for (int k = 1; k < 200; ++k) {
        std::vector<int> ks{k}, ms{mode};
        for (int x = 1; x < kills; ++x) ks.push_back(1 + g() % 12), ms.push_back(g() % 3);
        if (!history(ops, ks, ms, init)) break;
      }
  };
  while (std::getline(in, line)) {
    std::istringstream is(line);
    std::string w;
    std::vector<Op> ops;
    while (is >> w) {
      if (w[0] == 'G') ops.push_back({'G', parse(w.substr(2), g)});
      else ops.push_back({w[0], {}});
    }
    explore(ops);
  }
  const char *kinds[] = {"ok", "ok", "ok", "ok", "deny", "empty", "none", "junk", "junkcode", "late"};
  for (int r = 0; r < nr; ++r) {
    std::vector<Op> ops;
    int n = 1 + g() % 10;
    int kills = 0;
    for (int i = 0; i < n; ++i) {
      int c = g() % 10;
      if (c == 0 && kills == 0 && r % 4 == 0) { ops.push_back({'K', {}}); kills++; c = g() % 2 ? 9 : 2; }
      if (!kills && g() % 12 == 0) ops.push_back({g() % 2 ? 'E' : 'W', {}});
      if (c == 1) ops.push_back({(char)(kills == 0 && g() % 3 == 0 ? 'B' : 'X'), {}});
      else if (c <= 3) ops.push_back({'R', {}});
      else {
        Fetch f;
        f.kind = kinds[g() % 10];
        int sel = g() % 8;
        f.interval = sel == 0 ? 0 : sel == 1 ? 3600 : sel == 2 ? 1000000 : 1 + (int)(g() % 20);
        f.expires = sel == 3 ? 2000000000 : f.interval ? f.interval * (int)(1 + g() % 8) + (int)(g() % 3) - 1 : 50;
        if (g() % 12 == 0) f.expires = 0;
        f.latency = f.interval == 0 ? 1 : g() % 3 == 0 ? (int)(g() % 4) : 0;
        f.pending = g() % 6;
        if (f.kind == "late") {
          f.pending = -1;
          f.kind = "ok";
          if (f.expires / (f.interval + f.latency + 1) > 200) f.expires = 40 * (f.interval + f.latency);
        } else if (g() % 4 && f.expires != 0) {
          f.expires = f.expires > 1000000000 ? f.expires : (f.interval + f.latency) * 10 + 10;
        }
        ops.push_back({'G', f});
      }
    }
    explore(ops);
  }
  for (int r = 0; r < 8; ++r) {  // users who take their time
    Fetch f;
    f.interval = 1 + g() % 9;
    f.pending = r % 4 == 3 ? -1 : 40 + g() % 400;
    f.expires = f.pending < 0 ? 500 * f.interval : f.interval * (f.pending + 20);
    explore({{'G', f}, {'G', f}, {'X', {}}, {'G', f}});
  }
  std::error_code ec;
  std::filesystem::remove_all(dir, ec);
  return vt::done();
}
