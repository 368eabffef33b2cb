// C02: drives resim::visualization::ViewClient against a scripted server (cpr stand-in) and a scripted auth client.
//   view_client SEED NRANDOM SCRIPTFILE OUT
// SCRIPTFILE: one history per line, whitespace separated words:
//   C            a send_view_update call
//   <code>       the next answer of the server (consumed in order; when exhausted the server answers 201)
//   T / t        the next get_jwt call that would need a new token fails (throws) / nothing
#include <cpr/cpr.h>
#include <glog/logging.h>

#include <deque>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>

#include "resim/auth/auth_client_interface.hh"
#include "resim/transforms/frame.hh"
#include "resim/transforms/se3.hh"
#include "resim/utils/uuid.hh"
#include "resim/visualization/client/view_client.hh"
#include "resim/visualization/proto/view_update.pb.h"
#include "resim/visualization/proto/view_update_to_proto.hh"
#include "resim/visualization/view_update.hh"
#include "trace.hh"

using namespace resim;
namespace vz = resim::visualization;

struct Answer {
  int code;
  std::string text;
};
struct World {
  std::string base;
  std::deque<Answer> answers;
  int token = 0;          // generation of the current token
  bool have = true;       // a token is available
  int fail_next = 0;      // this many token acquisitions fail
  int nsession = 0;
  std::mt19937_64 rng;
} W;

static std::string digest(const std::string &s) { return std::to_string(s.size()) + ":" + std::to_string(std::hash<std::string>{}(s)); }

static std::string strip(const std::string &t) {
  std::string r;
  for (char c : t)
    if (c != '"' && c != '\n') r += c;
  return r;
}

// update numbers are logged as numbers when they are written canonically
static long number(const std::string &s) {
  if (s.empty() || s.size() > 9) return -1;
  long v = 0;
  for (char c : s) {
    if (c < '0' || c > '9') return -1;
    v = v * 10 + (c - '0');
  }
  return std::to_string(v) == s ? v : -1;
}

// a run of updates that all go the ordinary way is recorded as one event
struct Run {
  bool on = false;
  long n = 0;
  std::string sid, bearer, body;
  long first = 0;
} R;

cpr::Response vt_http(const cpr::VtRequest &q) {
  std::string kind = "other", sid, num;
  const std::string s = W.base + "/view/sessions";
  if (q.method == "POST" && q.url == s) {
    kind = "session";
  } else if (q.method == "POST" && q.url.rfind(s + "/", 0) == 0) {
    std::string rest = q.url.substr(s.size() + 1);
    auto p = rest.find("/updates/");
    if (p != std::string::npos) {
      kind = "update";
      sid = rest.substr(0, p);
      num = rest.substr(p + 9);
    }
  }
  auto ct = q.header.find("Content-Type");
  bool octet = ct != q.header.end() && ct->second == "application/octet-stream";
  if (R.on) {
    if (kind == "update" && octet && q.has_bearer && digest(q.body) == R.body && number(num) >= 0) {
      if (R.n == 0) R.sid = sid, R.bearer = q.bearer, R.first = number(num);
      if (sid == R.sid && q.bearer == R.bearer && number(num) == R.first + R.n) {
        R.n++;
        cpr::Response r;
        r.status_code = 201;
        r.text = "{}";
        return r;
      }
    }
    vt::Ev("Odd").kv("kind", kind).kv("sid", sid).kv("num", number(num)).kv("text", num).kv("expected", R.first + R.n).kv("url", q.url);
    cpr::Response r;
    r.status_code = 500;
    return r;
  }
  vt::Ev("Req").kv("kind", kind).kv("sid", sid).kv("num", number(num)).kv("bearer", q.has_bearer ? q.bearer : std::string("-")).kv("body", digest(q.body)).kv("octet", octet).kv("url", q.url);
  Answer a{201, ""};
  bool scripted = !W.answers.empty();
  if (scripted) a = W.answers.front(), W.answers.pop_front();
  if (kind == "session" && a.code == 201) {
    std::string id = "s" + std::to_string(++W.nsession) + UUID::new_uuid().to_string();
    if (W.rng() % 4 == 0) id += std::string(W.rng() % 600, '-') + "end";
    switch (W.rng() % 4) {
      case 0: a.text = id; break;
      case 1: a.text = "\"" + id + "\""; break;
      case 2: a.text = "\"" + id + "\"\n"; break;
      default: a.text = id + "\n"; break;
    }
  } else if (a.code == 201) {
    switch (W.rng() % 4) {
      case 0: a.text = ""; break;
      case 1: a.text = "{\"id\":\"x\",\"mcap\":\"m\",\"view\":\"https://x/y\"}"; break;
      case 2: a.text = "not json {"; break;
      default: a.text = "{\"unknown_field\":3}"; break;
    }
  } else {
    a.text = W.rng() % 2 ? "\"oops\"" : "";
  }
  vt::Ev("Ans").kv("code", a.code).kv("sid", kind == "session" && a.code == 201 ? strip(a.text) : std::string(""));
  cpr::Response r;
  r.status_code = a.code;
  r.text = a.text;
  if (!a.code) r.error.code = cpr::ErrorCode::CONNECTION_FAILURE;
  return r;
}

struct Auth : auth::AuthClientInterface {
  std::string get_jwt() override {
    if (!W.have) {
      if (W.fail_next > 0) {
        W.fail_next--;
        vt::Ev("Jwt").kv("ok", false).kv("tok", "");
        throw std::runtime_error("no token");
      }
      W.have = true;
      W.token++;
    }
    if (!R.on) vt::Ev("Jwt").kv("ok", true).kv("tok", "tok" + std::to_string(W.token));
    return "tok" + std::to_string(W.token);
  }
  void refresh() override {
    W.have = false;
    vt::Ev("Refresh");
  }
};

struct Op {
  char k;
  int code;
};

static vz::ViewUpdate make_update(int n) {
  vz::ViewUpdate u;
  // mostly small; sometimes nothing at all, sometimes large
  int m = n % 17 == 16 ? 0 : n % 29 == 28 ? 2500 : 1 + n % 3;
  for (int i = 0; i < m; ++i) {
    vz::ViewPrimitive p{.id = UUID::new_uuid(), .payload = transforms::SE3{Eigen::Vector3d{double(n), double(i), 1}}, .user_defined_name = std::nullopt, .file_name = "f", .line_number = n};
    if (i % 2) p.user_defined_name = "name" + std::to_string(n);
    if (n % 4 == 3) p.payload = transforms::Frame<3>::new_frame();
    u.primitives.push_back(p);
  }
  return u;
}

// a client with its own server, driven step by step so that several can be interleaved
struct Client {
  World w;
  vz::ViewClient client;
  std::vector<Op> ops;
  size_t i = 0;
  int n = 0;
  char *buf = nullptr;
  size_t len = 0;
  FILE *mem = nullptr;
  Client(const std::vector<Op> &o, const std::string &base, uint64_t seed) : client{base}, ops{o} {
    mem = open_memstream(&buf, &len);
    if (!mem) exit(97);
    w.rng.seed(seed);
    w.base = base;
    w.have = seed % 3 != 0;
    in([&] { vt::Ev("Begin").kv("base", base); });
    client.set_auth_client(std::make_unique<Auth>());
  }
  // run f with this client's world current and its own trace
  template <class F>
  void in(F f) {
    FILE *keep = vt::out;
    vt::out = mem;
    std::swap(W, w);
    f();
    std::swap(W, w);
    vt::out = keep;
  }
  bool step() {
    bool any = false;
    in([&] { any = step_in(); });
    return any;
  }
  bool step_in() {
    // answers belong to the call they are listed after
    while (i < ops.size() && ops[i].k != 'C' && ops[i].k != 'R') i++;
    if (i >= ops.size()) return false;
    if (ops[i].k == 'R') {
      run(ops[i++].code);
      return true;
    }
    i++;
    W.answers.clear();
    W.fail_next = 0;
    for (; i < ops.size() && ops[i].k != 'C' && ops[i].k != 'R'; ++i) {
      if (ops[i].k == 'A') W.answers.push_back({ops[i].code, ""});
      else if (ops[i].k == 'T') W.fail_next++;
    }
    vz::ViewUpdate u = make_update(n++);
    vz::proto::ViewUpdate m;
    vz::proto::pack(u, &m);
    vt::Ev("Call").kv("body", digest(m.SerializeAsString()));
    bool ok = false;
    try {
      ok = client.send_view_update(u).ok();
    } catch (const std::exception &) {
      ok = false;
    }
    vt::Ev("Ret").kv("ok", ok);
    return true;
  }
  void run(int k) {
    vz::ViewUpdate u = make_update(0);
    vz::proto::ViewUpdate m;
    vz::proto::pack(u, &m);
    R = Run{};
    R.body = digest(m.SerializeAsString());
    bool all = true;
    R.on = true;
    for (int j = 0; j < k && all; ++j) {
      try { all = client.send_view_update(u).ok() && R.n == j + 1; } catch (const std::exception &) { all = false; }
    }
    R.on = false;
    vt::Ev("Run").kv("n", R.n).kv("all", all).kv("sid", R.sid).kv("bearer", R.bearer).kv("first", R.first);
  }
  void finish() {
    fclose(mem);
    fwrite(buf, 1, len, vt::out);
    free(buf);
  }
};
static void history(const std::vector<Op> &ops, const std::string &base, uint64_t seed) {
  Client c{ops, base, seed};
  while (c.step()) {}
  c.finish();
}
// several clients alive at once, their calls interleaved: each keeps to its own session
static void together(const std::vector<std::vector<Op>> &all, uint64_t seed) {
  std::mt19937_64 g(seed);
  std::vector<std::unique_ptr<Client>> cs;
  for (size_t i = 0; i < all.size(); ++i) cs.push_back(std::make_unique<Client>(all[i], i % 2 ? "http://h" : "http://g", seed + i));
  std::vector<size_t> live;
  for (size_t i = 0; i < cs.size(); ++i) live.push_back(i);
  while (!live.empty()) {
    size_t k = g() % live.size();
    if (!cs[live[k]]->step()) live.erase(live.begin() + k);
  }
  for (auto &c : cs) c->finish();
}

int main(int argc, char **argv) {
  if (argc != 5) return 97;
  uint64_t seed = strtoull(argv[1], nullptr, 10);
  int nr = atoi(argv[2]);
  vt::open(argv[4]);
  FLAGS_minloglevel = 4;
  FLAGS_logtostderr = true;
  setenv("HOME", "/nonexistent-verif", 1);
  std::ifstream in(argv[3]);
  std::string line;
  uint64_t k = seed * 1000003;
  while (std::getline(in, line)) {
    std::istringstream is(line);
    std::string w;
    std::vector<Op> ops;
    while (is >> w) {
      if (w == "C") ops.push_back({'C', 0});
      else if (w == "T") ops.push_back({'T', 0});
      else ops.push_back({'A', atoi(w.c_str())});
    }
    history(ops, "http://h", k++);
  }
  std::mt19937_64 g(seed);
  const int codes[] = {201, 201, 201, 201, 401, 401, 401, 500, 403, 404, 0, 200, 202, 204, 400, 503, -1, 301};
  std::vector<std::vector<Op>> group;
  for (int r = 0; r < nr; ++r) {
    std::vector<Op> ops;
    int calls = 1 + g() % (r % 10 == 0 ? 150 : r % 50 == 25 ? 600 : 12);
    for (int c = 0; c < calls; ++c) {
      ops.push_back({'C', 0});
      int na = g() % 5;
      for (int a = 0; a < na; ++a) {
        if (g() % 6 == 0) ops.push_back({'T', 0});
        else ops.push_back({'A', codes[g() % 18]});
      }
    }
    if (r % 3 == 2) {
      group.push_back(ops);
      if (group.size() == 3) together(group, k++), group.clear();
      continue;
    }
    history(ops, r % 7 == 1 ? "https://api.example/x" : "http://127.0.0.1:8080", k++);
  }
  // every answer there can be: to the session, to an update, to the repetition of either
  {
    std::vector<Op> all;
    for (int first : {0, 401})
      for (int code = 100; code < 600; ++code) {
        if (code == 201 || (!first && code == 401)) continue;
        all.push_back({'C', 0});
        if (first) all.push_back({'A', first});
        all.push_back({'A', code});
      }
    std::vector<Op> later{{'C', 0}};
    later.insert(later.end(), all.begin(), all.end());
    later.push_back({'C', 0});
    all.push_back({'C', 0});
    history(all, "http://h", 0);
    history(later, "http://h", 0);
  }
  // a long life: numbers go on across the limits of 8 and 16 bit counters, failures included
  history({{'C', 0}, {'R', 250}, {'C', 0}, {'A', 500}, {'C', 0}, {'A', 401}, {'R', 10}, {'C', 0}, {'A', 401}, {'A', 401}, {'C', 0},
           {'R', 32500}, {'C', 0}, {'A', 500}, {'R', 40000}, {'C', 0}, {'A', 401}, {'A', 201}, {'C', 0}}, "http://h", 1);
  // an empty endpoint is refused without contacting anybody
  history({{'C', 0}, {'C', 0}}, "", k++);
  return vt::done();
}
