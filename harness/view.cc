// C01: concurrent view calls through the whole client stack (View -> ViewClient -> DeviceCodeClient), scheduled
// cooperatively, against a scripted server.
//   HOME=<scratch> view SEED NRANDOM MAXDFS SCRIPTFILE OUT      (C01)
//   HOME=<scratch> view SEED NRANDOM system SCRIPTFILE OUT      (C20: several processes, expiring tokens)
// SCRIPTFILE lines: "<calls of thread 0> <calls of thread 1> ... | <answers>"
// Every execution is a forked child.  One thread runs at a time; it hands over at lock operations, at the HTTP
// boundary and (in random executions) at memory allocations.  The parent enumerates the choices depth first with a
// bounded number of preemptions, then samples.
#include <cpr/cpr.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <glog/logging.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#include <atomic>
#include <deque>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <new>
#include <sstream>
#include <thread>

#include "resim/visualization/proto/view_primitive_to_proto.hh"
#include "resim/visualization/proto/view_update.pb.h"
#include "resim/visualization/view.hh"
#include "resim/visualization/view_primitive.hh"
#include "trace.hh"

using namespace resim;
namespace vz = resim::visualization;

#include "sched.hh"

// the world outside the process (C20)
struct World {
  int issued, sessions;
  size_t ans_pos, deny_pos;
  int http_left;  // the process dies at this request (counting down), 0: never
};
static World *W;

// ------------------------------------------------------------------------------------------- server
static std::deque<int> answers;
static std::string base = "https://api.resim.ai";
static int tokens = 0;
static bool sys_mode = false;
static std::vector<int> denials;
static uint64_t deny_state = 0;  // != 0: the authorisation server sometimes refuses
static bool denied() {
  if (sys_mode && W->deny_pos < denials.size()) return denials[W->deny_pos++];
  if (!deny_state) return false;
  deny_state = deny_state * 6364136223846793005ull + 1442695040888963407ull;
  return (deny_state >> 60) < 6;
}

static std::string digest(const std::string &s) { return std::to_string(s.size()) + ":" + std::to_string(std::hash<std::string>{}(s)); }

static std::string payload_digest(const vz::proto::ViewPrimitive &p) {
  vz::proto::ViewPrimitive q{p};
  q.clear_id();
  q.clear_user_defined_name();
  q.clear_file_name();
  q.clear_line_number();
  return std::to_string((int)p.payload_case()) + "/" + digest(q.SerializeAsString());
}

static void maybe_die() {
  if (W->http_left > 0 && --W->http_left == 0) finish("Crash");
}
static long number(const std::string &s) {
  if (s.empty() || s.size() > 9) return -1;
  for (char c : s)
    if (c < '0' || c > '9') return -1;
  return std::to_string(atol(s.c_str())) == s ? atol(s.c_str()) : -1;
}

cpr::Response vt_http(const cpr::VtRequest &q) {
  bool was = inside;
  if (sys_mode) maybe_die();
  cpr::Response r;
  if (q.url.find("/oauth/device/code") != std::string::npos) {
    if (denied()) {
      inside = true;
      if (sys_mode) vt::Ev("Code").kv("ok", false);
      else vt::Ev("NoToken").kv("by", me);
      inside = was;
      yield_point();
      r.status_code = 403;
      r.text = "{}";
      return r;
    }
    if (sys_mode) {
      inside = true;
      vt::Ev("Code").kv("ok", true);
      inside = was;
    }
    r.status_code = 200;
    r.text = "{\"device_code\":\"d\",\"expires_in\":100,\"interval\":0}";
    return r;
  }
  if (q.url.find("/oauth/token") != std::string::npos) {
    r.status_code = 200;
    const std::string tok = "token" + std::to_string(sys_mode ? ++W->issued : ++tokens);
    if (sys_mode) {
      inside = true;
      vt::Ev("Issue").kv("tok", tok);
      inside = was;
    }
    r.text = "{\"access_token\":\"" + tok + "\"}";
    return r;
  }
  inside = true;
  std::string kind = "other";
  std::vector<vt::J> prims;
  if (q.url == base + "/view/sessions") kind = "session";
  else if (q.url.rfind(base + "/view/sessions/", 0) == 0) {
    kind = "update";
    vz::proto::ViewUpdate u;
    if (!u.ParseFromString(q.body)) kind = "garbled";
    for (const auto &p : u.primitive()) {
      std::string id = p.id().data();
      prims.push_back(vt::Obj().kv("id", id).kv("what", payload_digest(p)).kv("name", p.user_defined_name()).kv("file", p.file_name()).kv("line", p.line_number()).j());
    }
  }
  std::string usid, unum;
  if (kind == "update") {
    std::string rest = q.url.substr(base.size() + std::string("/view/sessions/").size());
    auto p = rest.find("/updates/");
    if (p == std::string::npos) kind = "other";
    else usid = rest.substr(0, p), unum = rest.substr(p + 9);
  }
  vt::Ev("Req").kv("kind", kind).kv("bearer", q.has_bearer ? q.bearer : std::string("-")).kv("sid", usid).kv("num", number(unum)).kv("by", me).kv("url", q.url).kv("body", digest(q.body)).kv("prims", prims);
  inside = was;
  yield_point();
  inside = true;
  int code = 201;
  std::string sid = "the-session";
  if (sys_mode) {
    if (W->ans_pos < answers.size()) code = answers[W->ans_pos++];
    sid = "";
    if (kind == "session" && code == 201) sid = "session-" + std::to_string(++W->sessions);
  } else if (!answers.empty()) code = answers.front(), answers.pop_front();
  r.status_code = code;
  static const char *const bodies[] = {"{}", "{\"id\":\"x\",\"mcap\":\"m\",\"view\":\"https://x/y\"}", "", "not json {", "{\"unknown_field\":3}"};
  r.text = kind == "session" && code == 201 ? "\"" + sid + "\"\n" : bodies[std::abs(number(unum)) % 5];
  vt::Ev("Ans").kv("code", code).kv("sid", sid);
  inside = was;
  yield_point();
  return r;
}

// ------------------------------------------------------------------------------------------- workload
struct Item {
  int kind, style;
  std::string name;
  int val = -1;  // equal values make equal objects
};
template <class T>
static void view_it(int t, const T &obj, const Item &it) {
  inside = true;
  vz::ViewPrimitive p{.id = UUID::new_uuid(), .payload = obj, .user_defined_name = std::nullopt, .file_name = "", .line_number = 0};
  vz::proto::ViewPrimitive m;
  vz::proto::pack(p, &m);
  std::string what = payload_digest(m);
  bool ok = true;
  std::string name = it.name;
  auto call = [&](const char *file, int line, bool named) {
    vt::Ev("Call").kv("t", t).kv("what", what).kv("file", file).kv("line", line).kv("name", named ? name : std::string(""));
    inside = false;
  };
  auto ret = [&] {
    inside = true;
    vt::Ev("Ret").kv("t", t).kv("ok", ok);
    ok = true;
  };
  auto attempt = [&](auto f) {
    try { f(); } catch (const std::exception &e) { ok = false; }
  };
  switch (it.style) {
    case 0:
      call("Unknown file", 0, false);
      attempt([&] { resim::view << obj; });
      break;
    case 1:
      call(__FILE__, __LINE__, true); attempt([&] { VIEW(obj) << name; });
      break;
    case 2:
      call(__FILE__, __LINE__, true); attempt([&] { VIEW(obj, name); });
      break;
    case 3: {  // what is at hand can be viewed again, under another name
      inside = false;
      const int line = __LINE__; auto held = VIEW(obj);
      for (int k = 0; k < 3; ++k) {
        inside = true;
        name = it.name + (k == 1 ? "again" : "");
        call(__FILE__, line, true);
        attempt([&] { held << name; });
        if (k < 2) ret();
      }
      break;
    }
    case 4: {  // a named one, then under another name
      const int line = __LINE__; std::optional<vz::ViewObject<T>> held; call(__FILE__, __LINE__, true); attempt([&] { held.emplace(VIEW(obj, name)); });
      if (!held) break;
      ret();
      name = it.name + "+";
      call(__FILE__, line, true);
      attempt([&] { *held << name; });
      break;
    }
    case 6:  // far down in a file that is called differently
#line 123456 "some dir/made up.cc"
      call(__FILE__, __LINE__, true); attempt([&] { VIEW(obj) << name; });
      break;
    case 7:
#line 70001 "some dir/made up.cc"
      call(__FILE__, __LINE__, true); attempt([&] { VIEW(obj, name); });
      break;
    case 8:
#line 7 "quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/quite_a_long_directory_name/file.cc"
      call(__FILE__, __LINE__, true); attempt([&] { VIEW(obj, name); });
      break;
#line 1 "view.cc"
    case 5: {  // chained
      vz::View *next = nullptr;
      call("Unknown file", 0, false);
      attempt([&] { next = &(resim::view << obj); });
      if (!next) break;
      ok = next == &resim::view;  // anything else is no view at all
      ret();
      call("Unknown file", 0, false);
      attempt([&] { *next << obj; });
      break;
    }
  }
  ret();
  inside = false;
}
static void flush_it(int t) {
  inside = true;
  bool ok = true;
  vt::Ev("Flush").kv("t", t);
  inside = false;
  try { resim::view.flush(); } catch (const std::exception &) { ok = false; }
  inside = true;
  vt::Ev("Ret").kv("t", t).kv("ok", ok);
  inside = false;
}
static void do_item(int t, int c, const Item &it) {
  using transforms::SE3;
  using transforms::SO3;
  using F = transforms::Frame<3>;
  inside = true;
  static std::map<std::pair<int, int>, std::pair<F, F>> kept;
  static std::mutex kept_mutex;
  double v = 1000 * t + (it.val >= 0 ? it.val : c + 500) + 1;  // no two threads ever view equal objects
  F fa = F::new_frame(), fb = F::new_frame();
  if (it.val >= 0) {
    std::lock_guard<std::mutex> g(kept_mutex);
    auto k = kept.emplace(std::pair{t, it.val}, std::pair{fa, fb}).first->second;
    fa = k.first, fb = k.second;
  }
  SE3 pose{Eigen::Vector3d{v, 2, 3}};
  switch (it.kind) {
    case 0: view_it(t, pose, it); break;
    case 1: view_it(t, SO3{v * 0.0001, Eigen::Vector3d::UnitX()}, it); break;
    case 2: {
      curves::DCurve<SE3> d{SE3::identity(), pose};
      view_it(t, d, it);
      break;
    }
    case 3: {
      curves::TCurve<SE3> tc;
      tc.append({.time = 0, .point = curves::TwoJetL<SE3>::identity()});
      tc.append({.time = v, .point = curves::TwoJetL<SE3>::identity()});
      view_it(t, tc, it);
      break;
    }
    case 4: {
      using State = actor::state::RigidBodyState<SE3>;
      pose.set_frames(fa, fb);
      time::Timestamp t0{std::chrono::seconds(1)};
      actor::state::Trajectory tr{{t0, State{pose}}, {t0 + std::chrono::seconds(1), State{pose}}};
      view_it(t, tr, it);
      break;
    }
    case 7: flush_it(t); break;
    case 5: view_it(t, fa, it); break;
    case 6: view_it(t, transforms::FramedVector<3>{Eigen::Vector3d{v, 0, 1}, fb}, it); break;
  }
}

static std::string home;
static void reset_token() {
  std::filesystem::create_directories(home + "/.resim");
  std::ofstream(home + "/.resim/view_token") << "token0";
}

static void child(const std::vector<std::vector<Item>> &work, const std::vector<int> &ans) {
  answers.assign(ans.begin(), ans.end());
  if (!sys_mode) vt::Ev("Begin").kv("threads", (int)work.size());
  run_threads(work.size(), [&](int i) {
    for (size_t c = 0; c < work[i].size(); ++c) do_item(i, c, work[i][c]);
  });
  vt::Ev("End").kv("x", 0);
  fflush(vt::out);
  _exit(0);
}

static void execute(const std::vector<std::vector<Item>> &work, const std::vector<int> &ans, uint64_t seed) {
  if (!sys_mode) reset_token();
  prepare(seed);
  fflush(vt::out);
  pid_t p = fork();
  if (p < 0) exit(97);
  if (p == 0) child(work, ans);
  int st;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
    if (WIFEXITED(st) && WEXITSTATUS(st) == 97) exit(97);
    vt::Ev("Died").kv("status", st);
    fflush(vt::out);
  }
}

// a life: processes one after the other on the same home directory
static void life(const std::vector<std::vector<std::vector<Item>>> &procs, const std::vector<int> &ans, bool token, std::mt19937_64 &g, bool crashes) {
  std::error_code ec;
  std::filesystem::remove_all(home + "/.resim", ec);
  if (token) reset_token();
  W->issued = W->sessions = 0;
  W->ans_pos = W->deny_pos = 0;
  vt::Ev("Begin").kv("file", token ? "token0" : "none");
  for (const auto &work : procs) {
    W->http_left = crashes && g() % 3 == 0 ? 1 + g() % 12 : 0;
    execute(work, ans, g());
    std::ifstream in(home + "/.resim/view_token");
    std::string t;
    if (in) {
      std::ostringstream ss;
      ss << in.rdbuf();
      t = ss.str();
      if (t.empty()) t = "none";  // no token either
    } else t = "none";
    vt::Ev("File").kv("tok", t);
  }
}

int main(int argc, char **argv) {
  if (argc != 6) return 97;
  sys_mode = std::string(argv[3]) == "system";
  uint64_t seed = strtoull(argv[1], nullptr, 10);
  int nr = atoi(argv[2]), maxdfs = atoi(argv[3]);
  home = getenv("HOME");
  vt::open(argv[5]);
  FLAGS_minloglevel = 4;
  FLAGS_logtostderr = true;
  int devnull = ::open("/dev/null", O_WRONLY);
  dup2(devnull, 1);
  S = shared<Shared>();
  W = shared<World>();
  std::mt19937_64 g(seed);
  const std::vector<std::string> names = {"n", "a name with spaces", "\xc3\xa9\xe2\x82\xac", "x/y:z", "quote\"back\\slash", std::string(300, 'q'), "tab\there", " ", "%s%n{}", "..", "a\nb", "", std::string("nul\0nul", 7)};
  const std::string huge(150000, 'h');
  auto item = [&](int i) { return Item{i % 13 == 12 ? 7 : (int)(i % 7), (int)((i / 7 + i) % 3), names[i % names.size()]}; };
  auto any = [&](const std::vector<Item> &before) {
    if (!before.empty() && g() % 4 == 0) return before[g() % before.size()];  // quite the same again
    const int st = g() % 17;
    return Item{(int)(g() % 15 / 2), st < 9 ? st : st % 3, names[g() % names.size()], (int)(g() % 30)};
  };
  std::ifstream in(argv[4]);
  std::string line;
  int counter = 0;
  struct Sc { std::vector<std::vector<Item>> work; std::vector<int> ans; };
  const int codes[] = {201, 201, 201, 201, 201, 201, 401, 401, 500, 0, 403, 200, 204, 404, 503, 302};
  if (sys_mode) {
    // generated: "<calls of process 1> <calls of process 2> | answers | refusals | token on file"
    while (std::getline(in, line)) {
      std::istringstream is(line);
      std::string w;
      int part = 0;
      std::vector<std::vector<std::vector<Item>>> procs;
      std::vector<int> ans;
      bool token = false;
      denials.clear();
      deny_state = 0;
      while (is >> w) {
        if (w == "|") { part++; continue; }
        int v = atoi(w.c_str());
        if (part == 0) {
          procs.push_back({{}});
          for (int i = 0; i < v; ++i) procs.back()[0].push_back(item(counter++));
        } else if (part == 1) ans.push_back(v);
        else if (part == 2) denials.push_back(v);
        else token = v;
      }
      S->prefix_len = 0;
      life(procs, ans, token, g, false);
    }
    for (int r = 0; r < nr; ++r) {
      std::vector<std::vector<std::vector<Item>>> procs;
      int np = 1 + g() % 3;
      for (int p = 0; p < np; ++p) {
        procs.emplace_back();
        int t = 1 + g() % 3;
        for (int i = 0; i < t; ++i) {
          procs.back().emplace_back();
          int c = r == 7 ? 300 : 1 + g() % (r % 20 == 19 ? 25 : 4);
          for (int j = 0; j < c; ++j) procs.back().back().push_back(any(procs.back().back()));
          if (r % 200 == 11) procs.back().back()[g() % c].name = huge, procs.back().back()[0].style = 1;
        }
      }
      std::vector<int> ans;
      int na = g() % 16;
      for (int i = 0; i < na; ++i) ans.push_back(codes[g() % 16]);
      denials.clear();
      deny_state = r % 3 == 1 ? g() | 1 : 0;
      S->prefix_len = 0;
      random_mode = true;
      alloc_yields = r % 2;
      mem_yields = r % 3 == 2;
      life(procs, ans, g() % 2, g, r % 2);
    }
    fprintf(stderr, "lives %d free runs %d\n", nr, S->free_run);
    return vt::done();
  }
  std::vector<Sc> scs;
  while (std::getline(in, line)) {
    std::istringstream is(line);
    std::string w;
    Sc s;
    bool calls = true;
    while (is >> w) {
      if (w == "|") { calls = false; continue; }
      if (calls) {
        s.work.emplace_back();
        for (int i = 0; i < atoi(w.c_str()); ++i) s.work.back().push_back(item(counter++));
      } else s.ans.push_back(atoi(w.c_str()));
    }
    scs.push_back(s);
  }
  long execs = 0, exhausted = 0;
  for (auto &s : scs) {
    // depth-first over choice sequences, at most 2 preemptions
    std::vector<unsigned char> prefix;
    int n = 0;
    for (;;) {
      S->prefix_len = prefix.size();
      std::copy(prefix.begin(), prefix.end(), S->prefix);
      random_mode = false;
      alloc_yields = mem_yields = false;
      execute(s.work, s.ans, 1);
      execs++;
      n++;
      // next prefix: last position that can be advanced within the preemption bound
      int i = std::min(S->nchoices, MAXC) - 1;
      bool found = false;
      for (; i >= 0 && !found; --i) {
        if (S->pick[i] + 1 >= S->avail[i]) continue;
        int pre = 0;
        for (int j = 0; j < i; ++j) pre += S->preempt[j] && S->pick[j];
        if (S->preempt[i]) pre++;
        if (pre > 2) continue;
        prefix.assign(S->pick, S->pick + i + 1);
        prefix[i]++;
        found = true;
      }
      if (!found) { exhausted++; break; }
      if (n >= maxdfs) break;
    }
  }
  for (int r = 0; r < nr; ++r) {
    Sc s;
    const bool lengthy = r % 40 == 39;
    int t = lengthy ? 1 + g() % 3 : 2 + g() % 3;
    for (int i = 0; i < t; ++i) {
      s.work.emplace_back();
      int c = lengthy ? 20 + g() % 100 : 1 + g() % 3;
      for (int j = 0; j < c; ++j) s.work.back().push_back(any(s.work.back()));
    }
    if (r % 80 == 79) {  // long and monotonous
      s.work.assign(1 + g() % 2, {});
      const int kind = (r / 80 + seed) % 7;
      for (auto &w : s.work)
        for (int j = 0; j < 160; ++j) w.push_back(Item{kind, r % 160 == 79 ? 0 : (int)(g() % 3), names[g() % names.size()], r % 3 ? -1 : 1});
    }
    int na = g() % (lengthy ? 150 : 12);
    if (r % 200 == 11) s.work[0][0].name = huge, s.work[0][0].style = 2;
    for (int i = 0; i < na; ++i) s.ans.push_back(codes[g() % 16]);
    S->prefix_len = 0;
    random_mode = true;
    alloc_yields = r % 2;
    mem_yields = r % 3 == 2;
    deny_state = r % 3 == 1 ? g() | 1 : 0;
    execute(s.work, s.ans, g());
    execs++;
  }
  fprintf(stderr, "executions %ld scenarios %zu exhausted %ld free runs %d\n", execs, scs.size(), exhausted, S->free_run);
  return vt::done();
}
