// C18: identifiers.   uuid SEED NRANDOM SCRIPT OUT     or     uuid --gen N
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <barrier>
#include <cstring>
#include <fstream>
#include <sstream>
#include <thread>
#include <unordered_map>

#include "resim/utils/uuid.hh"
#include "sched.hh"
#include "trace.hh"

using resim::UUID;
using Bytes = std::array<unsigned char, 16>;
static std::mt19937_64 rng;
static int draw(int n) { return (int)(rng() % n); }
static vt::J codes(const std::string &s) { std::vector<int> v; for (unsigned char c : s) v.push_back(c); return vt::js(v); }
static vt::J bytes(const Bytes &b) { return vt::js(std::vector<int>(b.begin(), b.end())); }
// the harness's own text, independent of the code under test
static std::string text(const Bytes &b) {
  std::string s;
  char t[4];
  for (int i = 0; i < 16; ++i) { if (i == 4 || i == 6 || i == 8 || i == 10) s += '-'; snprintf(t, sizeof t, "%02x", b[i]); s += t; }
  return s;
}
static void parse(const std::string &s) {
  bool err = false;
  Bytes b{};
  try { b = UUID(s).id(); } catch (...) { err = true; }
  vt::Ev e("Parse");
  e.kv("text", codes(s)).kv("err", err);
  if (!err) e.kv("b", bytes(b));
}
static void one(const Bytes &b) {
  UUID u(b);
  vt::Ev("Bytes").kv("given", bytes(b)).kv("b", bytes(u.id()));
  vt::Ev("Print").kv("b", bytes(b)).kv("text", codes(u.to_string()));
  vt::Ev("Null").kv("b", bytes(b)).kv("null", u.is_null());
}
static void compare(const Bytes &a, const Bytes &b) {
  UUID x(a), y(b);
  std::unordered_map<UUID, int> m;
  m[x] = 1;
  vt::Ev("Cmp").kv("a", bytes(a)).kv("b", bytes(b)).kv("eq", x == y).kv("ne", x != y).kv("heq", std::hash<UUID>()(x) == std::hash<UUID>()(y)).kv("found", m.count(y) == 1);
}
static Bytes random_bytes() { Bytes b; for (auto &c : b) c = rng(); return b; }
static std::vector<std::string> batch(const std::vector<UUID> &us, bool *null) { std::vector<std::string> v; for (auto &u : us) { v.push_back(text(u.id())); *null = *null || u.is_null(); } return v; }
static void emit(const std::vector<std::string> &ids, bool null) {
  for (size_t i = 0; i < ids.size(); i += 40)
    vt::Ev("New").kv("ids", std::vector<std::string>(ids.begin() + i, ids.begin() + std::min(ids.size(), i + 40))).kv("null", null);
}
static std::vector<std::string> lines(FILE *f) { std::vector<std::string> v; char b[128]; while (fgets(b, sizeof b, f)) { b[strcspn(b, "\n")] = 0; v.push_back(b); } return v; }

int main(int argc, char **argv) {
  if (argc == 3 && !strcmp(argv[1], "--gen")) {
    for (int i = 0; i < atoi(argv[2]); ++i) printf("%s\n", text(UUID::new_uuid().id()).c_str());
    return 0;
  }
  if (argc != 5) return 97;
  rng.seed(atol(argv[1]));
  int n = atoi(argv[2]);
  vt::open(argv[4]);
  // every byte value at every position
  for (int i = 0; i < 16; ++i) {
    vt::Ev("Begin");
    vt::Ev("Default").kv("b", bytes(UUID().id()));
    one(UUID().id());
    for (int v = 0; v < 256; ++v) {
      Bytes b{};
      if (v % 3 == 1) b = random_bytes();
      if (v % 3 == 2) b.fill(255);
      b[i] = v;
      one(b);
      std::string s = text(b);
      parse(s);
      for (auto &c : s) if (draw(2)) c = toupper(c);
      parse(s);
      Bytes o = b;
      compare(b, o);
      o[i] = v ^ (1 << draw(8));
      compare(b, o);
      o = b;
      o[draw(16)] ^= 1 << draw(8);
      compare(b, o);
    }
    Bytes b{};
    compare(b, b);
    parse(text(b));
  }
  // every character at every position
  for (int p = 0; p < 36; ++p) {
    vt::Ev("Begin");
    std::string s = text(random_bytes());
    for (int c = 0; c < 256; ++c) { std::string t = s; t[p] = (char)c; parse(t); }
  }
  // edits drawn from the specification
  std::ifstream sc(argv[3]);
  std::string line;
  while (std::getline(sc, line)) {
    vt::Ev("Begin");
    std::istringstream is(line);
    std::string s = text(random_bytes()), op;
    if (draw(2)) for (auto &c : s) c = toupper(c);
    int p, c;
    while (is >> op >> p >> c) {
      --p;
      if (p > (int)s.size()) continue;
      if (op == "R" && p < (int)s.size()) s[p] = (char)c;
      if (op == "I") s.insert(s.begin() + p, (char)c);
      if (op == "D" && p < (int)s.size()) s.erase(p, 1);
      if (op == "T" && p + 1 < (int)s.size()) std::swap(s[p], s[p + 1]);
      parse(s);
    }
  }
  vt::Ev("Begin");
  for (auto s : {"", "-", "{}", "0", "null", "urn:uuid:d1b5e24f-8e5b-4a62-9d67-1c3f0d6a2b77", "{d1b5e24f-8e5b-4a62-9d67-1c3f0d6a2b77}", "d1b5e24f8e5b4a629d671c3f0d6a2b77", " d1b5e24f-8e5b-4a62-9d67-1c3f0d6a2b77",
                 "d1b5e24f-8e5b-4a62-9d67-1c3f0d6a2b77 ", "d1b5e24f-8e5b-4a62-9d67-1c3f0d6a2b77\n", "0xd1b5e24f-8e5b-4a62-9d67-1c3f0d6a2b"}) parse(s);
  parse(std::string("d1b5e24f-8e5b-4a62-9d67-1c3f0d6a2b77") + '\0');
  parse(std::string("d1b5e24f-8e5b-4a62-9d67-1c3f0d6a2b77") + '\0' + "tail");
  parse(std::string(36, '\0'));
  parse(std::string(5000, 'a'));
  parse(text(random_bytes()) + text(random_bytes()));
  // generation: one history
  vt::Ev("Begin");
  {
    bool null = false;
    std::vector<UUID> us;
    for (int i = 0; i < n; ++i) us.push_back(UUID::new_uuid());
    emit(batch(us, &null), null);
  }
  {  // more than fit the model: counted here
    const int per = std::max(150000, 10 * n);
    std::vector<std::vector<Bytes>> all(4);
    std::vector<std::thread> ts;
    for (auto &v : all) ts.emplace_back([&] { for (int i = 0; i < per; ++i) v.push_back(UUID::new_uuid().id()); });
    for (auto &t : ts) t.join();
    std::vector<Bytes> flat;
    for (auto &v : all) flat.insert(flat.end(), v.begin(), v.end());
    std::sort(flat.begin(), flat.end());
    const bool null = !flat.empty() && flat[0] == Bytes{};
    flat.erase(std::unique(flat.begin(), flat.end()), flat.end());
    vt::Ev("Many").kv("n", 4 * per).kv("distinct", (int)flat.size()).kv("null", null);
  }
  for (int round = 0; round < 3; ++round) {  // threads
    std::vector<std::vector<UUID>> per(8);
    std::barrier go(8);
    std::vector<std::thread> ts;
    for (int k = 0; k < 8; ++k) ts.emplace_back([&, k] { go.arrive_and_wait(); for (int i = 0; i < n / 8; ++i) per[k].push_back(UUID::new_uuid()); });
    for (auto &t : ts) t.join();
    bool null = false;
    for (auto &us : per) emit(batch(us, &null), null);
  }
  for (int k = 0; k < 12; ++k) {  // children, between identifiers of their parent
    bool null = false;
    std::vector<UUID> us;
    for (int i = 1 + draw(k < 6 ? 5 : 60); i > 0; --i) us.push_back(UUID::new_uuid());
    emit(batch(us, &null), null);
    fflush(vt::out);
    int fd[2];
    if (pipe(fd)) return 97;
    pid_t pid = fork();
    if (pid < 0) return 97;
    if (pid == 0) {
      FILE *f = fdopen(fd[1], "w");
      for (int i = 0; i < 40; ++i) fprintf(f, "%s\n", text(UUID::new_uuid().id()).c_str());
      fflush(f);
      _exit(0);
    }
    close(fd[1]);
    FILE *f = fdopen(fd[0], "r");
    auto ids = lines(f);
    fclose(f);
    waitpid(pid, nullptr, 0);
    emit(ids, ids.size() != 40);
  }
  // interleaved at memory accesses: generation, printing, parsing, comparing; every execution is a process of its own
  S = shared<Shared>();
  random_mode = true;
  fflush(vt::out);
  for (int r = 0; r < n / 8; ++r) {
    int nt = 2 + draw(3);
    std::vector<std::vector<Bytes>> subject(nt);
    for (auto &v : subject) for (int i = 0; i < 3; ++i) v.push_back(random_bytes());
    prepare(rng());
    mem_rate = 2 + mem_rate % 40;
    mem_yields = true;
    alloc_yields = r % 2;
    pid_t pid = fork();
    if (pid < 0) return 97;
    if (pid == 0) {
      struct Seen { std::vector<UUID> made; std::vector<std::string> text; std::vector<Bytes> parsed; bool same = true; };
      std::vector<Seen> seen(nt);
      run_threads(nt, [&](int t) {
        auto &o = seen[t];
        for (int i = 0; i < 3; ++i) {
          o.made.push_back(UUID::new_uuid());
          UUID u(subject[t][i]);
          o.text.push_back(u.to_string());
          inside = true;
          std::string mine = text(subject[t][i]);
          inside = false;
          UUID p(mine);
          o.parsed.push_back(p.id());
          o.same = o.same && p == u && !(p != u) && std::hash<UUID>()(p) == std::hash<UUID>()(u);
        }
      });
      bool null = false;
      for (int t = 0; t < nt; ++t) {
        emit(batch(seen[t].made, &null), null || !seen[t].same);
        for (int i = 0; i < 3; ++i) {
          vt::Ev("Print").kv("b", bytes(subject[t][i])).kv("text", codes(seen[t].text[i]));
          vt::Ev("Parse").kv("text", codes(text(subject[t][i]))).kv("err", false).kv("b", bytes(seen[t].parsed[i]));
        }
      }
      fflush(vt::out);
      _exit(0);
    }
    int st;
    waitpid(pid, &st, 0);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { vt::Ev("Died").kv("status", st); fflush(vt::out); }
  }
  for (int k = 0; k < 3; ++k) {  // separate processes
    std::string cmd = std::string("'") + argv[0] + "' --gen 40";
    FILE *f = popen(cmd.c_str(), "r");
    if (!f) return 97;
    auto ids = lines(f);
    pclose(f);
    emit(ids, ids.size() != 40);
  }
  return vt::done();
}
