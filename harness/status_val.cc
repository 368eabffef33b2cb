// C17: statuses, status values, optional references, assertions, matching.   status_val SEED NRANDOM SCRIPT OUT
#include <cstring>
#include <fstream>
#include <memory>
#include <optional>
#include <sstream>
#include <variant>

#include "resim/assert/assert.hh"
#include "resim/utils/inout.hh"
#include "resim/utils/match.hh"
#include "resim/utils/nullable_reference.hh"
#include "resim/utils/status.hh"
#include "resim/utils/status_value.hh"
#include "trace.hh"

using resim::Status;
using resim::StatusValue;
static std::mt19937_64 rng;
static int rnd(int n) { return (int)(rng() % n); }

// failures are identified by the text they carry
static const char *TEXT[] = {"", "alpha failure", "beta {} failure", "gamma failure, a long one that does not fit anywhere small"};
static int LINES[4];
static Status make_failure(int m) {
  switch (m) {
    case 1: LINES[1] = __LINE__; return MAKE_STATUS(TEXT[1]);
    case 2: LINES[2] = __LINE__; return MAKE_STATUS(TEXT[2]);
    default: LINES[3] = __LINE__; return MAKE_STATUS(TEXT[3]);
  }
}
static bool has(const std::string &t, const std::string &x) { return t.find(x) != std::string::npos; }
static int which(const std::string &t) { int f = 0; for (int m = 1; m < 4; ++m) if (has(t, TEXT[m])) f = f ? 9 : m; return f; }
static bool number_in(std::string t, int n) {
  for (size_t i = 0; i < t.size();) {
    if (!isdigit((unsigned char)t[i])) { ++i; continue; }
    size_t j = i;
    while (j < t.size() && isdigit((unsigned char)t[j])) ++j;
    if (t.substr(i, j - i) == std::to_string(n)) return true;
    i = j;
  }
  return false;
}
static bool placed(const std::string &t, int m) { return m == 0 || (m < 4 && has(t, __FILE__) && number_in(t, LINES[m])); }

static int cells[4];
template <class T> struct Tr;
template <> struct Tr<int> {
  static constexpr bool copy = true, ref = false;
  static StatusValue<int> make(int v) { const int x = v * 7; return rnd(2) ? StatusValue<int>(x) : StatusValue<int>(v * 7); }
  static int id(const int &x) { return x / 7; }
};
static std::string text_of(int v) { return std::string(40, 'a' + v) + " value"; }
static int id_of(const std::string &s) { for (int v = 1; v < 4; ++v) if (s == text_of(v)) return v; return -1; }
template <> struct Tr<std::string> {
  static constexpr bool copy = true, ref = false;
  static StatusValue<std::string> make(int v) { const std::string x = text_of(v); return rnd(2) ? StatusValue<std::string>(x) : StatusValue<std::string>(text_of(v)); }
  static int id(const std::string &x) { return id_of(x); }
};
using U = std::unique_ptr<std::string>;
template <> struct Tr<U> {
  static constexpr bool copy = false, ref = false;
  static StatusValue<U> make(int v) { return StatusValue<U>(std::make_unique<std::string>(text_of(v))); }
  static int id(const U &x) { return x ? id_of(*x) : -2; }
};
template <> struct Tr<int &> {
  static constexpr bool copy = true, ref = true;
  static StatusValue<int &> make(int v) { return StatusValue<int &>(cells[v]); }
  static int id(const int &x) { return &x >= cells && &x < cells + 4 ? (int)(&x - cells) : -3; }
};
template <class T> static void show(vt::Ev &e, const std::remove_reference_t<T> &x) {
  e.kv("v", Tr<T>::id(x));
  if constexpr (Tr<T>::ref) e.kv("cell", x);
}

// ------------------------------------------------------------------- propagation
static int evals[8], went;
enum How { LVALUE, COPY, MOVE };
template <class T> struct Src { static inline StatusValue<T> *reg; };
template <class T> static const StatusValue<T> &by_ref() { return *Src<T>::reg; }
template <class T> static StatusValue<T> by_copy() { return *Src<T>::reg; }
template <class T> static StatusValue<T> by_move() { return std::move(*Src<T>::reg); }
template <class T> static StatusValue<T> &&by_xref() { return std::move(*Src<T>::reg); }
template <class T> static StatusValue<T> level(int k, How how, bool x) {
  if (k == 1) {
    if (how == LVALUE) {
      if constexpr (Tr<T>::copy) {
        if (x) {  // an object by name
          StatusValue<T> &named = *Src<T>::reg;
          ++evals[1];
          T v = RETURN_OR_ASSIGN(named);
          ++went;
          return StatusValue<T>(std::forward<T>(v));
        }
        T v = RETURN_OR_ASSIGN((++evals[1], by_ref<T>()));
        ++went;
        return StatusValue<T>(std::forward<T>(v));
      }
    }
    if (how == COPY) {
      if constexpr (Tr<T>::copy) {
        T v = RETURN_OR_ASSIGN((++evals[1], by_copy<T>()));
        ++went;
        return StatusValue<T>(std::forward<T>(v));
      }
    }
    if (x) {
      T v = RETURN_OR_ASSIGN((++evals[1], by_move<T>()));
      ++went;
      return StatusValue<T>(std::forward<T>(v));
    }
    T v = RETURN_OR_ASSIGN((++evals[1], by_xref<T>()));
    ++went;
    return StatusValue<T>(std::forward<T>(v));
  }
  if (k % 2 == 0) {
    T v = RETURN_OR_ASSIGN((++evals[k], level<T>(k - 1, how, x)));
    ++went;
    return StatusValue<T>(std::forward<T>(v));
  }
  StatusValue<T> sv = (++evals[k], level<T>(k - 1, how, x));
  RETURN_IF_NOT_OK(sv.status());
  ++went;
  return sv;
}
// status-only propagation; odd levels go through a status value
template <class T> static Status slevel(int k) {
  if (k == 1) { RETURN_IF_NOT_OK((++evals[1], Src<T>::reg->status())); ++went; return resim::OKAY_STATUS; }
  if (k % 2) {
    auto inner = [&]() -> StatusValue<int> { RETURN_IF_NOT_OK((++evals[k], slevel<T>(k - 1))); ++went; return 5; };
    const int five = RETURN_OR_ASSIGN(inner());
    return five == 5 ? Status{} : make_failure(3);
  }
  RETURN_IF_NOT_OK((++evals[k], slevel<T>(k - 1)));
  ++went;
  return Status{};
}

template <class F> static int guarded(F &&f, std::string *text) {  // 0 fine, 1 assertion error, 2 something else
  try { f(); return 0; }
  catch (const resim::AssertException &e) { resim::AssertException copy(e); resim::AssertException moved(std::move(copy)); *text = moved.what(); return text->empty() ? 2 : 1; }
  catch (...) { return 2; }
}
static vt::J outcome(int g) { return g == 2 ? vt::js("other") : vt::js(g == 1); }

static void reset() { for (int i = 0; i < 4; ++i) cells[i] = i; }
static void show_cells() { vt::Ev("Cells").kv("now", std::vector<int>{cells[1], cells[2], cells[3]}); }

template <class T> static void program(const std::vector<std::string> &ops, const char *type) {
  using SV = StatusValue<T>;
  reset();
  vt::Ev("Begin").kv("type", type);
  std::optional<SV> reg[3];
  bool gone[3] = {};
  reg[1].emplace();
  reg[2].emplace();
  auto put = [&](int r, SV &&x) {  // by construction or by assignment
    gone[r] = false;
    if constexpr (!Tr<T>::ref) {
      if (rnd(2)) { *reg[r] = std::move(x); return; }
    }
    SV tmp(std::move(x));
    reg[r].emplace(std::move(tmp));
  };
  auto look = [&](int r) {
    std::string t;
    if (gone[r]) {  // moved from: whatever it is now, a value or a failure
      vt::Ev e("Left");
      e.kv("r", r).kv("ok", reg[r]->ok()).kv("sok", reg[r]->status().ok());
      int g = guarded([&] { (void)std::as_const(*reg[r]).value(); }, &t);
      e.kv("err", outcome(g));
      return;
    }
    {
      const SV &cr = *reg[r];
      vt::Ev e("Query");
      std::string w = cr.status().what();
      e.kv("r", r).kv("ok", cr.ok()).kv("sok", cr.status().ok()).kv("m", which(w)).kv("loc", placed(w, which(w)));
    }
    {
      vt::Ev e("Read");
      e.kv("r", r);
      int g = guarded([&] { const SV &cr = *reg[r]; show<T>(e, cr.value()); }, &t);
      e.kv("err", outcome(g));
    }
  };
  auto prop = [&](int r, int n, How how, bool x) {
    if (gone[r] || (!Tr<T>::copy && how != MOVE)) return;
    Src<T>::reg = &*reg[r];
    std::fill(evals, evals + 8, 0);
    went = 0;
    vt::Ev e("Prop");
    SV out = level<T>(n, how, x);
    std::string w = out.status().what();
    e.kv("r", r).kv("n", n).kv("how", how == MOVE ? "move" : "keep").kv("err", !out.ok()).kv("valued", true).kv("evals", std::vector<int>(evals + 1, evals + 1 + n)).kv("went", went).kv("m", which(w)).kv("loc", placed(w, which(w)));
    if (out.ok()) show<T>(e, std::as_const(out).value());
    if (how == MOVE) gone[r] = true;
  };
  auto sprop = [&](int r, int n) {
    if (gone[r]) return;
    Src<T>::reg = &*reg[r];
    std::fill(evals, evals + 8, 0);
    went = 0;
    Status out = slevel<T>(n);
    std::string w = out.what();
    vt::Ev("Prop").kv("r", r).kv("n", n).kv("how", "keep").kv("err", !out.ok()).kv("valued", false).kv("evals", std::vector<int>(evals + 1, evals + 1 + n)).kv("went", went).kv("m", which(w)).kv("loc", placed(w, which(w)));
  };
  auto insist = [&](int r) {
    if (gone[r]) return;
    int n = 0, line = 0;
    std::string t;
    const SV &subject = *reg[r];
    int g = guarded([&] { line = __LINE__; CHECK_STATUS_OK((++n, subject.status())); }, &t);
    vt::Ev("Insist").kv("r", r).kv("thrown", outcome(g)).kv("evals", n).kv("m", which(t)).kv("loc", placed(t, which(t))).kv("here", has(t, __FILE__) && number_in(t, line)).kv("cond", has(t, "subject.status()"));
  };
  look(1);
  for (auto &o : ops) {
    int r = o[1] - '0', s = 3 - r, k = 1 + rnd(3);
    switch (o[0]) {
      case 'V': put(r, Tr<T>::make(k)); vt::Ev("Set").kv("r", r).kv("v", k); break;
      case 'E': {
        Status st = make_failure(k);
        if (rnd(2)) { Status st2; st2 = st; Status st3(std::move(st2)); st = st3; }
        put(r, SV(st));
        vt::Ev("Fail").kv("r", r).kv("m", k);
        break;
      }
      case 'D': put(r, SV()); vt::Ev("Default").kv("r", r); break;
      case 'O': {
        std::string t;
        int g = guarded([&] { const Status fine = rnd(2) ? resim::OKAY_STATUS : Status{}; put(r, SV(fine)); }, &t);
        vt::Ev("FromOk").kv("r", r).kv("thrown", outcome(g));
        break;
      }
      case 'X': {
        if (gone[s]) break;
        std::string t;
        int g = guarded([&] { SV nw(reg[s]->status()); put(r, std::move(nw)); }, &t);
        vt::Ev("FromStatus").kv("r", r).kv("s", s).kv("thrown", outcome(g));
        break;
      }
      case 'C':
        if constexpr (Tr<T>::copy) {
          if (gone[s]) break;
          if (rnd(8) == 0) s = r;  // onto itself
          if (gone[s]) break;
          if constexpr (!Tr<T>::ref) {
            if (rnd(2)) { *reg[r] = *reg[s]; gone[r] = false; vt::Ev("Copy").kv("r", r).kv("s", s); break; }
          }
          put(r, SV(*reg[s]));
          vt::Ev("Copy").kv("r", r).kv("s", s);
        }
        break;
      case 'M':
        if (gone[s]) break;
        put(r, std::move(*reg[s]));
        gone[s] = true;
        vt::Ev("Move").kv("r", r).kv("s", s);
        break;
      case 'T': {
        if (gone[r]) break;
        std::string t;
        vt::Ev e("Take");
        e.kv("r", r);
        int g = guarded([&] { T v = std::move(*reg[r]).value(); show<T>(e, v); }, &t);
        e.kv("err", outcome(g));
        if (g == 0) gone[r] = true;
        break;
      }
      case 'P': prop(r, 1 + rnd(4), How(rnd(3)), rnd(2)); break;
      case 'S': sprop(r, 1 + rnd(4)); break;
      case 'K': insist(r); break;
      case 'W':
        if constexpr (Tr<T>::ref) {
          if (gone[r] || !reg[r]->ok()) break;
          int x = 100 + rnd(100);
          reg[r]->value() = x;
          vt::Ev("Write").kv("r", r).kv("x", x);
          show_cells();
        }
        break;
    }
    look(1);
    look(2);
  }
  for (int r = 1; r <= 2; ++r) {
    insist(r);
    sprop(r, 1 + rnd(4));
    prop(r, 1 + rnd(4), LVALUE, rnd(2));
    look(r);
    prop(r, 1 + rnd(4), COPY, rnd(2));
    look(r);
    prop(r, 1 + rnd(4), MOVE, rnd(2));
  }
}

// ------------------------------------------------------------------- optional references
struct Cell { int x; int get() const { return x; } };
static void bump(resim::InOut<Cell> c, int x) { if (rnd(2)) (*c).x = x; else c->x = x; }
static void references(const std::vector<std::string> &ops) {
  using NR = resim::NullableReference<Cell>;
  Cell box[4] = {{0}, {1}, {2}, {3}};
  vt::Ev("Begin").kv("type", "reference");
  NR reg[3];
  auto now = [&] { vt::Ev("Cells").kv("now", std::vector<int>{box[1].x, box[2].x, box[3].x}); };
  auto look = [&](int r) {
    const NR &c = reg[r];
    std::string t;
    vt::Ev("Query").kv("r", r).kv("ok", c.has_value()).kv("sok", (bool)c).kv("m", 0).kv("loc", true);
    for (int arrow = 0; arrow < 2; ++arrow) {
      vt::Ev e("Read");
      e.kv("r", r);
      int g = guarded([&] { Cell *p = arrow ? c.operator->() : &*c; e.kv("v", p >= box && p < box + 4 ? (int)(p - box) : -3).kv("cell", arrow ? c->get() : (*c).x); }, &t);
      e.kv("err", outcome(g));
    }
  };
  look(1);
  for (auto &o : ops) {
    int r = o[1] - '0', s = 3 - r, k = 1 + rnd(3);
    switch (o[0]) {
      case 'V': reg[r] = NR(box[k]); vt::Ev("Set").kv("r", r).kv("v", k); break;
      case 'E': reg[r] = resim::null_reference<Cell>; vt::Ev("Default").kv("r", r); break;
      case 'D': reg[r] = NR(); vt::Ev("Default").kv("r", r); break;
      case 'C': reg[r] = reg[s]; vt::Ev("Copy").kv("r", r).kv("s", s); break;
      case 'M': reg[r] = std::move(reg[s]); vt::Ev("Copy").kv("r", r).kv("s", s); break;
      case 'X': { int x = 100 + rnd(100); bump(resim::InOut{box[k]}, x); vt::Ev("InOut").kv("c", k).kv("x", x); now(); break; }
      case 'T': case 'W': if (reg[r]) { int x = 100 + rnd(100); if (rnd(2)) (*reg[r]).x = x; else reg[r]->x = x; vt::Ev("Write").kv("r", r).kv("x", x); now(); } break;
    }
    look(1);
    look(2);
  }
}

// ------------------------------------------------------------------- assertions and matching
static bool cond_value(int &n, bool b, int) { ++n; return b; }
static void asserts() {
  vt::Ev("Begin").kv("type", "assert");
  for (int k = 0; k < 8; ++k) {
    bool holds = rnd(2);
    int n = 0, line = 0, g = 0;
    std::string t, cond, msg, file = __FILE__;
    switch (k) {
      case 0: cond = "cond_value(n, holds, 0)"; g = guarded([&] { line = __LINE__; REASSERT(cond_value(n, holds, 0)); }, &t); break;
      case 1: cond = "cond_value(n, holds, 1)"; msg = "plain words"; g = guarded([&] { line = __LINE__; REASSERT(cond_value(n, holds, 1), "plain words"); }, &t); break;
      case 2: cond = "cond_value(n, holds, 2)"; msg = "braces {} {0} %s"; g = guarded([&] { line = __LINE__; REASSERT(cond_value(n, holds, 2), "braces {} {0} %s"); }, &t); break;
      case 3: { std::string m(3000, 'x'); msg = m; cond = "cond_value(n, holds, 3)"; g = guarded([&] { line = __LINE__; REASSERT(cond_value(n, holds, 3), m); }, &t); break; }
      case 4: cond = "not cond_value(n, not holds, 4)"; msg = "negated"; g = guarded([&] { line = __LINE__; REASSERT(not cond_value(n, not holds, 4), "negated"); }, &t); break;
#line 1234567 "some dir/far down.cc"
      case 6: file = __FILE__; cond = "cond_value(n, holds, 6)"; g = guarded([&] { line = __LINE__; REASSERT(cond_value(n, holds, 6)); }, &t); break;
      case 7: file = __FILE__; n = 1; g = guarded([&] { line = __LINE__; CHECK_STATUS_OK(holds ? resim::OKAY_STATUS : MAKE_STATUS("far away")); }, &t); cond = "MAKE_STATUS(\"far away\")"; msg = "far away"; break;
#line 1 "status_val.cc"
      default: file = __FILE__; cond = "holds and cond_value(n, holds, 5)"; n = holds ? 0 : 1; g = guarded([&] { line = __LINE__; REASSERT(holds and cond_value(n, holds, 5)); }, &t); break;
    }
    vt::Ev("Assert").kv("holds", holds).kv("thrown", outcome(g)).kv("evals", n).kv("cond", has(t, cond)).kv("here", has(t, file) && number_in(t, line)).kv("msg", has(t, msg));
  }
}
// failures of every text and place: nothing of them is lost on the way to the reader
static std::string random_text() {
  static const char *bits[] = {"a", "word ", "\n", "\r\n", "\t", "\"", "\\", "{}", "{0}", "{{", "%s", "\xc3\xa9", "\x01", "<", ">:", "): ", "Message: ", "OKAY", "0", " "};
  std::string s;
  int n = rnd(5) ? rnd(6) : rnd(400);
  for (int i = 0; i < n; ++i) s += bits[rnd(20)];
  if (rnd(12) == 0) s.append(rnd(9000), 'y');
  return s;
}
static StatusValue<int> fails_with(const Status &s) { return s; }
static StatusValue<std::string> passes(const Status &s, int n) {
  if (n == 0) return std::to_string(RETURN_OR_ASSIGN(fails_with(s)));
  std::string v = RETURN_OR_ASSIGN(passes(s, n - 1));
  return v;
}
static void tellings() {
  vt::Ev("Begin").kv("type", "told");
  for (int k = 0; k < 8; ++k) {
    const int places[] = {1, 9, 10, 255, 256, 4095, 32767, 32768, 65535, 65536, 1000000, 2147483647};
    std::string msg = random_text(), file = rnd(2) ? __FILE__ : "/d/" + random_text();
    int line = rnd(2) ? places[rnd(12)] : 1 + rnd(5000), here = 0, here2 = 0, n = 0;
    bool whole[4] = {};
    Status s = Status::make_at_line(file.c_str(), line, msg.c_str());
    auto full = [&](const std::string &t) { return has(t, msg) && has(t, file) && number_in(t, line); };
    Status c = s, m = std::move(c), a;
    a = m;
    whole[0] = !a.ok() && full(a.what()) && full(s.what());
    auto sv = passes(a, rnd(4));
    whole[1] = !sv.ok() && full(sv.status().what());
    std::string t;
    int g = guarded([&] { here = __LINE__; CHECK_STATUS_OK(sv.status()); }, &t);
    whole[2] = g == 1 && full(t) && has(t, "sv.status()") && has(t, __FILE__) && number_in(t, here);
    int kind = rnd(5);
    bool holds = rnd(4) == 0;
    std::string cond, u;
    switch (kind) {
      case 0: cond = "(++n, holds)"; g = guarded([&] { here2 = __LINE__; REASSERT((++n, holds), msg); }, &u); break;
      case 1: cond = "(++n, holds) && msg != \"a\\nb\""; msg += "."; g = guarded([&] { here2 = __LINE__; REASSERT((++n, holds) && msg != "a\nb", msg.c_str()); }, &u); break;
      case 2: cond = "(++n, holds) == (std::max(1, 2) == 2)"; g = guarded([&] { here2 = __LINE__; REASSERT((++n, holds) == (std::max(1, 2) == 2), std::string_view(msg)); }, &u); break;
      case 4: cond = "(++n, holds) && line % 1 == 0 && std::string_view(\"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx0\").size() > 3 && std::string_view(\"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx1\").size() > 3 && std::string_view(\"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx2\").size() > 3 && std::string_view(\"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx3\").size() > 3 && std::string_view(\"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx4\").size() > 3 && std::string_view(\"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx5\").size() > 3 && std::string_view(\"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx6\").size() > 3 && std::string_view(\"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx7\").size() > 3 && std::string_view(\"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx8\").size() > 3 && std::string_view(\"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx9\").size() > 3 && std::string_view(\"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx10\").size() > 3 && std::string_view(\"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx11\").size() > 3 && std::string_view(\"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx12\").size() > 3 && std::string_view(\"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx13\").size() > 3 && std::string_view(\"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx14\").size() > 3 && std::string_view(\"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx15\").size() > 3 && std::string_view(\"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx16\").size() > 3 && std::string_view(\"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx17\").size() > 3 && std::string_view(\"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx18\").size() > 3 && std::string_view(\"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx19\").size() > 3 && msg.size() + 1 > 0"; g = guarded([&] { here2 = __LINE__; REASSERT((++n, holds) && line % 1 == 0 && std::string_view("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx0").size() > 3 && std::string_view("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx1").size() > 3 && std::string_view("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx2").size() > 3 && std::string_view("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx3").size() > 3 && std::string_view("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx4").size() > 3 && std::string_view("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx5").size() > 3 && std::string_view("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx6").size() > 3 && std::string_view("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx7").size() > 3 && std::string_view("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx8").size() > 3 && std::string_view("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx9").size() > 3 && std::string_view("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx10").size() > 3 && std::string_view("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx11").size() > 3 && std::string_view("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx12").size() > 3 && std::string_view("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx13").size() > 3 && std::string_view("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx14").size() > 3 && std::string_view("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx15").size() > 3 && std::string_view("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx16").size() > 3 && std::string_view("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx17").size() > 3 && std::string_view("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx18").size() > 3 && std::string_view("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx19").size() > 3 && msg.size() + 1 > 0, msg); }, &u); break;
      default: cond = "(++n, holds) && line % 1 == 0 && \"{}\" != nullptr"; g = guarded([&] { here2 = __LINE__; REASSERT((++n, holds) && line % 1 == 0 && "{}" != nullptr, msg); }, &u); break;
    }
    whole[3] = holds || (has(u, msg) && has(u, cond) && has(u, __FILE__) && number_in(u, here2));
    vt::Ev("Told").kv("size", (int)msg.size()).kv("line", line).kv("text", whole[0]).kv("through", whole[1]).kv("insisted", whole[2]).kv("holds", holds).kv("thrown", outcome(g)).kv("evals", n).kv("asserted", whole[3]);
  }
}
static void matches() {
  vt::Ev("Begin").kv("type", "match");
  using V = std::variant<int, std::string, U>;
  for (int k = 0; k < 6; ++k) {
    int held = rnd(3), v = 1 + rnd(3), calls = 0, branch = -1, got = -1;
    const void *where = nullptr;
    V x = held == 0 ? V(v) : held == 1 ? V(text_of(v)) : V(std::make_unique<std::string>(text_of(v)));
    const void *addr = std::visit([](auto &y) -> const void * { return &y; }, x);
    if (k % 3 == 0) {  // by const reference, returning a reference
      const V &cx = x;
      const V &back = resim::match(
          cx, [&](const int &i) -> const V & { ++calls; branch = 0; got = i; where = &i; return cx; }, [&](const std::string &s) -> const V & { ++calls; branch = 1; got = id_of(s); where = &s; return cx; },
          [&](const U &u) -> const V & { ++calls; branch = 2; got = id_of(*u); where = &u; return cx; });
      vt::Ev("Match").kv("held", held).kv("v", v).kv("branch", branch).kv("got", got).kv("calls", calls).kv("same", where == addr && &back == &cx);
    } else if (k % 3 == 1) {  // a mutable variant
      resim::match(
          x, [&](const int &i) { ++calls; branch = 0; got = i; where = &i; }, [&](const std::string &s) { ++calls; branch = 1; got = id_of(s); where = &s; },
          [&](const U &u) { ++calls; branch = 2; got = id_of(*u); where = &u; });
      vt::Ev("Match").kv("held", held).kv("v", v).kv("branch", branch).kv("got", got).kv("calls", calls).kv("same", where == addr && (int)x.index() == held);
    } else {  // by rvalue, taking the content
      int r = resim::match(
          std::move(x), [&](int &&i) -> int { ++calls; branch = 0; where = &i; return i; }, [&](std::string &&s) -> int { ++calls; branch = 1; where = &s; std::string t = std::move(s); return id_of(t); },
          [&](U &&u) -> int { ++calls; branch = 2; where = &u; U t = std::move(u); return id_of(*t); });
      vt::Ev("Match").kv("held", held).kv("v", v).kv("branch", branch).kv("got", r).kv("calls", calls).kv("same", where == addr);
    }
  }
}

int main(int argc, char **argv) {
  if (argc != 5) return 97;
  rng.seed(atol(argv[1]));
  int nrand = atoi(argv[2]);
  vt::open(argv[4]);
  auto run = [&](int i, const std::vector<std::string> &ops) {
    switch (i % 5) {
      case 0: program<std::string>(ops, "string"); break;
      case 1: program<int>(ops, "int"); break;
      case 2: program<U>(ops, "unique"); break;
      case 3: program<int &>(ops, "ref"); break;
      default: references(ops); break;
    }
  };
  for (int m = 1; m < 4; ++m) make_failure(m);
  std::ifstream sc(argv[3]);
  std::string line;
  int n = 0;
  while (std::getline(sc, line)) {
    std::istringstream is(line);
    std::vector<std::string> ops;
    std::string o;
    while (is >> o) ops.push_back(o);
    run(n++, ops);
    if (rnd(4) == 0) run(rnd(5), ops);
  }
  const char *all[] = {"V1", "V2", "E1", "E2", "D1", "D2", "C1", "C2", "M1", "M2", "X1", "X2", "T1", "T2", "O1", "O2", "P1", "P2", "S1", "S2", "K1", "K2", "W1", "W2"};
  for (int i = 0; i < nrand; ++i) {
    std::vector<std::string> ops;
    for (int k = 1 + rnd(14); k--;) ops.push_back(all[rnd(24)]);
    run(i, ops);
    if (i % 8 == 0) { asserts(); matches(); }
    if (i % 4 == 0) tellings();
  }
  return vt::done();
}
