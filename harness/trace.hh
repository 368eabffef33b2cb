// Trace recording for the conformance harnesses: one JSON object per line, first field "ev".
#pragma once
#include <unistd.h>
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <random>
#include <string>
#include <vector>

namespace vt {

inline FILE *out = nullptr;

inline void open(const char *path) {
  out = fopen(path, "w");
  if (!out) { perror(path); exit(97); }
}

inline std::string quote(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += (char)c;
  }
  return r + "\"";
}

// Raw JSON text
struct J { std::string s; };

inline J js(const std::string &s) { return {quote(s)}; }
inline J js(const char *s) { return {quote(s)}; }
inline J js(bool b) { return {b ? "true" : "false"}; }
inline J js(int v) { return {std::to_string(v)}; }
// saturating: no specification value is that large, so an absurd value stays a wrong value
inline J js(long v) { return {std::to_string(v > 2147483647L ? 2147483647L : v < -2147483647L ? -2147483647L : v)}; }
inline J js(unsigned v) { return js((long)v); }
inline J js(unsigned long v) { return js((long)(v > 2147483647UL ? 2147483647UL : v)); }
inline J js(const J &j) { return j; }
template <class T> J js(const std::vector<T> &v) {
  std::string r = "[";
  bool first = true;
  for (const auto &x : v) { if (!first) r += ","; first = false; r += js(x).s; }
  return {r + "]"};
}

// 64-bit integer as a lexicographically ordered triple <<signed hi32, mid16, lo16>> (TLC integers are 32 bit; the
// representable part of hi is -2^31..2^31-1, which TLC holds).
inline J w64(int64_t v) {
  int64_t hi = v >> 32;
  uint32_t lo = (uint32_t)v;
  return {"[" + std::to_string(hi) + "," + std::to_string(lo >> 16) + "," + std::to_string(lo & 0xffff) + "]"};
}

// Arbitrary precision decimal: sign and base-10^4 limbs, least significant first.
inline J big(__int128 v) {
  int s = v > 0 ? 1 : v < 0 ? -1 : 0;
  unsigned __int128 u = v < 0 ? -(unsigned __int128)v : (unsigned __int128)v;
  std::string d = "[";
  bool first = true;
  while (u) { if (!first) d += ","; first = false; d += std::to_string((int)(u % 10000)); u /= 10000; }
  return {"{\"s\":" + std::to_string(s) + ",\"d\":" + d + "]}"};
}

struct Ev {
  std::string s;
  explicit Ev(const char *name) { s = std::string("{\"ev\":\"") + name + "\""; }
  template <class T> Ev &kv(const char *k, const T &v) {
    s += ",\""; s += k; s += "\":"; s += js(v).s; return *this;
  }
  ~Ev() {
    s += "}\n";
    // a code under test that never stops (e.g. calls back forever) must not fill the disk
    static std::atomic<uint64_t> bytes{0};
    if ((bytes += s.size()) > (uint64_t{1} << 31)) { fprintf(stderr, "runaway trace\n"); fflush(stderr); _exit(96); }
    fputs(s.c_str(), out);
  }
};

struct Obj {
  std::string s = "{";
  template <class T> Obj &kv(const char *k, const T &v) {
    if (s.size() > 1) s += ",";
    s += "\""; s += k; s += "\":"; s += js(v).s; return *this;
  }
  J j() const { return {s + "}"}; }
};

inline int done() { fflush(out); if (ferror(out)) return 97; fclose(out); return 0; }

}  // namespace vt
