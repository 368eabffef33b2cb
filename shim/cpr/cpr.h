// Stand-in for the cpr HTTP client library (not installed in this sandbox).  Every request is handed to the harness
// (vt_http), which plays the server.  Covers the part of cpr's interface that a client of this size can use.
#pragma once
#include <chrono>
#include <cstdint>
#include <initializer_list>
#include <map>
#include <string>
#include <string_view>
#include <utility>
#include <vector>
#include <strings.h>

namespace cpr {
struct CaseInsensitiveCompare {
  bool operator()(const std::string &a, const std::string &b) const { return strcasecmp(a.c_str(), b.c_str()) < 0; }
};
using Header = std::map<std::string, std::string, CaseInsensitiveCompare>;

template <class T>
class StringHolder {
 public:
  StringHolder() = default;
  StringHolder(const std::string &s) : str_(s) {}
  StringHolder(std::string &&s) : str_(std::move(s)) {}
  StringHolder(std::string_view s) : str_(s) {}
  StringHolder(const char *s) : str_(s) {}
  StringHolder(const char *s, size_t n) : str_(s, n) {}
  StringHolder(const std::initializer_list<std::string> &l) {
    for (const auto &x : l) str_ += x;
  }
  operator std::string() const { return str_; }
  const std::string &str() const { return str_; }
  const char *c_str() const { return str_.c_str(); }
  const char *data() const { return str_.data(); }
  T operator+(const char *r) const { return T(str_ + r); }
  T operator+(const std::string &r) const { return T(str_ + r); }
  T operator+(const StringHolder<T> &r) const { return T(str_ + r.str_); }
  void operator+=(const char *r) { str_ += r; }
  void operator+=(const std::string &r) { str_ += r; }
  bool operator==(const char *r) const { return str_ == r; }
  bool operator==(const std::string &r) const { return str_ == r; }
  bool operator==(const StringHolder<T> &r) const { return str_ == r.str_; }

 protected:
  std::string str_;
};
class Url : public StringHolder<Url> {
 public:
  using StringHolder<Url>::StringHolder;
  Url() = default;
};
class Body : public StringHolder<Body> {
 public:
  using StringHolder<Body>::StringHolder;
  Body() = default;
};
class Bearer {
 public:
  Bearer(std::string_view token) : token_(token) {}
  Bearer(const std::string &token) : token_(token) {}
  Bearer(const char *token) : token_(token) {}
  const char *GetToken() const { return token_.c_str(); }
  std::string token_;
};
struct Timeout {
  Timeout(std::chrono::milliseconds d) : ms(d) {}
  Timeout(std::int32_t m) : ms(m) {}
  std::chrono::milliseconds ms;
};
struct ConnectTimeout : Timeout {
  using Timeout::Timeout;
};
struct VerifySsl {
  VerifySsl(bool v) : verify(v) {}
  bool verify;
};
struct Redirect {
  Redirect(bool f = true) : follow(f) {}
  bool follow;
};
struct UserAgent : StringHolder<UserAgent> {
  using StringHolder<UserAgent>::StringHolder;
};
struct Parameter {
  std::string key, value;
};
struct Parameters {
  Parameters(std::initializer_list<Parameter> l) : v(l) {}
  std::vector<Parameter> v;
};
using Payload = Parameters;
enum class ErrorCode { OK = 0, CONNECTION_FAILURE = 1 };
struct Error {
  ErrorCode code = ErrorCode::OK;
  std::string message;
  explicit operator bool() const { return code != ErrorCode::OK; }
};
struct Response {
  long status_code{0};
  std::string text{};
  Header header{};
  Url url{};
  double elapsed{0};
  Error error{};
  std::string reason{};
};
// what reaches the wire
struct VtRequest {
  std::string method, url, body, bearer;
  bool has_bearer = false;
  Header header;
};
}  // namespace cpr

cpr::Response vt_http(const cpr::VtRequest &request);

namespace cpr {
class Session {
 public:
  void SetOption(const Url &u) { r_.url = u.str(); }
  void SetOption(const Body &b) { r_.body = b.str(); }
  void SetOption(const Bearer &b) { r_.bearer = b.token_, r_.has_bearer = true; }
  void SetOption(const Header &h) { r_.header = h; }
  void SetOption(const Parameters &p) {
    bool first = true;
    for (const auto &x : p.v) r_.url += (first ? "?" : "&") + x.key + "=" + x.value, first = false;
  }
  void SetOption(const Timeout &) {}
  void SetOption(const VerifySsl &) {}
  void SetOption(const Redirect &) {}
  void SetOption(const UserAgent &) {}
  void SetUrl(const Url &u) { SetOption(u); }
  void SetBody(const Body &b) { SetOption(b); }
  void SetBearer(const Bearer &b) { SetOption(b); }
  void SetHeader(const Header &h) { SetOption(h); }
  void UpdateHeader(const Header &h) {
    for (const auto &kv : h) r_.header[kv.first] = kv.second;
  }
  void SetTimeout(const Timeout &) {}
  void SetVerifySsl(const VerifySsl &) {}
  Response Do(const std::string &m) {
    r_.method = m;
    // an Authorization header spelled out by hand is the same bearer token on the wire
    auto it = r_.header.find("Authorization");
    if (!r_.has_bearer && it != r_.header.end() && it->second.rfind("Bearer ", 0) == 0) {
      r_.has_bearer = true;
      r_.bearer = it->second.substr(7);
    }
    Response x = vt_http(r_);
    x.url = Url{r_.url};
    return x;
  }
  Response Post() { return Do("POST"); }
  Response Get() { return Do("GET"); }
  Response Put() { return Do("PUT"); }
  Response Patch() { return Do("PATCH"); }
  Response Delete() { return Do("DELETE"); }

 private:
  VtRequest r_;
};
template <class... Ts>
Response Do(const char *m, Ts &&...ts) {
  Session s;
  (s.SetOption(ts), ...);
  return s.Do(m);
}
template <class... Ts>
Response Post(Ts &&...ts) { return Do("POST", std::forward<Ts>(ts)...); }
template <class... Ts>
Response Get(Ts &&...ts) { return Do("GET", std::forward<Ts>(ts)...); }
template <class... Ts>
Response Put(Ts &&...ts) { return Do("PUT", std::forward<Ts>(ts)...); }
namespace status {
inline bool is_success(long c) { return c >= 200 && c < 300; }
}
}  // namespace cpr
