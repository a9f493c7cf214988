// A stand-in for the HTTP library cpr, which this sandbox does not have. It has the part of cpr's interface that code
// of this kind uses; every request goes to cpr::stub::handler, with which a harness plays the server.
#pragma once
#include <algorithm>
#include <chrono>
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <map>
#include <string>
#include <string_view>
#include <utility>
#include <vector>

namespace cpr {

template <class T>
class StringHolder {
 public:
  StringHolder() = default;
  explicit StringHolder(std::string s) : str_(std::move(s)) {}
  explicit StringHolder(std::string_view s) : str_(s) {}
  explicit StringHolder(const char *s) : str_(s) {}
  StringHolder(const char *s, size_t n) : str_(s, n) {}
  StringHolder(std::initializer_list<std::string> l) {
    for (const auto &s : l) str_ += s;
  }
  virtual ~StringHolder() = default;
  StringHolder(const StringHolder &) = default;
  StringHolder(StringHolder &&) = default;
  StringHolder &operator=(const StringHolder &) = default;
  StringHolder &operator=(StringHolder &&) = default;
  explicit operator std::string() const { return str_; }
  T operator+(const char *s) const { return T(str_ + s); }
  T operator+(const std::string &s) const { return T(str_ + s); }
  bool operator==(const std::string &s) const { return str_ == s; }
  const std::string &str() const { return str_; }
  const char *c_str() const { return str_.c_str(); }
  const char *data() const { return str_.data(); }

 protected:
  std::string str_;
};

class Url : public StringHolder<Url> {
 public:
  Url() = default;
  Url(std::string s) : StringHolder<Url>(std::move(s)) {}
  Url(std::string_view s) : StringHolder<Url>(s) {}
  Url(const char *s) : StringHolder<Url>(s) {}
  Url(std::initializer_list<std::string> l) : StringHolder<Url>(l) {}
};
class Body : public StringHolder<Body> {
 public:
  Body() = default;
  Body(std::string s) : StringHolder<Body>(std::move(s)) {}
  Body(std::string_view s) : StringHolder<Body>(s) {}
  Body(const char *s) : StringHolder<Body>(s) {}
  Body(const char *s, size_t n) : StringHolder<Body>(s, n) {}
  Body(std::initializer_list<std::string> l) : StringHolder<Body>(l) {}
};
class Bearer : public StringHolder<Bearer> {
 public:
  Bearer(std::string s) : StringHolder<Bearer>(std::move(s)) {}
  Bearer(std::string_view s) : StringHolder<Bearer>(s) {}
  Bearer(const char *s) : StringHolder<Bearer>(s) {}
  Bearer(std::initializer_list<std::string> l) : StringHolder<Bearer>(l) {}
  const char *GetToken() const noexcept { return str_.c_str(); }
};
struct CaseInsensitiveCompare {
  bool operator()(const std::string &a, const std::string &b) const noexcept {
    return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end(),
                                        [](unsigned char x, unsigned char y) { return tolower(x) < tolower(y); });
  }
};
using Header = std::map<std::string, std::string, CaseInsensitiveCompare>;
struct Timeout {
  Timeout(const std::chrono::milliseconds &d) : ms(d) {}
  Timeout(const std::int32_t &m) : ms(m) {}
  std::chrono::milliseconds ms;
};
struct ConnectTimeout : Timeout {
  using Timeout::Timeout;
};
struct VerifySsl {
  VerifySsl(bool v) : verify(v) {}
  bool verify;
};
enum class ErrorCode { OK = 0, CONNECTION_FAILURE, OPERATION_TIMEDOUT, UNKNOWN_ERROR = 1000 };
struct Error {
  ErrorCode code = ErrorCode::OK;
  std::string message;
  explicit operator bool() const { return code != ErrorCode::OK; }
};
struct Response {
  long status_code = 0;
  std::string text;
  Header header;
  Url url;
  double elapsed = 0;
  Error error;
  std::string reason;
  std::string status_line;
};

namespace stub {
struct Request {
  std::string method;
  std::string url;
  Header header;
  std::string bearer;
  bool has_bearer = false;
  std::string body;
};
inline std::function<Response(const Request &)> handler;
inline void set(Request &r, const Url &u) { r.url = u.str(); }
inline void set(Request &r, const Header &h) {
  for (const auto &x : h) r.header[x.first] = x.second;
}
inline void set(Request &r, const Bearer &b) {
  r.bearer = b.str();
  r.has_bearer = true;
}
inline void set(Request &r, const Body &b) { r.body = b.str(); }
inline void set(Request &, const Timeout &) {}
inline void set(Request &, const VerifySsl &) {}
inline Response finish(Request &r) {
  // As cpr does: an Authorization header is one way to give a bearer token.
  auto it = r.header.find("Authorization");
  if (!r.has_bearer && it != r.header.end() && it->second.rfind("Bearer ", 0) == 0) {
    r.bearer = it->second.substr(7);
    r.has_bearer = true;
  }
  return handler(r);
}
template <typename... T>
Response request(const char *method, T &&...t) {
  Request r;
  r.method = method;
  (set(r, t), ...);
  return finish(r);
}
}  // namespace stub

template <typename... T>
Response Post(T &&...t) {
  return stub::request("POST", std::forward<T>(t)...);
}
template <typename... T>
Response Put(T &&...t) {
  return stub::request("PUT", std::forward<T>(t)...);
}
template <typename... T>
Response Get(T &&...t) {
  return stub::request("GET", std::forward<T>(t)...);
}
template <typename... T>
Response Delete(T &&...t) {
  return stub::request("DELETE", std::forward<T>(t)...);
}
template <typename... T>
Response Patch(T &&...t) {
  return stub::request("PATCH", std::forward<T>(t)...);
}

// The stateful way of making requests.
class Session {
 public:
  template <typename T>
  void SetOption(const T &t) {
    stub::set(request_, t);
  }
  void SetUrl(const Url &t) { stub::set(request_, t); }
  void SetBody(const Body &t) { stub::set(request_, t); }
  void SetBearer(const Bearer &t) { stub::set(request_, t); }
  void SetHeader(const Header &t) {
    request_.header.clear();
    stub::set(request_, t);
  }
  void UpdateHeader(const Header &t) { stub::set(request_, t); }
  void SetTimeout(const Timeout &) {}
  void SetConnectTimeout(const ConnectTimeout &) {}
  void SetVerifySsl(const VerifySsl &) {}
  Response Post() { return send("POST"); }
  Response Put() { return send("PUT"); }
  Response Get() { return send("GET"); }
  Response Delete() { return send("DELETE"); }
  Response Patch() { return send("PATCH"); }

 private:
  Response send(const char *method) {
    stub::Request r = request_;
    r.method = method;
    return stub::finish(r);
  }
  stub::Request request_;
};

namespace status {
inline bool is_informational(long c) { return c >= 100 && c < 200; }
inline bool is_success(long c) { return c >= 200 && c < 300; }
inline bool is_redirect(long c) { return c >= 300 && c < 400; }
inline bool is_client_error(long c) { return c >= 400 && c < 500; }
inline bool is_server_error(long c) { return c >= 500 && c < 600; }
constexpr long HTTP_OK = 200;
constexpr long HTTP_CREATED = 201;
constexpr long HTTP_UNAUTHORIZED = 401;
constexpr long HTTP_FORBIDDEN = 403;
constexpr long HTTP_NOT_FOUND = 404;
}  // namespace status
}  // namespace cpr
