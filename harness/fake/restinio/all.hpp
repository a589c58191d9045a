// Stand-in for the parts of restinio the server uses (the ext/ submodule is absent here): requests are lines
// "<thread> <path>" of the scratch file "requests.txt", answered by a pool of as many threads as asked for;
// responses go to the files "resp0", "resp1", ... ("<status>\n<content type>\n<body>").
#pragma once
#include "hsx.h"
#include <functional>
#include <memory>
#include <mutex>
#include <string>
#include <string_view>
#include <thread>
#include <utility>
#include <vector>

namespace restinio {
enum class http_field { content_type, server, access_control_allow_origin, cache_control, date, connection };
enum class request_handling_status_t { accepted, rejected, not_handled };
inline request_handling_status_t request_accepted() { return request_handling_status_t::accepted; }
inline request_handling_status_t request_rejected() { return request_handling_status_t::rejected; }
struct http_status_line_t {
  int         code;
  std::string reason;
  int         status_code() const { return code; }
};
inline http_status_line_t status_ok() { return {200, "OK"}; }
inline http_status_line_t status_bad_request() { return {400, "Bad Request"}; }
inline http_status_line_t status_not_found() { return {404, "Not Found"}; }
inline http_status_line_t status_internal_server_error() { return {500, "Internal Server Error"}; }

class response_t {
  std::string        file, body, type;
  http_status_line_t st;

public:
  response_t(std::string f, http_status_line_t s) : file(std::move(f)), st(std::move(s)) {}
  response_t(response_t&&)      = default;
  response_t(const response_t&) = delete;
  response_t& put(http_field f, const std::string& v) {
    if (f == http_field::content_type) type = v;
    return *this;
  }
  response_t&  append_header(http_field f, std::string v) & { return put(f, v); }
  response_t&& append_header(http_field f, std::string v) && { return std::move(put(f, v)); }
  response_t&  append_header(const std::string&, const std::string&) & { return *this; }
  response_t&& append_header(const std::string&, const std::string&) && { return std::move(*this); }
  response_t&  append_header_date_field() & { return *this; }
  response_t&& append_header_date_field() && { return std::move(*this); }
  response_t&  set_body(std::string b) & { return body = std::move(b), *this; }
  response_t&& set_body(std::string b) && { return body = std::move(b), std::move(*this); }
  response_t&  append_body(const std::string& b) & { return body += b, *this; }
  response_t&& append_body(const std::string& b) && { return body += b, std::move(*this); }
  response_t&  connection_close() & { return *this; }
  response_t&& connection_close() && { return std::move(*this); }
  response_t&  connection_keep_alive() & { return *this; }
  response_t&& connection_keep_alive() && { return std::move(*this); }
  request_handling_status_t done() {
    std::string s = std::to_string(st.code) + "\n" + type + "\n" + body;
    if (hsx_file_size(file.c_str()) >= 0) file += ".again";
    hsx_file_put(file.c_str(), s.data(), s.size());
    return request_handling_status_t::accepted;
  }
};
struct request_t {
  std::string file;
  response_t  create_response(http_status_line_t s = status_ok()) const { return response_t(file, std::move(s)); }
};
using request_handle_t = std::shared_ptr<request_t>;

namespace router {
class route_params_t {
  std::vector<std::pair<std::string, std::string>> v;

public:
  void             add(std::string k, std::string x) { v.emplace_back(std::move(k), std::move(x)); }
  std::string_view operator[](std::string_view k) const {
    for (auto& p: v) if (p.first == k) return p.second;
    throw std::runtime_error("no such parameter");
  }
};
template <class X = int>
class express_router_t {
  struct route {
    std::string                                                               pat;
    std::function<request_handling_status_t(request_handle_t, route_params_t)> fn;
  };
  std::vector<route>                                        routes;
  std::function<request_handling_status_t(request_handle_t)> other;
  static std::vector<std::string> split(const std::string& s) {
    std::vector<std::string> r(1);
    for (char c: s) {
      if (c == '/') r.emplace_back();
      else r.back() += c;
    }
    return r;
  }

public:
  template <class F>
  void http_get(std::string p, F f) { routes.push_back({std::move(p), std::move(f)}); }
  template <class F>
  void non_matched_request_handler(F f) { other = std::move(f); }
  request_handling_status_t operator()(request_handle_t req, const std::string& path) {
    auto s = split(path);
    for (auto& r: routes) {
      auto p = split(r.pat);
      if (p.size() != s.size()) continue;
      route_params_t a;
      bool           ok = true;
      for (size_t i = 0; i < p.size() && ok; i++) {
        if (!p[i].empty() && p[i][0] == ':') {
          ok = !s[i].empty();
          a.add(p[i].substr(1), s[i]);
        } else ok = p[i] == s[i];
      }
      if (ok) return r.fn(std::move(req), std::move(a));
    }
    return other ? other(std::move(req)) : request_handling_status_t::not_handled;
  }
};
} // namespace router

struct default_traits_t { using request_handler_t = router::express_router_t<>; };
using traits_t = default_traits_t;
template <class Traits>
struct settings_t {
  using handler_t = typename Traits::request_handler_t;
  std::size_t                pool;
  std::unique_ptr<handler_t> h;
  explicit settings_t(std::size_t n) : pool(n) {}
  settings_t(settings_t&&) = default;
  settings_t&  address(const std::string&) & { return *this; }
  settings_t&& address(const std::string&) && { return std::move(*this); }
  settings_t&  port(unsigned short) & { return *this; }
  settings_t&& port(unsigned short) && { return std::move(*this); }
  settings_t&  request_handler(std::unique_ptr<handler_t> x) & { return h = std::move(x), *this; }
  settings_t&& request_handler(std::unique_ptr<handler_t> x) && { return h = std::move(x), std::move(*this); }
};
template <class Traits>
settings_t<Traits> on_thread_pool(std::size_t n) { return settings_t<Traits>(n); }
template <class Traits = default_traits_t>
settings_t<Traits> on_this_thread() { return settings_t<Traits>(1); }

template <class S>
void run(S&& s) {
  HsxFile                                                f = hsx_read_file("requests.txt");
  std::vector<std::vector<std::pair<std::string, std::string>>> per(s.pool);
  std::string                                            line;
  size_t                                                 who = 0, idx = 0;
  for (unsigned char c: f.data) {
    if (c != '\n') {
      line += (char)c;
      continue;
    }
    who = (size_t)(line[0] - '0') % s.pool;
    per[who].push_back({"resp" + std::to_string(idx++), line.substr(2)});
    line.clear();
  }
  auto worker = [&](size_t k) {
    for (auto& q: per[k]) {
      auto req  = std::make_shared<request_t>();
      req->file = q.first;
      if (s.pool > 1) hsx_yield();
      try {
        if ((*s.h)(req, q.second) != request_handling_status_t::accepted) req->create_response({501, "not accepted"}).done();
      } catch (...) { // would close the connection without an answer
        hsx_file_put(q.first.c_str(), "000\n\n", 5);
      }
    }
  };
  if (s.pool == 1) return worker(0);
  std::vector<std::thread> th;
  for (size_t k = 1; k < s.pool; k++) th.emplace_back(worker, k);
  worker(0);
  for (auto& t: th) t.join();
}
} // namespace restinio
