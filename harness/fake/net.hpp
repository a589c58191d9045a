// Stand-ins for the parts of libcurl and libevent the downloader uses: a server whose responses are files
// of the scratch directory ("<prefix>.srv"), transfers that complete in any order and grouping, and transfers
// that fail with any curl result or HTTP status. One process uses one multi handle.
#pragma once
#include "common.hpp"
#include <curl/curl.h>
#include <event2/event.h>
#include <event2/util.h>
#include <event2/event_struct.h>
#undef curl_easy_setopt
#undef curl_easy_getinfo
#undef curl_multi_setopt
#include <cstdarg>
#include <vector>

namespace net {
struct Easy {
  std::string          url;
  void*                priv  = nullptr;
  void*                wdata = nullptr;
  curl_write_callback  wfn   = nullptr;
  bool                 failOnError = false;
  bool                 added = false, started = false, done = false, posted = false;
  size_t               sent = 0; // bytes delivered in this attempt
  curl_socket_t        fd   = -1;
  long                 code = 0;
  unsigned             attempts = 0;
  CURLMsg              msg;
};
struct Ev {
  struct event* ev;
  bool          pending;
};
static std::vector<Easy*>         handles; // attached to the multi handle
static std::vector<Easy*>         queue;   // completed, not yet read
static curl_socket_callback       sockfn;
static curl_multi_timer_callback  timerfn;
static void *                     sockp, *timerp;
static std::vector<struct event*> evs; // pending events
static std::vector<std::pair<curl_socket_t, void*>> assigned;
static bool                       inCb;
static bool                       broken;
static std::string                reqlog;
static unsigned                   running, maxRunning;
static curl_socket_t              nextFd = 40;
static long                       failures;
static int                        multiObj, baseObj;
static bool                       baseAlive, multiAlive;

static std::string decimal(unsigned long x) {
  std::string s;
  do s.insert(s.begin(), (char)('0' + x % 10)); while (x /= 10);
  return s;
}
static void saveLog() {
  std::string s = "max " + decimal(maxRunning) + "\n" + reqlog;
  hsx_file_put("requests.log", s.data(), s.size());
}
// what the server holds for a url; the address must be one of the two forms of the service
static bool body(const std::string& url, std::vector<char>& out) {
  size_t      slash = url.find_last_of('/');
  std::string f     = url.substr(slash + 1);
  size_t      q     = f.find('?');
  if (q != std::string::npos) f = f.substr(0, q) + ".ntlm";
  f += ".srv";
  long n = hsx_file_size(f.c_str());
  if (n < 0) return false;
  out.resize((size_t)n);
  if (n) hsx_file_get(f.c_str(), out.data(), 0, (unsigned long)n);
  return true;
}
static void setEv(struct event* e, bool on) {
  for (size_t i = 0; i < evs.size(); i++)
    if (evs[i] == e) {
      if (!on) evs.erase(evs.begin() + (long)i);
      return;
    }
  if (on) evs.push_back(e);
}
static void* socketp(curl_socket_t fd) {
  for (auto& a: assigned) if (a.first == fd) return a.second;
  return nullptr;
}
static void sock(Easy* e, curl_socket_t fd, int what) {
  if (!sockfn) return;
  inCb = true;
  sockfn((CURL*)e, fd, what, sockp, socketp(fd));
  inCb = false;
}
static void timer(long ms) {
  if (!timerfn) return;
  inCb = true;
  timerfn((CURLM*)&multiObj, ms, timerp);
  inCb = false;
}
static void closeFd(Easy* e) { // the transfer no longer uses its socket
  if (e->fd < 0) return;
  curl_socket_t fd = e->fd;
  e->fd            = -1;
  for (auto* h: handles) if (h->fd == fd) return;
  sock(e, fd, CURL_POLL_REMOVE);
  for (size_t i = 0; i < assigned.size(); i++) if (assigned[i].first == fd) { assigned.erase(assigned.begin() + (long)i); break; }
}
static void start(Easy* e) {
  e->started = true;
  e->sent    = 0;
  if (hsx_param("shared", 1)) {
    e->fd = 7;
    for (auto* h: handles) if (h != e && h->fd == 7) return;
  } else e->fd = nextFd++;
  sock(e, e->fd, CURL_POLL_OUT);
  sock(e, e->fd, CURL_POLL_IN);
}
static bool deliver(Easy* e, const std::vector<char>& b, size_t upto) {
  if (upto <= e->sent) return true;
  size_t n = upto - e->sent;
  char*  p = new char[n]; // exactly as long as the data: not terminated
  memcpy(p, b.data() + e->sent, n);
  inCb     = true;
  size_t r = e->wfn ? e->wfn(p, 1, n, e->wdata) : n;
  inCb     = false;
  memset(p, 'z', n);
  delete[] p;
  e->sent = upto;
  return r == n;
}
static CURLcode outcome(Easy* e, bool sync) { // runs the rest of one transfer
  std::vector<char> b;
  bool              have = body(e->url, b);
  long              hard = hsx_param("hard", -1);
  bool              mustFail = !sync && hard >= 0 && !(hsx_param("again", 0) && hsx_file_size("first.run") < 0) && e->url.find("/" + std::string("0000") + (char)("0123456789ABCDEF"[hard & 15])) != std::string::npos;
  unsigned          k = 0;
  bool              plain = failures >= hsx_param("symfails", 2); // further failures are all alike
  if (hsx_param("again", 0) && hsx_file_size("first.run") < 0) k = 0;
  else if (mustFail) k = plain ? 2 : 1 + hsx_choice(2, "failure kind");
  else if (failures < hsx_param(sync ? "syncfails" : "fails", 0)) k = hsx_choice(3, "outcome");
  if (k) failures++;
  if (!have) {
    e->code = 404;
    deliver(e, {'n', 'o', 'n', 'e'}, 4);
    return CURLE_OK;
  }
  if (k == 0) {
    e->code = 200;
    if (hsx_param("pieces", 0)) // in two pieces, cut anywhere
      if (!deliver(e, b, e->sent + (b.size() - e->sent) * hsx_choice(3, "piece") / 3)) return CURLE_WRITE_ERROR;
    return deliver(e, b, b.size()) ? CURLE_OK : CURLE_WRITE_ERROR;
  }
  if (plain && mustFail) {
    e->code = 503;
    deliver(e, b, b.size());
    return CURLE_OK;
  }
  uint16_t c;
  hsx_make_symbolic(&c, 2, "status");
  hsx_assume((int)((unsigned)(c >= 100) & (unsigned)(c <= 599)));
  if (k == 1) { // transport error, after part of the body
    uint8_t r;
    hsx_make_symbolic(&r, 1, "curl result");
    hsx_assume((int)((unsigned)(r >= 1) & (unsigned)(r <= 98)));
    if (hsx_param("partial", 1)) deliver(e, b, std::max(e->sent, b.size() / 2));
    e->code = c;
    return (CURLcode)r;
  }
  hsx_assume(c != 200);
  e->code = c;
  if (e->failOnError && hsx_decide(c >= 400)) return CURLE_HTTP_RETURNED_ERROR;
  deliver(e, b, b.size()); // a plausible body that must not be used
  return CURLE_OK;
}
static void finish(Easy* e) {
  CURLcode r          = outcome(e, false);
  e->done             = true;
  e->posted           = true;
  e->msg.msg          = CURLMSG_DONE;
  e->msg.easy_handle  = (CURL*)e;
  e->msg.data.result  = r;
  running--;
  queue.push_back(e);
  closeFd(e);
}
static Easy* ea(CURL* h) { return (Easy*)h; }
} // namespace net

extern "C" {
CURLcode curl_global_init(long) { return CURLE_OK; }
void     curl_global_cleanup(void) {}
CURL*    curl_easy_init(void) { return (CURL*)new net::Easy; }
void     curl_easy_cleanup(CURL* h) {
  auto* e = net::ea(h);
  if (!e) return;
  hsx_assert(!e->added, "an easy handle is detached before it is freed");
  delete e;
}
CURLcode curl_easy_setopt(CURL* h, CURLoption o, ...) {
  auto*   e = net::ea(h);
  va_list v;
  va_start(v, o);
  switch (o) {
  case CURLOPT_URL: e->url = va_arg(v, const char*); break;
  case CURLOPT_PRIVATE: e->priv = va_arg(v, void*); break;
  case CURLOPT_WRITEDATA: e->wdata = va_arg(v, void*); break;
  case CURLOPT_WRITEFUNCTION: e->wfn = (curl_write_callback)va_arg(v, void*); break;
  case CURLOPT_FAILONERROR: e->failOnError = va_arg(v, long) != 0; break;
  default: break;
  }
  va_end(v);
  return CURLE_OK;
}
CURLcode curl_easy_getinfo(CURL* h, CURLINFO o, ...) {
  auto*   e = net::ea(h);
  va_list v;
  va_start(v, o);
  void* p = va_arg(v, void*);
  va_end(v);
  switch (o) {
  case CURLINFO_PRIVATE: *(void**)p = e->priv; return CURLE_OK;
  case CURLINFO_RESPONSE_CODE: *(long*)p = e->code; return CURLE_OK;
  case CURLINFO_EFFECTIVE_URL: *(const char**)p = e->url.c_str(); return CURLE_OK;
  default: return CURLE_UNKNOWN_OPTION;
  }
}
CURLcode curl_easy_perform(CURL* h) {
  auto* e = net::ea(h);
  net::reqlog += "sync " + e->url + "\n";
  net::saveLog();
  e->sent = 0;
  return net::outcome(e, true);
}
const char* curl_easy_strerror(CURLcode) { return "transfer failed"; }
const char* curl_multi_strerror(CURLMcode) { return "multi failed"; }
CURLM*      curl_multi_init(void) { net::multiAlive = true; return (CURLM*)&net::multiObj; }
CURLMcode   curl_multi_setopt(CURLM*, CURLMoption o, ...) {
  va_list v;
  va_start(v, o);
  switch (o) {
  case CURLMOPT_SOCKETFUNCTION: net::sockfn = (curl_socket_callback)va_arg(v, void*); break;
  case CURLMOPT_TIMERFUNCTION: net::timerfn = (curl_multi_timer_callback)va_arg(v, void*); break;
  case CURLMOPT_SOCKETDATA: net::sockp = va_arg(v, void*); break;
  case CURLMOPT_TIMERDATA: net::timerp = va_arg(v, void*); break;
  default: break;
  }
  va_end(v);
  return CURLM_OK;
}
CURLMcode curl_multi_add_handle(CURLM*, CURL* h) {
  auto* e = net::ea(h);
  hsx_assert(net::multiAlive, "the multi handle is in use");
  if (net::inCb) return CURLM_RECURSIVE_API_CALL;
  if (e->added) return CURLM_ADDED_ALREADY;
  e->added = true;
  e->started = e->done = e->posted = false;
  e->code = 0;
  e->attempts++;
  net::handles.push_back(e);
  net::reqlog += "get " + e->url + "\n";
  net::running++;
  net::maxRunning = std::max(net::maxRunning, net::running);
  net::saveLog();
  net::timer(0);
  return CURLM_OK;
}
CURLMcode curl_multi_remove_handle(CURLM*, CURL* h) {
  auto* e = net::ea(h);
  if (net::inCb) return CURLM_RECURSIVE_API_CALL;
  if (!e->added) return CURLM_OK;
  e->added = false;
  for (size_t i = 0; i < net::handles.size(); i++) if (net::handles[i] == e) { net::handles.erase(net::handles.begin() + (long)i); break; }
  for (size_t i = 0; i < net::queue.size(); i++) if (net::queue[i] == e) { net::queue.erase(net::queue.begin() + (long)i); break; }
  if (!e->done) net::running--;
  net::closeFd(e);
  memset((void*)&e->msg, 0x5a, sizeof e->msg); // the message does not survive this call
  return CURLM_OK;
}
CURLMsg* curl_multi_info_read(CURLM*, int* left) {
  *left = 0;
  if (net::queue.empty()) return nullptr;
  net::Easy* e = net::queue.front();
  net::queue.erase(net::queue.begin());
  *left = (int)net::queue.size();
  return &e->msg;
}
CURLMcode curl_multi_assign(CURLM*, curl_socket_t s, void* p) {
  for (auto& a: net::assigned) if (a.first == s) { a.second = p; return CURLM_OK; }
  net::assigned.push_back({s, p});
  return CURLM_OK;
}
CURLMcode curl_multi_socket_action(CURLM*, curl_socket_t s, int, int* nrun) {
  if (s == CURL_SOCKET_TIMEOUT) {
    std::vector<net::Easy*> todo;
    for (auto* h: net::handles) if (!h->started) todo.push_back(h);
    for (auto* h: todo) net::start(h);
    net::timer(-1);
  } else {
    std::vector<net::Easy*> act;
    for (auto* h: net::handles) if (h->started && !h->done && h->fd == s) act.push_back(h);
    bool any = hsx_param("order", 1) != 0;
    if (!act.empty()) { // some of the transfers on this connection complete, in any order
      for (bool first = true; !act.empty(); first = false) {
        unsigned k = any ? hsx_choice((unsigned)act.size() + (first ? 0 : 1), "complete") : first ? 0 : 1 + (unsigned)act.size();
        if (k >= act.size()) break;
        net::Easy* e = act[k];
        act.erase(act.begin() + k);
        net::finish(e);
      }
    }
  }
  *nrun = (int)net::running;
  return CURLM_OK;
}
CURLMcode curl_multi_cleanup(CURLM*) {
  net::multiAlive = false;
  return CURLM_OK;
}

struct event_base* event_base_new(void) { net::baseAlive = true; return (struct event_base*)&net::baseObj; }
void               event_base_free(struct event_base*) {
  hsx_assert(net::baseAlive, "the event base is freed once");
  net::baseAlive = false;
}
int event_assign(struct event* e, struct event_base*, evutil_socket_t fd, short events, event_callback_fn fn, void* arg) {
  e->ev_fd = fd;
  e->ev_events = events;
  e->ev_evcallback.evcb_cb_union.evcb_callback = fn;
  e->ev_evcallback.evcb_arg = arg;
  return 0;
}
struct event* event_new(struct event_base* b, evutil_socket_t fd, short events, event_callback_fn fn, void* arg) {
  auto* e = new struct event;
  event_assign(e, b, fd, events, fn, arg);
  return e;
}
int event_add(struct event* e, const struct timeval*) { net::setEv(e, true); return 0; }
int event_del(struct event* e) { net::setEv(e, false); return 0; }
void event_free(struct event* e) {
  net::setEv(e, false);
  delete e;
}
int  event_base_loopbreak(struct event_base*) { net::broken = true; return 0; }
int  event_base_loopexit(struct event_base*, const struct timeval*) { net::broken = true; return 0; }
void libevent_global_shutdown(void) {}
int  event_base_dispatch(struct event_base*) {
  while (!net::broken && !net::evs.empty()) {
    if (hsx_param("pause", 1)) hsx_pause(); // waiting for the network: the other thread may run
    unsigned      k  = net::evs.size() > 1 && hsx_param("order", 1) ? hsx_choice((unsigned)net::evs.size(), "event") : 0;
    struct event* e  = net::evs[k];
    short         ev = e->ev_events;
    if (!(ev & EV_PERSIST)) net::setEv(e, false);
    e->ev_evcallback.evcb_cb_union.evcb_callback((evutil_socket_t)e->ev_fd, ev & EV_READ ? EV_READ : ev & EV_WRITE ? EV_WRITE : EV_TIMEOUT, e->ev_evcallback.evcb_arg);
  }
  return net::evs.empty() ? 1 : 0;
}
int event_base_loop(struct event_base* b, int) { return event_base_dispatch(b); }
}
