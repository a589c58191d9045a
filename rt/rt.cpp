// Runtime for the symbolic executor: the compiled-in part of libstdc++ (locale, ios, exceptions, containers' helpers,
// filesystem, threads), an in-memory file system with fault injection, and the few libc functions used.
#include "hsx.h"
#include <cctype>
#include <cerrno>
#include <chrono>
#include <condition_variable>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <filesystem>
#include <codecvt>
#include <fstream>
#include <functional>
#include <ios>
#include <istream>
#include <locale>
#include <map>
#include <memory>
#include <mutex>
#include <ostream>
#include <cstdarg>
#include <pthread.h>
#include <sstream>
#include <stdexcept>
#include <string>
#include <system_error>
#include <thread>
#include <typeinfo>
#include <unordered_map>
#include <bits/cxxabi_forced.h>

extern "C" {
void hsx_throw(void* obj, void* ti);
void hsx_terminate(const char* why);
void hsx_hb(void* obj, int release);
void hsx_app_exit(int code);
int  hsx_call_app_(int (*f)(int, char**), int argc, char** argv);
void hsx_reset_globals(void);
void hsx_unsupported(const char* why);
void rt_close_all(void);
int  rt_fflush(int fd);
int  rt_vsnprintf(char* out, unsigned long cap, const char* f, va_list v);
int  hsx_fmt_double(char* out, unsigned long cap, const char* spec, double d);
}

// ============================================================ libc bits
extern "C" {
static thread_local int rt_errno;
int*  __errno_location() noexcept { return &rt_errno; }
char  __libc_single_threaded = 0;
void* __dso_handle           = nullptr;
char* getenv(const char*) noexcept { return nullptr; }
int   strcmp(const char* a, const char* b) noexcept {
  while (*a && *a == *b) a++, b++;
  return (unsigned char)*a - (unsigned char)*b;
}
int strncmp(const char* a, const char* b, size_t n) noexcept {
  for (; n; n--, a++, b++) {
    if (*a != *b) return (unsigned char)*a - (unsigned char)*b;
    if (!*a) return 0;
  }
  return 0;
}
char* strcpy(char* d, const char* s) noexcept {
  char* r = d;
  while ((*d++ = *s++)) {}
  return r;
}
int isprint(int c) noexcept { return c >= 32 && c < 127; }
int isdigit(int c) noexcept { return c >= '0' && c <= '9'; }
int isspace(int c) noexcept { return c == ' ' || (c >= 9 && c <= 13); }
int isalpha(int c) noexcept { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isxdigit(int c) noexcept { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int toupper(int c) noexcept { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int tolower(int c) noexcept { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int digitVal(char c) {
  if (c >= '0' && c <= '9') return c - '0';
  if (c >= 'a' && c <= 'z') return c - 'a' + 10;
  if (c >= 'A' && c <= 'Z') return c - 'A' + 10;
  return 99;
}
static unsigned long long parseU(const char* s, char** end, int base, bool& neg, bool& ovf) {
  const char* p = s;
  while (isspace(*p)) p++;
  neg = false;
  ovf = false;
  if (*p == '+' || *p == '-') neg = *p++ == '-';
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && digitVal(p[2]) < 16) { p += 2; base = 16; }
  if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long long v = 0;
  const char*        st = p;
  while (digitVal(*p) < base) {
    unsigned long long n = v * (unsigned)base + (unsigned)digitVal(*p);
    if (v > (~0ull - (unsigned)digitVal(*p)) / (unsigned)base) ovf = true;
    v = n;
    p++;
  }
  if (end) *end = (char*)(p == st ? s : p);
  return v;
}
unsigned long long __isoc23_strtoull(const char* s, char** e, int b) noexcept {
  bool n, o;
  auto v = parseU(s, e, b, n, o);
  if (o) { errno = ERANGE; return ~0ull; }
  return n ? -v : v;
}
long long __isoc23_strtoll(const char* s, char** e, int b) noexcept {
  bool n, o;
  auto v = parseU(s, e, b, n, o);
  if (o || v > (n ? 1ull << 63 : ~0ull >> 1)) { errno = ERANGE; return n ? (long long)(1ull << 63) : (long long)(~0ull >> 1); }
  return (long long)(n ? -v : v);
}
unsigned long __isoc23_strtoul(const char* s, char** e, int b) noexcept { return __isoc23_strtoull(s, e, b); }
long          __isoc23_strtol(const char* s, char** e, int b) noexcept { return __isoc23_strtoll(s, e, b); }
char* strerror(int e) noexcept { return (char*)(e == ENOENT ? "No such file or directory" : e == ENOSPC ? "No space left on device" : e == 0 ? "Success" : "Error"); }
int   posix_memalign(void** p, size_t, size_t n) noexcept { *p = malloc(n); return 0; }
long  syscall(long n, ...) noexcept { // futex only: a wait lets other threads run, a wake does nothing
  va_list v;
  va_start(v, n);
  (void)va_arg(v, long);
  long op = va_arg(v, long);
  va_end(v);
  if ((op & 127) != 1) sched_yield();
  return 0;
}
struct tm* gmtime_r(const time_t* t, struct tm* r) noexcept { // proleptic Gregorian, UTC
  long d = (long)*t / 86400, s = (long)*t % 86400;
  memset(r, 0, sizeof *r);
  r->tm_hour = (int)(s / 3600), r->tm_min = (int)(s / 60 % 60), r->tm_sec = (int)(s % 60), r->tm_wday = (int)((d + 4) % 7);
  int y = 1970;
  for (;; y++) {
    long n = (y % 4 == 0 && (y % 100 || y % 400 == 0)) ? 366 : 365;
    if (d < n) break;
    d -= n;
  }
  r->tm_year = y - 1900, r->tm_yday = (int)d;
  const int len[12] = {31, (y % 4 == 0 && (y % 100 || y % 400 == 0)) ? 29 : 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  while (d >= len[r->tm_mon]) d -= len[r->tm_mon++];
  r->tm_mday = (int)d + 1;
  return r;
}
struct tm* localtime_r(const time_t* t, struct tm* r) noexcept { return gmtime_r(t, r); }
void __assert_fail(const char* e, const char*, unsigned, const char*) noexcept { hsx_terminate(e); abort(); }
// run-at-exit list of the program under test
struct AtExit { void (*f)(void*); void* a; };
static AtExit rt_atexit[512];
static int    rt_natexit;
int __cxa_atexit(void (*f)(void*), void* a, void*) noexcept {
  if (rt_natexit < 512) rt_atexit[rt_natexit++] = {f, a};
  return 0;
}
int  __cxa_thread_atexit(void (*)(void*), void*, void*) noexcept { return 0; }
static bool rt_in_app;
static int  rt_base_atexit;
static void run_atexit() {
  while (rt_natexit > 0) {
    auto x = rt_atexit[--rt_natexit];
    x.f(x.a);
  }
  rt_fflush(1);
}
void exit(int c) noexcept {
  run_atexit();
  hsx_app_exit(c & 255);
  __builtin_unreachable();
}
void _Exit(int c) noexcept { hsx_app_exit(c & 255); __builtin_unreachable(); }
void quick_exit(int c) noexcept { hsx_app_exit(c & 255); __builtin_unreachable(); }
int  __cxa_guard_acquire(char* g) { // g[0]: done, g[1]: a thread is at it
  while (g[1]) sched_yield();
  hsx_hb(g, 0);
  return g[0] == 0 ? g[1] = 1 : 0;
}
void __cxa_guard_release(char* g) { g[0] = 1; g[1] = 0; hsx_hb(g, 1); }
void __cxa_guard_abort(char* g) { g[1] = 0; }
void __cxa_pure_virtual() { hsx_terminate("pure virtual call"); }
void __cxa_deleted_virtual() { hsx_terminate("deleted virtual call"); }
int  __gxx_personality_v0(...) { return 0; }
}
static int run_main(int (*m)(int, char**), int argc, char** argv) {
  int r = m(argc, argv);
  run_atexit();
  return r & 255;
}
static int (*rt_mainfn)(int, char**);
static int rt_tramp(int argc, char** argv) { return run_main(rt_mainfn, argc, argv); }
extern "C" int hsx_run(int (*m)(int, char**), int argc, char** argv) {
  hsx_reset_globals();
  rt_mainfn = m;
  int r = hsx_call_app_(rt_tramp, argc, argv);
  rt_close_all();
  return r;
}

// ============================================================ exceptions
namespace {
struct ExcHdr { // 48 bytes before the object; the engine reads tinfo (obj-48) and writes adjusted (obj-8)
  void* tinfo;
  void (*dtor)(void*);
  int     refs, handlers;
  ExcHdr* next;
  long    flags;
  void*   adjusted;
};
static_assert(sizeof(ExcHdr) == 48);
inline ExcHdr* hdr(void* o) { return (ExcHdr*)o - 1; }
thread_local ExcHdr* rt_caught;
thread_local int     rt_uncaught;
void excRelease(void* o) {
  ExcHdr* h = hdr(o);
  if (--h->refs == 0) {
    if (h->dtor) h->dtor(o);
    free(h);
  }
}
} // namespace
extern "C" {
void* __cxa_allocate_exception(size_t n) noexcept {
  char* p = (char*)malloc(sizeof(ExcHdr) + n);
  memset(p, 0, sizeof(ExcHdr));
  return p + sizeof(ExcHdr);
}
void __cxa_free_exception(void* o) noexcept { free(hdr(o)); }
void __cxa_throw(void* o, std::type_info* ti, void (*d)(void*)) {
  ExcHdr* h = hdr(o);
  h->tinfo  = ti;
  h->dtor   = d;
  h->refs   = 1;
  rt_uncaught++;
  hsx_throw(o, ti);
}
void* __cxa_begin_catch(void* o) noexcept {
  ExcHdr* h = hdr(o);
  if (h->handlers < 0) h->handlers = -h->handlers + 1;
  else h->handlers++;
  if (rt_caught != h) {
    h->next   = rt_caught;
    rt_caught = h;
  }
  rt_uncaught--;
  return h->adjusted;
}
void* __cxa_get_exception_ptr(void* o) noexcept { return hdr(o)->adjusted; }
void __cxa_end_catch() {
  ExcHdr* h = rt_caught;
  if (!h) return;
  if (h->handlers < 0) {
    if (++h->handlers == 0) rt_caught = h->next;
  } else if (--h->handlers == 0) {
    rt_caught = h->next;
    excRelease(h + 1);
  }
}
void __cxa_rethrow() {
  ExcHdr* h = rt_caught;
  if (!h) { hsx_terminate("rethrow without exception"); return; }
  h->handlers = -h->handlers;
  rt_uncaught++;
  hsx_throw(h + 1, h->tinfo);
}
std::type_info* __cxa_current_exception_type() noexcept { return rt_caught ? (std::type_info*)rt_caught->tinfo : nullptr; }
void __cxa_bad_cast() { throw std::bad_cast(); }
void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
__cxxabiv1::__cxa_refcounted_exception* __cxa_init_primary_exception(void* o, std::type_info* ti, void (*d)(void*)) noexcept {
  ExcHdr* h = hdr(o);
  h->tinfo  = ti;
  h->dtor   = d;
  h->refs   = 0;
  return (__cxxabiv1::__cxa_refcounted_exception*)h;
}
void __clang_call_terminate(void*) noexcept { hsx_terminate("exception in noexcept context"); }
}
namespace std {
bool uncaught_exception() noexcept { return rt_uncaught > 0; }
int  uncaught_exceptions() noexcept { return rt_uncaught; }
void terminate() noexcept { hsx_terminate("std::terminate"); __builtin_trap(); }
namespace __exception_ptr {
exception_ptr::exception_ptr(void* o) noexcept : _M_exception_object(o) { if (o) _M_addref(); }
void  exception_ptr::_M_addref() noexcept { if (_M_exception_object) hdr(_M_exception_object)->refs++; }
void  exception_ptr::_M_release() noexcept {
  if (_M_exception_object) {
    void* o = _M_exception_object;
    _M_exception_object = nullptr;
    excRelease(o);
  }
}
void* exception_ptr::_M_get() const noexcept { return _M_exception_object; }
} // namespace __exception_ptr
exception_ptr current_exception() noexcept { return rt_caught ? exception_ptr((void*)(rt_caught + 1)) : exception_ptr(); }
void rethrow_exception(exception_ptr p) {
  void*   o = p._M_get();
  ExcHdr* h = hdr(o);
  // simplification: the same object is thrown again with its own reference
  h->refs++;
  rt_uncaught++;
  // a fresh handler frame: an object being handled elsewhere in this thread is not supported
  if (h->handlers) hsx_unsupported("rethrow_exception of an exception being handled");
  hsx_throw(o, h->tinfo);
  __builtin_unreachable();
}
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
type_info::~type_info() {}

static char* cowdup(const char* s, size_t n) {
  char* p = (char*)malloc(n + 9);
  *(long*)p = 1;
  memcpy(p + 8, s, n);
  p[8 + n] = 0;
  return p + 8;
}
static void cowrel(const char* p) {
  if (!p) return;
  long* rc = (long*)(p - 8);
  if (--*rc == 0) free(rc);
}
__cow_string::__cow_string() : _M_p(cowdup("", 0)) {}
__cow_string::__cow_string(const string& s) : _M_p(cowdup(s.data(), s.size())) {}
__cow_string::__cow_string(const char* s, size_t n) : _M_p(cowdup(s, n)) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(o._M_p) { ++*(long*)(_M_p - 8); }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept {
  ++*(long*)(o._M_p - 8);
  cowrel(_M_p);
  _M_p = o._M_p;
  return *this;
}
__cow_string::~__cow_string() { cowrel(_M_p); }
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(o._M_p) { ++*(long*)(_M_p - 8); }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { return *this = (const __cow_string&)o; }

#define EXC(C, B)                                              \
  C::C(const string& s) : B(s) {}                              \
  C::C(const char* s) : B(s) {}                                \
  C::~C() noexcept {}
logic_error::logic_error(const string& s) : _M_msg(s) {}
logic_error::logic_error(const char* s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::logic_error(logic_error&& o) noexcept : exception(o), _M_msg(std::move(o._M_msg)) {}
logic_error& logic_error::operator=(logic_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string& s) : _M_msg(s) {}
runtime_error::runtime_error(const char* s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::runtime_error(runtime_error&& o) noexcept : exception(o), _M_msg(std::move(o._M_msg)) {}
runtime_error& runtime_error::operator=(runtime_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
EXC(domain_error, logic_error)
EXC(invalid_argument, logic_error)
EXC(length_error, logic_error)
EXC(out_of_range, logic_error)
EXC(range_error, runtime_error)
EXC(overflow_error, runtime_error)
EXC(underflow_error, runtime_error)
system_error::~system_error() noexcept {}
error_category::~error_category() noexcept {}
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition& c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code& c, int i) const noexcept { return *this == c.category() && c.value() == i; }
namespace {
struct GenCat final : error_category {
  const char* n;
  explicit GenCat(const char* x) : n(x) {}
  const char* name() const noexcept override { return n; }
  string      message(int e) const override { return strerror(e); }
};
alignas(GenCat) char catG[sizeof(GenCat)], catS[sizeof(GenCat)], catI[sizeof(GenCat)];
struct CatInit {
  CatInit() { new (catG) GenCat("generic"); new (catS) GenCat("system"); new (catI) GenCat("iostream"); }
};
__attribute__((init_priority(101))) CatInit catInit_;
} // namespace
inline namespace _V2 {
const error_category& generic_category() noexcept { return *(GenCat*)catG; }
const error_category& system_category() noexcept { return *(GenCat*)catS; }
} // namespace _V2
const error_category& iostream_category() noexcept { return *(GenCat*)catI; }
error_condition error_code::default_error_condition() const noexcept { return category().default_error_condition(value()); }
ios_base::failure::failure(const string& s) : system_error(io_errc::stream, s) {}
ios_base::failure::failure(const string& s, const error_code& e) : system_error(e, s) {}
ios_base::failure::failure(const char* s, const error_code& e) : system_error(e, s) {}
ios_base::failure::~failure() {}
const char* ios_base::failure::what() const noexcept { return system_error::what(); }

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) {
  char    b[512];
  va_list v;
  va_start(v, s);
  rt_vsnprintf(b, sizeof b, s, v);
  va_end(v);
  throw out_of_range(b);
}
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_underflow_error(const char* s) { throw underflow_error(s); }
void __throw_ios_failure(const char* s) { throw ios_base::failure(s); }
void __throw_ios_failure(const char* s, int e) { throw ios_base::failure(s, error_code(e, system_category())); }
void __throw_system_error(int e) { throw system_error(error_code(e, generic_category())); }
void __throw_bad_function_call() { throw bad_function_call(); }
} // namespace std
__cxxabiv1::__forced_unwind::~__forced_unwind() noexcept {}

// ============================================================ containers
namespace std {
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept {
  if (x->_M_right) {
    x = x->_M_right;
    while (x->_M_left) x = x->_M_left;
  } else {
    auto* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
  }
  return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) {
    auto* y = x->_M_left;
    while (y->_M_right) y = y->_M_right;
    return y;
  }
  auto* y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) noexcept {
  x->_M_parent = p;
  x->_M_left = x->_M_right = nullptr;
  x->_M_color = _S_black; // unbalanced but ordered: semantics are the same
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) noexcept {
  _Rb_tree_node_base *&root = h._M_parent, *&leftmost = h._M_left, *&rightmost = h._M_right;
  _Rb_tree_node_base * y = z, *x = nullptr, *xp = nullptr;
  if (!y->_M_left) x = y->_M_right;
  else if (!y->_M_right) x = y->_M_left;
  else {
    y = y->_M_right;
    while (y->_M_left) y = y->_M_left;
    x = y->_M_right;
  }
  if (y != z) {
    z->_M_left->_M_parent = y;
    y->_M_left = z->_M_left;
    if (y != z->_M_right) {
      xp = y->_M_parent;
      if (x) x->_M_parent = y->_M_parent;
      y->_M_parent->_M_left = x;
      y->_M_right = z->_M_right;
      z->_M_right->_M_parent = y;
    } else xp = y;
    if (root == z) root = y;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y;
    else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent;
    y = z;
  } else {
    xp = y->_M_parent;
    if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x;
    else z->_M_parent->_M_right = x;
    if (leftmost == z) {
      if (!z->_M_right) leftmost = z->_M_parent;
      else { auto* m = x; while (m->_M_left) m = m->_M_left; leftmost = m; }
    }
    if (rightmost == z) {
      if (!z->_M_left) rightmost = z->_M_parent;
      else { auto* m = x; while (m->_M_right) m = m->_M_right; rightmost = m; }
    }
  }
  (void)xp;
  return y;
}
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  static const size_t pr[] = {2, 3, 5, 7, 11, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753, 42043, 85229, 172933, 351061, 712697};
  for (size_t p: pr) if (p >= n) { _M_next_resize = p; return p; }
  _M_next_resize = n | 1;
  return n | 1;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const {
  if (elt + ins > _M_next_resize) {
    size_t mn = elt + ins;
    if (!_M_next_resize && mn < 11) mn = 11;
    if (mn >= bkt) return {true, _M_next_bkt(mn + 1 > 2 * bkt ? mn + 1 : 2 * bkt)};
    _M_next_resize = bkt;
  }
  return {false, 0};
}
} // namespace __detail
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { // murmur2 as in libstdc++: iteration orders agree
  const size_t mul = (0xc6a4a793ul << 32) + 0x5bd1e995ul;
  auto mix = [](size_t v) { return v ^ (v >> 47); };
  const unsigned char* b = (const unsigned char*)p;
  size_t al = n & ~(size_t)7, h = seed ^ (n * mul), i = 0;
  for (; i < al; i += 8) {
    size_t d = 0;
    for (int k = 7; k >= 0; k--) d = d << 8 | b[i + (size_t)k];
    h ^= mix(d * mul) * mul;
    h *= mul;
  }
  if (n & 7) {
    size_t d = 0;
    for (size_t k = n & 7; k-- > 0;) d = d << 8 | b[al + k];
    h ^= d;
    h *= mul;
  }
  h = mix(h) * mul;
  return mix(h);
}
size_t _Fnv_hash_bytes(const void* p, size_t n, size_t seed) { return _Hash_bytes(p, n, seed); }
} // namespace std

// ============================================================ file system model
struct Ino { uint8_t* data; size_t size, cap; long mtime; int links, opens; };
struct Dent { char name[112]; int ino; };
struct Hnd { int ino; size_t pos; bool rd, wr, app, used; bool stdio; };
enum { NINO = 48, NDENT = 48, NHND = 48 };
extern "C" {
Ino  hsx_persist_ino[NINO];
Dent hsx_persist_dent[NDENT];
Hnd  hsx_persist_hnd[NHND];
long hsx_persist_obudget, hsx_persist_ifault;
long hsx_persist_wbudget, hsx_persist_wonce, hsx_persist_crash, hsx_persist_clock, hsx_persist_rfault, hsx_persist_rshort, hsx_persist_now;
char hsx_persist_deny[112];
bool hsx_persist_init;
}
static void fsInit() {
  if (hsx_persist_init) return;
  hsx_persist_init    = true;
  hsx_persist_obudget = hsx_persist_ifault = -1;
  hsx_persist_wbudget = hsx_persist_crash = hsx_persist_rfault = hsx_persist_rshort = -1;
  hsx_persist_now     = 1000;
  for (auto& d: hsx_persist_dent) d.ino = -1;
}
static const char* norm(const char* n) {
  while (n[0] == '.' && n[1] == '/') n += 2;
  return n;
}
static int dfind(const char* n) {
  fsInit();
  n = norm(n);
  for (int i = 0; i < NDENT; i++) if (hsx_persist_dent[i].ino >= 0 && strcmp(hsx_persist_dent[i].name, n) == 0) return i;
  return -1;
}
static void tick() { // one metadata effect
  if (hsx_persist_crash >= 0 && hsx_persist_clock >= hsx_persist_crash) { hsx_persist_crash = -1; hsx_app_exit(137); }
  hsx_persist_clock++;
}
static void inoPut(int i) {
  Ino& x = hsx_persist_ino[i];
  if (x.links == 0 && x.opens == 0) {
    free(x.data);
    x.data = nullptr;
    x.size = x.cap = 0;
  }
}
static int dcreate(const char* n) {
  n = norm(n);
  if (strlen(n) >= 112) hsx_unsupported("file name too long for the model");
  for (int i = 0; i < NINO; i++) {
    Ino& x = hsx_persist_ino[i];
    if (x.links == 0 && x.opens == 0) {
      x = Ino{nullptr, 0, 0, ++hsx_persist_now, 1, 0};
      for (int d = 0; d < NDENT; d++) if (hsx_persist_dent[d].ino < 0) {
        strcpy(hsx_persist_dent[d].name, n);
        hsx_persist_dent[d].ino = i;
        return i;
      }
    }
  }
  hsx_unsupported("too many files for the model");
  return -1;
}
static void dremove(int d) {
  int i = hsx_persist_dent[d].ino;
  hsx_persist_dent[d].ino = -1;
  hsx_persist_ino[i].links--;
  inoPut(i);
}
static void isize(Ino& x, size_t n) {
  if (n > x.cap) {
    size_t   c = x.cap ? x.cap : 256;
    while (c < n) c *= 2;
    uint8_t* d = (uint8_t*)malloc(c);
    if (x.size) memcpy(d, x.data, x.size);
    free(x.data);
    x.data = d;
    x.cap  = c;
  }
  if (n > x.size) memset(x.data + x.size, 0, n - x.size);
  x.size = n;
}
static bool badDir(const char* n) { return strncmp(n, "/nonexistent", 12) == 0 || n[0] == 0; }
static long hwrite(Hnd& h, const void* p, size_t n) {
  Ino& x = hsx_persist_ino[h.ino];
  if (h.app) h.pos = x.size;
  size_t k   = n;
  bool   die = false;
  if (!h.stdio) {
    if (hsx_persist_wbudget >= 0 && (long)k > hsx_persist_wbudget) k = (size_t)hsx_persist_wbudget;
    if (hsx_persist_crash >= 0 && hsx_persist_clock + (long)k > hsx_persist_crash) { k = (size_t)(hsx_persist_crash - hsx_persist_clock); die = true; }
    if (hsx_persist_wbudget >= 0) hsx_persist_wbudget -= (long)k;
    hsx_persist_clock += (long)k;
  }
  if (k) {
    if (h.pos + k > x.size) isize(x, h.pos + k);
    memcpy(x.data + h.pos, p, k);
    h.pos += k;
    x.mtime = ++hsx_persist_now;
  }
  if (die) { hsx_persist_crash = -1; hsx_app_exit(137); }
  if (k < n) {
    errno = ENOSPC;
    if (k == 0 && !h.stdio && hsx_persist_wonce) hsx_persist_wbudget = -1;
  }
  return (long)k;
}
static long hwriteAll(Hnd& h, const void* p, size_t n) { // until an error
  size_t t = 0;
  for (long k; t < n && (k = hwrite(h, (const char*)p + t, n - t)) > 0;) t += (size_t)k;
  return (long)t;
}
static long hread(Hnd& h, void* p, size_t n) {
  Ino& x = hsx_persist_ino[h.ino];
  if (!h.stdio && hsx_persist_rfault >= 0) {
    if (hsx_persist_rfault-- == 0) { errno = EIO; return -1; }
  }
  size_t a = h.pos < x.size ? x.size - h.pos : 0;
  size_t k = n < a ? n : a;
  if (!h.stdio && hsx_persist_rshort >= 0 && k > 1) {
    if (hsx_persist_rshort-- == 0) k = k / 2;
  }
  if (k) memcpy(p, x.data + h.pos, k);
  h.pos += k;
  return (long)k;
}
static Hnd* hopen(const char* n, bool rd, bool wr, bool trunc, bool app, bool create) {
  fsInit();
  if (badDir(n) || (hsx_persist_deny[0] && strcmp(norm(n), hsx_persist_deny) == 0)) { errno = ENOENT; return nullptr; }
  int d = dfind(n), i;
  if (d < 0) {
    if (!create) { errno = ENOENT; return nullptr; }
    if (n[0] != '<') tick();
    i = dcreate(n);
  } else {
    i = hsx_persist_dent[d].ino;
    if (trunc) {
      tick();
      isize(hsx_persist_ino[i], 0);
      hsx_persist_ino[i].mtime = ++hsx_persist_now;
    }
  }
  for (auto& h: hsx_persist_hnd) if (!h.used) {
    h = Hnd{i, 0, rd, wr, app, true, norm(n)[0] == '<'};
    hsx_persist_ino[i].opens++;
    return &h;
  }
  hsx_unsupported("too many open files for the model");
  return nullptr;
}
static void hclose(Hnd* h) {
  h->used = false;
  hsx_persist_ino[h->ino].opens--;
  inoPut(h->ino);
}
extern "C" {
static Hnd* rt_std[3];
static Hnd* stdh(int fd) {
  const char* nm[] = {"<stdin>", "<stdout>", "<stderr>"};
  if (!rt_std[fd]) rt_std[fd] = hopen(nm[fd], true, true, false, fd != 0, true);
  return rt_std[fd];
}
long rt_stdio_write(int fd, const void* p, unsigned long n) {
  if (fd == 2) return hwrite(*stdh(2), p, n);
  long k = (long)n;
  fsInit();
  if (hsx_persist_obudget >= 0 && k > hsx_persist_obudget) k = hsx_persist_obudget;
  if (hsx_persist_obudget >= 0) hsx_persist_obudget -= k;
  if (k < (long)n) errno = EFBIG;
  return k ? hwrite(*stdh(fd), p, (unsigned long)k) : 0;
}
long rt_stdio_read(void* p, unsigned long n) {
  fsInit();
  if (hsx_persist_ifault >= 0 && hsx_persist_ifault-- == 0) { errno = EISDIR; return -1; }
  return hread(*stdh(0), p, n);
}
void hsx_set_stdout_budget(long b) { fsInit(); hsx_persist_obudget = b; }
void hsx_set_stdin_fault(int on) { fsInit(); hsx_persist_ifault = on ? 0 : -1; }
// descriptors of a finished or killed process are closed by the kernel
void rt_close_all() {
  for (auto& h: hsx_persist_hnd) if (h.used) hclose(&h);
}
void hsx_file_put(const char* name, const void* p, unsigned long n) {
  int d = dfind(name);
  int i = d < 0 ? dcreate(name) : hsx_persist_dent[d].ino;
  Ino& x = hsx_persist_ino[i];
  isize(x, n);
  if (n) memcpy(x.data, p, n);
  x.mtime = ++hsx_persist_now;
}
long hsx_file_size(const char* name) {
  int d = dfind(name);
  return d < 0 ? -1 : (long)hsx_persist_ino[hsx_persist_dent[d].ino].size;
}
void hsx_file_get(const char* name, void* p, unsigned long off, unsigned long n) {
  int d = dfind(name);
  memcpy(p, hsx_persist_ino[hsx_persist_dent[d].ino].data + off, n);
}
void hsx_file_remove(const char* name) {
  int d = dfind(name);
  if (d >= 0) dremove(d);
}
int hsx_file_count(void) {
  fsInit();
  int n = 0;
  for (auto& d: hsx_persist_dent) if (d.ino >= 0 && d.name[0] != '<') n++;
  return n;
}
void hsx_file_touch(const char* name, long t) {
  int d = dfind(name);
  if (d >= 0) hsx_persist_ino[hsx_persist_dent[d].ino].mtime = t;
}
void hsx_set_write_budget(long b) { fsInit(); hsx_persist_wbudget = b; }
void hsx_set_write_once(int on) { fsInit(); hsx_persist_wonce = on; }
void hsx_set_crash_at(long c) { fsInit(); hsx_persist_crash = c < 0 ? -1 : hsx_persist_clock + c; }
long hsx_effect_clock(void) { return hsx_persist_clock; }
void hsx_set_read_fault(long n) { fsInit(); hsx_persist_rfault = n; }
void hsx_set_short_read(long n) { fsInit(); hsx_persist_rshort = n; }
void hsx_deny_open(const char* name) { fsInit(); strcpy(hsx_persist_deny, name); }
// POSIX-level access, should the code under test use it
int rename(const char* a, const char* b) noexcept;
int remove(const char* a) noexcept;
}
static int fsRename(const char* a, const char* b) {
  int d = dfind(a);
  if (d < 0 || badDir(b)) { errno = ENOENT; return -1; }
  tick();
  int e = dfind(b);
  if (e == d) return 0;
  if (e >= 0) dremove(e);
  strcpy(hsx_persist_dent[d].name, norm(b));
  return 0;
}
static int fsUnlink(const char* a) {
  int d = dfind(a);
  if (d < 0) { errno = ENOENT; return -1; }
  tick();
  dremove(d);
  return 0;
}
extern "C" int rename(const char* a, const char* b) noexcept { return fsRename(a, b); }
extern "C" int remove(const char* a) noexcept { return fsUnlink(a); }
extern "C" int unlink(const char* a) noexcept { return fsUnlink(a); }

namespace std {
typedef __basic_file<char> BF;
BF::__basic_file(__c_lock*) noexcept : _M_cfile(nullptr), _M_cfile_created(false) {}
BF::~__basic_file() { this->close(); }
BF* BF::open(const char* name, ios_base::openmode m, int) {
  if (this->is_open()) return nullptr;
  bool in = m & ios_base::in, out = m & ios_base::out, app = m & ios_base::app, tr = m & ios_base::trunc;
  bool rd, wr, trunc, create;
  if (app && !tr) { rd = in; wr = true; trunc = false; create = true; }
  else if (in && out && tr) { rd = wr = trunc = create = true; }
  else if (in && out) { rd = wr = true; trunc = create = false; }
  else if (out) { rd = false; wr = trunc = create = true; }
  else if (in && !tr && !app) { rd = true; wr = trunc = create = false; }
  else return nullptr;
  Hnd* h = hopen(name, rd, wr, trunc, app, create);
  if (!h) return nullptr;
  _M_cfile         = (__c_file*)h;
  _M_cfile_created = true;
  return this;
}
BF* BF::close() {
  BF* r = nullptr;
  if (is_open()) {
    hclose((Hnd*)_M_cfile);
    _M_cfile = nullptr;
    r        = this;
  }
  return r;
}
bool BF::is_open() const noexcept { return _M_cfile != nullptr; }
int  BF::fd() noexcept { return (int)((Hnd*)_M_cfile - hsx_persist_hnd) + 3; }
__c_file* BF::file() noexcept { return _M_cfile; }
streamsize BF::xsputn(const char* s, streamsize n) {
  Hnd* h = (Hnd*)_M_cfile;
  if (!h->wr) { errno = EBADF; return 0; }
  return n > 0 ? hwriteAll(*h, s, (size_t)n) : 0;
}
streamsize BF::xsputn_2(const char* a, streamsize n, const char* b, streamsize m) {
  Hnd* h = (Hnd*)_M_cfile;
  if (!h->wr) { errno = EBADF; return 0; }
  streamsize r = n > 0 ? hwriteAll(*h, a, (size_t)n) : 0;
  if (r == n && m > 0) r += hwriteAll(*h, b, (size_t)m);
  return r;
}
streamsize BF::xsgetn(char* s, streamsize n) {
  Hnd* h = (Hnd*)_M_cfile;
  if (!h->rd) { errno = EBADF; return -1; }
  if (!h->stdio) hsx_yield(); // with several threads: another one may read first
  return hread(*h, s, (size_t)n);
}
streamoff BF::seekoff(streamoff off, ios_base::seekdir way) noexcept {
  Hnd*      h = (Hnd*)_M_cfile;
  streamoff b = way == ios_base::beg ? 0 : way == ios_base::cur ? (streamoff)h->pos : (streamoff)hsx_persist_ino[h->ino].size;
  if (b + off < 0) { errno = EINVAL; return -1; }
  return (streamoff)(h->pos = (size_t)(b + off));
}
int        BF::sync() { return 0; }
streamsize BF::showmanyc() {
  Hnd* h = (Hnd*)_M_cfile;
  Ino& x = hsx_persist_ino[h->ino];
  return x.size > h->pos ? (streamsize)(x.size - h->pos) : 0;
}

// ============================================================ filesystem
namespace filesystem {
inline namespace __cxx11 {
struct path::_List::_Impl {};
void path::_List::_Impl_deleter::operator()(_Impl*) const noexcept {}
path::_List::_List() : _M_impl((_Impl*)(uintptr_t)3) {}
path::_List::_List(const _List& o) : _M_impl(o._M_impl.get()) {}
path::_List& path::_List::operator=(const _List& o) { _M_impl.reset(o._M_impl.get()); return *this; }
void path::_M_split_cmpts() {}
path& path::operator+=(const path& p) { _M_pathname += p._M_pathname; return *this; }
path& path::operator/=(const path& p) {
  if (!_M_pathname.empty() && _M_pathname.back() != '/') _M_pathname += '/';
  _M_pathname += p._M_pathname;
  return *this;
}
static size_t lastSlash(const string& s) { return s.rfind('/'); }
path path::parent_path() const { auto k = lastSlash(_M_pathname); return k == string::npos ? path() : path(_M_pathname.substr(0, k)); }
pair<const path::string_type*, size_t> path::_M_find_extension() const noexcept {
  auto   sl = lastSlash(_M_pathname);
  size_t st = sl == string::npos ? 0 : sl + 1;
  auto   k  = _M_pathname.rfind('.');
  if (k == string::npos || k <= st) return {&_M_pathname, string::npos};
  return {&_M_pathname, k};
}
path& path::replace_extension(const path& e) {
  auto x = _M_find_extension();
  if (x.second != string::npos) _M_pathname.erase(x.second);
  if (!e.empty() && e._M_pathname[0] != '.') _M_pathname += '.';
  _M_pathname += e._M_pathname;
  return *this;
}
int path::compare(const path& p) const noexcept { return _M_pathname.compare(p._M_pathname); }
int path::compare(basic_string_view<value_type> s) const noexcept { return string_view(_M_pathname).compare(s); }
struct filesystem_error::_Impl { path a, b; string w; };
filesystem_error::filesystem_error(const string& w, error_code e) : system_error(e, w), _M_impl(std::__make_shared<_Impl>()) {}
filesystem_error::filesystem_error(const string& w, const path& p, error_code e) : system_error(e, w), _M_impl(std::__make_shared<_Impl>(_Impl{p, {}, w + ": " + p.native()})) {}
filesystem_error::filesystem_error(const string& w, const path& p, const path& q, error_code e) : system_error(e, w), _M_impl(std::__make_shared<_Impl>(_Impl{p, q, w})) {}
filesystem_error::~filesystem_error() {}
const path& filesystem_error::path1() const noexcept { return _M_impl->a; }
const path& filesystem_error::path2() const noexcept { return _M_impl->b; }
const char* filesystem_error::what() const noexcept { return _M_impl->w.c_str(); }
} // namespace __cxx11
static error_code ec(int e) { return error_code(e, std::generic_category()); }
file_status status(const path& p, error_code& e) noexcept {
  e.clear();
  const string& n = p.native();
  if (n == "." || n == "/" || n == "/tmp" || n == "./") return file_status(file_type::directory, perms::all);
  if (dfind(n.c_str()) >= 0) return file_status(file_type::regular, perms::all);
  e = ec(ENOENT);
  return file_status(file_type::not_found);
}
file_status status(const path& p) {
  error_code e;
  return status(p, e);
}
file_status symlink_status(const path& p, error_code& e) noexcept { return status(p, e); }
file_status symlink_status(const path& p) { return status(p); }
uintmax_t   file_size(const path& p, error_code& e) noexcept {
  e.clear();
  long n = hsx_file_size(p.c_str());
  if (n < 0) { e = ec(ENOENT); return (uintmax_t)-1; }
  return (uintmax_t)n;
}
uintmax_t file_size(const path& p) {
  error_code e;
  auto       r = file_size(p, e);
  if (e) throw filesystem_error("cannot get file size", p, e);
  return r;
}
bool remove(const path& p, error_code& e) noexcept {
  e.clear();
  return fsUnlink(p.c_str()) == 0;
}
bool remove(const path& p) {
  error_code e;
  return remove(p, e);
}
void rename(const path& a, const path& b, error_code& e) noexcept {
  e.clear();
  if (fsRename(a.c_str(), b.c_str())) e = ec(ENOENT);
}
void rename(const path& a, const path& b) {
  error_code e;
  rename(a, b, e);
  if (e) throw filesystem_error("cannot rename", a, b, e);
}
void resize_file(const path& p, uintmax_t n, error_code& e) noexcept {
  e.clear();
  int d = dfind(p.c_str());
  if (d < 0) { e = ec(ENOENT); return; }
  tick();
  isize(hsx_persist_ino[hsx_persist_dent[d].ino], n);
  hsx_persist_ino[hsx_persist_dent[d].ino].mtime = ++hsx_persist_now;
}
void resize_file(const path& p, uintmax_t n) {
  error_code e;
  resize_file(p, n, e);
  if (e) throw filesystem_error("cannot resize file", p, e);
}
file_time_type last_write_time(const path& p, error_code& e) noexcept {
  e.clear();
  int d = dfind(p.c_str());
  if (d < 0) { e = ec(ENOENT); return file_time_type::min(); }
  return file_time_type(file_time_type::duration(hsx_persist_ino[hsx_persist_dent[d].ino].mtime + (1600000000L - 6437664000L) * 1000000000L)); // its clock starts in 2174
}
file_time_type last_write_time(const path& p) {
  error_code e;
  auto       r = last_write_time(p, e);
  if (e) throw filesystem_error("cannot get file time", p, e);
  return r;
}
bool copy_file(const path& a, const path& b, copy_options o, error_code& e) {
  e.clear();
  if (dfind(a.c_str()) < 0) { e = ec(ENOENT); return false; }
  if (dfind(b.c_str()) >= 0 && (o & copy_options::overwrite_existing) == copy_options::none) { e = ec(EEXIST); return false; }
  HsxFile f = hsx_read_file(a.c_str());
  tick();
  hsx_file_put(b.c_str(), f.data.data(), f.data.size());
  return true;
}
bool copy_file(const path& a, const path& b, copy_options o) {
  error_code e;
  bool       r = copy_file(a, b, o, e);
  if (e) throw filesystem_error("cannot copy file", a, b, e);
  return r;
}
bool is_empty(const path& p, error_code& e) {
  e.clear();
  if (is_directory(status(p, e))) hsx_unsupported("is_empty of a directory");
  auto n = file_size(p, e);
  return !e && n == 0;
}
bool is_empty(const path& p) {
  error_code e;
  bool       r = is_empty(p, e);
  if (e) throw filesystem_error("cannot check if file is empty", p, e);
  return r;
}
bool equivalent(const path& a, const path& b, error_code& e) noexcept {
  e.clear();
  int x = dfind(a.c_str()), y = dfind(b.c_str());
  if (x < 0 && y < 0) e = ec(ENOENT);
  return x >= 0 && y >= 0 && hsx_persist_dent[x].ino == hsx_persist_dent[y].ino;
}
bool equivalent(const path& a, const path& b) {
  error_code e;
  bool       r = equivalent(a, b, e);
  if (e) throw filesystem_error("cannot check file equivalence", a, b, e);
  return r;
}
void last_write_time(const path& p, file_time_type t, error_code& e) noexcept {
  e.clear();
  int d = dfind(p.c_str());
  if (d < 0) { e = ec(ENOENT); return; }
  hsx_persist_ino[hsx_persist_dent[d].ino].mtime = (long)t.time_since_epoch().count() - (1600000000L - 6437664000L) * 1000000000L;
}
void last_write_time(const path& p, file_time_type t) {
  error_code e;
  last_write_time(p, t, e);
  if (e) throw filesystem_error("cannot set file time", p, e);
}
uintmax_t remove_all(const path& p, error_code& e) { return remove(p, e); }
uintmax_t remove_all(const path& p) { return remove(p); }
void      permissions(const path& p, perms, perm_options, error_code& e) noexcept {
  e.clear();
  if (dfind(p.c_str()) < 0) e = ec(ENOENT);
}
void permissions(const path& p, perms m, perm_options o) {
  error_code e;
  permissions(p, m, o, e);
  if (e) throw filesystem_error("cannot set permissions", p, e);
}
path temp_directory_path() { return "/tmp"; }
path current_path() { return "."; }
bool create_directories(const path&) { return false; }
bool create_directory(const path&) { return false; }
} // namespace filesystem

// ============================================================ threads and time
thread::_State::~_State() = default;
extern "C" {
static void* rt_thread_main(void* p) {
  unique_ptr<thread::_State> s((thread::_State*)p);
  s->_M_run();
  return nullptr;
}
}
void thread::_M_start_thread(_State_ptr s, void (*)()) {
  auto* p = s.release();
  pthread_create((pthread_t*)&_M_id._M_thread, nullptr, rt_thread_main, p);
}
void thread::join() {
  if (_M_id == id()) __throw_system_error(EINVAL);
  pthread_join(_M_id._M_thread, nullptr);
  _M_id = id();
}
void thread::detach() { _M_id = id(); }
unsigned thread::hardware_concurrency() noexcept { return 4; }
condition_variable::condition_variable() noexcept = default;
condition_variable::~condition_variable() noexcept = default;
void condition_variable::wait(unique_lock<mutex>& l) { pthread_cond_wait(native_handle(), l.mutex()->native_handle()); }
void condition_variable::notify_one() noexcept { pthread_cond_signal(native_handle()); }
void condition_variable::notify_all() noexcept { pthread_cond_broadcast(native_handle()); }
static long rt_clock;
namespace chrono {
inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration(1700000000000000000l + (rt_clock += 1000000))); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(rt_clock += 1000000)); }
} // namespace _V2
} // namespace chrono

// ============================================================ locale and ios
namespace {
const locale::facet* rt_facets[32];
const locale::facet* rt_caches[32];
size_t               rt_nextid = 0;
ctype_base::mask     rt_ctab[257];
alignas(16) char     implMem[256], ctypeMem[sizeof(std::ctype<char>)], cvtMem[sizeof(codecvt<char, char, mbstate_t>)];
alignas(16) char     nputMem[sizeof(num_put<char>)], ngetMem[sizeof(num_get<char>)], npunMem[sizeof(numpunct<char>)];
} // namespace
locale::facet::~facet() {}
size_t locale::id::_M_id() const noexcept {
  if (!_M_index) _M_index = ++rt_nextid;
  return _M_index - 1;
}
locale::_Impl::_Impl(size_t) noexcept : _M_refcount(1 << 20), _M_facets(rt_facets), _M_facets_size(32), _M_caches(rt_caches), _M_names(nullptr) {}
locale::_Impl::~_Impl() noexcept {}
void locale::_Impl::_M_install_cache(const facet* f, size_t i) { _M_caches[i] = f; }
void locale::_Impl::_M_install_facet(const locale::id* i, const facet* f) { _M_facets[i->_M_id()] = f; }
locale::_Impl* locale::_S_classic;
locale::_Impl* locale::_S_global;
locale::id std::ctype<char>::id;
locale::id codecvt<char, char, mbstate_t>::id;
locale::id codecvt<char32_t, char, mbstate_t>::id;
const ctype_base::mask ctype_base::upper, ctype_base::lower, ctype_base::alpha, ctype_base::digit, ctype_base::xdigit, ctype_base::space, ctype_base::print, ctype_base::graph, ctype_base::cntrl, ctype_base::punct, ctype_base::alnum;
std::ctype<char>::ctype(const mask* t, bool d, size_t r) : facet(r), _M_c_locale_ctype(nullptr), _M_del(d), _M_toupper(nullptr), _M_tolower(nullptr), _M_table(t ? t : classic_table()), _M_widen_ok(0), _M_narrow_ok(0) {
  memset(_M_widen, 0, sizeof _M_widen);
  memset(_M_narrow, 0, sizeof _M_narrow);
}
std::ctype<char>::~ctype() {}
const ctype_base::mask* std::ctype<char>::classic_table() noexcept { return rt_ctab; }
char        std::ctype<char>::do_toupper(char c) const { return (char)::toupper((unsigned char)c); }
const char* std::ctype<char>::do_toupper(char* a, const char* b) const { for (; a < b; a++) *a = do_toupper(*a); return b; }
char        std::ctype<char>::do_tolower(char c) const { return (char)::tolower((unsigned char)c); }
const char* std::ctype<char>::do_tolower(char* a, const char* b) const { for (; a < b; a++) *a = do_tolower(*a); return b; }
void        std::ctype<char>::_M_widen_init() const { for (int i = 0; i < 256; i++) _M_widen[i] = (char)i; _M_widen_ok = 1; }
void        std::ctype<char>::_M_narrow_init() const { for (int i = 0; i < 256; i++) _M_narrow[i] = (char)i; _M_narrow_ok = 1; }
typedef codecvt<char, char, mbstate_t> CV;
CV::codecvt(size_t r) : __codecvt_abstract_base<char, char, mbstate_t>(r), _M_c_locale_codecvt(nullptr) {}
CV::~codecvt() {}
codecvt_base::result CV::do_out(state_type&, const char* f, const char*, const char*& fn, char* t, char*, char*& tn) const { fn = f; tn = t; return noconv; }
codecvt_base::result CV::do_unshift(state_type&, char* t, char*, char*& tn) const { tn = t; return noconv; }
codecvt_base::result CV::do_in(state_type&, const char* f, const char*, const char*& fn, char* t, char*, char*& tn) const { fn = f; tn = t; return noconv; }
int  CV::do_encoding() const noexcept { return 1; }
bool CV::do_always_noconv() const noexcept { return true; }
int  CV::do_length(state_type&, const char* f, const char* e, size_t m) const { size_t n = (size_t)(e - f); return (int)(n < m ? n : m); }
int  CV::do_max_length() const noexcept { return 1; }
// UTF-8 -> UTF-16 as libstdc++ does it (only the decoding direction)
typedef codecvt<char16_t, char, mbstate_t> CV16;
locale::id CV16::id;
CV16::~codecvt() {}
typedef __codecvt_utf8_utf16_base<char16_t> U8;
U8::~__codecvt_utf8_utf16_base() {}
int  U8::do_max_length() const noexcept { return 4; }
int  U8::do_encoding() const noexcept { return 0; }
bool U8::do_always_noconv() const noexcept { return false; }
int  U8::do_length(state_type&, const char*, const char*, size_t) const { hsx_unsupported("codecvt length"); return 0; }
codecvt_base::result U8::do_out(state_type&, const char16_t* f, const char16_t*, const char16_t*& fn, char* t, char*, char*& tn) const { fn = f; tn = t; hsx_unsupported("codecvt out"); return error; }
codecvt_base::result U8::do_unshift(state_type&, char* t, char*, char*& tn) const { tn = t; return noconv; }
codecvt_base::result U8::do_in(state_type&, const char* f, const char* fe, const char*& fn, char16_t* t, char16_t* te, char16_t*& tn) const {
  result r = ok;
  while (f != fe && t != te) {
    char32_t c = (unsigned char)f[0], c2, c3, c4;
    long     n = fe - f, len;
    auto     cont = [](char32_t x) { return (x & 0xC0) == 0x80; };
    if (c < 0x80) len = 1;
    else if (c < 0xC2) { r = error; break; }
    else if (c < 0xE0) {
      if (n < 2) { r = partial; break; }
      c2 = (unsigned char)f[1];
      if (!cont(c2)) { r = error; break; }
      c   = (c << 6) + c2 - 0x3080;
      len = 2;
    } else if (c < 0xF0) {
      if (n < 2) { r = partial; break; }
      c2 = (unsigned char)f[1];
      if (!cont(c2) || (c == 0xE0 && c2 < 0xA0)) { r = error; break; }
      if (n < 3) { r = partial; break; }
      c3 = (unsigned char)f[2];
      if (!cont(c3)) { r = error; break; }
      c   = (c << 12) + (c2 << 6) + c3 - 0xE2080;
      len = 3;
    } else if (c < 0xF5) {
      if (n < 2) { r = partial; break; }
      c2 = (unsigned char)f[1];
      if (!cont(c2) || (c == 0xF0 && c2 < 0x90) || (c == 0xF4 && c2 >= 0x90)) { r = error; break; }
      if (n < 3) { r = partial; break; }
      c3 = (unsigned char)f[2];
      if (!cont(c3)) { r = error; break; }
      if (n < 4) { r = partial; break; }
      c4 = (unsigned char)f[3];
      if (!cont(c4)) { r = error; break; }
      c   = (c << 18) + (c2 << 12) + (c3 << 6) + c4 - 0x3C82080;
      len = 4;
    } else { r = error; break; }
    if (c < 0x10000) *t++ = (char16_t)c;
    else {
      if (te - t < 2) { r = partial; break; }
      *t++ = (char16_t)((c >> 10) + 0xD7C0);
      *t++ = (char16_t)((c & 0x3FF) + 0xDC00);
    }
    f += len;
  }
  fn = f;
  tn = t;
  return r;
}
template <> void numpunct<char>::_M_initialize_numpunct(__c_locale) {
  if (!_M_data) _M_data = new __numpunct_cache<char>;
  _M_data->_M_grouping = "";
  _M_data->_M_grouping_size = 0;
  _M_data->_M_use_grouping = false;
  _M_data->_M_decimal_point = '.';
  _M_data->_M_thousands_sep = ',';
  for (size_t i = 0; i < __num_base::_S_oend; ++i) _M_data->_M_atoms_out[i] = __num_base::_S_atoms_out[i];
  for (size_t i = 0; i < __num_base::_S_iend; ++i) _M_data->_M_atoms_in[i] = __num_base::_S_atoms_in[i];
  _M_data->_M_truename = "true";
  _M_data->_M_truename_size = 4;
  _M_data->_M_falsename = "false";
  _M_data->_M_falsename_size = 5;
}
template <> numpunct<char>::~numpunct() {}
const char* __num_base::_S_atoms_out = "-+xX0123456789abcdef0123456789ABCDEF";
const char* __num_base::_S_atoms_in  = "-+xX0123456789abcdefABCDEF";
template class __numpunct_cache<char>;
template class numpunct<char>;
template class num_put<char>;
template class num_get<char>;
locale::locale() noexcept : _M_impl(_S_classic) {}
locale::locale(const locale& o) noexcept : _M_impl(o._M_impl) {}
locale::~locale() noexcept {}
const locale& locale::operator=(const locale& o) noexcept { _M_impl = o._M_impl; return *this; }
bool          locale::operator==(const locale& o) const noexcept { return _M_impl == o._M_impl; }
const locale& locale::classic() {
  _S_initialize();
  alignas(locale) static char mem[sizeof(locale)];
  return *new (mem) locale();
}
void locale::_S_initialize_once() noexcept {
  for (int c = 0; c < 256; c++) {
    int m = 0;
    if (c < 128) {
      if (c >= 'A' && c <= 'Z') m |= ctype_base::upper;
      if (c >= 'a' && c <= 'z') m |= ctype_base::lower;
      if (isalpha(c)) m |= ctype_base::alpha;
      if (isdigit(c)) m |= ctype_base::digit;
      if (isxdigit(c)) m |= ctype_base::xdigit;
      if (isspace(c)) m |= ctype_base::space;
      if (isprint(c)) m |= ctype_base::print;
      if (c < 32 || c == 127) m |= ctype_base::cntrl;
      if (isprint(c) && c != ' ') m |= ctype_base::graph;
      if (isprint(c) && c != ' ' && !isalpha(c) && !isdigit(c)) m |= ctype_base::punct;
    }
    rt_ctab[c] = (ctype_base::mask)m;
  }
  _S_classic = _S_global = new (implMem) _Impl(size_t(1));
  _S_classic->_M_install_facet(&std::ctype<char>::id, new (ctypeMem) std::ctype<char>(nullptr, false, 1));
  _S_classic->_M_install_facet(&CV::id, new (cvtMem) CV(1));
  _S_classic->_M_install_facet(&numpunct<char>::id, new (npunMem) numpunct<char>(1));
  _S_classic->_M_install_facet(&num_put<char>::id, new (nputMem) num_put<char>(1));
  _S_classic->_M_install_facet(&num_get<char>::id, new (ngetMem) num_get<char>(1));
}
void locale::_S_initialize() { if (!_S_classic) _S_initialize_once(); }

ios_base::ios_base() noexcept : _M_precision(6), _M_width(0), _M_flags(skipws | dec), _M_exception(goodbit), _M_streambuf_state(goodbit), _M_callbacks(nullptr), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_init() noexcept {
  _M_precision = 6;
  _M_width     = 0;
  _M_flags     = skipws | dec;
  _M_ios_locale = locale();
}
void ios_base::_M_call_callbacks(event) noexcept {}
void ios_base::_M_dispose_callbacks() noexcept {}
ios_base::_Words& ios_base::_M_grow_words(int, bool) { hsx_unsupported("ios words"); return _M_word_zero; }
void ios_base::_M_move(ios_base& r) noexcept {
  _M_precision = r._M_precision;
  _M_width = r._M_width;
  _M_flags = r._M_flags;
  _M_exception = r._M_exception;
  _M_streambuf_state = r._M_streambuf_state;
  _M_callbacks = nullptr;
  _M_word = _M_local_word;
  _M_word_size = _S_local_word_size;
  _M_ios_locale = r._M_ios_locale;
}
void ios_base::_M_swap(ios_base& r) noexcept {
  std::swap(_M_precision, r._M_precision);
  std::swap(_M_width, r._M_width);
  std::swap(_M_flags, r._M_flags);
  std::swap(_M_exception, r._M_exception);
  std::swap(_M_streambuf_state, r._M_streambuf_state);
}
locale ios_base::imbue(const locale& l) noexcept { locale o = _M_ios_locale; _M_ios_locale = l; return o; }
bool   ios_base::sync_with_stdio(bool) { return true; }
void   ios_base_library_init() {}
ios_base::Init::Init() {}
ios_base::Init::~Init() {}
_Atomic_word ios_base::Init::_S_refcount;
bool ios_base::Init::_S_synced_with_stdio = true;

template class basic_string<char>;
template class basic_ios<char>;
template class basic_streambuf<char>;
template class basic_istream<char>;
template class basic_ostream<char>;
template class basic_iostream<char>;
template class basic_filebuf<char>;
template class basic_ifstream<char>;
template class basic_ofstream<char>;
template class basic_fstream<char>;
template class basic_stringbuf<char>;
template class basic_istringstream<char>;
template class basic_ostringstream<char>;
template class basic_stringstream<char>;
template ostream& __ostream_insert(ostream&, const char*, streamsize);
template ostream& operator<<(ostream&, const char*);
template ostream& operator<<(ostream&, char);
template ostream& endl(ostream&);
template ostream& flush(ostream&);
template ostream& ostream::_M_insert(long);
template ostream& ostream::_M_insert(unsigned long);
template ostream& ostream::_M_insert(long long);
template ostream& ostream::_M_insert(unsigned long long);
template ostream& ostream::_M_insert(bool);
template ostream& ostream::_M_insert(const void*);
ostream& rt_ins_double(ostream* o, double d) asm("_ZNSo9_M_insertIdEERSoT_");
ostream& rt_ins_double(ostream* o, double d) {
  ostream::sentry ok(*o);
  if (!ok) return *o;
  auto fl = o->flags();
  string f = "%";
  if (fl & ios_base::showpos) f += '+';
  if (fl & ios_base::showpoint) f += '#';
  auto ff = fl & ios_base::floatfield;
  char b[512];
  if (ff != (ios_base::fixed | ios_base::scientific)) f += "." + to_string(o->precision());
  f += ff == ios_base::fixed ? 'f' : ff == ios_base::scientific ? (fl & ios_base::uppercase ? 'E' : 'e') : ff == ios_base::fmtflags() ? (fl & ios_base::uppercase ? 'G' : 'g') : 'a';
  int n = hsx_fmt_double(b, sizeof b, f.c_str(), d);
  streamsize w = o->width() > n ? o->width() - n : 0;
  bool left = (fl & ios_base::adjustfield) == ios_base::left;
  if (left) o->rdbuf()->sputn(b, n);
  for (streamsize i = 0; i < w; i++) o->rdbuf()->sputc(o->fill());
  if (!left) o->rdbuf()->sputn(b, n);
  o->width(0);
  return *o;
}

template istream& istream::_M_extract(long&);
template istream& istream::_M_extract(unsigned long&);
template istream& istream::_M_extract(unsigned int&);
template istream& ws(istream&);
template <> istream& operator>>(istream& in, string& s) {
  istream::sentry ok(in);
  if (!ok) return in;
  s.erase();
  streamsize n = in.width() > 0 ? in.width() : 1L << 60, k = 0;
  int c = in.rdbuf()->sgetc();
  while (k < n && c != char_traits<char>::eof() && !isspace(c)) { s += (char)c; k++; c = in.rdbuf()->snextc(); }
  in.width(0);
  ios_base::iostate e = ios_base::goodbit;
  if (c == char_traits<char>::eof()) e |= ios_base::eofbit;
  if (!k) e |= ios_base::failbit;
  if (e) in.setstate(e);
  return in;
}
template istream& operator>>(istream&, char&);

// istream specialisations compiled into libstdc++ (semantics of the generic templates; getline reads buffered runs)
template <> istream& getline(istream& in, string& s, char delim) {
  typedef istream::__streambuf_type  SB;
  typedef char_traits<char>          T;
  size_t            extracted = 0;
  const size_t      n         = s.max_size();
  ios_base::iostate err       = ios_base::goodbit;
  istream::sentry   ok(in, true);
  if (ok) {
    try {
      s.erase();
      SB* sb = in.rdbuf();
      int c  = sb->sgetc();
      while (extracted < n && c != T::eof() && (char)c != delim) {
        s += (char)c;
        ++extracted;
        c = sb->snextc();
      }
      if (c == T::eof()) err |= ios_base::eofbit;
      else if ((char)c == delim) { ++extracted; sb->sbumpc(); }
      else err |= ios_base::failbit;
    } catch (...) {
      in._M_setstate(ios_base::badbit);
    }
  }
  if (!extracted) err |= ios_base::failbit;
  if (err) in.setstate(err);
  return in;
}
template <> istream& istream::getline(char*, streamsize, char) { hsx_unsupported("istream::getline"); return *this; }
template <> istream& istream::ignore(streamsize n) {
  while (n-- > 0 && get() != traits_type::eof()) {}
  return *this;
}
template <> istream& istream::ignore(streamsize n, int_type d) {
  while (n-- > 0) { auto c = get(); if (c == traits_type::eof() || c == d) break; }
  return *this;
}
template <> streamsize __copy_streambufs_eof(basic_streambuf<char>* in, basic_streambuf<char>* out, bool& eof) {
  streamsize n = 0;
  eof = true;
  int c = in->sgetc();
  while (c != char_traits<char>::eof()) {
    if (out->sputc((char)c) == char_traits<char>::eof()) { eof = false; break; }
    ++n;
    c = in->snextc();
  }
  return n;
}
void __istream_extract(istream& in, char* s, streamsize n) { hsx_unsupported("istream>>char*"); }
} // namespace std
namespace {
struct LInit { LInit() { std::locale::classic(); } };
__attribute__((init_priority(105))) LInit linit_;
}
