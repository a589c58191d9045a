// C library functions a changed program may use: formatted output, string search, and so on.
#pragma push_macro("__OPTIMIZE__")
#undef __OPTIMIZE__
#include <cstdio>
#include <cstring>
#include <cstdarg>
#include <cstdint>
#include <cstdlib>
#pragma pop_macro("__OPTIMIZE__")
#include <ctime>
#include <pthread.h>
#include <unistd.h>
#include <charconv>
#include <string>
#include <list>
#include <mutex>
extern "C" {
int           hsx_fmt_double(char* out, unsigned long cap, const char* spec, double d);
unsigned long hsx_shortest_double(char* out, double d);
double        hsx_parse_double(const char* s, unsigned long* len);
void          hsx_unsupported(const char* why);
void          hsx_hb(void* obj, int release); // order between threads, for the race detector
int           hsx_rdlock(void* rwlock);
int           fputs(const char*, FILE*);
unsigned long fwrite(const void*, unsigned long, unsigned long, FILE*);

namespace {
struct Sink {
  char*         b;
  unsigned long cap, n;
  void          put(char c) {
    if (n + 1 < cap) b[n] = c;
    n++;
  }
};
}
int rt_vsnprintf(char* out, unsigned long cap, const char* f, va_list v) {
  Sink s{out, cap, 0};
  for (; *f; f++) {
    if (*f != '%') { s.put(*f); continue; }
    const char* start = f++;
    bool left = false, zero = false, plus = false, space = false, alt = false;
    for (;; f++) {
      if (*f == '-') left = true;
      else if (*f == '0') zero = true;
      else if (*f == '+') plus = true;
      else if (*f == ' ') space = true;
      else if (*f == '#') alt = true;
      else break;
    }
    long width = 0, prec = -1;
    if (*f == '*') { width = va_arg(v, int); if (width < 0) { left = true; width = -width; } f++; }
    else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
    if (*f == '.') {
      f++;
      prec = 0;
      if (*f == '*') { prec = va_arg(v, int); f++; }
      else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0');
    }
    int lng = 0;
    for (;; f++) {
      if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') lng = 8;
      else if (*f == 'h') lng = lng == 2 ? 1 : 2;
      else if (*f == 'q' || *f == 'L') lng = 8;
      else break;
    }
    char        tmp[512];
    const char* txt = tmp;
    long        len = 0, zeros = 0;
    char        pre[3] = {0, 0, 0};
    switch (*f) {
    case '%': s.put('%'); continue;
    case 'c': tmp[0] = (char)va_arg(v, int); len = 1; break;
    case 's':
      txt = va_arg(v, const char*);
      if (!txt) txt = "(null)";
      while ((prec < 0 || len < prec) && txt[len]) len++;
      break;
    case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': {
      uint64_t u;
      bool     sgn = *f == 'd' || *f == 'i', neg = false;
      if (*f == 'p') { u = (uint64_t)va_arg(v, void*); alt = true; }
      else if (lng == 8) u = (uint64_t)va_arg(v, long);
      else if (sgn) { long x = va_arg(v, int); u = (uint64_t)(lng == 2 ? (short)x : lng == 1 ? (signed char)x : x); }
      else { u = va_arg(v, unsigned); if (lng == 2) u &= 0xffff; if (lng == 1) u &= 0xff; }
      if (sgn && (int64_t)u < 0) { neg = true; u = 0 - u; }
      unsigned base = *f == 'o' ? 8 : *f == 'x' || *f == 'X' || *f == 'p' ? 16 : 10;
      if (alt && base == 16 && u) { pre[0] = '0'; pre[1] = *f == 'X' ? 'X' : 'x'; }
      if (sgn) pre[0] = neg ? '-' : plus ? '+' : space ? ' ' : 0;
      char* e = tmp + sizeof tmp;
      char* p = e;
      const char* dg = *f == 'X' ? "0123456789ABCDEF" : "0123456789abcdef";
      while (u) { *--p = dg[u % base]; u /= base; }
      if (p == e && prec != 0) *--p = '0';
      txt = p;
      len = e - p;
      if (prec >= 0) zeros = prec > len ? prec - len : 0;
      else if (zero && !left) zeros = width - len - (long)strlen(pre) > 0 ? width - len - (long)strlen(pre) : 0;
      break;
    }
    case 'f': case 'F': case 'e': case 'E': case 'g': case 'G': case 'a': case 'A': {
      char spec[40];
      int  k = 0;
      spec[k++] = '%';
      if (left) spec[k++] = '-';
      if (zero) spec[k++] = '0';
      if (plus) spec[k++] = '+';
      if (space) spec[k++] = ' ';
      if (alt) spec[k++] = '#';
      for (int ph = 0; ph < 2; ph++) {
        long x = ph ? prec : width;
        if (ph ? prec < 0 : width == 0) continue;
        if (ph) spec[k++] = '.';
        char d[12];
        int  m = 0;
        do d[m++] = (char)('0' + x % 10); while (x /= 10);
        while (m) spec[k++] = d[--m];
      }
      spec[k++] = *f;
      spec[k]   = 0;
      len = hsx_fmt_double(tmp, sizeof tmp, spec, va_arg(v, double));
      width = 0;
      break;
    }
    default: hsx_unsupported(start); break;
    }
    long pad = width - len - zeros - (long)strlen(pre);
    if (!left) for (long i = 0; i < pad; i++) s.put(' ');
    for (const char* p = pre; *p; p++) s.put(*p);
    for (long i = 0; i < zeros; i++) s.put('0');
    for (long i = 0; i < len; i++) s.put(txt[i]);
    if (left) for (long i = 0; i < pad; i++) s.put(' ');
  }
  if (cap) out[s.n < cap ? s.n : cap - 1] = 0;
  return (int)s.n;
}
int vsnprintf(char* b, unsigned long n, const char* f, va_list v) noexcept { return rt_vsnprintf(b, n, f, v); }
int vsprintf(char* b, const char* f, va_list v) noexcept { return rt_vsnprintf(b, 1ul << 30, f, v); }
int snprintf(char* b, unsigned long n, const char* f, ...) noexcept {
  va_list v;
  va_start(v, f);
  int r = rt_vsnprintf(b, n, f, v);
  va_end(v);
  return r;
}
int sprintf(char* b, const char* f, ...) noexcept {
  va_list v;
  va_start(v, f);
  int r = rt_vsnprintf(b, 1ul << 30, f, v);
  va_end(v);
  return r;
}
int vfprintf(FILE* o, const char* f, va_list v) {
  char b[4096];
  int  r = rt_vsnprintf(b, sizeof b, f, v);
  if ((unsigned)r >= sizeof b) hsx_unsupported("long fprintf");
  return fwrite(b, 1, (unsigned long)r, o) == (unsigned long)r ? r : -1;
}
int vprintf(const char* f, va_list v) { return vfprintf(stdout, f, v); }
int fprintf(FILE* o, const char* f, ...) {
  va_list v;
  va_start(v, f);
  int r = vfprintf(o, f, v);
  va_end(v);
  return r;
}
int printf(const char* f, ...) {
  va_list v;
  va_start(v, f);
  int r = vfprintf(stdout, f, v);
  va_end(v);
  return r;
}
double strtod(const char* s, char** e) noexcept {
  unsigned long n;
  double        d = hsx_parse_double(s, &n);
  if (e) *e = (char*)s + n;
  return d;
}
char* rt_strchr(const char* s, int c) noexcept {
  for (;; s++) {
    if (*s == (char)c) return (char*)s;
    if (!*s) return nullptr;
  }
}
int nanosleep(const struct timespec*, struct timespec*) { sched_yield(); return 0; }
int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { sched_yield(); return 0; }
int usleep(unsigned) { sched_yield(); return 0; }
unsigned sleep(unsigned) { sched_yield(); return 0; }
int pthread_once(pthread_once_t* o, void (*f)(void)) {
  while (*o == 1) sched_yield();
  if (*o == 0) {
    *o = 1;
    struct Reset { pthread_once_t* o; ~Reset() { *o = *o == 2 ? 2 : 0; } } reset{o}; // an exception leaves it undone
    f();
    *o = 2;
    hsx_hb(o, 1);
  }
  hsx_hb(o, 0);
  return 0;
}
// readers exclude each other here: fewer interleavings, none that could not happen
int pthread_rwlock_wrlock(pthread_rwlock_t* l) noexcept { return pthread_mutex_lock((pthread_mutex_t*)l); }
int pthread_rwlock_rdlock(pthread_rwlock_t* l) noexcept { return hsx_rdlock(l); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) noexcept { return pthread_mutex_trylock((pthread_mutex_t*)l); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) noexcept {
  int r = pthread_mutex_trylock((pthread_mutex_t*)l);
  if (!r) hsx_hb(l, 2);
  return r;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) noexcept { return pthread_mutex_unlock((pthread_mutex_t*)l); }
int pthread_rwlock_init(pthread_rwlock_t*, const pthread_rwlockattr_t*) noexcept { return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) noexcept { return 0; }
int clock_gettime(clockid_t, struct timespec*) noexcept;
}
char* rt_strchr_alias(const char*, int) asm("strchr");
char* rt_strchr_alias(const char* s, int c) { return rt_strchr(s, c); }
char* rt_strrchr_alias(const char*, int) asm("strrchr");
char* rt_strrchr_alias(const char* s, int c) {
  char* r = nullptr;
  for (;; s++) {
    if (*s == (char)c) r = (char*)s;
    if (!*s) return r;
  }
}
char* rt_strstr_alias(const char*, const char*) asm("strstr");
char* rt_strstr_alias(const char* s, const char* t) {
  for (;; s++) {
    unsigned long i = 0;
    while (t[i] && s[i] == t[i]) i++;
    if (!t[i]) return (char*)s;
    if (!*s) return nullptr;
  }
}
namespace std {
__thread void* __once_callable;
__thread void (*__once_call)();
extern "C" void __once_proxy() { __once_call(); }
to_chars_result to_chars(char* b, char* e, double d) noexcept {
  char          t[64];
  unsigned long n = hsx_shortest_double(t, d);
  if ((long)n > e - b) return {e, errc::value_too_large};
  memcpy(b, t, n);
  return {b + n, errc{}};
}
static to_chars_result spec(char* b, char* e, double d, chars_format f, int prec) {
  char t[512], s[16] = "%.";
  int  k = 2, m = 0;
  char q[12];
  do q[m++] = (char)('0' + prec % 10); while (prec /= 10);
  while (m) s[k++] = q[--m];
  s[k++] = f == chars_format::fixed ? 'f' : f == chars_format::scientific ? 'e' : 'g';
  int n = hsx_fmt_double(t, sizeof t, s, d);
  if (n > e - b) return {e, errc::value_too_large};
  memcpy(b, t, (size_t)n);
  return {b + n, errc{}};
}
to_chars_result to_chars(char* b, char* e, double d, chars_format f, int p) noexcept { return spec(b, e, d, f, p); }
to_chars_result to_chars(char* b, char* e, double d, chars_format f) noexcept { return f == chars_format::general ? to_chars(b, e, d) : spec(b, e, d, f, 6); }
to_chars_result to_chars(char* b, char* e, float d) noexcept { return to_chars(b, e, (double)d); }
from_chars_result from_chars(const char* b, const char* e, double& d, chars_format) noexcept {
  string        t(b, e);
  unsigned long n;
  double        x = hsx_parse_double(t.c_str(), &n);
  if (!n) return {b, errc::invalid_argument};
  d = x;
  return {b + n, errc{}};
}
namespace __detail {
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  if (x._M_next != &x) {
    if (y._M_next != &y) {
      std::swap(x._M_next, y._M_next);
      std::swap(x._M_prev, y._M_prev);
      x._M_next->_M_prev = x._M_prev->_M_next = &x;
      y._M_next->_M_prev = y._M_prev->_M_next = &y;
    } else {
      y._M_next = x._M_next, y._M_prev = x._M_prev;
      y._M_next->_M_prev = y._M_prev->_M_next = &y;
      x._M_next = x._M_prev = &x;
    }
  } else if (y._M_next != &y) {
    x._M_next = y._M_next, x._M_prev = y._M_prev;
    x._M_next->_M_prev = x._M_prev->_M_next = &x;
    y._M_next = y._M_prev = &y;
  }
}
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
  if (this == l) return;
  l->_M_prev->_M_next = this;
  f->_M_prev->_M_next = l;
  this->_M_prev->_M_next = f;
  auto* t = this->_M_prev;
  this->_M_prev = l->_M_prev;
  l->_M_prev = f->_M_prev;
  f->_M_prev = t;
}
void _List_node_base::_M_reverse() noexcept {
  _List_node_base* t = this;
  do {
    std::swap(t->_M_next, t->_M_prev);
    t = t->_M_prev;
  } while (t != this);
}
void _List_node_base::_M_hook(_List_node_base* const p) noexcept {
  this->_M_next = p;
  this->_M_prev = p->_M_prev;
  p->_M_prev->_M_next = this;
  p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept {
  auto* n = this->_M_next;
  auto* p = this->_M_prev;
  p->_M_next = n;
  n->_M_prev = p;
}
} // namespace __detail
} // namespace std
