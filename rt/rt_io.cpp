#pragma push_macro("__OPTIMIZE__")
#undef __OPTIMIZE__
#include <cstdio>
#pragma pop_macro("__OPTIMIZE__")
#include <istream>
#include <ostream>
#include <new>
#include <streambuf>
#undef ferror
#undef putc
#undef putchar
extern "C" long rt_stdio_write(int fd, const void* p, unsigned long n);
extern "C" long rt_stdio_read(void* p, unsigned long n);
namespace std {
alignas(ostream) char cout[sizeof(ostream)];
alignas(ostream) char cerr[sizeof(ostream)];
alignas(ostream) char clog[sizeof(ostream)];
alignas(istream) char cin[sizeof(istream)];
}
// the C library's buffered standard output: what does not fit is written in whole blocks, a failed flush drops the buffer
static char          obuf[4096];
static unsigned long oused;
static int           oerr, ierr;
extern "C" {
int rt_fflush(int fd) {
  if (fd != 1 || !oused) return 0;
  long n = (long)oused;
  oused  = 0;
  if (rt_stdio_write(1, obuf, (unsigned long)n) == n) return 0;
  oerr = 1;
  return -1;
}
long rt_fwrite(int fd, const void* p, unsigned long n) {
  if (fd == 2) return rt_stdio_write(2, p, n);
  unsigned long k = sizeof obuf - oused < n ? sizeof obuf - oused : n;
  __builtin_memcpy(obuf + oused, p, k);
  oused += k;
  if (k == n) return (long)n;
  if (rt_fflush(1)) return (long)k;
  unsigned long b = (n - k) / sizeof obuf * sizeof obuf;
  if (b) {
    long w = rt_stdio_write(1, (const char*)p + k, b);
    if (w != (long)b) { oerr = 1; return (long)k + (w < 0 ? 0 : w); }
    k += b;
  }
  __builtin_memcpy(obuf, (const char*)p + k, n - k);
  oused = n - k;
  return (long)n;
}
static FILE rt_files[3];
static int  fdOf(FILE* f) { return (int)(f - rt_files); }
FILE *stdin = &rt_files[0], *stdout = &rt_files[1], *stderr = &rt_files[2];
int ferror(FILE* f) noexcept { return fdOf(f) == 0 ? ierr : fdOf(f) == 1 ? oerr : 0; }
int ferror_unlocked(FILE* f) noexcept { return ferror(f); }
int           fflush(FILE* f) { return rt_fflush(f ? fdOf(f) : 1); }
unsigned long fwrite(const void* p, unsigned long s, unsigned long n, FILE* f) {
  if (!s || !n) return 0;
  long w = rt_fwrite(fdOf(f), p, s * n);
  return w < 0 ? 0 : (unsigned long)w / s;
}
int fputs(const char* s, FILE* f) { unsigned long n = __builtin_strlen(s); return rt_fwrite(fdOf(f), s, n) == (long)n ? 1 : -1; }
int fputc(int c, FILE* f) { char ch = (char)c; return rt_fwrite(fdOf(f), &ch, 1) == 1 ? (unsigned char)c : -1; }
int putc(int c, FILE* f) { return fputc(c, f); }
int putchar(int c) { return fputc(c, stdout); }
int puts(const char* s) { return fputs(s, stdout) < 0 || fputc('\n', stdout) < 0 ? -1 : 1; }
}
namespace {
struct OutBuf : std::streambuf {
  int fd;
  explicit OutBuf(int f) : fd(f) {}
  int_type overflow(int_type c) override {
    if (c == traits_type::eof()) return sync() ? c : traits_type::not_eof(c);
    char ch = (char)c;
    return rt_fwrite(fd, &ch, 1) == 1 ? c : traits_type::eof();
  }
  int             sync() override { return rt_fflush(fd); }
  std::streamsize xsputn(const char* s, std::streamsize n) override { return rt_fwrite(fd, s, (unsigned long)n); }
};
struct InBuf : std::streambuf {
  char b[64];
  int_type underflow() override {
    long n = rt_stdio_read(b, sizeof b);
    if (n < 0) ierr = 1;
    if (n <= 0) return traits_type::eof();
    setg(b, b, b + n);
    return (unsigned char)b[0];
  }
};
alignas(OutBuf) char bo[sizeof(OutBuf)], be[sizeof(OutBuf)];
alignas(InBuf) char  bi[sizeof(InBuf)];
struct Init {
  Init() {
    auto* o = new (bo) OutBuf(1);
    auto* e = new (be) OutBuf(2);
    auto* i = new (bi) InBuf();
    new (std::cout) std::ostream(o);
    auto* ce = new (std::cerr) std::ostream(e);
    ce->setf(std::ios_base::unitbuf);
    new (std::clog) std::ostream(e);
    auto* ci = new (std::cin) std::istream(i);
    ci->tie((std::ostream*)std::cout);
    ce->tie((std::ostream*)std::cout);
  }
};
__attribute__((init_priority(110))) Init init_;
} // namespace
