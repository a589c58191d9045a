// The harness API against the real system: used to replay counterexamples and to validate sampled symbolic paths.
//   usage: <exe> <scratch dir> <input file> [param=value ...]
// input file: lines  name=h:HEX | name=i:INT | sched=0,1,0,...   ; verdict lines go to fd 9 (or stdout).
#include "hsx.h"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
#include <cstdarg>
#include <pthread.h>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>

extern "C" int hsx_main();

namespace {
struct Shared { // survives fork
  int  nnames;
  char names[512][56];
  int  counts[512];
  long obudget, ifault, wbudget, crash, clock, rfault, rshort;
  char deny[128];
  int  wonce;
  int  failed;
  size_t seqPos;
  size_t outLen;
  char   out[1 << 22];
};
Shared*                                       sh;
std::map<std::string, std::string>            inputs, params;
std::vector<int>                              sched;
int                                           outFd = 1;
thread_local int                              internal = 0;
struct Internal { Internal() { internal++; } ~Internal() { internal--; } };

void put(const std::string& s) {
  size_t n = s.size();
  if (sh->outLen + n + 1 < sizeof sh->out) {
    memcpy(sh->out + sh->outLen, s.data(), n);
    sh->outLen += n;
    sh->out[sh->outLen++] = '\n';
  }
}
[[noreturn]] void finish(int code) {
  size_t k = 0;
  while (k < sh->outLen) {
    long r = syscall(SYS_write, outFd, sh->out + k, sh->outLen - k);
    if (r <= 0) break;
    k += (size_t)r;
  }
  syscall(SYS_exit_group, code);
  __builtin_unreachable();
}
pid_t mainPid;
[[noreturn]] void fail(int code, const std::string& why) {
  Internal i;
  if (!sh->failed) {
    sh->failed = code;
    put(why);
  }
  if (getpid() == mainPid) finish(code);
  syscall(SYS_exit_group, 99);
  __builtin_unreachable();
}
int counter(const char* n) {
  for (int i = 0; i < sh->nnames; i++) if (!strcmp(sh->names[i], n)) return sh->counts[i]++;
  if (sh->nnames >= 512) fail(5, "ERROR too many input names");
  strncpy(sh->names[sh->nnames], n, 55);
  sh->counts[sh->nnames] = 1;
  return sh->nnames++, 0;
}
std::string inputFor(const char* n) {
  int         k   = counter(n);
  std::string key = k ? std::string(n) + "#" + std::to_string(k) : n;
  auto        it  = inputs.find(key);
  return it == inputs.end() ? "" : it->second;
}
} // namespace

extern "C" {
void hsx_make_symbolic(void* p, unsigned long n, const char* name) {
  Internal    g;
  std::string v = inputFor(name);
  auto*       b = (uint8_t*)p;
  memset(b, 0, n);
  if (v.rfind("h:", 0) == 0) {
    for (unsigned long i = 0; i < n && 2 + 2 * i + 1 < v.size(); i++) b[i] = (uint8_t)strtoul(v.substr(2 + 2 * i, 2).c_str(), nullptr, 16);
  }
}
unsigned hsx_choice(unsigned n, const char* name) {
  Internal    g;
  std::string v = inputFor(name);
  unsigned    r = 0;
  if (v.rfind("i:", 0) == 0) r = (unsigned)strtoul(v.c_str() + 2, nullptr, 10);
  if (r >= n) fail(4, std::string("MISMATCH choice out of range ") + name);
  return r;
}
void hsx_assume(int c) { if (!c) fail(4, "MISMATCH assumption does not hold"); }
void hsx_assert_(int c, const char* msg) { if (!c) fail(3, std::string("ASSERT ") + msg); }
void hsx_observe(const char* tag, const void* p, unsigned long n) {
  Internal    g;
  std::string s = std::string("OBS ") + tag + " ";
  static const char* hx = "0123456789abcdef";
  for (unsigned long i = 0; i < n; i++) { s += hx[((const uint8_t*)p)[i] >> 4]; s += hx[((const uint8_t*)p)[i] & 15]; }
  put(s);
}
void hsx_cover(const char*) {}
long hsx_param(const char* name, long d) {
  Internal g;
  auto     it = params.find(name);
  return it == params.end() ? d : strtol(it->second.c_str(), nullptr, 10);
}
int           hsx_native(void) { return 1; }
unsigned long hsx_concretize(unsigned long x) { return x; }
int           hsx_decide(int c) { return c; }
void          hsx_fault(const char*) {}
void          hsx_trace(const char*) {}
void          hsx_print(const char*, unsigned long) {}
void          hsx_stop_path(void) { put("DONE"); finish(0); }
void          hsx_unsupported(const char* w) { fail(5, std::string("ERROR unsupported ") + w); }

void hsx_file_put(const char* name, const void* p, unsigned long n) {
  int fd = (int)syscall(SYS_open, name, O_WRONLY | O_CREAT | O_TRUNC, 0644);
  for (unsigned long k = 0; k < n;) {
    long r = syscall(SYS_write, fd, (const char*)p + k, n - k);
    if (r <= 0) fail(5, "ERROR scratch write");
    k += (unsigned long)r;
  }
  syscall(SYS_close, fd);
}
long hsx_file_size(const char* name) {
  struct stat st;
  return stat(name, &st) ? -1 : (long)st.st_size;
}
void hsx_file_get(const char* name, void* p, unsigned long off, unsigned long n) {
  int fd = (int)syscall(SYS_open, name, O_RDONLY, 0);
  if (syscall(SYS_pread64, fd, p, n, off) != (long)n) fail(5, "ERROR scratch read");
  syscall(SYS_close, fd);
}
void hsx_file_remove(const char* name) { syscall(SYS_unlink, name); }
int  hsx_file_count(void) {
  int  n = 0;
  DIR* d = opendir(".");
  while (auto* e = readdir(d)) if (e->d_name[0] != '<' && e->d_name[0] != '.') n++;
  closedir(d);
  return n;
}
void hsx_file_touch(const char* name, long t) {
  struct timespec ts = {1600000000 + t / 1000000000, t % 1000000000}, both[2] = {ts, ts}; // t counts nanoseconds
  utimensat(AT_FDCWD, name, both, 0);
}
void hsx_set_write_budget(long b) { sh->wbudget = b; }
void hsx_set_write_once(int on) { sh->wonce = on; }
void hsx_set_crash_at(long c) { sh->crash = c < 0 ? -1 : sh->clock + c; }
long hsx_effect_clock(void) { return sh->clock; }
void hsx_set_read_fault(long n) { sh->rfault = n; }
void hsx_set_short_read(long n) { sh->rshort = n; }
void hsx_set_stdout_budget(long b) { sh->obudget = b; }
void hsx_set_stdin_fault(int on) { sh->ifault = on; }
void hsx_deny_open(const char* n) { strncpy(sh->deny, n, 127); }

int hsx_run(int (*m)(int, char**), int argc, char** argv) {
  Internal g;
  fflush(nullptr);
  int ep[2] = {-1, -1};
  if (sh->obudget >= 0 && pipe2(ep, O_NONBLOCK)) fail(5, "ERROR pipe");
  pid_t p = fork();
  if (p == 0) {
    internal = 0;
    for (int s: {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) signal(s, SIG_DFL);
    { // a run that never ends must not fill the disk or the memory
      struct rlimit rl {1u << 28, RLIM_INFINITY};
      setrlimit(RLIMIT_FSIZE, &rl);
      signal(SIGXFSZ, SIG_IGN);
#if !defined HSX_ASAN && !defined HSX_TSAN
      rl.rlim_cur = 3ul << 30;
      setrlimit(RLIMIT_AS, &rl);
#endif
    }
    int fd = (int)syscall(SYS_open, "<stdin>", O_RDONLY, 0);
    if (fd < 0) fd = (int)syscall(SYS_open, "/dev/null", O_RDONLY, 0);
    dup2(fd, 0);
    fd = (int)syscall(SYS_open, "<stdout>", O_WRONLY | O_CREAT | O_APPEND, 0644);
    dup2(fd, 1);
    fd = (int)syscall(SYS_open, "<stderr>", O_WRONLY | O_CREAT | O_APPEND, 0644);
    dup2(fd, 2);
    if (sh->ifault) dup2((int)syscall(SYS_open, ".", O_RDONLY | O_DIRECTORY, 0), 0);
    if (sh->obudget >= 0) { // a limit on the size of the file behind standard output; standard error must not hit it
      struct stat st;
      fstat(1, &st);
      struct rlimit rl {(rlim_t)(st.st_size + sh->obudget), RLIM_INFINITY};
      setrlimit(RLIMIT_FSIZE, &rl);
      signal(SIGXFSZ, SIG_IGN);
      dup2(ep[1], 2);
    }
    [&]() noexcept { exit(m(argc, argv)); }();
  }
  if (ep[1] >= 0) syscall(SYS_close, ep[1]);
  int    st;
  double lim = 30;
  for (double t = 0;; t += 0.002) {
    pid_t r = waitpid(p, &st, WNOHANG);
    if (r == p) break;
    if (t > lim) {
      kill(p, SIGKILL);
      waitpid(p, &st, 0);
      fail(6, "HANG the program did not end");
    }
    usleep(2000);
  }
  if (ep[0] >= 0) {
    char b[4096];
    int  fd = (int)syscall(SYS_open, "<stderr>", O_WRONLY | O_CREAT | O_APPEND, 0644);
    for (long k; (k = syscall(SYS_read, ep[0], b, sizeof b)) > 0;) if (syscall(SYS_write, fd, b, (size_t)k) != k) fail(5, "ERROR scratch write");
    syscall(SYS_close, fd);
    syscall(SYS_close, ep[0]);
  }
  if (sh->failed) finish(sh->failed);
  if (WIFSIGNALED(st)) {
    if (WTERMSIG(st) == SIGSEGV || WTERMSIG(st) == SIGBUS || WTERMSIG(st) == SIGFPE || WTERMSIG(st) == SIGILL) fail(7, "SIGNAL " + std::to_string(WTERMSIG(st)));
    return 128 + WTERMSIG(st);
  }
#ifdef HSX_TSAN
  if (WEXITSTATUS(st) == 66) {
    char b[2048];
    long n  = 0;
    int  fd = (int)syscall(SYS_open, "<stderr>", O_RDONLY, 0);
    if (fd >= 0) n = syscall(SYS_read, fd, b, sizeof b);
    std::string w(b, n > 0 ? (size_t)n : 0);
    for (char& c: w) if (c < ' ') c = ' ';
    fail(7, "RACE " + w.substr(0, 1500));
  }
#endif
  if (WEXITSTATUS(st) == 77) fail(7, "SANITIZER report");
  return WEXITSTATUS(st);
}

// ---------------------------------------------------------------- interposed system interface
static bool isData(int fd) {
  if (internal || fd <= 2 || !sh) return false;
  struct stat st;
  return fstat(fd, &st) == 0 && S_ISREG(st.st_mode);
}
static void die() { syscall(SYS_exit_group, 137); }
static void tick() {
  if (sh->crash >= 0 && sh->clock >= sh->crash) { sh->crash = -1; die(); }
  sh->clock++;
}
static long allow(size_t n, bool& dead) {
  dead = false;
  if (sh->wbudget >= 0 && (long)n > sh->wbudget) n = (size_t)sh->wbudget;
  if (sh->crash >= 0 && sh->clock + (long)n > sh->crash) { n = (size_t)(sh->crash - sh->clock); dead = true; }
  if (sh->wbudget >= 0) sh->wbudget -= (long)n;
  sh->clock += (long)n;
  return (long)n;
}
ssize_t write(int fd, const void* p, size_t n) {
  if (!isData(fd)) return syscall(SYS_write, fd, p, n);
  bool dead;
  long k = allow(n, dead);
  if (k > 0) k = syscall(SYS_write, fd, p, k);
  if (dead) { sh->crash = -1; die(); }
  if (k == 0 && n > 0) {
    if (sh->wonce) sh->wbudget = -1;
    errno = ENOSPC;
    return -1;
  }
  return k;
}
ssize_t writev(int fd, const struct iovec* v, int c) {
  if (!isData(fd)) return syscall(SYS_writev, fd, v, c);
  ssize_t t = 0;
  for (int i = 0; i < c; i++) {
    if (!v[i].iov_len) continue;
    ssize_t r = write(fd, v[i].iov_base, v[i].iov_len);
    if (r < 0) return t ? t : -1;
    t += r;
    if ((size_t)r < v[i].iov_len) break;
  }
  return t;
}
ssize_t read(int fd, void* p, size_t n) {
  if (!isData(fd)) return syscall(SYS_read, fd, p, n);
  if (!internal) hsx_yield();
  if (sh->rfault >= 0 && sh->rfault-- == 0) { errno = EIO; return -1; }
  if (sh->rshort >= 0 && n > 1) {
    off_t       pos = lseek(fd, 0, SEEK_CUR);
    struct stat st;
    fstat(fd, &st);
    size_t a = pos < st.st_size ? (size_t)(st.st_size - pos) : 0;
    size_t k = n < a ? n : a;
    if (k > 1 && sh->rshort-- == 0) n = k / 2;
  }
  return syscall(SYS_read, fd, p, n);
}
static FILE* doOpen(const char* name, const char* mode, const char* fn) {
  auto real = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, fn);
  if (internal || !sh || name[0] == '/') return real(name, mode);
  const char* b = name;
  while (b[0] == '.' && b[1] == '/') b += 2;
  if (sh->deny[0] && !strcmp(b, sh->deny)) { errno = ENOENT; return nullptr; }
  bool ex = access(name, F_OK) == 0;
  if (mode[0] == 'w' || (mode[0] == 'a' && !ex)) tick();
  return real(name, mode);
}
FILE* fopen(const char* n, const char* m) { return doOpen(n, m, "fopen"); }
FILE* fopen64(const char* n, const char* m) { return doOpen(n, m, "fopen64"); }
int   rename(const char* a, const char* b) {
  if (!internal && sh && access(a, F_OK) == 0) tick();
  return (int)syscall(SYS_rename, a, b);
}
int unlink(const char* a) {
  if (!internal && sh && access(a, F_OK) == 0) tick();
  return (int)syscall(SYS_unlink, a);
}
int remove(const char* a) { return unlink(a); }
static int doTrunc(const char* a, off_t n) {
  if (!internal && sh && access(a, F_OK) == 0) tick();
  return (int)syscall(SYS_truncate, a, n);
}
int truncate(const char* a, off_t n) noexcept { return doTrunc(a, n); }
int truncate64(const char* a, off64_t n) noexcept { return doTrunc(a, n); }

#ifdef HSX_TSAN // threads run freely under the thread sanitizer
static void anyTime() {
  static thread_local unsigned x = (unsigned)(uintptr_t)pthread_self() / 4096 + (unsigned)getpid() * 7919u;
  x = x * 1103515245u + 12345u;
  usleep((x >> 16) % 3 ? (x >> 18) % 1500 : 0);
}
void hsx_pause(void) { anyTime(); }
void hsx_yield(void) { anyTime(); }
}
#else
// ---------------------------------------------------------------- deterministic threads (one token, recorded order)
}
namespace {
enum { MAXT = 16 };
struct TState { bool used, done; void* (*fn)(void*); void* arg; void* cv; void* cvMutex; bool signalled; pthread_t real; };
TState                ts[MAXT];
int                   nth = 1;
#define seqPos (sh->seqPos)
int                   holder = 0; // thread with the token, -1 none
std::map<void*, int>  owner;      // mutex -> tid+1
thread_local int      me = 0;
template <class F> F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
pthread_mutex_t       bigM = PTHREAD_MUTEX_INITIALIZER;
pthread_cond_t        bigC = PTHREAD_COND_INITIALIZER;
int rl(pthread_mutex_t* m) { static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock"); return f(m); }
int ru(pthread_mutex_t* m) { static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock"); return f(m); }
int rw(pthread_cond_t* c, pthread_mutex_t* m) { static auto f = real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait"); return f(c, m); }
int rb(pthread_cond_t* c) { static auto f = real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast"); return f(c); }
bool threaded() { return nth > 1; }
// give the token back and wait for the next turn of this thread in which pred() holds; then take it
template <class P> void turn(P pred) {
  Internal g;
  rl(&bigM);
  if (holder == me) holder = -1;
  rb(&bigC);
  for (;;) {
    if (holder == -1 && pred()) {
      if (seqPos >= sched.size()) break;
      if (sched[seqPos] == me) { seqPos++; break; }
    }
    rw(&bigC, &bigM);
  }
  holder = me;
  ru(&bigM);
}
void* tmain(void* p) {
  me = (int)(intptr_t)p;
  turn([] { return true; });
  void* r = ts[me].fn(ts[me].arg);
  Internal g;
  rl(&bigM);
  ts[me].done = true;
  if (holder == me) holder = -1;
  rb(&bigC);
  ru(&bigM);
  return r;
}
} // namespace
extern "C" {
int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*f)(void*), void* a) {
  turn([] { return true; });
  Internal g;
  int      id = nth++;
  ts[id]      = TState{true, false, f, a, nullptr, nullptr, false, 0};
  static auto rc = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
  int r = rc(&ts[id].real, nullptr, tmain, (void*)(intptr_t)id);
  *t    = (pthread_t)(id + 1);
  return r;
}
int pthread_join(pthread_t t, void**) {
  int id = (int)t - 1;
  turn([&] { return ts[id].done; });
  static auto rj = real<int (*)(pthread_t, void**)>("pthread_join");
  return rj(ts[id].real, nullptr);
}
int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
  if (internal || !threaded()) { if (threaded()) return rl(m); owner[m] = me + 1; return 0; }
  turn([&] { return !owner[m]; });
  owner[m] = me + 1;
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
  if (threaded()) turn([&] { return true; });
  if (owner[m]) return EBUSY;
  owner[m] = me + 1;
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
  if (internal && threaded()) return ru(m);
  owner[m] = 0;
  return 0;
}
#define HSX_RW(name, as) \
  int name(pthread_rwlock_t* l) noexcept { \
    if (internal && threaded()) return 0; \
    return as((pthread_mutex_t*)l); \
  }
HSX_RW(pthread_rwlock_wrlock, pthread_mutex_lock)
HSX_RW(pthread_rwlock_rdlock, pthread_mutex_lock)
HSX_RW(pthread_rwlock_trywrlock, pthread_mutex_trylock)
HSX_RW(pthread_rwlock_tryrdlock, pthread_mutex_trylock)
HSX_RW(pthread_rwlock_unlock, pthread_mutex_unlock)
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (internal) return rw(c, m);
  if (threaded()) turn([] { return true; });
  owner[m]          = 0;
  ts[me].cv         = c;
  ts[me].signalled  = false;
  turn([&] { return ts[me].signalled && !owner[m]; });
  owner[m]  = me + 1;
  ts[me].cv = nullptr;
  return 0;
}
int pthread_cond_signal(pthread_cond_t* c) noexcept {
  if (internal) { static auto f = real<int (*)(pthread_cond_t*)>("pthread_cond_signal"); return f(c); }
  if (threaded()) turn([] { return true; });
  for (int i = 0; i < nth; i++) if (ts[i].cv == c && !ts[i].signalled) { ts[i].signalled = true; break; }
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept {
  if (internal) return rb(c);
  if (threaded()) turn([] { return true; });
  for (int i = 0; i < nth; i++) if (ts[i].cv == c) ts[i].signalled = true;
  return 0;
}
long syscall(long n, ...) noexcept { // the futex waits of standard library semaphores follow the schedule too
  va_list v;
  va_start(v, n);
  long a[6];
  for (long& x: a) x = va_arg(v, long);
  va_end(v);
  if (n == SYS_futex && threaded() && !internal) {
    if ((a[1] & 127) != 1) turn([] { return true; });
    return 0;
  }
  long          r;
  register long r10 asm("r10") = a[3];
  register long r8 asm("r8")   = a[4];
  register long r9 asm("r9")   = a[5];
  asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  if (r < 0 && r > -4096) {
    errno = (int)-r;
    return -1;
  }
  return r;
}
int  sched_yield(void) noexcept { if (threaded() && !internal) turn([] { return true; }); return 0; }
void hsx_pause(void) { if (threaded()) turn([] { return true; }); }
void hsx_yield(void) { if (threaded()) turn([] { return true; }); }
}

#endif
static void onSignal(int s) {
  // a crash inside the harness process itself
  const char* n = s == SIGALRM ? "HANG harness process\n" : s == SIGABRT ? "SIGNAL abort\n" : "SIGNAL fault\n";
  syscall(SYS_write, outFd, n, strlen(n));
  syscall(SYS_exit_group, s == SIGALRM ? 6 : 7);
}
int main(int argc, char** argv) {
  internal = 1;
  if (argc < 3) return 5;
  sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sh->obudget = -1;
  sh->wbudget = sh->crash = sh->rfault = sh->rshort = -1;
  mainPid = getpid();
  outFd   = dup(1);
  if (FILE* f = fopen(argv[2], "r")) {
    char*  b = nullptr;
    size_t cap = 0;
    while (getline(&b, &cap, f) > 0) {
      std::string s = b;
      while (!s.empty() && (s.back() == '\n' || s.back() == '\r')) s.pop_back();
      auto k = s.find('=');
      if (k == std::string::npos) continue;
      if (s.substr(0, k) == "sched") {
        const char* p = s.c_str() + k + 1;
        while (*p) { sched.push_back((int)strtol(p, (char**)&p, 10)); if (*p == ',') p++; else break; }
      } else inputs[s.substr(0, k)] = s.substr(k + 1);
    }
    fclose(f);
  } else return 5;
  for (int i = 3; i < argc; i++) {
    std::string s = argv[i];
    auto        k = s.find('=');
    params[s.substr(0, k)] = s.substr(k + 1);
  }
  if (chdir(argv[1])) return 5;
  for (int s: {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM}) {
#ifdef HSX_ASAN
    if (s == SIGSEGV || s == SIGBUS || s == SIGFPE) continue;
#endif
    signal(s, onSignal);
  }
  alarm(60);
  internal = 0;
  try {
    hsx_main();
  } catch (...) {
    fail(8, "EXCEPTION escaped");
  }
  internal = 1;
  put("DONE");
  finish(0);
}
