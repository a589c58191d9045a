// Harness API. Under the symbolic executor (HSX_SYM) these are engine primitives or rt functions;
// natively (replay / trace validation) they are provided by native.cpp against the real system.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>
extern "C" {
void     hsx_make_symbolic(void* p, unsigned long n, const char* name);
unsigned hsx_choice(unsigned n, const char* name); // value in [0,n), explored exhaustively
void     hsx_assume(int c);
void     hsx_assert_(int c, const char* msg);
void     hsx_observe(const char* tag, const void* p, unsigned long n);
void     hsx_cover(const char* id);
long     hsx_param(const char* name, long dflt);
int      hsx_native(void);
unsigned long hsx_concretize(unsigned long x);
int      hsx_decide(int c); // fork on a condition
void     hsx_fault(const char* what);
void     hsx_trace(const char* what);
void     hsx_print(const char* p, unsigned long n);
void     hsx_stop_path(void);
void     hsx_yield(void);
void     hsx_pause(void); // another thread may run here at no cost to the preemption bound
// the program under test (a new process image: globals and statics, the harness's included, start afresh): returns its exit code; 128+ = killed (134 abort/terminate, 137 crash point)
int  hsx_run(int (*mainfn)(int, char**), int argc, char** argv);
// a file system shared by all runs of programs on this path
void hsx_file_put(const char* name, const void* p, unsigned long n);
long hsx_file_size(const char* name); // -1: does not exist
void hsx_file_get(const char* name, void* p, unsigned long off, unsigned long n);
void hsx_file_remove(const char* name);
int  hsx_file_count(void); // number of files in the scratch directory (stdio excluded)
void hsx_file_touch(const char* name, long mtime);
// faults
void hsx_set_write_budget(long bytes); // -1: unlimited; afterwards write(2) fails with ENOSPC
void hsx_set_write_once(int on);       // only the first write beyond the budget fails
void hsx_set_crash_at(long clock);     // -1: never; the process dies at this tick of the effect clock
long hsx_effect_clock(void);           // bytes written + metadata operations so far
void hsx_set_read_fault(long nth);     // -1: never; the nth read(2) of a regular file from now fails with EIO
void hsx_set_short_read(long nth);     // the nth read returns fewer bytes than asked
void hsx_set_stdout_budget(long bytes); // the same for standard output, in the next run of a program
void hsx_set_stdin_fault(int on);       // reading standard input fails in the next run
void hsx_deny_open(const char* name);  // opening this name fails
}
#define hsx_assert(c, msg) hsx_assert_((int)(bool)(c), msg)

struct HsxFile { // whole-file helper
  bool                 exists;
  std::vector<uint8_t> data;
};
static inline HsxFile hsx_read_file(const char* name) {
  HsxFile f;
  long    n = hsx_file_size(name);
  f.exists  = n >= 0;
  if (n > 0) {
    f.data.resize((size_t)n);
    hsx_file_get(name, f.data.data(), 0, (unsigned long)n);
  }
  return f;
}
template <class... A>
static inline int hsx_app(int (*mainfn)(int, char**), A... a) {
  std::string        s[] = {std::string(a)...};
  std::vector<char*> v;
  for (auto& x: s) v.push_back(x.data());
  v.push_back(nullptr);
  return hsx_run(mainfn, (int)v.size() - 1, v.data());
}
#define HSX_MAIN extern "C" int hsx_main()
