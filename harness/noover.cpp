// An existing output file survives unless --force is given: TOOL 0 topn, 1 convert, 2 download.
#include "common.hpp"
#if TOOL == 2
#include "fake/net.hpp"
#endif
#define main hibp_main
#if TOOL == 0
#include "app/hibp_topn.cpp"
#elif TOOL == 2
#include "app/hibp_download.cpp"
#else
#include "app/hibp_convert.cpp"
#endif
#undef main

static int tool(std::vector<std::string> a) {
  std::vector<char*> v;
  for (auto& s: a) v.push_back(s.data());
  v.push_back(nullptr);
  return hsx_run(hibp_main, (int)a.size(), v.data());
}
HSX_MAIN {
  enum { HS = 20 };
  long                 n = hsx_param("n", 3), mode = hsx_param("mode", 0), old = hsx_param("old", 5), type = hsx_param("type", 0);
  unsigned             force = hsx_choice(3, "force"), exists = hsx_choice(2, "exists");
  std::vector<uint8_t> d;
  for (long i = 0; i < n; i++) {
    for (int j = 0; j < (type ? 16 : 20); j++) d.push_back((uint8_t)(filler((unsigned)j) + i));
    for (int j = 0; j < 4; j++) d.push_back(0);
    hsx_make_symbolic(&d[d.size() - 4], 1, "count");
  }
  std::string in = "in.bin";
#if TOOL == 1
  if (mode == 0) {
    std::string t;
    for (long i = 0; i < n; i++) {
      t += std::string((size_t)(type ? 31 : 39), 'A');
      uint8_t c[2];
      hsx_make_symbolic(c, 2, "text");
      for (uint8_t x: c) hsx_assume((int)((unsigned)(x >= '0') & (unsigned)(x <= '9')));
      t += (char)c[0];
      t += ':';
      t += (char)c[1];
      t += '\n';
    }
    d.assign(t.begin(), t.end());
  }
#endif
#if TOOL == 2
  for (int p = 0; p < 2; p++) {
    uint8_t c;
    hsx_make_symbolic(&c, 1, "digit");
    hsx_assume((int)((unsigned)(c >= '0') & (unsigned)(c <= '9')));
    std::string body = std::string(type == 1 ? 27 : 35, (char)('A' + p)) + ":" + (char)c + "\r\n";
    hsx_file_put((std::string("0000") + (char)('0' + p) + (type == 1 ? ".ntlm.srv" : ".srv")).c_str(), body.data(), body.size());
  }
#endif
  hsx_file_put(in.c_str(), d.data(), d.size());
  auto run = [&](const char* out, unsigned f) {
#if TOOL == 0
    std::vector<std::string> a{"hibp-topn", in, "-N", num(n - 1), "-o", out};
#elif TOOL == 2
    std::vector<std::string> a{"hibp-download", out, "--limit", "2", "--no-progress"};
    if (type == 2) a.push_back("--sha1t64");
    if (mode) a.push_back("--txt-out");
    if (type == 2) f = f ? 1 : 0;
    if (f == 2) f = 1;
    if (type == 1) a.push_back("--ntlm");
    if (f) a.push_back("--force");
    return tool(a);
#else
    std::vector<std::string> a{"hibp-convert", mode ? "--bin-to-txt" : "--txt-to-bin", "-i", in, "-o", out};
#endif
    if (type) a.push_back("--ntlm");
    if (f) a.push_back(f == 1 ? "--force" : "-f");
    return tool(a);
  };
  hsx_assert(run("ref.out", 0) == 0, "succeeds on a new file");
  HsxFile              want = hsx_read_file("ref.out");
  std::vector<uint8_t> was((size_t)old);
  if (old) hsx_make_symbolic(was.data(), was.size() < 4 ? was.size() : 4, "old content");
  if (exists) hsx_file_put("out.bin", was.data(), was.size());
  int     rc  = run("out.bin", force);
  HsxFile got = hsx_read_file("out.bin");
  observeFile("out", "out.bin");
  if (exists && !force) {
    hsx_assert(rc != 0 && rc < 128, "refuses to overwrite");
    hsx_assert(got.exists && got.data.size() == was.size(), "the existing file keeps its size");
    hsx_assert(eqBytes(got.data.data(), was.data(), (unsigned)was.size()), "the existing file keeps its content");
    hsx_cover("refused");
  } else {
    hsx_assert(rc == 0, "succeeds");
    hsx_assert(got.data.size() == want.data.size(), "an existing file is replaced completely");
    hsx_assert(eqBytes(got.data.data(), want.data.data(), (unsigned)want.data.size()), "the output is the same as in a new file");
    hsx_cover("written");
  }
  return 0;
}
