// A write or read that fails is never reported as success: TOOL 0 topn, 1 convert, 2 sort, 3 diff, 4 dupes, 5 sort with a small memory limit.
#include "common.hpp"
#define main hibp_main
#if TOOL == 0
#include "app/hibp_topn.cpp"
#elif TOOL == 1
#include "app/hibp_convert.cpp"
#elif TOOL == 2 || TOOL == 5
#include "app/hibp_sort.cpp"
#elif TOOL == 3
#include "app/hibp_diff.cpp"
#else
#include "app/hibp_dupes.cpp"
#endif
#undef main

#if TOOL == 5
static int sortApi(int, char** argv) {
  try {
    flat_file::database<hibp::pawned_pw_sha1> db("in.bin", 3);
    db.disksort({}, {}, strtoul(argv[1], nullptr, 10));
  } catch (const std::exception& e) {
    std::cerr << e.what();
    return 1;
  }
  return 0;
}
#define hibp_main sortApi
#endif
static int tool(std::vector<std::string> a) {
  std::vector<char*> v;
  for (auto& s: a) v.push_back(s.data());
  v.push_back(nullptr);
  hsx_file_put("<stdout>", "", 0);
  hsx_file_put("<stderr>", "", 0);
  return hsx_run(hibp_main, (int)a.size(), v.data());
}
template <unsigned HS> static std::vector<uint8_t> recs(long n, const char* what, long firstSym) {
  std::vector<uint8_t> d;
  for (long i = 0; i < n; i++) {
    Rec<HS> r;
    for (unsigned j = 0; j < HS; j++) r.b[j] = filler(j);
    r.b[2] = (uint8_t)(i >> 8);
    r.b[3] = (uint8_t)i;
    r.setCnt((int)(i * 7 % 19 + 1));
    if (i >= firstSym) hsx_make_symbolic(r.b + (hsx_param("inhash", 0) ? 5 : HS), 1, what);
    d.insert(d.end(), r.b, r.b + HS + 4);
  }
  return d;
}
template <unsigned HS> static void go() {
  long                     n = hsx_param("n", 3), fault = hsx_param("fault", 0), mode = hsx_param("mode", 0), toStdout = hsx_param("stdout", 0), sym = hsx_param("sym", 1);
  const char*              flag = HS == 20 ? "" : HS == 16 ? "--ntlm" : "--sha1t64";
  std::string              out = toStdout ? "<stdout>" : "out.bin", in = "in.bin";
  std::vector<std::string> args;
#if TOOL == 0
  args = {"hibp-topn", in, "-N", num(n - 1)};
#elif TOOL == 1
  if (hsx_param("stdin", 0)) in = "<stdin>";
  args = {"hibp-convert", mode ? "--bin-to-txt" : "--txt-to-bin"};
  if (in[0] == '<') args.push_back("--stdin");
  else args.insert(args.end(), {"-i", in});
#elif TOOL == 2
  args = {"hibp-sort", "-i", in};
  if (mode) args.insert(args.end(), {"--sort-by-count"});
  out = "in.bin.sorted";
#elif TOOL == 5
  args = {"sort", num(24 * hsx_param("chunk", 2))};
  out  = "in.bin.sorted";
#elif TOOL == 3
  args = {"hibp-diff", "old.bin", in};
  out  = "<stdout>";
#else
  args = {"hibp-dupes", "--bits", "32", in};
  out  = "<stdout>";
#endif
  if (out == "<stdout>" && TOOL < 2) args.push_back("--stdout");
  else if (TOOL < 2) args.insert(args.end(), {"-o", out});
  if (flag[0]) args.push_back(flag);
  auto d = recs<HS>(n, "data", n - sym);
  if (TOOL == 1 && mode == 0) {
    std::string t;
    for (long i = 0; i < n; i++) {
      for (unsigned j = 0; j < HS; j++) { t += "0123456789ABCDEF"[(unsigned)filler(j) >> 4]; t += "0123456789ABCDEF"[(filler(j) + (unsigned)i) & 15]; }
      uint8_t c = (uint8_t)('0' + i % 10);
      if (i >= n - sym) {
        hsx_make_symbolic(&c, 1, "digit");
        hsx_assume((int)((unsigned)(c >= '0') & (unsigned)(c <= '9')));
      }
      t += ':';
      t += (char)c;
      t += '\n';
    }
    d.assign(t.begin(), t.end());
  }
  hsx_file_put(in.c_str(), d.data(), d.size());
  if (TOOL == 3) {
    auto o = recs<HS>(n - hsx_param("extra", 1), "old", n);
    hsx_file_put("old.bin", o.data(), o.size());
  }
  long t0 = hsx_effect_clock();
  int  rc = tool(args);
  hsx_assert(rc == 0, "succeeds without a fault");
  HsxFile want = hsx_read_file(out.c_str()), log = hsx_read_file("<stderr>");
  long    total = out[0] == '<' ? (long)want.data.size() : hsx_effect_clock() - t0; // at least the bytes written
  if (out[0] != '<') hsx_file_remove(out.c_str());
  if (fault == 0 || fault == 4) { // the disk fills up: every point, or every step-th one
    long step = hsx_param("step", 1), from = hsx_param("from", 0);
    long k = std::min(total, from + step * (long)hsx_choice((unsigned)((total - from + step - 1) / step + 1), "budget"));
    if (out[0] == '<') hsx_set_stdout_budget(k);
    else hsx_set_write_budget(k), hsx_set_write_once(fault == 4);
  } else if (fault == 1) hsx_set_read_fault((long)hsx_choice((unsigned)hsx_param("reads", 6), "read"));
  else if (fault == 2) hsx_set_short_read((long)hsx_choice((unsigned)hsx_param("reads", 6), "read"));
  else if (fault == 3) hsx_set_stdin_fault(1);
  rc = tool(args);
  hsx_set_stdout_budget(-1);
  hsx_set_write_budget(-1);
  hsx_set_read_fault(-1);
  hsx_set_short_read(-1);
  hsx_set_stdin_fault(0);
  HsxFile got = hsx_read_file(out.c_str()), err = hsx_read_file("<stderr>");
  uint8_t code = (uint8_t)rc;
  hsx_observe("exit", &code, 1);
  if (rc == 0) {
    hsx_assert(got.exists && got.data.size() == want.data.size(), "a zero exit code means complete output");
    hsx_assert(eqBytes(got.data.data(), want.data.data(), (unsigned)want.data.size()), "a zero exit code means correct output");
    hsx_cover("survived");
  } else {
    hsx_assert(rc < 128, "not killed by an unhandled exception");
    bool same = err.data.size() <= log.data.size();
    for (size_t i = 0; same && i < err.data.size(); i++) same = err.data[i] == log.data[i];
    hsx_assert(!same, "an error message is printed");
    hsx_cover("failed");
  }
}
HSX_MAIN {
  long t = hsx_param("type", 0);
  if (t == 0) go<20>();
  else if (t == 1) go<16>();
#if TOOL == 0 || TOOL == 2
  else go<8>();
#endif
  return 0;
}
