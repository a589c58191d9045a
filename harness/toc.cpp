// Table of contents: same answers as without it; interrupted, stale or damaged tables never give wrong answers.
#include "common.hpp"
#include "toc.hpp"

template <unsigned HS> using P = hibp::pawned_pw<HS>;
// One process: build (or load) the table "times" times, then look up every needle of needles.bin; answers go to result.bin.
template <unsigned HS> static int proc(unsigned bits, int times) {
  try {
    for (int i = 0; i < times; i++) {
      hibp::toc_build<P<HS>>("in.bin", bits);
      if (i + 1 < times) hsx_file_touch("in.bin", (1L << 60) + i); // the database looks newer: the table is built again
    }
    HsxFile                     q = hsx_read_file("needles.bin");
    flat_file::database<P<HS>>  db("in.bin", (unsigned long)hsx_param("buf", 2));
    std::vector<uint8_t>        res;
    for (size_t i = 0; i < q.data.size(); i += HS) {
      P<HS> n;
      memcpy(&n.hash, q.data.data() + i, HS);
      auto    r = hibp::toc_search<P<HS>>(db, n, bits);
      Rec<HS> x;
      memset(&x, 0, sizeof x);
      if (r) memcpy(&x, &*r, sizeof x);
      res.push_back(r ? 1 : 0);
      res.insert(res.end(), x.b, x.b + HS + 4);
    }
    hsx_file_put("result.bin", res.data(), res.size());
  } catch (const std::exception& e) { return 1; }
  return 0;
}
static int procMain(int argc, char** argv) {
  unsigned bits = (unsigned)strtoul(argv[2], nullptr, 10);
  int      times = argv[3][0] - '0';
  return argv[1][0] == '0' ? proc<20>(bits, times) : argv[1][0] == '1' ? proc<16>(bits, times) : proc<8>(bits, times);
}
static void setWord(uint8_t* b, uint32_t w) { for (int j = 0; j < 4; j++) b[j] = (uint8_t)(w >> (24 - 8 * j)); }
template <unsigned HS> static void go(const char* type) {
  long     n = hsx_param("n", 3), bits = hsx_param("bits", 20), nn = hsx_param("needles", 1), mode = hsx_param("mode", 0), maxp = hsx_param("maxp", 2);
  uint32_t sh = 32 - (uint32_t)bits;
  // the last record's chapter is chosen (so the size of the table is definite), everything else is symbolic
  uint32_t             top = (uint32_t)hsx_choice((unsigned)maxp + 1, "last chapter") + (uint32_t)hsx_param("basep", 0);
  std::vector<Rec<HS>> r((size_t)n);
  auto                 mk = [&](uint8_t* b, const char* a, const char* c, uint32_t lim, long fix) {
    uint8_t p = 0, low = 0;
    for (unsigned j = 0; j < HS; j++) b[j] = filler(j);
    if (fix < 0) {
      hsx_make_symbolic(&p, 1, a);
      hsx_assume(p <= lim);
    }
    if (hsx_param("lowsym", 1)) hsx_make_symbolic(&low, 1, c);
    uint32_t w = (fix >= 0 ? (uint32_t)fix : (uint32_t)p) << sh;
    if (sh >= 8) w |= (uint32_t)low << (sh - 8);
    else { w |= (uint32_t)low >> (8 - sh); b[4] = low; }
    setWord(b, w);
    if (hsx_param("tail", 0)) { b[HS - 1] = low; if (sh >= 8) setWord(b, w & ~(0xFFu << (sh - 8))); }
  };
  for (long i = 0; i < n; i++) {
    long fix = i == n - 1 ? (long)top : hsx_param("dense", 0) ? (i < (long)top ? i : (long)top) : -1;
    mk(r[(size_t)i].b, "chapter", "low", top, fix);
    r[(size_t)i].setCnt((int)(i * 7654321 + 5));
    if (i) hsx_assume((int)ltBytesN(r[(size_t)i - 1].b, r[(size_t)i].b, HS));
  }
  std::vector<uint8_t> q((size_t)(nn * HS));
  for (long i = 0; i < nn; i++) mk(q.data() + i * HS, "needle chapter", "needle low", top + 1, -1);
  hsx_file_put("in.bin", r.data(), r.size() * sizeof(r[0]));
  hsx_file_put("needles.bin", q.data(), q.size());
  hsx_file_touch("in.bin", 1000);
  std::string toc = "in.bin." + num(bits) + ".toc";

  unsigned gap = 0;
  for (uint32_t c = 0; c < top; c++) {
    unsigned has = 0;
    for (auto& x: r) has |= (unsigned)((((uint32_t)x.b[0] << 24 | (uint32_t)x.b[1] << 16 | (uint32_t)x.b[2] << 8 | x.b[3]) >> sh) == c);
    gap |= !has;
  }
  auto verify = [&](int rc, bool mayFail) {
    if (rc != 0) {
      if (!mayFail) hsx_assert(gap, "a table of contents can be built when every chapter has records");
      hsx_cover("refused");
      return;
    }
    HsxFile f = hsx_read_file("result.bin");
    hsx_assert(f.data.size() == (size_t)nn * (HS + 5), "answered every query");
    for (long i = 0; i < nn; i++) {
      const uint8_t* a = f.data.data() + i * (HS + 5);
      unsigned       want = 0;
      uint32_t       cnt  = 0;
      for (auto& x: r) {
        unsigned e = eqBytes(x.b, q.data() + i * HS, HS);
        want |= e;
        cnt |= (0u - e) & (uint32_t)x.cnt();
      }
      hsx_assert(a[0] == want, "found exactly when the database holds it");
      if (a[0]) {
        hsx_assert(eqBytes(a + 1, q.data() + i * HS, HS), "the right record");
        uint32_t c;
        memcpy(&c, a + 1 + HS, 4);
        hsx_assert(c == cnt, "the right count");
        hsx_cover("found");
      } else hsx_cover("absent");
    }
    hsx_observe("answers", f.data.data(), f.data.size());
  };
  auto run = [&](int times) {
    hsx_file_remove("result.bin");
    return hsx_app(procMain, "toc", type, num(bits), num(times));
  };
  if (mode == 0) { // fresh, built again in the same process, loaded back in the next one, rebuilt when stale
    verify(run((int)hsx_param("times", 1)), false);
    if (hsx_param("again", 1)) {
      if (hsx_file_size(toc.c_str()) >= 0) hsx_file_touch(toc.c_str(), 1L << 61);
      verify(run(1), false);
    }
  } else if (mode == 1) { // killed while building
    long k = (long)hsx_choice((unsigned)hsx_param("ticks", 16), "crash");
    hsx_set_crash_at(k);
    int rc = run(1);
    hsx_set_crash_at(-1);
    if (rc != 137) verify(rc, false);
    else hsx_cover("crashed");
    if (hsx_file_size(toc.c_str()) >= 0) hsx_file_touch(toc.c_str(), 1L << 61);
    verify(run(1), true);
  } else if (mode == 2) { // disk full while building
    hsx_set_write_budget((long)hsx_choice((unsigned)hsx_param("ticks", 16), "budget"));
    int rc = run(1);
    hsx_set_write_budget(-1);
    verify(rc, true);
    if (hsx_file_size(toc.c_str()) >= 0) hsx_file_touch(toc.c_str(), 1L << 61);
    verify(run(1), true);
  } else if (mode == 3) { // a table of an earlier, different database: older or equally old ones must not be used
    std::vector<uint8_t> junk((size_t)((top + 1) * 4));
    hsx_make_symbolic(junk.data(), junk.size(), "junk");
    hsx_file_put(toc.c_str(), junk.data(), junk.size());
    hsx_file_touch(toc.c_str(), hsx_choice(2, "age") ? 1000 : 999);
    verify(run(1), false);
  } else if (mode == 4) { // a good table, cut or extended
    int rc = run(1);
    verify(rc, false);
    if (rc) return;
    HsxFile f = hsx_read_file(toc.c_str());
    size_t  l = hsx_choice((unsigned)f.data.size() + 6, "length");
    if (l == f.data.size()) return;
    f.data.resize(l, 0);
    hsx_file_put(toc.c_str(), f.data.data(), f.data.size());
    hsx_file_touch(toc.c_str(), 1L << 61);
    hsx_cover("cut");
    verify(run(1), true);
  } else if (mode == 5) { // a read fails or returns too little while the table is built, loaded or used
    if (hsx_choice(2, "built before")) {
      verify(run(1), false);
      if (hsx_file_size(toc.c_str()) >= 0) hsx_file_touch(toc.c_str(), 1L << 61);
    }
    long k = (long)hsx_choice((unsigned)hsx_param("ticks", 12), "read");
    unsigned shortRead = hsx_choice(2, "kind");
    if (shortRead) hsx_set_short_read(k);
    else hsx_set_read_fault(k);
    int rc = run(1);
    hsx_set_read_fault(-1);
    hsx_set_short_read(-1);
    if (rc) hsx_cover("failed");
    verify(rc, true);
    verify(run(1), true);
  }
}
HSX_MAIN {
  long t = hsx_param("type", 0);
  if (t == 0) go<20>("0");
  else if (t == 1) go<16>("1");
  else go<8>("2");
  return 0;
}
