// hibp-search: finds a hash exactly when the database holds it; with or without a table of contents.
#include "common.hpp"
#define main hibp_main
#include "app/hibp_search.cpp"
#undef main

static const char HEX[] = "0123456789ABCDEF";
static int        run(std::vector<std::string> a) {
  std::vector<char*> v;
  for (auto& s: a) v.push_back(s.data());
  v.push_back(nullptr);
  return hsx_run(hibp_main, (int)a.size(), v.data());
}
static int hexOut(const HsxFile& f, const char* tag, Rec<20>* out, unsigned hs) { // parses "<tag>HEX:count\n" in the output; 0: absent
  std::string s((const char*)f.data.data(), f.data.size());
  size_t      p = s.find(tag);
  if (p == std::string::npos) return 0;
  p += strlen(tag);
  for (unsigned i = 0; i < hs; i++) {
    unsigned v = 0;
    for (int k = 0; k < 2; k++) {
      unsigned char c = (unsigned char)s[p + 2 * i + (size_t)k];
      v               = v * 16 + (unsigned)((c & 15) + 9 * (c >> 6));
    }
    out->b[i] = (uint8_t)v;
  }
  p += 2 * hs;
  hsx_assert(s[p] == ':', "a record is printed as hash:count");
  p++;
  bool neg = s[p] == '-';
  if (neg) p++;
  long c = 0;
  while (s[p] != '\n') c = c * 10 + (s[p++] - '0');
  out->setCnt((int32_t)(neg ? -c : c));
  return 1;
}
template <unsigned HS> static void go(const char* flag) {
  long                 n = hsx_param("n", 3), pos = hsx_param("pos", 0), pos2 = hsx_param("pos2", -1), pad = hsx_param("pad", 0), toc = hsx_param("toc", 0), mode = hsx_param("mode", 0), runs = hsx_param("runs", 1);
  long                 tot = n + pad;
  std::vector<Rec<HS>> r((size_t)tot);
  for (long i = 0; i < tot; i++) {
    for (unsigned j = 0; j < HS; j++) r[(size_t)i].b[j] = hsx_param("zero", 0) ? 0 : filler(j);
    if (mode == 1) { // what the stand-in digest gives for a one-letter password
      long len = hsx_param("lead", 0) + hsx_param("len", 1);
      for (unsigned j = 0; j < HS; j++) r[(size_t)i].b[j] = (long)j < len ? 'x' : (uint8_t)(0x80 + len + j);
    } else if (mode == 2) {
      static const uint8_t want[16] = {0xA9, 0xFD, 0xFA, 0x03, 0x8C, 0x4B, 0x75, 0xEB, 0xC7, 0x6D, 0xC8, 0x55, 0xDD, 0x74, 0xF0, 0xDA};
      memcpy(r[(size_t)i].b, want, 16);
    } else r[(size_t)i].b[0] = 0;
    if (toc) r[(size_t)i].b[1] = 0, r[(size_t)i].b[2] &= 0x0f; // one chapter
    if (i < pad) { // ascending, below everything else
      r[(size_t)i].b[2] = 0;
      r[(size_t)i].b[3] = (uint8_t)(i >> 8);
      r[(size_t)i].b[4] = (uint8_t)i;
      r[(size_t)i].setCnt((int)i);
    } else {
      if (pad) r[(size_t)i].b[2] = 1;
      hsx_make_symbolic(r[(size_t)i].b + pos, 1, "hash");
      if (pos2 >= 0) hsx_make_symbolic(r[(size_t)i].b + pos2, 1, "hash2");
      if (toc) hsx_assume(r[(size_t)i].b[1] == 0 && r[(size_t)i].b[0] == 0);
      r[(size_t)i].setCnt(hsx_param("cnt", 0) ? 0 : (int)(i * 1234567 + 1));
      if (hsx_param("cnt", 0)) hsx_make_symbolic(r[(size_t)i].b + HS, 1, "count");
      if (i) hsx_assume((int)ltBytesN(r[(size_t)i - 1].b, r[(size_t)i].b, HS));
    }
  }
  hsx_file_put("in.bin", r.data(), r.size() * sizeof(r[0]));
  hsx_file_touch("in.bin", 1000);
  Rec<HS> needle;
  for (unsigned j = 0; j < HS; j++) needle.b[j] = hsx_param("zero", 0) ? 0 : filler(j);
  needle.b[0] = 0;
  if (toc) needle.b[1] = 0, needle.b[2] &= 0x0f;
  if (pad) needle.b[2] = 1;
  std::string pw;
  if (mode == 0) { // a hash in text form, two to four of its digits symbolic
    if (hsx_param("inpad", -1) >= 0) memcpy(needle.b, r[(size_t)hsx_param("inpad", 0)].b, HS);
    else {
      hsx_make_symbolic(needle.b + pos, 1, "needle");
      if (pos2 >= 0 && hsx_param("n2", 0)) hsx_make_symbolic(needle.b + pos2, 1, "needle2");
    }
    if (hsx_param("high", 0)) needle.b[hsx_param("high", 0) - 1] = 0x10;
    for (unsigned j = 0; j < HS; j++) for (int k = 0; k < 2; k++) {
      unsigned d = k ? needle.b[j] & 15u : needle.b[j] >> 4;
      pw += (char)(d + '0' + (unsigned)(d > 9) * 7);
    }
  } else if (mode == 1) { // a password; the stand-in digest of this build is used as an uninterpreted function would be
    char c[4];
    long m = hsx_param("len", 1);
    hsx_make_symbolic(c, (unsigned long)m, "pw");
    for (long i = 0; i < m; i++) hsx_assume((int)((unsigned)(c[i] > '-') & (unsigned)(c[i] < 127)));
    pw = std::string((size_t)hsx_param("lead", 0), 'x') + std::string(c, (size_t)m);
    std::string h = SHA1{}(pw);
    for (unsigned j = 0; j < HS; j++) {
      auto v      = [](char x) { return (unsigned)((x & 15) + 9 * ((unsigned char)x >> 6)); };
      needle.b[j] = (uint8_t)(v(h[2 * j]) * 16 + v(h[2 * j + 1]));
    }
  } else { // a password whose ntlm hash is known
    pw = "password123";
    static const uint8_t want[16] = {0xA9, 0xFD, 0xFA, 0x03, 0x8C, 0x4B, 0x75, 0xEB, 0xC7, 0x6D, 0xC8, 0x55, 0xDD, 0x74, 0xF0, 0xDA};
    memcpy(needle.b, want, 16);
  }
  std::vector<std::string> a{"hibp-search", "in.bin", pw};
  if (mode == 0) a.push_back("--hash");
  if (flag[0]) a.push_back(flag);
  if (toc) {
    a.push_back("--toc");
    a.insert(a.end(), {"--toc-bits", num(toc)});
  }
  for (long k = 0; k < runs; k++) {
    hsx_file_remove("<stdout>");
    int     rc = run(a);
    HsxFile f  = hsx_read_file("<stdout>");
    if (rc != 0 && hsx_param("mayrefuse", 0)) {
      hsx_cover("refused");
      continue;
    }
    hsx_assert(rc == 0, "the search succeeds");
    Rec<20>  got, echo;
    int      found = hexOut(f, "found  = ", &got, HS);
    unsigned want  = 0;
    int32_t  cnt   = 0;
    for (auto& x: r) {
      unsigned e = eqBytes(x.b, needle.b, HS);
      want |= e;
      cnt |= -(int32_t)e & x.cnt();
    }
    hsx_assert(found == (int)want, "found exactly when the database holds the hash");
    hsx_assert(hexOut(f, "needle = ", &echo, HS) && eqBytes(echo.b, needle.b, HS), "the hash searched for is the one given");
    if (found) {
      hsx_assert(eqBytes(got.b, needle.b, HS), "the record found has the hash searched for");
      hsx_assert(got.cnt() == cnt, "the record found has the count of the database");
      hsx_cover("found");
    } else {
      std::string s((const char*)f.data.data(), f.data.size());
      hsx_assert(s.find("not found\n") != std::string::npos, "says so when not found");
      hsx_cover("absent");
    }
    hsx_observe("found", &found, sizeof found);
  }
}
HSX_MAIN {
  long t = hsx_param("type", 0);
  if (t == 0) go<20>("");
  else if (t == 1) go<16>("--ntlm");
  else go<8>("--sha1t64");
  return 0;
}
