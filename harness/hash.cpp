// Hash validation: accepted exactly when complete and made of 0-9A-F; through the library and through hibp-search --hash.
#include "common.hpp"
#define main hibp_main
#include "app/hibp_search.cpp"
#undef main

template <unsigned HS> static void go(const char* flag) {
  long        lo = hsx_param("lo", 0), hi = hsx_param("hi", 2 * HS + 2), win = hsx_param("win", 0), w = hsx_param("w", 2);
  size_t      len = (size_t)(lo + (long)hsx_choice((unsigned)(hi - lo + 1), "length"));
  std::string t(len, '7');
  for (size_t i = 0; i < len; i++) t[i] = "0123456789ABCDEF"[i * 5 % 16];
  unsigned ok = len == 2 * HS;
  for (long i = win; i < win + w && i < (long)len; i++) {
    hsx_make_symbolic(&t[(size_t)i], 1, "chr");
    unsigned char c = (unsigned char)t[(size_t)i];
    ok &= ((unsigned)(c >= '0') & (unsigned)(c <= '9')) | ((unsigned)(c >= 'A') & (unsigned)(c <= 'F'));
    if (hsx_param("app", 0)) {
      hsx_assume(c != 0);                       // cannot be passed on a command line
      if (i == 0) hsx_assume(c != '-');         // would be an option
    }
  }
  if (!hsx_param("app", 0)) {
    bool v = hibp::is_valid_hash<hibp::pawned_pw<HS>>(t);
    hsx_assert(v == (bool)ok, "a hash is valid exactly when it is complete and made of 0-9A-F");
    hsx_cover(v ? "valid" : "invalid");
    unsigned char b = v;
    hsx_observe("valid", &b, 1);
    return;
  }
  Rec<HS> r[2];
  for (int i = 0; i < 2; i++) {
    for (unsigned j = 0; j < HS; j++) r[i].b[j] = (uint8_t)(i * 255);
    r[i].setCnt(i + 1);
  }
  hsx_file_put("in.bin", r, sizeof r);
  int     rc = flag[0] ? hsx_app(hibp_main, "hibp-search", "in.bin", t, "--hash", flag) : hsx_app(hibp_main, "hibp-search", "in.bin", t, "--hash");
  HsxFile f  = hsx_read_file("<stdout>");
  hsx_assert((rc == 0) == (bool)ok, "hibp-search --hash accepts exactly complete upper-case hex hashes");
  std::string s((const char*)f.data.data(), f.data.size());
  if (rc) hsx_assert(s.find("found") == std::string::npos, "nothing is searched for when the hash is refused");
  hsx_cover(rc ? "invalid" : "valid");
  hsx_observe("rc", &rc, sizeof rc);
}
HSX_MAIN {
  long t = hsx_param("type", 0);
  if (t == 0) go<20>("");
  else if (t == 1) go<16>("--ntlm");
  else go<8>("--sha1t64");
  return 0;
}
