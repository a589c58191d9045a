// The NTLM hash: MD4 (RFC 1320, written out again below) over the UTF-16LE form of the password.
#include "common.hpp"
#include "ntlm.hpp"
#include "md4.h"

// RFC 1320, from the text: padding to 64-byte blocks, three rounds with explicit tables
static void refMd4(const std::vector<uint8_t>& in, uint8_t* out) {
  std::vector<uint8_t> m(in);
  uint64_t             bits = (uint64_t)in.size() * 8;
  m.push_back(0x80);
  while (m.size() % 64 != 56) m.push_back(0);
  for (int i = 0; i < 8; i++) m.push_back((uint8_t)(bits >> (8 * i)));
  uint32_t h[4] = {0x67452301u, 0xefcdab89u, 0x98badcfeu, 0x10325476u};
  static const uint8_t K[3][16] = {{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}, {0, 4, 8, 12, 1, 5, 9, 13, 2, 6, 10, 14, 3, 7, 11, 15}, {0, 8, 4, 12, 2, 10, 6, 14, 1, 9, 5, 13, 3, 11, 7, 15}};
  static const uint8_t R[3][4]  = {{3, 7, 11, 19}, {3, 5, 9, 13}, {3, 9, 11, 15}};
  for (size_t o = 0; o < m.size(); o += 64) {
    uint32_t X[16], v[4] = {h[0], h[1], h[2], h[3]};
    for (int i = 0; i < 16; i++) X[i] = (uint32_t)m[o + 4 * (size_t)i] | (uint32_t)m[o + 4 * (size_t)i + 1] << 8 | (uint32_t)m[o + 4 * (size_t)i + 2] << 16 | (uint32_t)m[o + 4 * (size_t)i + 3] << 24;
    for (int r = 0; r < 3; r++)
      for (int i = 0; i < 16; i++) {
        int      a = (16 - i) % 4;
        uint32_t x = v[(a + 1) % 4], y = v[(a + 2) % 4], z = v[(a + 3) % 4], f;
        if (r == 0) f = z ^ (x & (y ^ z));
        else if (r == 1) f = (x & (y | z)) | (y & z);
        else f = x ^ y ^ z;
        uint32_t t = v[a] + (f + (X[K[r][i]] + (r == 0 ? 0u : r == 1 ? 0x5a827999u : 0x6ed9eba1u)));
        int      s = R[r][i % 4];
        v[a]       = (t << s) | (t >> (32 - s));
      }
    for (int i = 0; i < 4; i++) h[i] += v[i];
  }
  for (int i = 0; i < 16; i++) out[i] = (uint8_t)(h[i / 4] >> (8 * (i % 4)));
}
HSX_MAIN {
  long        mode = hsx_param("mode", 0), lo = hsx_param("lo", 0), hi = hsx_param("hi", 4), pos = hsx_param("pos", 0), bits = hsx_param("bits", 8);
  size_t      len = (size_t)(lo + (long)hsx_choice((unsigned)(hi - lo + 1), "length"));
  uint8_t     want[16], got[16];
  if (mode == 0) { // a password of len characters, one of them symbolic
    std::string          pw;
    std::vector<uint8_t> u;
    long                 kind = hsx_param("kind", 1);
    for (size_t i = 0; i < len; i++) {
      bool     here = (long)i == (pos < 0 ? (long)len + pos : pos);
      uint32_t c    = (uint32_t)('!' + i * 7 % 90);
      if (here) {
        uint8_t b = 0, b2 = 0;
        hsx_make_symbolic(&b, 1, "chr");
        if (bits > 8) hsx_make_symbolic(&b2, 1, "chr2");
        uint32_t v = b | (uint32_t)b2 << 8;
        if (bits > 8) hsx_assume((int)(v < (1u << bits)));
        if (kind == 1) { hsx_assume((int)((unsigned)(b > 0) & (unsigned)(b < 0x80))); c = b; }
        else if (kind == 2) { c = (uint32_t)hsx_param("base", 0x80) + v; hsx_assume((int)((unsigned)(c >= 0x80) & (unsigned)(c < 0x800))); }
        else if (kind == 3) { c = (uint32_t)hsx_param("base", 0x800) + v; hsx_assume((int)((unsigned)(c >= 0x800) & (unsigned)(c < 0x10000) & ((unsigned)(c < 0xD800) | (unsigned)(c > 0xDFFF)))); }
        else { c = (uint32_t)hsx_param("base", 0x10000) + v; hsx_assume((int)((unsigned)(c >= 0x10000) & (unsigned)(c < 0x110000))); }
      }
      int k = here ? (int)kind : 1;
      if (k == 1) pw += (char)c;
      else if (k == 2) { pw += (char)(0xC0 | c >> 6); pw += (char)(0x80 | (c & 63)); }
      else if (k == 3) { pw += (char)(0xE0 | c >> 12); pw += (char)(0x80 | (c >> 6 & 63)); pw += (char)(0x80 | (c & 63)); }
      else { pw += (char)(0xF0 | c >> 18); pw += (char)(0x80 | (c >> 12 & 63)); pw += (char)(0x80 | (c >> 6 & 63)); pw += (char)(0x80 | (c & 63)); }
      auto put = [&](uint32_t x) { u.push_back((uint8_t)x); u.push_back((uint8_t)(x >> 8)); };
      if (k < 4) put(c);
      else { put(0xD7C0 + (c >> 10)); put(0xDC00 + (c & 0x3FF)); }
    }
    refMd4(u, want);
    auto h = hibp::ntlm(pw);
    memcpy(got, h.data(), 16);
  } else { // MD4 itself over len bytes, fed in up to three pieces
    std::vector<uint8_t> d(len);
    for (size_t i = 0; i < len; i++) d[i] = (uint8_t)(i * 31 + 7);
    if (hsx_param("all", 0)) { if (len) hsx_make_symbolic(d.data(), len, "data"); }
    else if (len) hsx_make_symbolic(&d[(size_t)pos % len], 1, "data");
    refMd4(d, want);
    long cuts = hsx_param("cuts", 1), step = hsx_param("step", 1);
    MD4_CTX ctx;
    MD4_Init(&ctx);
    size_t at = 0;
    for (long i = 0; i < cuts; i++) {
      size_t k = hsx_choice((unsigned)((long)(len - at) / step + 1), "cut") * (size_t)step;
      MD4_Update(&ctx, d.data() + at, k);
      at += k;
    }
    MD4_Update(&ctx, d.data() + at, len - at);
    MD4_Final(got, &ctx);
  }
  hsx_assert(eqBytes(got, want, 16), "the hash is MD4 of the UTF-16LE password");
  hsx_observe("hash", got, 16);
  hsx_cover("done");
  return 0;
}
