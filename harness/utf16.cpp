// What the NTLM hash is computed over: a stand-in for MD4 records the bytes it is fed.
#include "common.hpp"
#include "md4.h"
#include "ntlm.hpp"

static uint8_t  fed[128];
static unsigned nfed, finals;
extern "C" {
void MD4_Init(MD4_CTX*) { nfed = 0; }
void MD4_Update(MD4_CTX*, const void* p, size_t n) { for (size_t i = 0; i < n && nfed < sizeof fed; i++) fed[nfed++] = ((const uint8_t*)p)[i]; }
void MD4_Final(unsigned char* out, MD4_CTX*) { memset(out, 0x5a, 16); finals++; }
}
HSX_MAIN {
  unsigned             n = (unsigned)hsx_param("n", 2);
  std::string          pw;
  std::vector<uint8_t> want;
  auto                 put = [&](uint32_t u) { want.push_back((uint8_t)u); want.push_back((uint8_t)(u >> 8)); };
  for (unsigned i = 0; i < n; i++) {
    unsigned k = 1 + hsx_choice(4, ("length of character " + num(i)).c_str());
    uint8_t  s[4] = {0, 0, 0, 0};
    hsx_make_symbolic(s, k, ("character " + num(i)).c_str());
    uint32_t c;
    unsigned ok = 1;
    for (unsigned j = 1; j < k; j++) ok &= (unsigned)((s[j] & 0xC0) == 0x80);
    if (k == 1) { ok &= (unsigned)(s[0] < 0x80); c = s[0]; }
    else if (k == 2) { ok &= (unsigned)((s[0] & 0xE0) == 0xC0); c = (s[0] & 0x1Fu) << 6 | (s[1] & 0x3Fu); ok &= (unsigned)(c >= 0x80); }
    else if (k == 3) { ok &= (unsigned)((s[0] & 0xF0) == 0xE0); c = (s[0] & 0xFu) << 12 | (s[1] & 0x3Fu) << 6 | (s[2] & 0x3Fu); ok &= (unsigned)(c >= 0x800) & ((unsigned)(c < 0xD800) | (unsigned)(c > 0xDFFF)); }
    else { ok &= (unsigned)((s[0] & 0xF8) == 0xF0); c = (s[0] & 7u) << 18 | (s[1] & 0x3Fu) << 12 | (s[2] & 0x3Fu) << 6 | (s[3] & 0x3Fu); ok &= (unsigned)(c >= 0x10000) & (unsigned)(c < 0x110000); }
    hsx_assume((int)ok);
    for (unsigned j = 0; j < k; j++) pw += (char)s[j];
    if (k < 4) put(c);
    else { put(0xD7C0 + (c >> 10)); put(0xDC00 + (c & 0x3FF)); }
  }
  auto h = hibp::ntlm(pw);
  hsx_assert(finals == 1 && nfed == want.size(), "the digest is fed two bytes for every UTF-16 unit");
  hsx_assert((unsigned)eqBytes(fed, want.data(), nfed), "the digest is fed the UTF-16LE form of the password");
  hsx_assert((uint8_t)h[0] == 0x5a && (uint8_t)h[15] == 0x5a, "the digest is what is returned");
  hsx_observe("fed", fed, nfed);
  hsx_cover("done");
  return 0;
}
