// Stand-in for the sha1 library of the ext/ submodule (absent here): same interface; the "digest" is an injective
// hex rendering of the text (its bytes, then filler), so different short texts get different hashes.
#pragma once
#include <string>
struct SHA1 {
  std::string operator()(const std::string& s) {
    static const char* hex = "0123456789abcdef";
    std::string        r;
    for (std::size_t i = 0; i < 20; i++) {
      unsigned char c = i < s.size() ? (unsigned char)s[i] : (unsigned char)(0x80 + s.size() + i);
      r += hex[c >> 4];
      r += hex[c & 15];
    }
    return r;
  }
};
