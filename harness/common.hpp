// Helpers shared by the harnesses: record images built byte by byte (independent of the code under test).
#pragma once
#include "hsx.h"
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>

template <unsigned HS>
struct Rec { // the on-disk layout: HS hash bytes, then a little-endian 32-bit count
  static constexpr unsigned size = HS + 4;
  uint8_t                   b[HS + 4];
  int32_t                   cnt() const { int32_t c; memcpy(&c, b + HS, 4); return c; }
  void                      setCnt(int32_t c) { memcpy(b + HS, &c, 4); }
};
// branch-free a<b on big-endian byte strings: returns 0/1
template <unsigned N>
static inline unsigned ltBytes(const uint8_t* a, const uint8_t* b) {
  unsigned lt = 0, eq = 1;
  for (unsigned i = 0; i < N; i++) {
    lt |= eq & (unsigned)(a[i] < b[i]);
    eq &= (unsigned)(a[i] == b[i]);
  }
  return lt;
}
static inline unsigned eqBytes(const uint8_t* a, const uint8_t* b, unsigned n) {
  unsigned d = 0;
  for (unsigned i = 0; i < n; i++) d |= (unsigned)(a[i] ^ b[i]);
  return d == 0;
}
static inline unsigned ltBytesN(const uint8_t* a, const uint8_t* b, unsigned n) {
  unsigned lt = 0, eq = 1;
  for (unsigned i = 0; i < n; i++) {
    lt |= eq & (unsigned)(a[i] < b[i]);
    eq &= (unsigned)(a[i] == b[i]);
  }
  return lt;
}
// a fixed pseudo-random filler so that constant bytes differ between positions
static inline uint8_t filler(unsigned i) {
  static const long f = hsx_param("fill", -1);
  return (uint8_t)(f >= 0 ? (unsigned long)f : 0x35 + 37 * i);
}
static inline std::string num(long v) { return std::to_string(v); }
static inline void observeFile(const char* tag, const char* name) {
  HsxFile f = hsx_read_file(name);
  if (!f.exists && name[0] != '<') hsx_observe(tag, "absent", 6);
  else hsx_observe(tag, f.data.data(), f.data.size());
}
