// Comparison of byte arrays and of records is lexicographic on unsigned bytes, for every content, size and instruction set.
#include "common.hpp"
#include <algorithm>
#include <array>
#include <bit>
#include <cassert>
#include <charconv>
#include <compare>
#include <concepts>
#include <cstring>
#include <functional>
#include <immintrin.h>
#include <iostream>
#include <string>
#include <fmt/format.h>
#if defined(HSX_SYM) && defined(HSX_GCCPATH)
#undef __clang__
#endif
#include "arrcmp.hpp"
#include "hibp.hpp"

// first differing position by a plain loop (a case split)
static void refCmp(const uint8_t* x, const uint8_t* y, unsigned n, unsigned& lt, unsigned& eq) {
  for (unsigned i = 0; i < n; i++)
    if (hsx_decide(x[i] != y[i])) {
      lt = hsx_decide(x[i] < y[i]);
      eq = 0;
      return;
    }
  lt = 0;
  eq = 1;
}
template <std::size_t N> static void arr() {
  std::array<std::byte, N> a, b;
  hsx_make_symbolic(a.data(), N, "a");
  hsx_make_symbolic(b.data(), N, "b");
  const uint8_t *x = (const uint8_t*)a.data(), *y = (const uint8_t*)b.data();
  unsigned lt, eq;
  refCmp(x, y, N, lt, eq);
  auto     o  = arrcmp::array_compare(a, b, arrcmp::three_way{});
  hsx_assert((o < 0) == lt, "three-way: less iff lexicographically less");
  hsx_assert((o == 0) == eq, "three-way: equal iff all bytes equal");
  hsx_assert((o > 0) == (!lt && !eq), "three-way: greater otherwise");
  int i = arrcmp::array_compare(a, b, arrcmp::three_way_int{});
  hsx_assert((i < 0) == lt && (i == 0) == eq, "int comparison has the lexicographic sign");
  hsx_assert(arrcmp::array_compare(a, b, arrcmp::equal{}) == eq, "equality iff all bytes equal");
  int sgn = (o > 0) - (o < 0), isgn = (i > 0) - (i < 0);
  hsx_observe("o", &sgn, 4);
  hsx_observe("i", &isgn, 4);
  if (!lt && !eq) hsx_cover("gt");
  if (eq) hsx_cover("eq");
}
template <unsigned HS> static void rec() {
  hibp::pawned_pw<HS> a, b;
  hsx_make_symbolic(a.hash.data(), HS, "a");
  hsx_make_symbolic(b.hash.data(), HS, "b");
  hsx_make_symbolic(&a.count, 4, "ca");
  hsx_make_symbolic(&b.count, 4, "cb");
  const uint8_t *x = (const uint8_t*)a.hash.data(), *y = (const uint8_t*)b.hash.data();
  unsigned lt, eq;
  refCmp(x, y, HS, lt, eq);
  hsx_assert((a < b) == lt, "record < is lexicographic on the hash");
  hsx_assert((a > b) == (!lt && !eq), "record > is lexicographic on the hash");
  hsx_assert((a <= b) == (lt || eq), "record <= is lexicographic on the hash");
  hsx_assert((a == b) == eq, "record == compares the hash only");
  hsx_assert((a != b) == !eq, "record != compares the hash only");
  if (!lt && !eq) hsx_cover("gt");
  if (eq) hsx_cover("eq");
}
HSX_MAIN {
  switch (hsx_param("n", 20)) {
#define C(N) case N: arr<N>(); break;
    C(1) C(2) C(3) C(4) C(5) C(6) C(7) C(8) C(9) C(10) C(11) C(12) C(13) C(14) C(15) C(16) C(17) C(19) C(20) C(23) C(24) C(28) C(31) C(32) C(33) C(40) C(47) C(48) C(63) C(64) C(65) C(80)
  case 1020: rec<20>(); break;
  case 1016: rec<16>(); break;
  case 1008: rec<8>(); break;
  }
  return 0;
}
