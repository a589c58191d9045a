// The text form of a record: hash in upper-case hex, ':', signed decimal count. Printing, parsing, round trip, rejection.
#include "common.hpp"
#include "hibp.hpp"
#include <sstream>

static const char HEX[] = "0123456789ABCDEF";

template <unsigned HS> static void roundtrip() {
  hibp::pawned_pw<HS> a;
  for (unsigned i = 0; i < HS; i++) a.hash[i] = (std::byte)filler(i);
  long mode = hsx_param("sub", 0);
  if (mode == 0) { // four hash bytes at a time
    long w = hsx_param("win", 0);
    hsx_make_symbolic(a.hash.data() + w, (unsigned long)(HS - w < 4 ? HS - w : 4), "hash");
    a.count = 7;
  } else { // every count with a given number of digits
    uint16_t k = 0;
    hsx_make_symbolic(&k, 2, "count");
    long     w = hsx_param("width", 1000), base = hsx_param("base", 0);
    hsx_assume((int)(k < w));
    a.count = (int32_t)(base + (hsx_param("neg", 0) ? -(long)k : (long)k));
  }
  std::string s = a.to_string();
  hsx_observe("text", s.data(), s.size());
  hsx_assert(s.size() > 2 * HS + 1, "text has hash, colon and count");
  for (unsigned i = 0; i < HS; i++) {
    unsigned v = (unsigned)a.hash[i];
    unsigned hi = v >> 4, lo = v & 15;
    unsigned eh = hi < 10 ? '0' + hi : 'A' + hi - 10, el = lo < 10 ? '0' + lo : 'A' + lo - 10;
    hsx_assert((unsigned char)s[2 * i] == eh && (unsigned char)s[2 * i + 1] == el, "hash is printed as upper-case hex, most significant nibble first");
  }
  hsx_assert(s[2 * HS] == ':', "a colon separates hash and count");
  size_t p   = 2 * HS + 1;
  bool   neg = s[p] == '-';
  p += neg;
  size_t nd = s.size() - p;
  hsx_assert(nd >= 1 && nd <= 10, "1 to 10 digits");
  hsx_assert(nd == 1 || s[p] != '0', "no leading zero");
  long v = 0, bad = 0;
  for (; p < s.size(); p++) {
    unsigned c = (unsigned char)s[p] - '0';
    bad |= c > 9;
    v = v * 10 + (long)c;
  }
  hsx_assert(!bad, "count is decimal");
  hsx_assert((neg ? -v : v) == (long)a.count, "decimal digits denote the count");
  std::ostringstream os;
  os << a;
  hsx_assert(os.str() == s, "streaming a record prints the same text");
  hibp::pawned_pw<HS> b(s);
  hsx_assert(eqBytes((uint8_t*)a.hash.data(), (uint8_t*)b.hash.data(), HS), "parsing the printed text gives the hash back");
  hsx_assert(a.count == b.count, "parsing the printed text gives the count back");
  hsx_cover("done");
}
static unsigned hexVal(unsigned char c) { // branch-free, for a valid digit
  return (unsigned)(c <= '9') * (unsigned)(c - '0') + (unsigned)(c > '9') * (unsigned)((c & 0xDF) - 'A' + 10);
}
static unsigned isHex(unsigned char c) { return ((unsigned)(c >= '0') & (unsigned)(c <= '9')) | ((unsigned)(c >= 'A') & (unsigned)(c <= 'F')) | ((unsigned)(c >= 'a') & (unsigned)(c <= 'f')); }

// text = hash part (textBytes bytes in hex, any case) [ ':' digits [junk] ]
template <unsigned HS> static void parse(unsigned textBytes) {
  std::string t(2 * textBytes, '0');
  long        window = hsx_param("win", 0); // which 8 characters are symbolic
  for (unsigned i = 0; i < t.size(); i++) t[i] = HEX[(i * 7 + 3) % 16];
  for (unsigned i = (unsigned)window; i < (unsigned)window + 8 && i < t.size(); i++) {
    hsx_make_symbolic(&t[i], 1, "chr");
    hsx_assume((int)isHex((unsigned char)t[i]));
  }
  std::string hex  = t;
  long        form = hsx_param("form", 1);
  int         want = -1;
  if (form == 1) { // symbolic digits
    long nd = hsx_param("digits", 3), pre = hsx_param("pre", 0);
    t += ':';
    char d[12];
    hsx_make_symbolic(d, (unsigned long)nd, "dig");
    long v = pre;
    if (pre) t += num(pre);
    for (long i = 0; i < nd; i++) {
      hsx_assume((int)((unsigned)(d[i] >= '0') & (unsigned)(d[i] <= '9')));
      v = v * 10 + (d[i] - '0');
    }
    hsx_assume((int)(v <= 2147483647L));
    t.append(d, (size_t)nd);
    want = (int)v;
    switch (hsx_choice(5, "tail")) { // the end of a DOS line, blanks, more columns
    case 1: t += '\r'; break;
    case 2: t += std::string(30, ' '); break;
    case 3: t += " 99"; break;
    case 4: t += ":88:0123456789012345678901234567890123456789:77"; break;
    }
  } else if (form == 2) { // no count
    if (hsx_choice(2, "colon")) t += ':';
  }
  hibp::pawned_pw<HS> a(t);
  hsx_observe("hash", a.hash.data(), HS);
  hsx_observe("count", &a.count, 4);
  for (unsigned i = 0; i < HS; i++) {
    unsigned e = hexVal((unsigned char)hex[2 * i]) * 16 + hexVal((unsigned char)hex[2 * i + 1]);
    hsx_assert((unsigned)a.hash[i] == e, "hash is the value of the hex digits");
  }
  hsx_assert(a.count == want, "count is the decimal after the colon, -1 when absent");
  hsx_cover("done");
}
// too short, or a character of the hash that is no hex digit: refused, nothing outside the text is read
template <unsigned HS> static void malformed() {
  unsigned full = 2 * HS;
  std::string t(full, '0');
  for (unsigned i = 0; i < full; i++) t[i] = HEX[(i * 5 + 1) % 16];
  bool wellFormed = false;
  if (hsx_param("sub", 0) == 0) {
    unsigned len = hsx_choice(full, "len"); // 0..full-1
    // exactly sized storage, so that an access past the text is one past an object
    t = t.substr(0, len);
    t.shrink_to_fit();
  } else {
    unsigned p = hsx_choice(full, "pos");
    unsigned char c = 0;
    hsx_make_symbolic(&c, 1, "chr");
    t[p]       = (char)c;
    wellFormed = hsx_decide((int)isHex(c));
    t += ":1";
  }
  bool threw = false;
  try {
    hibp::pawned_pw<HS> a(t);
    hsx_observe("hash", a.hash.data(), HS);
  } catch (const std::exception&) { threw = true; }
  hsx_assert(threw == !wellFormed, "malformed text is refused, well-formed text accepted");
  hsx_cover(threw ? "refused" : "accepted");
}
template <unsigned HS> static void go() {
  long m = hsx_param("mode", 0);
  if (m == 0) roundtrip<HS>();
  else if (m == 1) parse<HS>(HS);
  else if (m == 2) malformed<HS>();
  else if (m == 3 && HS == 8) parse<HS>(20);
}
HSX_MAIN {
  long t = hsx_param("type", 0);
  if (t == 0) go<20>();
  else if (t == 1) go<16>();
  else go<8>();
  return 0;
}
