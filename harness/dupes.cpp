// hibp-dupes: exactly the records that share their first N bits with their predecessor, in order.
#include "common.hpp"
#define main hibp_main
#include "app/hibp_dupes.cpp"
#undef main

static char nib(unsigned v) { return (char)(v + (v < 10 ? '0' : 'A' - 10)); }
template <unsigned HS> static void go(const char* flag) {
  long     n = hsx_param("n", 3), bits = hsx_param("bits", 64), pad = hsx_param("pad", 0);
  unsigned pos = (unsigned)hsx_param("pos", 7);
  std::vector<Rec<HS>> r((size_t)(pad + n));
  for (long i = 0; i < pad + n; i++) {
    for (unsigned j = 0; j < HS; j++) r[(size_t)i].b[j] = hsx_param("ones", 0) ? (j < 8 ? 0xFF : (uint8_t)i) : filler(j);
    r[(size_t)i].setCnt(3);
    if (i < pad) r[(size_t)i].b[0] = 0, r[(size_t)i].b[1] = (uint8_t)(i >> 8), r[(size_t)i].b[2] = (uint8_t)i;
    else {
      hsx_make_symbolic(r[(size_t)i].b + pos, 1, "hash");
      if (hsx_param("pos2", -1) >= 0) hsx_make_symbolic(r[(size_t)i].b + hsx_param("pos2", 0), 1, "hash2");
      if (hsx_param("sorted", 0) && i > pad) hsx_assume((int)ltBytes<HS>(r[(size_t)i - 1].b, r[(size_t)i].b));
    }
  }
  hsx_file_put("in.bin", r.data(), r.size() * sizeof(Rec<HS>));
  int rc = flag[0] ? hsx_app(hibp_main, "hibp-dupes", "in.bin", "--bits", num(bits), flag) : hsx_app(hibp_main, "hibp-dupes", "in.bin", "--bits", num(bits));
  hsx_assert(rc == 0, "exit code 0");
  observeFile("out", "<stdout>");
  HsxFile     f   = hsx_read_file("<stdout>");
  std::string exp = "Looking for duplicates in the first " + num(bits) + " bits of the hash...\n";
  bool        dup = false;
  for (size_t i = 1; i < r.size(); i++) {
    bool same = true;
    for (unsigned b = 0; b < 8 && same; b++) {
      unsigned keep = (unsigned)bits >= 8 * (b + 1) ? 8 : (unsigned)bits > 8 * b ? (unsigned)bits - 8 * b : 0;
      uint8_t  mask = (uint8_t)(0xFF00u >> keep);
      if (!hsx_decide((r[i].b[b] & mask) == (r[i - 1].b[b] & mask))) same = false;
    }
    if (!same) continue;
    dup        = true;
    uint64_t p = 0;
    for (unsigned b = 0; b < 8; b++) p = p << 8 | r[i].b[b];
    p >>= 64 - (unsigned)bits;
    for (int q = 60; q >= 0; q -= 4) exp += nib((unsigned)(p >> q) & 15);
    exp += " is a dupe (orig record: ";
    for (unsigned b = 0; b < HS; b++) exp += nib(r[i].b[b] >> 4), exp += nib(r[i].b[b] & 15);
    exp += ":3)\n";
  }
  hsx_assert(f.data.size() == exp.size(), "one line per record that repeats the leading bits of its predecessor");
  for (size_t i = 0; i < exp.size(); i++) hsx_assert(f.data[i] == (uint8_t)exp[i], "the line names the prefix and the record");
  hsx_cover(dup ? "dupes" : "none");
}
HSX_MAIN {
  if (hsx_param("type", 0) == 0) go<20>("");
  else go<16>("--ntlm");
  return 0;
}
