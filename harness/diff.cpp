// hibp-diff: applying the reported hunks to OLD gives exactly NEW; it fails exactly when a record of OLD is gone from NEW.
#include "common.hpp"
#define main hibp_main
#include "app/hibp_diff.cpp"
#undef main

static unsigned char nib(unsigned v) { return (unsigned char)(v + (v < 10 ? '0' : 'A' - 10)); }
template <unsigned HS> static void go(const char* flag) {
  enum { MAX = 8 };
  long     n[2]  = {hsx_param("old", 2), hsx_param("new", 3)};
  long     pad   = hsx_param("pad", 0); // records both have in front, unchanged
  unsigned pos   = (unsigned)hsx_param("pos", HS - 1);
  long     wide  = hsx_param("wide", 0), base = hsx_param("base", 0) * (hsx_param("neg", 0) ? -1 : 1); // counts: any in OLD, base..base+9 in NEW
  std::vector<Rec<HS>> r[2]; // (a static would be reset by the run)
  r[0].resize((size_t)(pad + n[0])), r[1].resize((size_t)(pad + n[1]));
  const char* fn[2] = {"old.bin", "new.bin"};
  for (int d = 0; d < 2; d++) {
    for (long i = 0; i < pad; i++) {
      for (unsigned j = 0; j < HS; j++) r[d][i].b[j] = filler(j);
      r[d][i].b[0] = 0, r[d][i].b[1] = (uint8_t)(i >> 8), r[d][i].b[2] = (uint8_t)i;
      r[d][i].setCnt(5);
    }
    for (long i = pad; i < pad + n[d]; i++) {
      Rec<HS>& x = r[d][i];
      for (unsigned j = 0; j < HS; j++) x.b[j] = filler(j);
      x.setCnt(0);
      hsx_make_symbolic(x.b + pos, 1, d ? "nhash" : "ohash");
      if (i > pad) hsx_assume((int)(r[d][i - 1].b[pos] < x.b[pos]));
      if (wide && !d) {
        hsx_make_symbolic(x.b + HS, 4, "ocount");
        continue;
      }
      uint8_t c = 0;
      hsx_make_symbolic(&c, 1, d ? "ncount" : "ocount");
      hsx_assume((int)(c <= hsx_param("top", 9)));
      x.setCnt((int32_t)(base + c));
      if (base < 0) hsx_assume((int)(x.cnt() < 0));
    }
    hsx_file_put(fn[d], r[d].data(), (unsigned long)(pad + n[d]) * sizeof(Rec<HS>));
  }
  int rc = flag[0] ? hsx_app(hibp_main, "hibp-diff", fn[0], fn[1], flag) : hsx_app(hibp_main, "hibp-diff", fn[0], fn[1]);
  hsx_observe("rc", &rc, 4);
  observeFile("diff", "<stdout>");
  HsxFile f = hsx_read_file("<stdout>");
  // reference: merge by hash
  struct Hunk { char t; long at; const Rec<HS>* r; };
  std::vector<Hunk> h;
  long i = pad, j = pad;
  bool lost = false;
  while (!lost && j < pad + n[1]) {
    const Rec<HS>& y = r[1][j];
    if (i == pad + n[0] || y.b[pos] < r[0][i].b[pos]) { h.push_back({'I', i, &y}); j++; }
    else if (y.b[pos] == r[0][i].b[pos]) {
      if (!hsx_decide((int)eqBytes(y.b + HS, r[0][i].b + HS, 4))) h.push_back({'U', i, &y});
      i++, j++;
    } else lost = true;
  }
  if (i < pad + n[0]) lost = true;
  if (lost) {
    hsx_assert(rc != 0, "a record of OLD missing from NEW is an error");
    hsx_cover("lost");
    return;
  }
  hsx_assert(rc == 0, "NEW made of OLD by inserting and updating is accepted");
  std::string head = base < 0 ? "-" : "";
  if (long b = (base < 0 ? -base : base) / 10) head += num(b);
  size_t hl = head.size(), len = 2 + 8 + 1 + 2 * HS + 2 + hl + 1;
  hsx_assert(f.data.size() == h.size() * len, "one line per inserted or updated record");
  char line[64];
  for (size_t k = 0; k < h.size(); k++) {
    line[0] = h[k].t, line[1] = line[10] = (char)58;
    for (int q = 0; q < 8; q++) line[2 + q] = (char)nib((unsigned)((unsigned long)h[k].at >> (28 - 4 * q)) & 15);
    const uint8_t* o = f.data.data() + k * len;
    hsx_assert(memcmp(o, line, 11) == 0, "kind and position in OLD of the change");
    for (unsigned b = 0; b < HS; b++) hsx_assert((o[11 + 2 * b] == nib(h[k].r->b[b] >> 4)) & (o[12 + 2 * b] == nib(h[k].r->b[b] & 15)), "hash of the new record");
    int32_t  c    = h[k].r->cnt();
    unsigned last = (unsigned)((base < 0 ? -c : c) - (base < 0 ? -base : base) / 10 * 10);
    o += 11 + 2 * HS;
    hsx_assert((o[0] == ':') & (o[hl + 1] == '0' + last) & (o[hl + 2] == '\n') & (memcmp(o + 1, head.data(), hl) == 0), "count of the new record");
  }
  hsx_cover("done");
  if (h.size() > 1) hsx_cover("many");
}
HSX_MAIN {
  if (hsx_param("type", 0) == 0) go<20>("");
  else go<16>("--ntlm");
  return 0;
}
