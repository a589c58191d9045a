// hibp-convert: text -> binary -> text and binary -> text -> binary reproduce their input; --limit takes the first records.
#include "common.hpp"
#define main hibp_main
#include "app/hibp_convert.cpp"
#undef main

static const char HEX[] = "0123456789ABCDEF";
static int        conv(bool toBin, const std::string& in, const std::string& out, bool ntlm, long limit) {
  std::vector<std::string> a{"hibp-convert", toBin ? "--txt-to-bin" : "--bin-to-txt"};
  if (in == "<stdin>") a.push_back("--stdin");
  else a.insert(a.end(), {"-i", in});
  if (out == "<stdout>") a.push_back("--stdout");
  else a.insert(a.end(), {"-o", out});
  if (ntlm) a.push_back("--ntlm");
  if (limit >= 0) a.insert(a.end(), {"--limit", num(limit)});
  std::vector<char*> v;
  for (auto& s: a) v.push_back(s.data());
  v.push_back(nullptr);
  return hsx_run(hibp_main, (int)a.size(), v.data());
}
template <unsigned HS> static void go(bool ntlm) {
  long n = hsx_param("n", 2), limit = hsx_param("limit", -1), mode = hsx_param("mode", 0), pad = hsx_param("pad", 0);
  long keep = limit >= 0 && limit < n + pad ? limit : n + pad;
  if (mode == 0) { // text first
    std::string t, want;
    long        win = hsx_param("win", 0), nd = hsx_param("digits", 2);
    for (long i = 0; i < n + pad; i++) {
      std::string l(2 * HS, '0');
      for (unsigned j = 0; j < 2 * HS; j++) l[j] = HEX[(j * 7 + (unsigned)i) % 16];
      if (i >= pad) for (long j = win; j < win + 3; j++) {
        hsx_make_symbolic(&l[(size_t)j], 1, "chr");
        unsigned char c = (unsigned char)l[(size_t)j];
        hsx_assume((int)(((unsigned)(c >= '0') & (unsigned)(c <= '9')) | ((unsigned)(c >= 'A') & (unsigned)(c <= 'F'))));
      }
      l += ':';
      if (i < pad) l += num(i);
      else {
        char d[12];
        hsx_make_symbolic(d, (unsigned long)nd, "dig");
        for (long j = 0; j < nd; j++) hsx_assume((int)((unsigned)(d[j] >= (j || nd == 1 ? '0' : '1')) & (unsigned)(d[j] <= '9')));
        l.append(d, (size_t)nd);
      }
      if (i < keep) want += l + "\n";
      bool last = i == n + pad - 1;
      t += l;
      if (hsx_param("crlf", 0)) t += '\r';
      if (!last || hsx_param("eof", 1)) t += '\n';
    }
    const char* in = hsx_param("stdio", 0) ? "<stdin>" : "in.txt";
    hsx_file_put(in, t.data(), t.size());
    hsx_assert(conv(true, in, "mid.bin", ntlm, limit) == 0, "converting text to binary succeeds");
    observeFile("bin", "mid.bin");
    hsx_assert(hsx_file_size("mid.bin") == keep * (long)sizeof(Rec<HS>), "one binary record per line");
    const char* out = hsx_param("stdio", 0) ? "<stdout>" : "out.txt";
    hsx_assert(conv(false, "mid.bin", out, ntlm, -1) == 0, "converting back to text succeeds");
    HsxFile f = hsx_read_file(out);
    observeFile("txt", out);
    hsx_assert(f.data.size() == want.size(), "text -> binary -> text keeps the text");
    for (size_t i = 0; i < want.size(); i++) hsx_assert(f.data[i] == (uint8_t)want[i], "text -> binary -> text keeps the text");
  } else { // binary first
    std::vector<Rec<HS>> r((size_t)(n + pad));
    for (long i = 0; i < n + pad; i++) {
      for (unsigned j = 0; j < HS; j++) r[(size_t)i].b[j] = (uint8_t)(filler(j) + i);
      r[(size_t)i].setCnt((int)i * 77777);
      if (i < pad) continue;
      hsx_make_symbolic(r[(size_t)i].b + hsx_param("pos", 0), 1, "hash");
      r[(size_t)i].setCnt(0);
      int32_t c = 0;
      uint8_t k = 0;
      hsx_make_symbolic(&k, 1, "count");
      c = (int32_t)hsx_param("base", 0) + (hsx_param("neg", 0) ? -(int32_t)k : (int32_t)k);
      r[(size_t)i].setCnt(c);
    }
    hsx_file_put("in.bin", r.data(), r.size() * sizeof(r[0]));
    const char* out = hsx_param("stdio", 0) ? "<stdout>" : "mid.txt";
    hsx_assert(conv(false, "in.bin", out, ntlm, limit) == 0, "converting binary to text succeeds");
    HsxFile f = hsx_read_file(out);
    observeFile("txt", out);
    long    lines = 0;
    for (uint8_t c: f.data) lines += c == '\n';
    hsx_assert(lines == keep, "--limit takes that many records");
    if (out[0] == '<') hsx_file_put("mid.txt", f.data.data(), f.data.size());
    hsx_assert(conv(true, "mid.txt", "out.bin", ntlm, -1) == 0, "converting back to binary succeeds");
    HsxFile g = hsx_read_file("out.bin");
    observeFile("bin", "out.bin");
    hsx_assert((long)g.data.size() == keep * (long)sizeof(r[0]), "binary -> text -> binary keeps the number of records");
    for (size_t i = 0; i < g.data.size(); i++) hsx_assert(g.data[i] == ((uint8_t*)r.data())[i], "binary -> text -> binary keeps every byte");
  }
  hsx_cover("done");
}
HSX_MAIN {
  if (hsx_param("type", 0) == 0) go<20>(false);
  else go<16>(true);
  return 0;
}
