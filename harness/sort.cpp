// hibp-sort / flat_file disksort: the .sorted file is the sorted permutation of the input, whatever the chunking.
#include "common.hpp"
#define main hibp_main
#include "app/hibp_sort.cpp"
#undef main

template <unsigned HS> static hibp::pawned_pw<HS> mk(const Rec<HS>& r) { hibp::pawned_pw<HS> p; memcpy(&p, &r, sizeof r); return p; }
static int sortApi(int argc, char** argv) { // the library entry point with a byte-wise memory limit: argv = type, bytes, by count?
  try {
    unsigned long mem = strtoul(argv[2], nullptr, 10);
    bool          cnt = argv[3][0] == '1';
    auto          go  = [&](auto tag) {
      using T = decltype(tag);
      flat_file::database<T> db("in.bin", 3);
      if (cnt) db.disksort([](const T& a, const T& b) { return a.count == b.count ? a < b : a.count > b.count; }, {}, mem);
      else db.disksort({}, {}, mem);
    };
    if (argv[1][0] == '0') go(hibp::pawned_pw_sha1{});
    else if (argv[1][0] == '1') go(hibp::pawned_pw_ntlm{});
    else go(hibp::pawned_pw_sha1t64{});
  } catch (const std::exception&) { return 1; }
  return 0;
}
template <unsigned HS> static void go(const char* type) {
  long    n = hsx_param("n", 3), chunk = hsx_param("chunk", 0), cnt = hsx_param("cnt", 0), pad = hsx_param("pad", 0), stale = hsx_param("stale", 0);
  long    tot = n + pad;
  std::vector<Rec<HS>> r((size_t)tot);
  for (long i = 0; i < tot; i++) { // the padding records are in descending order, all above or below the symbolic ones
    for (unsigned j = 0; j < HS; j++) r[(size_t)i].b[j] = filler(j);
    if (i < pad) {
      r[(size_t)i].b[0] = 0xF0;
      r[(size_t)i].b[1] = (uint8_t)((pad - i) >> 8);
      r[(size_t)i].b[2] = (uint8_t)(pad - i);
    }
    r[(size_t)i].setCnt(7);
    if (i >= pad) {
      hsx_make_symbolic(r[(size_t)i].b + hsx_param("pos", 0), 1, "hash");
      if (cnt) hsx_make_symbolic(r[(size_t)i].b + HS + hsx_param("cpos", 0), 1, "count");
      else if (!hsx_param("eq", 0)) r[(size_t)i].setCnt((int)i); // tells apart equal hashes; with eq whole records can be the same
    }
  }
  hsx_file_put("in.bin", r.data(), r.size() * sizeof(r[0]));
  if (stale) { // an older, larger result and left-over chunks are in the way
    std::vector<uint8_t> junk((size_t)(tot + 2) * sizeof(r[0]), 0x11);
    hsx_file_put("in.bin.sorted", junk.data(), junk.size());
    hsx_file_put("in.bin.partial.0000", junk.data(), junk.size());
  }
  int rc;
  if (hsx_param("app", 0)) {
    std::vector<std::string> a{"hibp-sort", "-i", "in.bin"};
    if (cnt) a.push_back("--sort-by-count");
    if (type[0] == '1') a.push_back("--ntlm");
    if (hsx_param("mb", -1) >= 0) a.insert(a.end(), {"--max-memory", num(hsx_param("mb", 1))});
    std::vector<char*> v;
    for (auto& s: a) v.push_back(s.data());
    v.push_back(nullptr);
    rc = hsx_run(hibp_main, (int)a.size(), v.data());
  } else rc = hsx_app(sortApi, "sort", type, num(chunk * (long)sizeof(r[0]) + hsx_param("slack", 0)), cnt ? "1" : "0");
  HsxFile in = hsx_read_file("in.bin");
  hsx_assert(in.data.size() == r.size() * sizeof(r[0]), "the input is left alone");
  for (size_t i = 0; i < in.data.size(); i++) hsx_assert(in.data[i] == ((uint8_t*)r.data())[i], "the input is left alone");
  if (rc != 0 && hsx_param("mayrefuse", 0)) { hsx_cover("refused"); return; }
  hsx_assert(rc == 0, "sorting succeeds");
  observeFile("out", "in.bin.sorted");
  hsx_assert(hsx_file_count() == 2, "no temporary chunk is left behind");
  HsxFile f = hsx_read_file("in.bin.sorted");
  hsx_assert(f.data.size() == r.size() * sizeof(r[0]), "the sorted file has as many records as the input");
  const Rec<HS>* o = (const Rec<HS>*)f.data.data();
  auto key = [](const Rec<HS>& x, uint8_t* k) { // count descending: complement of the sign-flipped big-endian count
    uint32_t c = ~((uint32_t)x.cnt() ^ 0x80000000u);
    for (int j = 0; j < 4; j++) k[j] = (uint8_t)(c >> (24 - 8 * j));
    memcpy(k + 4, x.b, HS);
  };
  for (long i = 0; i + 1 < tot; i++) {
    uint8_t a[HS + 4], b[HS + 4];
    key(o[i], a);
    key(o[i + 1], b);
    hsx_assert(!ltBytesN(b + (cnt ? 0 : 4), a + (cnt ? 0 : 4), HS + (cnt ? 4 : 0)), "the output is in order");
  }
  for (long i = 0; i < tot; i++) { // permutation: equally long, and every record at least as often as before
    if (i < pad && i > 2 && i + 3 < pad) continue;
    unsigned a = 0, b = 0;
    for (long j = i < pad ? i : pad; j < (i < pad ? i + 1 : tot); j++) a += eqBytes(r[(size_t)i].b, r[(size_t)j].b, HS + 4); // only the symbolic ones can coincide
    for (long j = 0; j < tot; j++) b += eqBytes(r[(size_t)i].b, o[j].b, HS + 4);
    hsx_assert(a <= b, "every record of the input is in the output");
  }
  hsx_cover("done");
}
HSX_MAIN {
  long t = hsx_param("type", 0);
  if (t == 0) go<20>("0");
  else if (t == 1) go<16>("1");
  else go<8>("2");
  return 0;
}
