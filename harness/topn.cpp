// hibp-topn: the output is exactly the N records with the largest counts (ties: smallest hash), ordered by hash.
#include "common.hpp"
#define main hibp_main
#include "app/hibp_topn.cpp"
#undef main

template <unsigned HS> static void go(const char* flag) {
  enum { MAX = 8 };
  long     n = hsx_param("n", 4), k = hsx_param("k", 2), mode = hsx_param("mode", 0);
  Rec<HS>  r[MAX];
  for (long i = 0; i < n; i++) {
    for (unsigned j = 0; j < HS; j++) r[i].b[j] = filler(j);
    r[i].b[0] = (uint8_t)(mode ? 0x40 : i * 9);
    r[i].setCnt(0);
    hsx_make_symbolic(r[i].b + HS, 4, "count");
    if (mode == 1) hsx_make_symbolic(r[i].b + hsx_param("pos", 0), 1, "hash"); // any order, duplicates allowed
  }
  hsx_file_put("in.bin", r, (unsigned long)n * Rec<HS>::size);
  std::vector<std::string> a{"hibp-topn", "in.bin", "-N", num(k)};
  const char*              out = hsx_param("stdout", 0) ? "<stdout>" : "out.bin";
  if (out[0] == '<') a.push_back("--stdout");
  else a.insert(a.end(), {"-o", out});
  if (flag[0]) a.push_back(flag);
  std::vector<char*> v;
  for (auto& s: a) v.push_back(s.data());
  v.push_back(nullptr);
  int rc = hsx_run(hibp_main, (int)a.size(), v.data());
  if (k >= n) {
    hsx_assert(rc != 0, "asking for as many records as there are is refused");
    hsx_cover("refused");
    return;
  }
  hsx_assert(rc == 0, "exit code 0");
  observeFile("out", out);
  HsxFile f = hsx_read_file(out);
  hsx_assert(f.exists && (long)f.data.size() == k * Rec<HS>::size, "output holds exactly N records");
  // reference: insertion sort by (count desc, hash asc), keep k, then by hash
  const Rec<HS>* p[MAX];
  for (long i = 0; i < n; i++) {
    long j = i;
    for (; j > 0; j--) {
      int32_t a = r[i].cnt(), b = p[j - 1]->cnt();
      if (a < b) break;
      if (a == b && !ltBytes<HS>(r[i].b, p[j - 1]->b)) break;
      p[j] = p[j - 1];
    }
    p[j] = &r[i];
  }
  const Rec<HS>* q[MAX];
  for (long i = 0; i < k; i++) {
    long j = i;
    for (; j > 0 && ltBytes<HS>(p[i]->b, q[j - 1]->b); j--) q[j] = q[j - 1];
    q[j] = p[i];
  }
  const Rec<HS>* o = (const Rec<HS>*)f.data.data();
  for (long x = 0; x < k; x++) hsx_assert(eqBytes(o[x].b, q[x]->b, HS), "output is the N most common records in hash order");
  if (mode == 0) for (long x = 0; x < k; x++) hsx_assert(o[x].cnt() == q[x]->cnt(), "counts are carried over");
  hsx_cover("done");
}
HSX_MAIN {
  long t = hsx_param("type", 0);
  if (t == 0) go<20>("");
  else if (t == 1) go<16>("--ntlm");
  else go<8>("--sha1t64");
  return 0;
}
