// hibp-server: each request is answered from the right database with the right count (restinio is a stand-in).
#include "common.hpp"
#include <sha1.h>
#define main hibp_main
#include "app/hibp_server.cpp"
#undef main

static int run(std::vector<std::string> a) {
  std::vector<char*> v;
  for (auto& s: a) v.push_back(s.data());
  v.push_back(nullptr);
  return hsx_run(hibp_main, (int)a.size(), v.data());
}
struct Db {
  unsigned             hs;
  std::vector<uint8_t> d;
  long                 n;
  const uint8_t*       at(long i) const { return d.data() + (size_t)i * (hs + 4); }
};
static const uint8_t P123[16] = {0xA9, 0xFD, 0xFA, 0x03, 0x8C, 0x4B, 0x75, 0xEB, 0xC7, 0x6D, 0xC8, 0x55, 0xDD, 0x74, 0xF0, 0xDA};
static uint8_t base(int db, unsigned j, long toc) { // hashes: one-letter passwords under the stand-in digest, "password123" under ntlm
  uint8_t b = db == 1 ? P123[j] : (uint8_t)(0x81 + j);
  if (long f = hsx_param("fill", -1); f >= 0) b = (uint8_t)f;
  if (toc) b = j < 2 ? 0 : j == 2 ? b & 0x0f : b; // one chapter
  return b;
}
HSX_MAIN {
  long              dbs = hsx_param("dbs", 7), n = hsx_param("n", 2), toc = hsx_param("toc", 0), json = hsx_param("json", 0), threads = hsx_param("threads", 1), pad = hsx_param("pad", 0), pw = hsx_param("pw", 0);
  long              pos0 = hsx_param("pos", toc ? 3 : 0), symcnt = hsx_param("symcnt", 0), sub = hsx_param("sub", 0);
  static const char* file[3]  = {"a.sha1", "b.ntlm", "c.t64"};
  static const char* flag[3]  = {"--sha1-db", "--ntlm-db", "--sha1t64-db"};
  static const unsigned HS[3] = {20, 16, 8};
  Db                db[3];
  for (int k = 0; k < 3; k++) {
    db[k].hs = HS[k];
    const long pos = std::min(pos0, (long)HS[k] - 1);
    db[k].n  = dbs >> k & 1 ? n + pad - (sub ? k : 0) : 0;
    if (db[k].n < 0) db[k].n = 0;
    db[k].d.resize((size_t)db[k].n * (HS[k] + 4));
    for (long i = 0; i < db[k].n; i++) {
      uint8_t* r = db[k].d.data() + (size_t)i * (HS[k] + 4);
      for (unsigned j = 0; j < HS[k]; j++) r[j] = base(k, j, toc);
      int32_t c = (int32_t)(1000 * (k + 1) + i);
      memcpy(r + HS[k], &c, 4);
      if (symcnt && i == 0) hsx_make_symbolic(r + HS[k], 1, "count");
      if (i < pad) { // ascending, below everything else; no record is equal to one of another database at the same place
        r[pos] = 0;
        r[pos + 1] = (uint8_t)(i >> 8);
        r[pos + 2] = (uint8_t)(i * 2 + (k == 1));
        continue;
      }
      hsx_make_symbolic(r + pos, 1, "hash");
      if (pad) hsx_assume(r[pos] > 0);
      if (i > pad) hsx_assume(r[pos] > db[k].at(i - 1)[pos]);
    }
    if (dbs >> k & 1) hsx_file_put(file[k], db[k].d.data(), db[k].d.size()), hsx_file_touch(file[k], 1000);
  }
  // the requests
  long                     nreq = hsx_param("reqs", 1), fmts = hsx_param("fmts", -1);
  std::string              all;
  std::vector<int>         kind((size_t)nreq), st((size_t)nreq);
  std::vector<long>        want((size_t)nreq); // expected count
  static const char*       name[] = {"plain", "sha1", "ntlm", "sha1t64", "md5", ""};
  for (long q = 0; q < nreq; q++) {
    int f = fmts >= 0 ? (int)(fmts % 10) : (int)hsx_choice(6, "format");
    if (fmts >= 0) fmts /= 10;
    int         k = f - 1; // the database to use
    std::string text;
    uint8_t     needle[20];
    unsigned    ok = 1;
    if (f == 0) {
      k = dbs & 1 ? 0 : dbs & 2 ? 1 : dbs & 4 ? 2 : -1;
      char c;
      hsx_make_symbolic(&c, 1, "pw");
      hsx_assume((int)((unsigned)(c != '/') & (unsigned)(c != '\n') & (unsigned)(c != 0)));
      text = k == 1 || pw ? std::string("password123") : std::string(1, c);
      if (k >= 0) {
        std::string s = SHA1{}(text);
        auto        v = [](char x) { return (unsigned)((x & 15) + 9 * ((unsigned char)x >> 6)); };
        for (unsigned j = 0; j < HS[k]; j++) needle[j] = k == 1 ? P123[j] : (uint8_t)(v(s[2 * j]) * 16 + v(s[2 * j + 1]));
      }
    } else {
      int      kk  = f <= 3 ? k : 0;
      unsigned len = 2 * HS[kk];
      const long pos = std::min(pos0, (long)HS[kk] - 1);
      for (unsigned j = 0; j < HS[kk]; j++) {
        needle[j] = base(kk, j, toc);
        for (int h = 0; h < 2; h++) text += "0123456789ABCDEF"[h ? needle[j] & 15 : needle[j] >> 4];
      }
      if (f <= 3) {
        unsigned d[2];
        for (int h = 0; h < 2; h++) {
          char& c = text[(size_t)(2 * pos + h)];
          hsx_make_symbolic(&c, 1, "digit");
          hsx_assume((int)((unsigned)(c != '/') & (unsigned)(c != '\n') & (unsigned)(c != 0)));
          unsigned char u  = (unsigned char)c;
          unsigned      dg = (unsigned)(u >= '0') & (unsigned)(u <= '9'), up = (unsigned)(u >= 'A') & (unsigned)(u <= 'F');
          ok &= dg | up;
          d[h] = (u & 15u) + 9 * (u >> 6);
        }
        needle[pos] = (uint8_t)(d[0] * 16 + d[1]);
        if (hsx_param("lens", 0)) {
          unsigned l = hsx_choice(4, "length");
          if (l == 1) text.pop_back();
          else if (l == 2) text += 'A';
          else if (l == 3) text = text.substr(0, 2) + text.substr(2 * (size_t)pos, 2);
          if (text.size() != len) ok = 0;
        }
      }
    }
    all += (char)('0' + q % threads);
    all += ' ';
    all += f == 5 ? (hsx_param("deep", 0) ? std::string("/check/sha1/") + text + "/x" : "/other") : std::string("/check/") + name[f] + "/" + text;
    all += '\n';
    kind[(size_t)q] = f;
    if (f >= 4) st[(size_t)q] = 404;
    else if (k < 0 || !(dbs >> k & 1)) st[(size_t)q] = 400;
    else st[(size_t)q] = hsx_decide((int)ok) ? 200 : 400;
    want[(size_t)q] = -1;
    if (st[(size_t)q] == 200) {
      int32_t w = -1;
      for (long i = 0; i < db[k].n; i++) {
        int32_t c;
        memcpy(&c, db[k].at(i) + HS[k], 4);
        if (hsx_decide((int)eqBytes(db[k].at(i), needle, HS[k]))) w = c;
      }
      want[(size_t)q] = w;
    }
  }
  hsx_file_put("requests.txt", all.data(), all.size());
  std::vector<std::string> a{"hibp-server", "--threads", num(threads)};
  for (int k = 0; k < 3; k++)
    if (dbs >> k & 1) a.insert(a.end(), {flag[k], file[k]});
  if (json) a.push_back("--json");
  if (toc) a.insert(a.end(), {"--toc", "--toc-bits", num(toc)});
  int rc = run(a);
  if (dbs == 0) {
    hsx_assert(rc != 0, "a server without a database is refused");
    hsx_assert(hsx_file_size("resp0") < 0, "no request is answered");
    hsx_cover("refused");
    return 0;
  }
  if (hsx_param("mayrefuse", 0) && rc != 0) {
    hsx_cover("refused");
    return 0;
  }
  hsx_assert(rc == 0, "the server runs");
  for (long q = 0; q < nreq; q++) {
    std::string nm = "resp" + num(q);
    HsxFile     f  = hsx_read_file(nm.c_str());
    hsx_assert(f.exists, "every request is answered");
    hsx_assert(hsx_file_size((nm + ".again").c_str()) < 0, "every request is answered once");
    std::string s((const char*)f.data.data(), f.data.size());
    int         code = (s[0] - '0') * 100 + (s[1] - '0') * 10 + (s[2] - '0');
    hsx_observe("status", &code, sizeof code);
    if (hsx_param("dbg", 0)) hsx_trace(s.c_str());
    hsx_assert(code == st[(size_t)q], st[(size_t)q] == 200 ? "a valid request is answered" : st[(size_t)q] == 400 ? "a malformed hash or a missing database is a bad request" : "an unknown format or path is not found");
    size_t      p = s.find('\n', 4);
    std::string type = s.substr(4, p - 4), body = s.substr(p + 1);
    if (code == 200) {
      size_t i = 0;
      if (json) {
        hsx_assert(type.substr(0, 16) == "application/json", "json is labelled as such");
        size_t l = body.substr(0, 7) == "{count:" ? 7 : body.substr(0, 9) == "{\"count\":" ? 9 : 0;
        hsx_assert(l > 0 && body.size() > 2 && body.substr(body.size() - 2) == "}\n", "the json form of the answer");
        body = body.substr(l, body.size() - l - 2) + "\n";
      } else hsx_assert(type.substr(0, 10) == "text/plain", "plain text is labelled as such");
      bool neg = body[0] == '-';
      if (neg) i++;
      long c = 0, digits = 0;
      while (i < body.size() && body[i] >= '0' && body[i] <= '9') c = c * 10 + (body[i++] - '0'), digits++;
      hsx_assert(digits > 0 && i + 1 == body.size() && body[i] == '\n', "the answer is one number");
      if (neg) c = -c;
      hsx_assert(c == want[(size_t)q], "the count is the one of the database, or -1 for an absent hash");
      hsx_cover(hsx_decide(c == -1) ? "absent" : "found");
      hsx_observe("count", &c, sizeof c);
    } else hsx_cover(code == 400 ? "bad" : "notfound");
  }
  if (hsx_param("banner", 0)) {
    HsxFile     f = hsx_read_file("<stdout>");
    std::string s((const char*)f.data.data(), f.data.size());
    const char* w = dbs & 1 ? "[using sha1 db]" : dbs & 2 ? "[using ntlm db]" : "[using sha1t64 db]";
    hsx_assert(s.find(w) != std::string::npos, "the server says which database it uses for passwords");
  }
  return 0;
}
