// hibp-download against stand-ins for libcurl and libevent (fake/net.hpp).
// mode 0: a download from nothing; 1: --resume on a file cut at any byte; 2: --resume after a process was killed at any point
// of an earlier download; with again=1 a second --resume follows a first that failed
#include "fake/net.hpp"
#define main hibp_main
#include "app/hibp_download.cpp"
#undef main

static const char HEX[] = "0123456789ABCDEF";
static std::string prefixOf(unsigned long i) {
  std::string s;
  for (int k = 4; k >= 0; k--) s += HEX[(i >> (4 * k)) & 15];
  return s;
}
static int run(std::vector<std::string> a) {
  std::vector<char*> v;
  for (auto& s: a) v.push_back(s.data());
  v.push_back(nullptr);
  hsx_file_put("<stderr>", "", 0);
  return hsx_run(hibp_main, (int)a.size(), v.data());
}
struct Lines { // what a correct download of consecutive prefixes holds
  std::vector<uint8_t> out;
};
HSX_MAIN {
  long type = hsx_param("type", 0), text = hsx_param("text", 0), n = hsx_param("n", 2), lines = hsx_param("lines", 2), eol = hsx_param("eol", 1), last = hsx_param("last", 1), blank = hsx_param("blank", 0);
  long base = hsx_param("base", 0), mode = hsx_param("mode", 0), par = hsx_param("par", 3), pos = hsx_param("pos", 7), syms = hsx_param("syms", 1), debug = hsx_param("debug", 0);
  long hard = hsx_param("hard", -1), badp = hsx_param("badp", -1), badl = hsx_param("badl", 0), budget = hsx_param("budget", 0), fault = hard >= 0 || badp >= 0;
  const bool again = hsx_param("again", 0) != 0;
  unsigned hs = type == 0 ? 20 : type == 1 ? 16 : 8, full = type == 1 ? 32 : 40;
  std::string    ext  = type == 1 ? ".ntlm.srv" : ".srv";
  Lines          want;
  unsigned       seq = 0;
  std::vector<size_t>      pends{0}; // where the records of each prefix end
  long N = std::max(n, hsx_param("have", n)); // prefixes the server has
  for (long p = 0; p < N; p++) {
    std::string prefix = prefixOf((unsigned long)(base + p)), body;
    long        here   = lines + (hsx_param("uneven", 0) ? p % 2 : 0);
    if (hsx_param("empty", -1) == p) here = 0;
    for (long l = 0; l < here; l++, seq++) {
      std::string line = prefix;
      for (unsigned k = 5; k < full; k++) line += HEX[(k * 7 + (unsigned)p * 3 + k / 5) & 15];
      line[5] = HEX[(l >> 4) & 15];
      line[6] = HEX[l & 15]; // ascending within a prefix
      if (long q = hsx_param("vary", 0)) { // the lines of a prefix differ at digit q alone
        line[5] = line[6] = '7';
        line[(size_t)q] = HEX[l & 15];
      }
      bool sym = l >= here - syms;
      if (hsx_param("dup", 0)) line[20] = 'A'; // suffixes that share their end
      if (sym && !(p == badp && l == badl)) {
        uint8_t c;
        hsx_make_symbolic(&c, 1, "hex");
        hsx_assume((int)(((unsigned)(c >= '0') & (unsigned)(c <= '9')) | ((unsigned)(c >= 'A') & (unsigned)(c <= 'F'))));
        line[(size_t)pos] = (char)c;
      }
      long        val = (long)(seq * 37 + 5);
      std::string cnt = num(val);
      if (hsx_param("small", 0)) cnt = ""; // the symbolic digit alone: 0 to 9
      if (sym) {
        uint8_t d;
        hsx_make_symbolic(&d, 1, "digit");
        hsx_assume((int)((unsigned)(d >= '0') & (unsigned)(d <= '9')));
        cnt += (char)d;
        (void)val;
      }
      if (p == badp && l == badl) {
        uint8_t c;
        hsx_make_symbolic(&c, 1, "bad");
        hsx_assume((int)!((((unsigned)(c >= '0') & (unsigned)(c <= '9')) | ((unsigned)((c | 32) >= 'a') & (unsigned)((c | 32) <= 'f')) | (unsigned)(c == '\n') | (unsigned)(c == '\r'))));
        line[(size_t)pos] = (char)c;
      }
      std::string shown = line + ":" + cnt;
      body += shown.substr(5);
      if (l + 1 < here || last) body += eol ? "\r\n" : "\n";
      if (blank && l + 1 < here) body += blank == 1 ? "\n" : "\r\n";
      if (text) {
        want.out.insert(want.out.end(), shown.begin(), shown.end());
        want.out.push_back('\n');
      } else {
        for (unsigned j = 0; j < hs; j++) {
          unsigned v = 0;
          for (int k = 0; k < 2; k++) {
            unsigned c = (unsigned char)line[2 * j + (unsigned)k];
            v          = v * 16 + ((c & 15) + 9 * (c >> 6));
          }
          want.out.push_back((uint8_t)v);
        }
        uint32_t v = 0;
        for (char c: cnt) v = v * 10 + (uint32_t)((unsigned char)c - '0');
        for (int j = 0; j < 4; j++) want.out.push_back((uint8_t)(v >> (8 * j)));
      }
    }
    pends.push_back(want.out.size());
    hsx_file_put((prefix + ext).c_str(), body.data(), body.size());
  }
  std::string limit = num(base + n + hsx_param("over", 0));
  std::vector<std::string> args{"hibp-download", "out.db", "--parallel-max", num(par), debug ? "--debug" : hsx_param("progress", 0) ? "--progress" : "--no-progress"};
  if (!hsx_param("nolimit", 0)) args.insert(args.end(), {"--limit", limit});
  if (type == 1) args.push_back("--ntlm");
  if (type == 2 && !text) args.push_back("--sha1t64");
  if (text) args.push_back("--txt-out");
  if (hsx_param("testing", 0)) args.push_back("--testing");
  size_t everything = want.out.size(), keep = 0, kept = 0, rec = hs + 4;
  size_t total = pends[(size_t)n];
  long   m     = hsx_param("have", n); // prefixes the interrupted download had reached
  if (mode) {
    size_t cstep = (size_t)hsx_param("cstep", 1);
    if (mode == 1) {
      keep = hsx_param("cut", -1) >= 0 ? (size_t)hsx_param("cut", 0) : std::min(pends[(size_t)m], (size_t)hsx_choice((unsigned)(pends[(size_t)m] / cstep + 2), "cut") * cstep);
      hsx_file_put("out.db", want.out.data(), keep);
    } else {
      long step = hsx_param("step", 5);
      hsx_set_crash_at(hsx_effect_clock() + step * (long)hsx_choice((unsigned)((long)total / step + 2), "killed"));
      int     rc  = run(args);
      hsx_set_crash_at(-1);
      HsxFile got = hsx_read_file("out.db");
      if (!got.exists) return 0;
      keep = got.data.size();
      hsx_assert(rc == 0 || rc == 137, "the download runs until it is killed");
      hsx_assert(keep <= total, "a killed download leaves a prefix of the correct output");
      hsx_assert(eqBytes(got.data.data(), want.out.data(), (unsigned)keep), "a killed download leaves a prefix of the correct output: bytes");
      hsx_cover("killed");
    }
    kept = keep / rec * rec;
    hsx_file_put("requests.log", "", 0);
    args.push_back("--resume");
  }
  if (budget) hsx_set_write_budget((long)hsx_choice((unsigned)((total + (unsigned long)budget - 1) / (unsigned long)budget + 1), "budget") * budget);
  if (hsx_param("again", 0)) hsx_file_put("first.run", "", 0);
  int rc = run(args);
  hsx_set_write_budget(-1);
  uint8_t code = (uint8_t)rc;
  hsx_observe("exit", &code, 1);
  observeFile("out", "out.db");
  HsxFile got = hsx_read_file("out.db"), log = hsx_read_file("requests.log"), err = hsx_read_file("<stderr>");
  hsx_assert(rc == 0 || rc == 1, "ends with an exit code, not killed");
  if (mode && rc != 0) {
    size_t whole = 0; // the records of the prefixes that were complete
    for (size_t e: pends) if (e <= kept) whole = e;
    hsx_assert(got.exists && got.data.size() >= whole, "a failed resume leaves the records of the complete prefixes in place");
    hsx_assert(got.data.size() <= everything, "a failed resume leaves a prefix of the correct output");
    hsx_assert(eqBytes(got.data.data(), want.out.data(), (unsigned)got.data.size()), "a failed resume leaves a prefix of the correct output: bytes");
    hsx_assert(!err.data.empty(), "an error message is printed");
    if (!hsx_param("syncfails", 0) && !hsx_param("over", 0) && hard < 0 && !budget) hsx_assert(kept == 0 || n <= m, "a resume is refused only for a reason");
    hsx_cover("refused");
    if (!hsx_param("again", 0) || got.data.size() < rec || got.data.size() >= total) return 0;
    hsx_file_remove("first.run");
    hsx_file_put("requests.log", "", 0);
    rc = run(args); // this time without failures
    got = hsx_read_file("out.db");
    log = hsx_read_file("requests.log");
    hard = -1;
    hsx_assert(rc == 0, "a second resume succeeds");
  }
  if (par == 0 && rc != 0) {
    hsx_assert(!err.data.empty(), "an error message is printed");
    hsx_cover("refused");
    return 0;
  }
  if (rc == 0) {
    hsx_assert(!fault || again || mode, "a download with a failed transfer or a malformed line fails");
    hsx_assert(got.exists && got.data.size() == total, "a completed download holds every line once");
    hsx_assert(eqBytes(got.data.data(), want.out.data(), (unsigned)total), "a completed download holds the lines in order, each with its prefix");
    hsx_cover("complete");
  } else {
    hsx_assert(fault || budget || hsx_param("over", 0), "the download succeeds");
    hsx_assert(!err.data.empty(), "an error message is printed");
    hsx_assert(got.data.size() <= total, "what was written is a prefix of the correct output");
    hsx_assert(eqBytes(got.data.data(), want.out.data(), (unsigned)got.data.size()), "what was written is a prefix of the correct output: bytes");
    if (badp >= 0) hsx_assert(got.data.size() <= (size_t)((badp * lines + badl) * (long)rec), "nothing is written from a malformed line on");
    hsx_cover("failed");
  }
  // requests: addresses, how often, how many at a time
  std::string              s((const char*)log.data.data(), log.data.size());
  std::vector<std::string> ls;
  for (size_t a = 0, e; (e = s.find('\n', a)) != std::string::npos; a = e + 1) ls.push_back(s.substr(a, e - a));
  unsigned long maxp = 0;
  if (!ls.empty()) for (char c: ls[0].substr(4)) maxp = maxp * 10 + (unsigned long)(c - '0');
  hsx_assert((long)maxp <= par, "no more transfers at a time than allowed");
  std::vector<unsigned> count((size_t)n);
  unsigned              other = 0, all = 0;
  for (size_t i = 1; i < ls.size(); i++) {
    if (ls[i].compare(0, 4, "get ") != 0) continue;
    all++;
    bool hit = false;
    for (long p = 0; p < n; p++) {
      std::string u = (hsx_param("testing", 0) ? "http://localhost:8090/" : "https://api.pwnedpasswords.com/range/") + prefixOf((unsigned long)(base + p)) + (type == 1 ? "?mode=ntlm" : "");
      if (ls[i] == "get " + u) { count[(size_t)p]++; hit = true; }
    }
    if (!hit) other++;
  }
  if (!hsx_param("over", 0)) hsx_assert(other == 0, "only the addresses of the prefixes below the limit are requested");
  long fails = hsx_param("fails", 0);
  for (long p = 0; p < n; p++) {
    hsx_assert(count[(size_t)p] <= 6, "a transfer is tried at most six times");
    if (mode == 0 && rc == 0) hsx_assert(count[(size_t)p] >= 1, "every prefix is requested");
    if (fails == 0 && hard < 0 && !again) hsx_assert(count[(size_t)p] <= 1, "a prefix is requested once");
    if (hard == p && mode == 0) hsx_assert(count[(size_t)p] == 6, "a failing transfer is tried six times");
  }
  if (mode == 0 && rc == 0) hsx_assert((long)all <= n + fails, "as many requests as prefixes and failures");
  return 0;
}
