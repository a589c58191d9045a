// Access to the records of a database file: any history of reads, positions, buffer sizes; errors; writing.
#include "common.hpp"
#include "flat_file.hpp"
#include "hibp.hpp"
#include <sstream>

enum { MAXN = 8 };
template <unsigned HS> struct Ctx {
  using P = hibp::pawned_pw<HS>;
  Rec<HS> r[MAXN];
  long    n;
  void    make(const char* fn) {
    n = hsx_param("n", 4);
    for (long i = 0; i < n; i++) {
      for (unsigned j = 0; j < HS; j++) r[i].b[j] = (uint8_t)(filler(j) + 16 * i);
      r[i].setCnt((int)(i * 1000 + 7));
      hsx_make_symbolic(r[i].b + hsx_param("sb", 0), 1, "byte");
      hsx_make_symbolic(r[i].b + HS, 4, "count");
    }
    hsx_file_put(fn, r, (unsigned long)n * sizeof(r[0]));
  }
  bool same(const P& p, unsigned long i) { return eqBytes((const uint8_t*)&p, r[i].b, HS) && memcmp((const uint8_t*)&p.count, r[i].b + HS, 4) == 0; }
  bool same(const P& p, unsigned long i, int) {
    const uint8_t* x = (const uint8_t*)&p;
    return eqBytes(x, r[i].b, sizeof r[i].b);
  }
};
static unsigned long symPos(const char* nm) {
  unsigned long p = 0;
  hsx_make_symbolic(&p, 8, nm);
  return p;
}
static unsigned long symIn(const char* nm, unsigned long n) { // any position in [0,n)
  unsigned long p = symPos(nm);
  hsx_assume((int)(p < n)); // (never shares a name with a choice)
  return hsx_concretize(p);
}
// any position: the record of the file, or an exception
template <unsigned HS> static void getAny(Ctx<HS>& c, flat_file::database<hibp::pawned_pw<HS>>& db, unsigned long pos, bool mayFail = false) {
  bool inside = hsx_decide(pos < (unsigned long)c.n);
  bool threw  = false;
  if (inside) pos = hsx_concretize(pos);
  try {
    const auto& p = db.get_record(pos);
    hsx_assert(inside, "reading outside the database is an error");
    hsx_assert(c.same(p, hsx_concretize(pos), 0), "get_record returns the record of the file");
  } catch (const std::exception&) { threw = true; }
  if (!mayFail) hsx_assert(threw == !inside, "reading inside the database succeeds");
  hsx_cover(threw ? "threw" : "read");
}
template <unsigned HS> static void history() {
  using P = hibp::pawned_pw<HS>;
  using D = flat_file::database<P>;
  Ctx<HS> c;
  c.make("in.bin");
  D db("in.bin", (unsigned long)hsx_param("buf", 2));
  hsx_assert(db.number_records() == (unsigned long)c.n, "number of records");
  hsx_assert(db.end() - db.begin() == c.n, "distance");
  hsx_assert(db.filesize() == (unsigned long)c.n * sizeof(P), "file size");
  typename D::const_iterator it[2] = {db.begin(), db.begin()};
  unsigned long              at[2] = {0, 0};
  long                       K     = hsx_param("ops", 3);
  for (long k = 0; k < K; k++) {
    unsigned which = hsx_choice(7, "op"), w = which & 1;
    if (which == 6) {
      unsigned long p = symIn("pos", (unsigned long)c.n);
      getAny(c, db, p);
    } else if (which < 2) { // dereference
      hsx_assert(c.same(*it[w], at[w], 0), "dereferencing an iterator gives the record at its position");
    } else if (which < 4) { // move and dereference
      unsigned m = hsx_choice(6, "move");
      if (m == 0 && at[w] + 1 < (unsigned long)c.n) {
        ++it[w];
        at[w]++;
      } else if (m == 1 && at[w] > 0) {
        auto o = it[w]--;
        hsx_assert(c.same(*o, at[w], 0), "post-decrement returns the old position");
        at[w]--;
      } else if (m == 2) { // jump to any position
        unsigned long p = symIn("to", (unsigned long)c.n);
        it[w] += p - at[w];
        at[w] = p;
      } else if (m == 3 && at[w] + 1 < (unsigned long)c.n) {
        auto o = it[w]++;
        hsx_assert(c.same(*o, at[w], 0), "post-increment returns the old position");
        at[w]++;
      } else if (m == 4) { // from the end
        unsigned long p = symPos("back");
        hsx_assume((int)((unsigned)(p >= 1) & (unsigned)(p <= (unsigned long)c.n)));
        p     = hsx_concretize(p);
        it[w] = db.end() - p;
        at[w] = (unsigned long)c.n - p;
      } else if (m == 5) {
        it[w] = it[1 - w];
        at[w] = at[1 - w];
      }
      hsx_assert(c.same(*it[w], at[w], 0), "dereferencing a moved iterator gives the record at its position");
    } else {
      hsx_assert(it[w]->count == c.r[at[w]].cnt(), "-> reaches the record at its position");
    }
  }
  hsx_assert(it[0] - it[1] == (long)at[0] - (long)at[1] && (it[0] == it[1]) == (at[0] == at[1]), "iterator distance and equality");
  hsx_assert(c.same(*it[0], at[0], 0) && c.same(*it[1], at[1], 0), "iterators keep denoting their records");
  hsx_assert(c.same(db.back(), (unsigned long)c.n - 1, 0), "back() is the last record");
  // one reference must survive as long as no other read happens
  hsx_cover("done");
}
// a sequential sweep of two databases with standard algorithms, at any buffer size
template <unsigned HS> static void sweep() {
  using P = hibp::pawned_pw<HS>;
  Ctx<HS> c;
  c.make("in.bin");
  flat_file::database<P> db("in.bin", (unsigned long)hsx_param("buf", 2)), db2("in.bin", (unsigned long)hsx_param("buf2", 3));
  long                   i = 0;
  for (const auto& p: db) hsx_assert(c.same(p, (unsigned long)i++, 0), "range-for visits the records in file order");
  hsx_assert(i == c.n, "range-for visits every record");
  auto [x, y] = std::mismatch(db.begin(), db.end(), db2.begin(), db2.end(), [](const P& a, const P& b) { return a == b && a.count == b.count; });
  hsx_assert(x == db.end() && y == db2.end(), "two views of one file agree");
  std::vector<P> v(db.begin(), db.end());
  for (long k = 0; k < c.n; k++) hsx_assert(c.same(v[(size_t)k], (unsigned long)k, 0), "copying out keeps the records");
  hsx_cover("done");
}
// wrong positions, failing reads: an error, and never another record's data afterwards
template <unsigned HS> static void faults() {
  using P = hibp::pawned_pw<HS>;
  Ctx<HS> c;
  c.make("in.bin");
  flat_file::database<P> db("in.bin", (unsigned long)hsx_param("buf", 2));
  long                   kind = hsx_param("kind", 0);
  unsigned long          p0   = symPos("pos");
  hsx_assume((int)(p0 < (unsigned long)c.n));
  getAny(c, db, p0);
  if (kind == 0) { // any 64-bit position
    getAny(c, db, symPos("pos"));
  } else if (kind == 1) { // one read fails
    hsx_set_read_fault((long)hsx_choice(3, "nth"));
    getAny(c, db, hsx_choice((unsigned)c.n, "at"), true);
    hsx_set_read_fault(-1);
  } else { // the file loses its end
    hsx_file_put("in.bin", c.r, hsx_choice((unsigned)(c.n * (long)sizeof(P)), "cut"));
    getAny(c, db, hsx_choice((unsigned)c.n, "at"), true);
  }
  unsigned long p1 = symIn("pos", (unsigned long)c.n);
  getAny(c, db, p1, kind != 0);
  unsigned long p2 = symIn("pos", (unsigned long)c.n);
  getAny(c, db, p2, kind != 0);
  hsx_cover("done");
}
// opening: only a readable file of whole records
template <unsigned HS> static void opening() {
  using P         = hibp::pawned_pw<HS>;
  unsigned  size  = hsx_choice(3 * sizeof(P) + 2, "size");
  uint8_t   b[3 * sizeof(P) + 2];
  for (unsigned i = 0; i < sizeof b; i++) b[i] = filler(i);
  unsigned what = hsx_choice(3, "what"); // 0 regular, 1 missing, 2 cannot be opened
  if (what != 1) hsx_file_put("in.bin", b, size);
  if (what == 2) hsx_deny_open("in.bin");
  bool threw = false;
  try {
    flat_file::database<P> db("in.bin", 2);
    hsx_assert(db.number_records() == size / sizeof(P), "number of records");
    for (unsigned i = 0; i < size / sizeof(P); i++) hsx_assert(eqBytes((const uint8_t*)&db.get_record(i), b + i * sizeof(P), sizeof(P)), "record content");
    bool t = false;
    try { *db.end(); } catch (const std::exception&) { t = true; }
    hsx_assert(t, "dereferencing end() is an error");
    if (size == 0) {
      t = false;
      try { db.back(); } catch (const std::exception&) { t = true; }
      hsx_assert(t, "an empty database has no last record");
    }
  } catch (const std::exception&) { threw = true; }
  hsx_assert(threw == (what != 0 || size % sizeof(P) != 0), "refused exactly when missing, unreadable or not whole records");
  hsx_cover(threw ? "refused" : "opened");
}
// writing: any buffer size, any flush pattern; then read back
template <unsigned HS> static void writing() {
  using P = hibp::pawned_pw<HS>;
  P        p[MAXN];
  long     n = hsx_choice((unsigned)hsx_param("n", 5) + 1, "n"), buf = hsx_param("buf", 2), kind = hsx_param("kind", 0);
  for (long i = 0; i < n; i++) {
    hsx_make_symbolic(&p[i], sizeof(P), "rec");
  }
  if (kind == 0) {
    std::ofstream os("out.bin", std::ios::binary);
    {
      flat_file::stream_writer<P> w(os, (unsigned long)buf);
      for (long i = 0; i < n; i++) {
        w.write(p[i]);
        unsigned f = hsx_choice(3, "flush");
        if (f) w.flush(f == 2);
      }
    }
  } else if (kind == 1) {
    flat_file::file_writer<P> w("out.bin");
    for (long i = 0; i < n; i++) w.write(p[i]);
  } else {
    std::ostringstream os;
    {
      flat_file::stream_writer<P> w(os, (unsigned long)buf);
      for (long i = 0; i < n; i++) w.write(p[i]);
    }
    std::string s = os.str();
    hsx_file_put("out.bin", s.data(), s.size());
  }
  HsxFile f = hsx_read_file("out.bin");
  hsx_assert(f.exists && f.data.size() == (size_t)n * sizeof(P), "the file holds every record written, nothing else");
  for (long i = 0; i < n; i++) hsx_assert(eqBytes(f.data.data() + i * (long)sizeof(P), (const uint8_t*)&p[i], sizeof(P)), "records are written in order, unchanged");
  observeFile("out", "out.bin");
  flat_file::database<P> db("out.bin", 3);
  hsx_assert(db.number_records() == (unsigned long)n, "reading back gives as many records");
  for (long i = 0; i < n; i++) hsx_assert(eqBytes((const uint8_t*)&db.get_record((unsigned long)i), (const uint8_t*)&p[i], sizeof(P)), "reading back gives the records written");
  hsx_cover("done");
}
// many records through the default buffers: the last ones of each buffer are symbolic
template <unsigned HS> static void writingMany() {
  using P = hibp::pawned_pw<HS>;
  long                 n = hsx_param("n", 1000), chunk = hsx_param("buf", 1000), kind = hsx_param("kind", 0);
  std::vector<Rec<HS>> r((size_t)n);
  for (long i = 0; i < n; i++) {
    for (unsigned j = 0; j < HS; j++) r[(size_t)i].b[j] = (uint8_t)(filler(j) + (j == 1 ? i >> 8 : j == 2 ? i : 0));
    r[(size_t)i].setCnt((int)i);
    if (i % chunk == 0 || i % chunk == chunk - 1 || i == n - 1) hsx_make_symbolic(&r[(size_t)i], sizeof(P), "rec");
  }
  auto fill = [&](auto& w) {
    for (long i = 0; i < n; i++) {
      P p;
      memcpy(&p, &r[(size_t)i], sizeof p);
      w.write(p);
    }
  };
  if (kind == 0) {
    flat_file::file_writer<P> w("out.bin");
    fill(w);
  } else {
    std::ofstream os("out.bin", std::ios::binary);
    flat_file::stream_writer<P> w(os, (unsigned long)chunk);
    fill(w);
  }
  HsxFile f = hsx_read_file("out.bin");
  hsx_assert(f.exists && f.data.size() == (size_t)n * sizeof(P), "the file holds every record written, nothing else");
  for (long i = 0; i < n; i++) hsx_assert(eqBytes(f.data.data() + i * (long)sizeof(P), r[(size_t)i].b, sizeof(P)), "records are written in order, unchanged");
  observeFile("out", "out.bin");
  hsx_cover("done");
}
template <unsigned HS> static void go() {
  switch (hsx_param("mode", 0)) {
  case 0: history<HS>(); break;
  case 1: sweep<HS>(); break;
  case 2: faults<HS>(); break;
  case 3: opening<HS>(); break;
  case 4: writing<HS>(); break;
  case 5: writingMany<HS>(); break;
  }
}
HSX_MAIN {
  long t = hsx_param("type", 0);
  if (t == 0) go<20>();
  else if (t == 1) go<16>();
  else go<8>();
  return 0;
}
