PROPS = {}

def P(id, jobs, bounds, outside=""):
    PROPS[id] = dict(jobs=jobs, bounds=bounds, outside=outside)

def J(h, p=None, **kw):
    return dict(h=h, p=p or {}, **kw)

TH = dict(tier="thorough")
Q, T = "quick thorough", "thorough"

ISA = ([], ["-DHSX_GCCPATH"], ["-mavx2"], ["-mavx512bw"])
P("C01",
  [J("order.cpp", dict(n=n), flags=f, covers=["gt", "eq"], samples=2, tier="quick thorough" if (n in (8, 16, 20, 33, 65, 1020, 1016, 1008)) else "thorough") for f in ISA for n in
   (1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40, 48, 63, 64, 65, 80, 1020, 1016, 1008)],
  "")

P("C04",
  [J("db.cpp", dict(mode=0, n=n, buf=b, ops=k, type=t), covers=["done"], tier=q) for n, b, k, t, q in
   ((3, 2, 2, 0, Q), (3, 2, 3, 0, Q), (4, 1, 3, 0, Q), (4, 3, 3, 0, Q), (3, 3, 2, 1, Q), (3, 2, 2, 2, Q), (3, 10, 3, 0, Q), (5, 2, 3, 0, T), (3, 2, 4, 0, T), (4, 3, 4, 0, T))] +
  [J("db.cpp", dict(mode=1, n=n, buf=b, buf2=c, type=t), covers=["done"]) for t in (0, 1, 2) for n, b, c in ((1, 1, 1), (4, 2, 3), (5, 1, 5), (7, 3, 2), (8, 8, 4), (8, 9, 1))] +
  [J("db.cpp", dict(mode=2, kind=0, n=n, buf=b, type=t), covers=["done", "threw"]) for t in (0, 1, 2) for n, b in ((4, 2), (3, 1), (3, 5))],
  "")
P("C05",
  [J("db.cpp", dict(mode=2, kind=k, n=n, buf=b, type=t), covers=["done", "threw"], tier=q) for k in (1, 2) for n, b, t, q in ((3, 2, 0, Q), (3, 2, 1, Q), (3, 2, 2, Q), (4, 2, 0, T), (4, 3, 2, T), (3, 1, 0, Q), (3, 4, 0, Q))] +
  [J("db.cpp", dict(mode=3, type=t), covers=["opened", "refused"]) for t in (0, 1, 2)],
  "")
P("C06",
  [J("db.cpp", dict(mode=4, kind=k, n=n, buf=b, type=t), covers=["done"]) for t in (0, 1, 2) for k, n, b in ((0, 5, 2), (0, 5, 1), (0, 5, 5), (1, 5, 0), (2, 8, 3), (2, 8, 1), (2, 8, 4))] +
  [J("db.cpp", dict(mode=5, kind=k, n=n, buf=b, type=t), covers=["done"]) for t in (0, 1, 2) for k, n, b in ((0, 999, 1000), (0, 1000, 1000), (0, 1001, 1000), (0, 2000, 1000), (0, 2001, 1000), (1, 700, 341), (1, 683, 341), (1, 1025, 512))] +
  [J("db.cpp", dict(mode=5, kind=1, n=n, buf=b, type=t), covers=["done"]) for t, n, b in ((0, 2800, 2731), (1, 3300, 3277), (2, 5600, 5462), (0, 5500, 5462), (0, 3000, 4000))],
  "")
P("C12",
  [J("topn.cpp", dict(n=n, k=k, type=t), covers=["done"]) for t in (0, 1, 2) for n, k in ((3, 1), (4, 2), (4, 3))] +
  [J("topn.cpp", dict(n=3, k=2, type=t, stdout=1), covers=["done"]) for t in (0, 2)] +
  [J("topn.cpp", dict(n=3, k=2, type=0, mode=1, pos=p), covers=["done"]) for p in (0, 19)] +
  [J("topn.cpp", dict(n=3, k=3, type=0), covers=["refused"]), J("topn.cpp", dict(n=5, k=2), covers=["done"], cost=5), J("topn.cpp", dict(n=5, k=4), covers=["done"], cost=5, **TH)],
  "")

BASES = [(0, 0), (9500, 0), (99500, 0), (999500, 0), (9999500, 0), (99999500, 0), (999999500, 0), (2147482648, 0), (-1, 1), (-9500, 1), (-999999500, 1), (-2147482649, 1)]
P("C02",
  [J("text.cpp", dict(mode=0, type=t, sub=0, win=w), covers=["done"]) for t, ws in ((0, (0, 4, 8, 12, 16)), (1, (0, 4, 8, 12)), (2, (0, 4))) for w in ws] +
  [J("text.cpp", dict(mode=0, type=t, sub=1, base=b, neg=g, width=1000), covers=["done"], tier="quick thorough" if t == 0 else "thorough") for t in (0, 1, 2) for b, g in BASES],
  "")
P("C03",
  [J("text.cpp", dict(mode=1, type=t, win=w, form=f, digits=3), covers=["done"]) for t, ws in ((0, (0, 8, 16, 24, 32)), (1, (0, 8, 16, 24)), (2, (0, 8))) for w in ws for f in (1, 2)] +
  [J("text.cpp", dict(mode=3, type=2, win=w, form=f, digits=3), covers=["done"]) for w in (0, 8, 16, 32) for f in (1, 2)] +
  [J("text.cpp", dict(mode=1, type=t, win=0, form=1, digits=d, pre=p), covers=["done"]) for t in (0, 2) for d, p in ((1, 0), (2, 0), (4, 0), (3, 10), (3, 100000), (3, 2147483), (4, 214748), (3, 987654))] +
  [J("text.cpp", dict(mode=2, type=t, sub=0), covers=["refused"]) for t in (0, 1, 2)] +
  [J("text.cpp", dict(mode=2, type=t, sub=1), covers=["refused", "accepted"]) for t in (0, 1, 2)],
  "")
DIFF = ["src/diffutils.cpp"]
P("C15",
  [J("diff.cpp", dict(old=o, new=n, type=t, pos=p), src=DIFF, covers=c, tier=q) for o, n, t, p, c, q in
   ((0, 2, 0, 19, ["done"], Q), (1, 0, 0, 19, ["lost"], Q), (2, 2, 1, 15, ["done", "lost"], Q), (2, 4, 0, 0, ["done", "lost", "many"], Q), (3, 4, 0, 19, ["done", "lost", "many"], Q), (3, 3, 1, 7, ["done", "lost"], Q), (3, 5, 0, 19, ["done", "lost", "many"], Q), (4, 5, 0, 10, ["done", "lost", "many"], T), (3, 6, 1, 15, ["done", "lost", "many"], T))] +
  [J("diff.cpp", dict(old=o, new=n, type=t, pos=p, wide=1, base=b, neg=g, top=7 if b > 2147483639 else 9), src=DIFF, covers=["done", "lost"], tier=q) for o, n, t, p, b, g, q in
   ((1, 1, 0, 19, 0, 0, Q), (1, 2, 1, 0, 9, 1, Q), (2, 2, 0, 19, 65530, 0, Q), (2, 2, 1, 15, 2147483640, 0, Q), (2, 3, 0, 10, 2147483639, 1, Q), (2, 2, 0, 0, 250, 0, Q), (2, 2, 1, 3, 16777210, 0, Q), (3, 4, 0, 19, 99999, 1, T))] +
  [J("diff.cpp", dict(old=2, new=n, type=t, pos=p, pad=pad), src=DIFF, covers=["done", "lost"]) for n, t, p, pad in ((3, 0, 19, 2729), (4, 0, 19, 2728), (3, 0, 19, 5459), (3, 1, 15, 3275), (4, 1, 15, 3276))],
  "")
P("C16",
  [J("dupes.cpp", dict(n=n, bits=b, pos=p, pos2=q, type=t), covers=c, tier=g) for n, b, p, q, t, c, g in
   ((3, 64, 7, -1, 0, ["dupes", "none"], Q), (4, 64, 7, 0, 0, ["dupes", "none"], Q), (3, 32, 3, 4, 0, ["dupes", "none"], Q), (3, 37, 4, 0, 0, ["dupes", "none"], Q), (3, 40, 4, 5, 1, ["dupes", "none"], Q), (3, 63, 7, -1, 1, ["dupes", "none"], Q),
    (3, 33, 4, -1, 0, ["dupes", "none"], Q), (3, 64, 8, -1, 0, ["dupes"], Q), (4, 48, 5, 6, 0, ["dupes", "none"], T), (4, 57, 7, 1, 1, ["dupes", "none"], T))] +
  [J("dupes.cpp", dict(n=2, bits=b, pos=7, ones=1, type=t), covers=["dupes"]) for b in (64, 56, 32) for t in (0, 1)] +
  [J("dupes.cpp", dict(n=3, bits=b, pos=0, ones=1, type=t, pad=p), covers=["dupes", "none"]) for b, p, t in ((64, 2729, 0), (32, 3275, 1))] +
  [J("dupes.cpp", dict(n=3, bits=b, pos=4, pos2=3, sorted=1), covers=["dupes", "none"]) for b in (32, 36)],
  "")
P("C14",
  [J("convert.cpp", dict(mode=0, n=n, pad=pad, limit=l, type=t, win=w, digits=d, crlf=c, eof=e, stdio=s), covers=["done"], tier=q) for n, pad, l, t, w, d, c, e, s, q in
   ((1, 0, -1, 0, 0, 1, 0, 1, 0, Q), (2, 0, -1, 0, 17, 2, 0, 1, 1, Q), (1, 0, -1, 0, 37, 3, 1, 1, 0, Q), (1, 1, -1, 1, 0, 2, 0, 0, 1, Q), (1, 1, 1, 1, 29, 2, 1, 0, 0, Q), (2, 0, 0, 0, 0, 2, 0, 1, 0, Q), (1, 1, 5, 0, 20, 4, 0, 1, 0, Q),
    (1, 999, -1, 0, 3, 2, 0, 1, 0, Q), (1, 1000, -1, 1, 3, 2, 1, 0, 1, Q), (2, 170, 170, 0, 3, 1, 0, 1, 0, Q), (2, 2, -1, 0, 11, 3, 0, 1, 0, T), (1, 2000, -1, 0, 3, 2, 0, 1, 0, T))] +
  [J("convert.cpp", dict(mode=1, n=n, pad=pad, limit=l, type=t, pos=p, base=b, neg=g, stdio=s), covers=["done"], tier=q) for n, pad, l, t, p, b, g, s, q in
   ((1, 0, -1, 0, 0, 0, 0, 0, Q), (1, 0, -1, 0, 19, 2147483392, 0, 1, Q), (1, 1, 1, 0, 8, 950, 0, 0, Q), (1, 1, -1, 1, 15, 99900, 0, 0, Q), (1, 1, 0, 1, 0, 0, 0, 1, Q), (1, 0, -1, 0, 5, -1, 1, 0, Q), (1, 0, -1, 1, 5, -2147483393, 1, 0, Q),
    (1, 169, -1, 0, 9, 0, 0, 0, Q), (1, 170, -1, 0, 9, 0, 0, 0, Q), (1, 204, -1, 1, 9, 0, 0, 1, Q), (1, 340, 341, 0, 9, 0, 0, 0, Q), (1, 340, 340, 0, 9, 0, 0, 0, T), (2, 0, -1, 0, 9, 0, 0, 0, T))],
  "")
P("C13",
  [J("sort.cpp", dict(n=n, chunk=c, type=t, pos=p, cnt=k, cpos=cp, stale=s), covers=["done"], tier=q) for n, c, t, p, k, cp, s, q in
   ((3, 9, 0, 0, 0, 0, 0, Q), (3, 1, 0, 19, 0, 0, 1, Q), (4, 2, 1, 15, 0, 0, 0, Q), (4, 3, 0, 7, 0, 0, 0, Q), (4, 4, 2, 7, 0, 0, 1, Q), (4, 1, 2, 0, 0, 0, 0, Q), (3, 3, 0, 3, 1, 3, 0, Q), (4, 2, 0, 19, 1, 0, 0, Q), (4, 3, 1, 0, 1, 3, 0, Q), (3, 1, 1, 0, 1, 1, 1, Q),
    (5, 2, 0, 11, 0, 0, 0, Q), (5, 3, 1, 3, 0, 0, 0, Q), (1, 1, 0, 0, 0, 0, 0, Q), (5, 2, 0, 9, 1, 3, 0, T), (6, 2, 0, 9, 0, 0, 0, T), (6, 4, 1, 0, 0, 0, 0, T))] +
  [J("sort.cpp", dict(n=0, chunk=2, type=t), covers=["done"]) for t in (0, 1)] +
  [J("sort.cpp", dict(n=2, chunk=c, slack=s, mayrefuse=1, type=t), covers=["refused" if c == 0 else "done"]) for c, s, t in ((0, 0, 0), (0, 19, 1), (1, 5, 0), (1, 19, 1))] +
  [J("sort.cpp", dict(n=n, app=1, type=t, cnt=k, pos=5, cpos=3), covers=["done"]) for n, t, k in ((3, 0, 0), (4, 1, 0), (3, 0, 1), (3, 1, 1), (0, 0, 0))] +
  [J("sort.cpp", dict(n=2, app=1, mb=m, mayrefuse=1), covers=["refused" if m == 0 else "done"]) for m in (0, 1)] +
  [J("sort.cpp", dict(n=n, chunk=c, type=t, pos=p, eq=1, cnt=k), covers=["done"], tier=q) for n, c, t, p, k, q in ((4, 1, 0, 19, 0, Q), (5, 1, 1, 0, 0, Q), (5, 2, 0, 7, 1, Q), (4, 9, 2, 7, 0, Q), (6, 2, 1, 15, 0, Q), (7, 2, 0, 0, 0, T), (6, 1, 0, 0, 0, T))] +
  [J("sort.cpp", dict(n=2, pad=p, chunk=c, type=t, pos=q, cnt=k), covers=["done"]) for p, c, t, q, k in ((1003, 1001, 0, 3, 0), (1998, 1000, 1, 0, 0), (18, 15, 0, 0, 0), (18, 17, 1, 1, 1), (30, 1, 0, 0, 0))],
  "")
SRCH = ["src/toc.cpp", "src/ntlm.cpp", "src/md4.c"]
FAKE = ["-I" + __import__("os").path.dirname(__import__("os").path.abspath(__file__)) + "/harness/fake"]


P("C07",
  [J("search.cpp", dict(n=n, pos=p, pos2=p2, n2=n2, type=t, cnt=c), src=SRCH, flags=FAKE, covers=["found", "absent"], tier=q) for n, p, p2, n2, t, c, q in
   ((1, 0, -1, 0, 0, 0, Q), (3, 0, 19, 0, 0, 0, Q), (3, 19, -1, 0, 0, 1, Q), (4, 5, -1, 0, 0, 0, Q), (2, 0, 15, 1, 1, 0, Q), (4, 15, -1, 0, 1, 0, Q), (3, 7, 0, 0, 2, 1, Q), (4, 4, -1, 0, 2, 0, Q), (6, 8, -1, 0, 0, 0, Q), (5, 3, 12, 1, 0, 0, T), (7, 2, -1, 0, 1, 0, T))] +
  [J("search.cpp", dict(n=2, pos=7, pad=p, type=t, few=1), src=SRCH, flags=FAKE, covers=["found", "absent"]) for p, t in ((169, 0), (171, 0), (203, 1), (340, 2), (500, 0))] +
  [J("search.cpp", dict(n=1, pos=7, pad=p, inpad=i, type=t), src=SRCH, flags=FAKE, covers=["found"]) for p, i, t in ((400, 0, 0), (400, 170, 0), (400, 169, 0), (400, 399, 0), (410, 204, 1), (700, 341, 2))] +
  [J("search.cpp", dict(n=3, mode=1, pos=p, lead=l, len=m, type=t), src=SRCH, flags=FAKE, covers=["found", "absent"]) for p, l, m, t in ((0, 0, 1, 0), (2, 2, 1, 0), (0, 0, 1, 2), (1, 0, 2, 2))] +
  [J("search.cpp", dict(n=3, mode=2, pos=p, type=1), src=SRCH, flags=FAKE, covers=["found", "absent"]) for p in (0, 15)] +
  [J("search.cpp", dict(n=3, pos=p, toc=20, runs=r, type=t), src=SRCH, flags=FAKE, covers=["found", "absent"]) for p, r, t in ((3, 2, 0), (15, 1, 1), (7, 2, 2))],
  "")
TOC = ["src/toc.cpp"]
P("C08",
  [J("toc.cpp", dict(n=n, bits=b, type=t, maxp=m, times=k, tail=l, buf=bu), src=TOC, covers=["found", "absent"], tier=q) for n, b, t, m, k, l, bu, q in
   ((1, 20, 0, 1, 1, 0, 1, Q), (2, 20, 0, 2, 1, 0, 2, Q), (3, 15, 0, 2, 1, 0, 1, Q), (3, 16, 1, 2, 2, 0, 2, Q), (3, 20, 2, 2, 1, 0, 3, Q), (3, 25, 0, 2, 1, 0, 1, Q), (3, 24, 1, 1, 1, 0, 2, Q), (3, 17, 0, 2, 1, 1, 9, Q), (3, 8, 0, 2, 1, 0, 2, Q), (2, 20, 0, 0, 2, 0, 1, Q),
    (4, 20, 0, 3, 1, 0, 2, T), (4, 18, 1, 2, 1, 0, 2, T), (4, 22, 2, 3, 1, 1, 1, T))] +
  [J("toc.cpp", dict(n=n, bits=b, type=t, maxp=0, basep=n - 2, dense=1, buf=2), src=TOC, covers=["found", "absent"]) for n, b, t in ((5, 20, 0), (6, 15, 1), (5, 25, 2))] +
  [J("toc.cpp", dict(n=n, bits=b, maxp=0, basep=(1 << b) - 1, dense=1, buf=2), src=TOC, covers=["found", "absent"]) for n, b in ((4, 2), (5, 2), (8, 3))],
  "")
P("C09",
  [J("toc.cpp", dict(mode=m, n=n, bits=b, type=t, maxp=p, ticks=k), src=TOC, covers=c) for n, b, t, p, k in ((2, 20, 0, 1, 20), (2, 20, 1, 1, 20), (3, 15, 2, 2, 20)) for m, c in ((1, ["crashed", "found"]), (2, ["found", "absent"]), (3, ["found", "absent"]), (4, ["cut", "found"]), (5, ["failed", "found"]))],
  "")
P("C10",
  [J("hash.cpp", dict(type=t, lo=l, hi=h, win=w, w=k), src=SRCH, flags=FAKE, covers=c) for t, l, h, w, k, c in
   ((0, 0, 43, 0, 2, ["valid", "invalid"]), (1, 0, 35, 0, 2, ["valid", "invalid"]), (2, 0, 43, 0, 2, ["valid", "invalid"]), (0, 40, 40, 0, 40, ["valid", "invalid"]), (1, 32, 32, 0, 32, ["valid", "invalid"]), (2, 16, 16, 0, 16, ["valid", "invalid"]), (0, 39, 41, 38, 3, ["valid", "invalid"]))] +
  [J("hash.cpp", dict(app=1, type=t, lo=l, hi=h, win=w, w=k), src=SRCH, flags=FAKE, covers=["valid", "invalid"]) for t, l, h, w, k in
   ((0, 38, 42, 0, 1), (1, 30, 34, 31, 1), (2, 14, 18, 15, 1), (0, 40, 40, 18, 2), (1, 31, 33, 5, 2), (2, 16, 16, 7, 2), (2, 16, 16, 0, 2))],
  "")
NT = ["src/ntlm.cpp", "src/md4.c"]
P("C11",
  [J("utf16.cpp", dict(n=n), src=["src/ntlm.cpp"], covers=["done"], tier=q) for n, q in ((0, Q), (1, Q), (2, Q), (3, T))] +
  [J("ntlm.cpp", dict(kind=k, lo=l, hi=h, pos=p, base=b), src=NT, covers=["done"]) for k, l, h, p, b in
   ((1, 1, 3, 0, 0), (1, 5, 6, -1, 0), (1, 25, 28, -1, 0), (1, 27, 29, 0, 0), (1, 30, 33, 29, 0), (1, 32, 34, -1, 0), (1, 59, 61, 58, 0), (1, 63, 65, -1, 0), (1, 127, 129, -1, 0), (1, 150, 151, 140, 0), (1, 256, 257, 3, 0), (2, 27, 28, 26, 0x780), (3, 28, 29, -1, 0xD750), (3, 31, 32, -1, 0xFF00), (4, 26, 27, -1, 0x10000), (4, 27, 28, -1, 0x10FF00), (4, 31, 31, 30, 0x1F600))] +
  [J("ntlm.cpp", dict(mode=1, lo=l, hi=h, pos=p, cuts=c, step=s), src=NT, covers=["done"], tier=q) for l, h, p, c, s, q in
   ((0, 2, 0, 1, 1, Q), (63, 65, 5, 1, 32, Q), (66, 66, 63, 1, 1, Q), (130, 130, 129, 1, 13, Q), (128, 128, 100, 2, 32, Q), (129, 129, 128, 2, 43, Q), (119, 121, 118, 1, 60, Q), (191, 193, 190, 1, 64, Q), (255, 257, 254, 1, 256, Q), (300, 300, 299, 1, 150, Q), (320, 320, 311, 1, 32, Q), (512, 513, 511, 1, 256, Q), (330, 330, 325, 2, 11, T), (700, 700, 680, 1, 7, T), (140, 140, 0, 2, 20, T), (66, 66, 0, 2, 11, T))],
  "")
TOOL = lambda t: ["-DTOOL=%d" % t]
P("C17",
  [J("iofail.cpp", dict(n=n, type=t, fault=f, sym=s, **kw), flags=TOOL(0), covers=c) for n, t, f, s, c, kw in
   ((3, 0, 0, 1, ["failed", "survived"], {}), (3, 1, 0, 1, ["failed", "survived"], {}), (3, 2, 0, 1, ["failed", "survived"], {}), (3, 0, 1, 1, ["failed", "survived"], {}), (3, 2, 2, 1, ["survived"], {}), (1002, 0, 0, 0, ["failed", "survived"], dict(step=1201)), (3300, 0, 1, 0, ["failed"], dict(reads=3)))] +
  [J("iofail.cpp", dict(n=n, type=t, fault=f, sym=s, mode=m, stdout=so, **kw), flags=TOOL(1), covers=c) for n, t, f, s, m, so, c, kw in
   ((2, 0, 0, 2, 0, 0, ["failed", "survived"], {}), (2, 1, 0, 2, 0, 1, ["failed", "survived"], {}), (2, 0, 1, 1, 0, 0, ["failed", "survived"], {}), (2, 1, 2, 1, 0, 0, ["survived"], {}), (2, 0, 3, 1, 0, 0, ["failed"], dict(stdin=1)),
    (2, 0, 0, 1, 1, 0, ["failed", "survived"], {}), (2, 1, 0, 1, 1, 1, ["failed", "survived"], {}), (2, 0, 1, 1, 1, 0, ["failed", "survived"], {}), (2, 1, 2, 1, 1, 0, ["survived"], {}),
    (1003, 0, 0, 0, 0, 0, ["failed", "survived"], dict(step=1200)), (1003, 1, 0, 0, 0, 1, ["failed", "survived"], dict(step=1100)), (250, 0, 0, 0, 1, 0, ["failed", "survived"], dict(step=601)), (250, 1, 0, 0, 1, 1, ["failed", "survived"], dict(step=601)), (420, 0, 1, 0, 0, 0, ["failed", "survived"], {}), (420, 0, 1, 0, 1, 0, ["failed", "survived"], {}))] +
  [J("iofail.cpp", dict(n=n, type=t, fault=f, sym=s, mode=m, **kw), flags=TOOL(2), covers=c) for n, t, f, s, m, c, kw in
   ((3, 0, 0, 1, 1, ["failed", "survived"], {}), (2, 1, 0, 1, 0, ["failed", "survived"], dict(inhash=1)), (3, 1, 1, 1, 1, ["failed", "survived"], {}), (3, 0, 2, 1, 1, ["survived"], {}), (1002, 1, 0, 0, 1, ["failed", "survived"], dict(step=1709)))] +
  [J("iofail.cpp", dict(n=n, fault=f, sym=s, chunk=k, inhash=1, **kw), flags=TOOL(5), covers=["survived" if f == 2 else "failed"]) for n, f, s, k, kw in
   ((3, 0, 1, 2, {}), (3, 1, 0, 1, dict(reads=16)), (4, 2, 0, 2, dict(reads=16)), (2003, 0, 0, 1001, dict(step=9001)), (2003, 1, 0, 1001, dict(reads=30)))] +
  [J("iofail.cpp", dict(n=n, type=t, fault=f, sym=s, extra=x, **kw), flags=TOOL(3), src=DIFF, covers=c) for n, t, f, s, x, c, kw in
   ((3, 0, 0, 1, 2, ["failed", "survived"], {}), (2, 1, 0, 1, 0, ["failed", "survived"], {}), (3, 0, 1, 1, 1, ["failed", "survived"], {}), (3, 1, 2, 0, 1, ["survived"], {}), (120, 0, 0, 0, 110, ["failed", "survived"], dict(step=503)), (3300, 0, 1, 0, 1, ["failed", "survived"], {}))] +
  [J("iofail.cpp", dict(n=n, type=t, fault=f, sym=s, **kw), flags=TOOL(4), covers=c) for n, t, f, s, c, kw in
   ((3, 0, 0, 1, ["failed", "survived"], dict(step=3)), (3, 1, 1, 1, ["failed", "survived"], {}), (3, 0, 2, 1, ["survived"], {}), (3300, 0, 1, 0, ["failed", "survived"], {}))] +
  # a write that fails once, the later ones succeed; and a failing write that is the last one of a large file
  [J("iofail.cpp", dict(n=n, type=t, fault=4, sym=s, **kw), flags=TOOL(k), covers=["failed", "survived"]) for k, n, t, s, kw in
   ((0, 3, 1, 1, {}), (0, 1003, 0, 0, dict(step=3001)), (1, 2, 0, 1, {}), (1, 2, 1, 1, dict(mode=1)), (1, 2100, 0, 0, dict(step=12001)), (1, 700, 1, 0, dict(mode=1, step=5003)), (2, 3, 0, 1, dict(mode=1)), (2, 1003, 1, 0, dict(mode=1, step=5001)), (5, 4, 0, 1, dict(chunk=2, inhash=1)), (5, 2003, 0, 0, dict(chunk=1001, step=20001)))] +
  [J("iofail.cpp", dict(n=n, type=t, fault=0, sym=0, **kw), flags=TOOL(k), covers=["failed", "survived"]) for k, n, t, kw in
   ((0, 1001, 0, dict(step=5000)), (1, 1000, 0, dict(step=5000)), (1, 1000, 1, dict(step=5000, stdout=1)), (2, 1000, 0, dict(step=5000)), (5, 2000, 0, dict(chunk=1000, step=17000)))],
  "")
DNL = ["src/dnl/queuemgt.cpp", "src/dnl/requests.cpp", "src/dnl/resume.cpp", "src/dnl/shared.cpp"]
def D(covers, preempt=0, tier=Q, **p):
    return J("dnl.cpp", p, src=DNL, covers=covers.split(), preempt=preempt, tier=tier)
P("C18",
  [J("noover.cpp", dict(n=n, old=o, type=t), flags=TOOL(0), covers=["refused", "written"]) for n, o, t in ((2, 0, 0), (2, 5, 1), (3, 200, 0), (2, 24, 0))] +
  [J("noover.cpp", dict(n=n, old=o, type=t, mode=m), flags=TOOL(1), covers=["refused", "written"]) for n, o, t, m in ((1, 0, 0, 0), (1, 5, 1, 0), (1, 300, 0, 0), (1, 0, 0, 1), (1, 43, 0, 1), (1, 300, 1, 1))] +
  [J("noover.cpp", dict(n=0, old=o, type=t, mode=m, pause=0, order=0), flags=TOOL(2), src=DNL, covers=["refused", "written"], preempt=0) for o, t, m in ((0, 0, 0), (5, 1, 0), (24, 2, 0), (300, 0, 1), (44, 1, 1))],
  "")
P("C19",
  [D("complete", 2, n=2, lines=2, par=2, syms=0), D("complete", 1, n=2, lines=2, par=2, type=1), D("complete", 2, n=2, lines=1, par=1), D("complete", 1, n=3, lines=1, par=3, syms=0), D("complete", 1, n=3, lines=1, par=2, syms=0, type=2),
   D("complete", 1, n=2, lines=2, par=2, shared=0, text=1), D("complete", 0, n=3, lines=2, par=3, shared=0, syms=0, uneven=1), D("complete", 0, n=3, lines=2, par=3, empty=1, syms=0), D("complete", 0, n=3, lines=1, par=3, empty=0, syms=0),
   D("complete", 0, n=4, lines=1, par=4, syms=0, pause=0), D("complete", 0, n=4, lines=1, par=2, syms=0, pause=0), D("complete", 0, n=4, lines=1, par=3, syms=0, pause=0, shared=0), D("complete", 0, n=2, lines=2, par=2, pieces=1, syms=0),
   D("complete", 0, n=17, lines=1, par=5, syms=0, pause=0, order=0), D("complete", 1, n=2, lines=1, par=2, progress=1, syms=0), D("complete", 1, n=2, lines=1, par=2, debug=1, syms=0),
   D("complete", 0, n=5, lines=1, par=3, syms=0, pause=0, tier=T), D("complete", 2, n=3, lines=1, par=3, syms=0, tier=T), D("complete", 3, n=2, lines=1, par=2, syms=0, tier=T)],
  "")
P("C20",
  [D("complete", 1, n=2, lines=1, par=2, syms=0, fails=1), D("complete", 0, n=1, lines=2, par=1, fails=5, order=0, pause=0, syms=0), D("complete", 0, n=2, lines=2, par=2, fails=2, order=0, pause=0, syms=0), D("complete", 0, n=2, lines=2, par=2, fails=2, order=0, pause=0, syms=0, text=1, symfails=0),
   D("complete", 0, n=2, lines=1, par=2, syms=0, fails=2, pause=0, type=1, symfails=1), D("complete", 0, n=2, lines=2, par=1, fails=1, pieces=1, type=2, syms=1, pause=0), D("complete", 0, n=2, lines=1, par=2, fails=1, shared=0, pause=0), D("complete", 0, n=2, lines=1, par=2, fails=1, partial=0, pause=0, debug=1, syms=0),
   D("failed", 0, n=1, lines=2, par=1, hard=0, syms=0), D("failed", 0, n=3, lines=1, par=2, hard=1, syms=0, order=0), D("failed", 0, n=2, lines=2, par=2, hard=1, text=1, syms=0, pause=0), D("complete", 0, n=3, lines=1, par=3, syms=0, fails=1, pause=0, tier=T), D("complete", 1, n=2, lines=1, par=2, syms=0, fails=2, pause=0, tier=T)],
  "")
P("C21",
  [D("complete refused", 0, mode=1, n=3, have=2, lines=2, order=0, type=0, syms=0), D("complete refused", 0, mode=1, n=3, have=2, lines=2, order=0, type=1, pause=0), D("complete refused", 0, mode=1, n=3, have=2, lines=2, order=0, type=2, pause=0), D("complete refused", 0, mode=1, n=3, have=3, lines=2, order=0, type=0, syms=0, pause=0, uneven=1),
   D("complete refused", 0, mode=1, n=2, have=3, lines=2, order=0, type=2, syms=0), D("complete refused", 0, mode=1, n=3, have=2, lines=2, order=0, type=0, syms=0, dup=1, pause=0), D("complete refused", 0, mode=1, n=3, have=2, lines=1, order=0, type=1, syms=0, eol=0, last=0, pause=0), D("complete refused", 0, mode=1, n=3, have=2, lines=2, order=0, type=2, syms=0, eol=0, pause=0, empty=1),
   D("complete refused", 0, mode=1, n=3, have=2, lines=2, order=0, type=0, syms=0, syncfails=1, again=1), D("complete refused", 0, mode=1, n=3, have=2, lines=2, order=0, type=2, syms=0, hard=1, again=1, symfails=1, pause=0), D("complete refused", 0, mode=1, n=3, have=2, lines=2, order=0, type=0, syms=0, hard=2, again=1, symfails=0, pause=0, cstep=2),
   D("complete refused", 0, mode=1, n=3, have=2, lines=2, order=0, type=1, syms=0, budget=4, again=1, cstep=3, pause=0), D("complete refused", 0, mode=1, n=3, have=2, lines=2, order=0, type=1, base=1048573, nolimit=1), D("complete refused", 0, mode=1, n=3, have=1, lines=2, order=0, type=0, base=4094, syms=0, pause=0), D("complete refused", 0, mode=1, n=3, have=2, lines=3, order=0, type=2, base=703709, syms=0, pause=0),
   D("complete refused killed", 0, mode=2, n=2, lines=2, order=0, type=0, syms=0), D("complete refused killed", 0, mode=2, n=2, lines=2, order=0, type=2, syms=0, step=1, pause=0), D("complete refused", 0, mode=1, n=3, have=2, lines=2, par=2, type=0, syms=0, fails=1, pause=0, cstep=8), D("complete refused", 0, mode=1, n=4, have=3, lines=3, order=0, type=0, pause=0, tier=T), D("complete refused", 1, mode=1, n=3, have=2, lines=2, type=2, syms=0, cstep=5, tier=T)] +
  [D("complete refused", 0, mode=1, n=2, have=2, lines=2, order=0, type=t, syms=0, pause=0, vary=q) for t, q in ((0, 39), (0, 13), (0, 26), (1, 31), (1, 20), (2, 15), (2, 12))] +
  [D("complete refused", 0, mode=1, n=2, have=2, lines=2, order=0, type=t, syms=0, pause=0, vary=q, tier=T) for t in (0, 1, 2) for q in range(5, (40, 32, 16)[t]) if (t, q) not in ((0, 39), (0, 13), (0, 26), (1, 31), (1, 20), (2, 15), (2, 12))],
  "")
P("C22",
  [D("complete" if k else "refused", 0, n=n, lines=1, par=k, syms=0, pause=0, type=t) for n, k, t in ((1, 1, 0), (2, 1, 1), (3, 2, 2), (3, 300, 0), (4, 2, 1), (2, 0, 0), (0, 3, 0), (0, 0, 1), (4, 4, 0))] +
  [D("complete", 1, n=3, lines=1, par=2, syms=0, type=1), D("complete", 0, n=35, lines=1, par=7, syms=0, pause=0, order=0), D("complete", 0, n=20, lines=1, par=19, syms=0, pause=0, order=0, type=1), D("complete", 0, n=2, lines=1, par=2, syms=0, testing=1), D("complete", 0, n=2, lines=1, par=2, syms=0, testing=1, type=1), D("complete", 0, n=3, lines=1, par=2, syms=0, text=1),
   D("complete refused", 0, mode=1, n=3, have=2, lines=1, order=0, base=1048573, nolimit=1, syms=0, testing=1), D("complete refused", 0, mode=1, n=4, have=1, lines=1, order=0, par=2, base=1044477, syms=0, type=1), D("failed", 0, n=2, lines=1, par=2, over=1, order=0, syms=0), D("complete", 0, n=5, lines=1, par=3, syms=0, pause=0, tier=T), D("complete", 0, n=400, lines=1, par=300, syms=0, pause=0, order=0, tier=T)],
  "")
P("C23",
  [D("failed", 1, n=2, lines=1, par=2, hard=1, order=0, syms=0, symfails=0), D("failed", 2, n=1, lines=1, par=1, hard=0, order=0, syms=0, symfails=0), D("failed", 0, n=3, lines=2, par=3, hard=1, syms=0, symfails=0, pause=0, type=1), D("failed", 0, n=2, lines=2, par=2, hard=0, syms=0, symfails=1, text=1),
   D("failed", 2, n=2, lines=2, par=2, badp=0, badl=1, syms=0), D("failed", 1, n=3, lines=2, par=2, badp=1, badl=0, syms=0, type=1, pos=6), D("failed", 1, n=3, lines=1, par=1, badp=0, badl=0, syms=0, type=2, pos=15), D("failed", 0, n=3, lines=2, par=3, badp=2, badl=1, syms=0, pos=39), D("failed", 2, n=1, lines=1, par=1, badp=0, badl=0, syms=0), D("failed", 0, n=2, lines=2, par=2, badp=1, badl=1, syms=0, debug=1),
   D("failed complete", 0, n=2, lines=2, par=2, syms=0, budget=1, order=0), D("failed complete", 1, n=2, lines=2, par=1, syms=0, budget=9, text=1), D("failed complete", 0, n=2, lines=2, par=2, syms=0, budget=2, order=0, text=1, type=1), D("failed complete", 1, n=2, lines=1, par=2, syms=0, budget=11, type=2),
   D("failed complete", 0, n=3, lines=100, par=3, syms=0, budget=4001, text=1, order=0), D("failed", 0, n=2, lines=2, par=2, syms=0, budget=6, badp=1, order=0), D("failed complete", 0, n=2, lines=5100, par=2, syms=0, budget=40000, order=0, pause=0, tier=T), D("failed", 2, n=2, lines=1, par=2, hard=0, order=0, syms=0, symfails=0, tier=T)],
  "")
P("C24",
  [D("complete", 0, n=2, lines=2, par=2, type=t, text=x, eol=e, last=l, blank=b, pos=p, order=0) for t, x, e, l, b, p in
   ((0, 0, 1, 1, 0, 5), (1, 0, 1, 0, 1, 31), (2, 0, 1, 0, 2, 15), (0, 1, 1, 0, 2, 6), (1, 1, 1, 1, 1, 30), (0, 0, 0, 0, 1, 39), (0, 1, 0, 0, 0, 20), (2, 0, 0, 1, 0, 5), (1, 0, 0, 0, 0, 8), (2, 1, 0, 0, 2, 39), (0, 0, 1, 1, 2, 22))] +
  [D("complete", 0, n=2, lines=3, par=2, type=t, text=x, pieces=1, syms=2) for t, x in ((0, 0), (1, 1), (2, 0))] +
  [D("complete", 0, n=1, lines=2, par=1, type=t, text=x, pos=p, syms=2) for t, x in ((0, 0), (0, 1), (1, 0), (1, 1), (2, 0)) for p in (5, 9, 14)] +
  [D("complete", 0, n=2, lines=2, par=2, type=t, text=x, small=1, syms=2, order=0, pause=0, **kw) for t, x, kw in ((0, 0, {}), (0, 1, {}), (1, 1, dict(eol=0)), (1, 0, {}), (2, 0, dict(last=1)))] +
  [D("complete", 0, n=2, lines=300, par=2, type=t, text=x, pause=0, order=0) for t, x in ((0, 0), (1, 1), (2, 0))],
  "")
SRV = ["src/srv/server.cpp"] + SRCH
def SV(covers, preempt=0, tier=Q, **p):
    return J("server.cpp", p, src=SRV, flags=FAKE, covers=covers.split(), preempt=preempt, tier=tier)
P("C25",
  [SV("found absent bad notfound" if d else "refused", dbs=d, n=2, banner=1) for d in range(8)] +
  [SV("found absent bad notfound", dbs=7, n=2, json=1, symcnt=1), SV("found absent bad notfound", dbs=7, n=3, lens=1, deep=1), SV("found absent bad notfound", dbs=5, n=1, lens=1, json=1), SV("found absent bad notfound", dbs=6, n=4), SV("absent bad notfound", dbs=7, n=0), SV("found absent bad notfound", dbs=7, n=2, sub=1),
   SV("found absent bad notfound", dbs=7, n=1, pw=1), SV("found absent bad notfound", dbs=7, n=1, reqs=2), SV("found absent bad", dbs=7, n=2, reqs=3, fmts=121), SV("found absent bad", dbs=7, n=2, reqs=2, fmts=33), SV("found absent bad notfound", dbs=7, n=1, pad=700, reqs=2, sub=1),
   SV("found absent bad notfound", dbs=7, n=2, toc=20), SV("found absent bad", dbs=7, n=2, toc=15, reqs=2, fmts=21), SV("found absent bad", dbs=7, n=2, toc=18, reqs=2, fmts=33, pad=500), SV("found absent bad notfound", dbs=3, n=2, toc=16, json=1),
   SV("found absent bad", 1, dbs=7, n=2, threads=2, reqs=2, fmts=11), SV("found absent bad", 1, dbs=7, n=1, threads=2, reqs=2, fmts=22, pad=200), SV("found absent bad", 1, dbs=7, n=1, threads=2, reqs=2, fmts=33, toc=20), SV("found absent bad", 1, dbs=7, n=1, threads=2, reqs=2, fmts=31, pad=200), SV("found absent bad", 1, dbs=7, n=1, threads=2, reqs=2, fmts=20), SV("found absent bad", 1, dbs=7, n=1, threads=2, reqs=3, fmts=111, tier=T), SV("found absent bad notfound", 1, dbs=7, n=1, threads=3, reqs=3, tier=T, pad=100), SV("found absent bad notfound", dbs=7, n=1, reqs=3, tier=T)],
  "")
# the constant bytes of the hashes all zero or all ones (sentinels, sign extension), on some of the jobs of each property
def FILL(id, pick, **kw):
    PROPS[id]["jobs"] += [dict(j, p=dict(j["p"], fill=f, **kw)) for k, j in enumerate(list(PROPS[id]["jobs"])) if k in pick for f in (0, 255)]
FILL("C02", (0, 5, 9))
FILL("C03", (0, 10, 19))
FILL("C04", (0, 4, 5))
FILL("C12", (0, 3, 6))
FILL("C13", (0, 2, 4, 6))
FILL("C14", (0, 3, 12, 15))
FILL("C15", (2, 3))
FILL("C16", (0, 4))
FILL("C25", (15, 17))
PROPS["C25"]["jobs"] += [SV("found absent bad", dbs=7, n=2, reqs=2, fmts=k, fill=f, pos=p) for k, f, p in ((11, 0, 19), (22, 0, 15), (33, 0, 7), (12, 255, 7))]
def R(covers, preempt=0, tier=Q, **p):
    return dict(D(covers, preempt, tier, **p), race=1)
def RS(covers, preempt=0, tier=Q, **p):
    return dict(SV(covers, preempt, tier, **p), race=1)
P("C26",
  [R("complete", 1, n=2, lines=1, par=2, debug=1, syms=0), R("complete", 1, n=2, lines=1, par=2, progress=1, syms=0), R("complete", 2, n=1, lines=1, par=1, debug=1, syms=0), R("complete", 1, n=2, lines=1, par=2, syms=0, type=1, text=1), R("complete", 0, n=3, lines=1, par=2, syms=0, type=2),
   R("complete", 0, n=3, lines=1, par=3, debug=1, order=0, syms=0, shared=0), R("complete", 0, n=2, lines=1, par=2, syms=0, fails=1), R("failed", 1, n=2, lines=1, par=2, hard=1, order=0, syms=0, symfails=0), R("failed", 1, n=2, lines=1, par=2, hard=1, order=0, syms=0, symfails=0, debug=1, progress=1),
   R("failed", 1, n=2, lines=1, par=2, badp=0, badl=0, syms=0, debug=1), R("failed complete", 0, n=2, lines=1, par=2, syms=0, budget=9, order=0, progress=1), R("complete refused", 0, mode=1, n=3, have=2, lines=1, order=0, syms=0, cstep=8, debug=1),
   R("complete", 2, n=2, lines=1, par=2, debug=1, syms=0, tier=T), R("failed", 2, n=2, lines=1, par=2, badp=0, badl=0, syms=0, debug=1, tier=T)] +
  [RS("found absent bad", 1, dbs=7, n=1, threads=2, reqs=2, fmts=k, **kw) for k, kw in ((11, {}), (22, dict(pad=200)), (33, dict(toc=20)), (12, {}))] +
  [RS("found absent", 1, dbs=7, n=1, threads=2, reqs=2, fmts=0), RS("found absent", 1, dbs=2, n=1, threads=2, reqs=2, fmts=0, pw=1)] + [RS("found absent bad notfound", 1, dbs=7, n=1, threads=2, reqs=3, tier=T), RS("found absent bad", 0, dbs=7, n=1, threads=3, reqs=3, fmts=321)],
  "")
import texts
for _i, (_b, _o) in texts.T.items():
    PROPS[_i]["bounds"], PROPS[_i]["outside"] = _b, _o + " " + texts.COMMON_OUT
