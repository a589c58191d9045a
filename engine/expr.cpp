#include "expr.h"
#include <algorithm>
#include <cassert>
#include <cstdlib>
#include <cstdio>

std::vector<VarInfo> g_vars;
u64                  g_nexprs = 0;

namespace {
struct Key {
  u32 w; Kind k; u32 aux; E a, b, c; u128 v;
  bool operator==(const Key& o) const {
    return w == o.w && k == o.k && aux == o.aux && a == o.a && b == o.b && c == o.c && v == o.v;
  }
};
struct KeyHash {
  size_t operator()(const Key& k) const {
    u64 h = 1469598103934665603ull;
    auto mix = [&](u64 x) { h ^= x; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; };
    mix(k.w | ((u64)k.k << 32)); mix(k.aux); mix((u64)k.a); mix((u64)k.b); mix((u64)k.c);
    mix((u64)k.v); mix((u64)(k.v >> 64));
    return h;
  }
};
std::unordered_map<Key, Expr*, KeyHash> table;

E intern(Kind k, u32 w, u32 aux, E a, E b, E c, u128 v) {
  Key key{w, k, aux, a, b, c, v};
  auto it = table.find(key);
  if (it != table.end()) return it->second;
  Expr* e = new Expr();
  e->id = (u32)g_nexprs++;
  e->w = w; e->k = k; e->aux = aux; e->a = a; e->b = b; e->c = c; e->v = v;
  table.emplace(key, e);
  return e;
}
inline bool isC(E e) { return e->k == K_CONST; }
inline bool isZero(E e) { return e->k == K_CONST && e->v == 0; }
inline bool isOnes(E e) { return e->k == K_CONST && e->v == maskOf(e->w); }
} // namespace

E mkConst(u128 v, u32 w) { return intern(K_CONST, w, 0, 0, 0, 0, v & maskOf(w)); }

E mkVar(const std::string& name, u32 w) {
  static std::map<std::string, E> byName;
  auto it = byName.find(name);
  if (it != byName.end()) return it->second;
  g_vars.push_back({name, w});
  E e = intern(K_VAR, w, (u32)g_vars.size() - 1, 0, 0, 0, 0);
  byName[name] = e;
  return e;
}
E mkFresh(const std::string& base, u32 w) {
  static u64 n = 0;
  return mkVar(base + "!" + std::to_string(n++), w);
}

u128 evalBin(Kind k, u32 w, u128 a, u128 b) {
  u128 m = maskOf(w);
  switch (k) {
  case K_AND: return a & b;
  case K_OR: return a | b;
  case K_XOR: return a ^ b;
  case K_ADD: return (a + b) & m;
  case K_SUB: return (a - b) & m;
  case K_MUL: return (a * b) & m;
  case K_UDIV: return b == 0 ? m : a / b;
  case K_UREM: return b == 0 ? a : a % b;
  case K_SDIV: {
    i128 x = sextOf(a, w), y = sextOf(b, w);
    if (y == 0) return x < 0 ? 1 : m;
    if (y == -1) return (u128)(-(u128)x) & m;
    return (u128)(x / y) & m;
  }
  case K_SREM: {
    i128 x = sextOf(a, w), y = sextOf(b, w);
    if (y == 0) return a;
    if (y == -1) return 0;
    return (u128)(x % y) & m;
  }
  case K_SHL: return b >= w ? 0 : (a << (u32)b) & m;
  case K_LSHR: return b >= w ? 0 : a >> (u32)b;
  case K_ASHR: {
    i128 x = sextOf(a, w);
    return (u128)(x >> (b >= w ? (w - 1) : (u32)b)) & m;
  }
  case K_EQ: return a == b;
  case K_ULT: return a < b;
  case K_SLT: return sextOf(a, w) < sextOf(b, w);
  default: abort();
  }
}

E mkNot(E a) {
  if (isC(a)) return mkConst(~a->v, a->w);
  if (a->k == K_NOT) return a->a;
  if (a->k == K_ITE && (isC(a->b) || isC(a->c))) return mkIte(a->a, mkNot(a->b), mkNot(a->c));
  if (a->k == K_CONCAT && a->w > 1) return mkConcat(mkNot(a->a), mkNot(a->b));
  if (a->k == K_SEXT) return mkSExt(mkNot(a->a), a->w);
  return intern(K_NOT, a->w, 0, a, 0, 0, 0);
}

static void order(E& a, E& b) {
  if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b); // constants to the right
  if (isC(a) && !isC(b)) std::swap(a, b);
}

// split a bitwise op with a constant into segments that are all-zero/all-one/mixed
static E bitwiseConst(Kind k, E a, u128 c) {
  u32 w = a->w;
  // build from segments of equal bits of c
  std::vector<E> parts;
  u32 i = 0;
  while (i < w) {
    bool bit = (c >> i) & 1;
    u32  j   = i;
    while (j < w && (bool)((c >> j) & 1) == bit) j++;
    E seg = mkExtract(a, i, j - i);
    E r;
    if (k == K_AND) r = bit ? seg : mkConst(0, j - i);
    else if (k == K_OR) r = bit ? mkConst(~(u128)0, j - i) : seg;
    else r = bit ? mkNot(seg) : seg;
    parts.push_back(r);
    i = j;
  }
  return mkConcatMany(parts);
}
static u32 segments(u128 c, u32 w) {
  u32 n = 1;
  for (u32 i = 1; i < w; i++) n += ((c >> i) & 1) != ((c >> (i - 1)) & 1);
  return n;
}

// low zero-bit / structure helper: does e have concat structure?
static bool concatLike(E e) { return e->k == K_CONCAT || e->k == K_ZEXT; }
static void cutPoints(E e, u32 base, std::vector<u32>& cuts, int depth = 0) {
  if (depth > 40) return;
  if (e->k == K_CONCAT) {
    cuts.push_back(base + e->b->w);
    cutPoints(e->b, base, cuts, depth + 1);
    cutPoints(e->a, base + e->b->w, cuts, depth + 1);
  } else if (e->k == K_ZEXT) {
    cuts.push_back(base + e->a->w);
    cutPoints(e->a, base, cuts, depth + 1);
  }
}
static E bitwiseSplit(Kind k, E a, E b) {
  std::vector<u32> cuts;
  cutPoints(a, 0, cuts);
  cutPoints(b, 0, cuts);
  cuts.push_back(a->w);
  std::sort(cuts.begin(), cuts.end());
  cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
  // only useful when in every segment one side is constant
  u32 lo = 0;
  std::vector<E> parts;
  for (u32 c : cuts) {
    E x = mkExtract(a, lo, c - lo), y = mkExtract(b, lo, c - lo);
    if (!isC(x) && !isC(y) && x != y) return nullptr;
    parts.push_back(k == K_AND ? mkAnd(x, y) : k == K_OR ? mkOr(x, y) : mkXor(x, y));
    lo = c;
  }
  return mkConcatMany(parts);
}

E mkAnd(E a, E b) {
  assert(a->w == b->w);
  order(a, b);
  if (isC(b)) {
    if (isC(a)) return mkConst(a->v & b->v, a->w);
    if (b->v == 0) return b;
    if (isOnes(b)) return a;
    if (segments(b->v, a->w) <= 6) return bitwiseConst(K_AND, a, b->v);
  }
  if (a == b) return a;
  if (a->k == K_NOT && a->a == b) return mkConst(0, a->w);
  if (b->k == K_NOT && b->a == a) return mkConst(0, a->w);
  if (a->w == 1) {
    if (a->k == K_AND && (a->a == b || a->b == b)) return a;
    if (b->k == K_AND && (b->a == a || b->b == a)) return b;
    // x && (x == c2) with contradicting constants
    if (a->k == K_EQ && b->k == K_EQ && isC(a->b) && isC(b->b) && a->a == b->a && a->b != b->b) return mkConst(0, 1);
  }
  if (a->w > 1 && (concatLike(a) || concatLike(b)))
    if (E r = bitwiseSplit(K_AND, a, b)) return r;
  if (a->k == K_SEXT && a->a->w == 1) return mkIte(a->a, b, mkConst(0, a->w));
  if (b->k == K_SEXT && b->a->w == 1) return mkIte(b->a, a, mkConst(0, a->w));
  return intern(K_AND, a->w, 0, a, b, 0, 0);
}
E mkOr(E a, E b) {
  assert(a->w == b->w);
  order(a, b);
  if (isC(b)) {
    if (isC(a)) return mkConst(a->v | b->v, a->w);
    if (b->v == 0) return a;
    if (isOnes(b)) return b;
    if (segments(b->v, a->w) <= 6) return bitwiseConst(K_OR, a, b->v);
  }
  if (a == b) return a;
  if (a->k == K_NOT && a->a == b) return mkConst(~(u128)0, a->w);
  if (b->k == K_NOT && b->a == a) return mkConst(~(u128)0, a->w);
  if (a->w == 1) return mkNot(mkAnd(mkNot(a), mkNot(b)));
  if (concatLike(a) || concatLike(b))
    if (E r = bitwiseSplit(K_OR, a, b)) return r;
  return intern(K_OR, a->w, 0, a, b, 0, 0);
}
E mkXor(E a, E b) {
  assert(a->w == b->w);
  order(a, b);
  if (a == b) return mkConst(0, a->w);
  if (isC(b)) {
    if (isC(a)) return mkConst(a->v ^ b->v, a->w);
    if (b->v == 0) return a;
    if (isOnes(b)) return mkNot(a);
    if (segments(b->v, a->w) <= 6) return bitwiseConst(K_XOR, a, b->v);
  }
  if (a->w == 1) {
    if (a->k == K_NOT && b->k == K_NOT) return mkXor(a->a, b->a);
    if (a->k == K_NOT) return mkNot(mkXor(a->a, b));
    if (b->k == K_NOT) return mkNot(mkXor(a, b->a));
    return mkNot(mkEq(a, b));
  }
  if (concatLike(a) || concatLike(b))
    if (E r = bitwiseSplit(K_XOR, a, b)) return r;
  return intern(K_XOR, a->w, 0, a, b, 0, 0);
}
E mkAdd(E a, E b) {
  assert(a->w == b->w);
  order(a, b);
  if (isC(b)) {
    if (isC(a)) return mkConst(a->v + b->v, a->w);
    if (b->v == 0) return a;
    if (a->k == K_ADD && isC(a->b)) return mkAdd(a->a, mkConst(a->b->v + b->v, a->w));
    if (a->k == K_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkAdd(a->b, b), mkAdd(a->c, b));
    // concat(x, 0..0) + c where c fits in the low part
    if (a->k == K_CONCAT && isZero(a->b) && (b->v >> a->b->w) == 0) return mkConcat(a->a, mkConst(b->v, a->b->w));
  } else {
    if (a->k == K_ADD && isC(a->b)) return mkAdd(mkAdd(a->a, b), a->b);
    if (b->k == K_ADD && isC(b->b)) return mkAdd(mkAdd(a, b->a), b->b);
    if (a->k == K_SUB && a->b == b) return a->a;
    if (b->k == K_SUB && b->b == a) return b->a;
  }
  if (a->w == 1) return mkXor(a, b);
  return intern(K_ADD, a->w, 0, a, b, 0, 0);
}
E mkSub(E a, E b) {
  assert(a->w == b->w);
  if (a == b) return mkConst(0, a->w);
  if (isC(b)) return mkAdd(a, mkConst(-b->v, a->w));
  if (a->k == K_ADD) {
    if (a->a == b) return a->b;
    if (a->b == b) return a->a;
    if (isC(a->b)) return mkAdd(mkSub(a->a, b), a->b);
  }
  if (b->k == K_ADD && isC(b->b)) return mkAdd(mkSub(a, b->a), mkConst(-b->b->v, a->w));
  if (isC(a) && b->k == K_ITE && isC(b->b) && isC(b->c)) return mkIte(b->a, mkSub(a, b->b), mkSub(a, b->c));
  if (a->w == 1) return mkXor(a, b);
  return intern(K_SUB, a->w, 0, a, b, 0, 0);
}
E mkMul(E a, E b) {
  assert(a->w == b->w);
  order(a, b);
  if (isC(b)) {
    if (isC(a)) return mkConst(a->v * b->v, a->w);
    if (b->v == 0) return b;
    if (b->v == 1) return a;
    if ((b->v & (b->v - 1)) == 0) {
      u32 n = 0;
      while (!((b->v >> n) & 1)) n++;
      return mkShl(a, mkConst(n, a->w));
    }
    if (a->k == K_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkMul(a->b, b), mkMul(a->c, b));
    if (a->k == K_MUL && isC(a->b)) return mkMul(a->a, mkConst(a->b->v * b->v, a->w));
    if (a->k == K_ADD && isC(a->b)) return mkAdd(mkMul(a->a, b), mkConst(a->b->v * b->v, a->w));
  }
  return intern(K_MUL, a->w, 0, a, b, 0, 0);
}
E mkUDiv(E a, E b) {
  if (isC(a) && isC(b)) return mkConst(evalBin(K_UDIV, a->w, a->v, b->v), a->w);
  if (isC(b)) {
    if (b->v == 1) return a;
    if (b->v && (b->v & (b->v - 1)) == 0) {
      u32 n = 0;
      while (!((b->v >> n) & 1)) n++;
      return mkLShr(a, mkConst(n, a->w));
    }
    if (a->k == K_ZEXT && b->v != 0) {
      if (b->v <= maskOf(a->a->w)) return mkZExt(mkUDiv(a->a, mkConst(b->v, a->a->w)), a->w);
      return mkConst(0, a->w);
    }
    if (a->k == K_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkUDiv(a->b, b), mkUDiv(a->c, b));
  }
  return intern(K_UDIV, a->w, 0, a, b, 0, 0);
}
E mkURem(E a, E b) {
  if (isC(a) && isC(b)) return mkConst(evalBin(K_UREM, a->w, a->v, b->v), a->w);
  if (isC(b) && b->v) {
    if (b->v == 1) return mkConst(0, a->w);
    if ((b->v & (b->v - 1)) == 0) return mkAnd(a, mkConst(b->v - 1, a->w));
    if (a->k == K_ZEXT) {
      if (b->v <= maskOf(a->a->w)) return mkZExt(mkURem(a->a, mkConst(b->v, a->a->w)), a->w);
      return a;
    }
    if (a->k == K_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkURem(a->b, b), mkURem(a->c, b));
  }
  return intern(K_UREM, a->w, 0, a, b, 0, 0);
}
E mkSDiv(E a, E b) {
  if (isC(a) && isC(b)) return mkConst(evalBin(K_SDIV, a->w, a->v, b->v), a->w);
  if (isC(b) && b->v == 1) return a;
  if (a->k == K_ZEXT && isC(b) && sextOf(b->v, b->w) > 0) return mkUDiv(a, b);
  return intern(K_SDIV, a->w, 0, a, b, 0, 0);
}
E mkSRem(E a, E b) {
  if (isC(a) && isC(b)) return mkConst(evalBin(K_SREM, a->w, a->v, b->v), a->w);
  if (a->k == K_ZEXT && isC(b) && sextOf(b->v, b->w) > 0) return mkURem(a, b);
  return intern(K_SREM, a->w, 0, a, b, 0, 0);
}
E mkShl(E a, E b) {
  if (isC(b)) {
    if (b->v == 0) return a;
    if (b->v >= a->w) return mkConst(0, a->w);
    u32 n = (u32)b->v;
    return mkConcat(mkExtract(a, 0, a->w - n), mkConst(0, n));
  }
  if (isZero(a)) return a;
  return intern(K_SHL, a->w, 0, a, b, 0, 0);
}
E mkLShr(E a, E b) {
  if (isC(b)) {
    if (b->v == 0) return a;
    if (b->v >= a->w) return mkConst(0, a->w);
    u32 n = (u32)b->v;
    return mkZExt(mkExtract(a, n, a->w - n), a->w);
  }
  if (isZero(a)) return a;
  return intern(K_LSHR, a->w, 0, a, b, 0, 0);
}
E mkAShr(E a, E b) {
  if (isC(b)) {
    if (b->v == 0) return a;
    u32 n = b->v >= a->w ? a->w - 1 : (u32)b->v;
    return mkSExt(mkExtract(a, n, a->w - n), a->w);
  }
  if (isZero(a)) return a;
  return intern(K_ASHR, a->w, 0, a, b, 0, 0);
}
E mkEq(E a, E b) {
  assert(a->w == b->w);
  if (a == b) return mkConst(1, 1);
  order(a, b);
  if (isC(a) && isC(b)) return mkConst(a->v == b->v, 1);
  if (isC(b)) {
    if (a->w == 1) return b->v ? a : mkNot(a);
    switch (a->k) {
    case K_CONCAT:
      return mkAnd(mkEq(a->a, mkExtract(b, a->b->w, a->a->w)), mkEq(a->b, mkExtract(b, 0, a->b->w)));
    case K_ZEXT:
      if (b->v >> a->a->w) return mkConst(0, 1);
      return mkEq(a->a, mkConst(b->v, a->a->w));
    case K_SEXT: {
      E lo = mkExtract(b, 0, a->a->w);
      if (mkSExt(lo, a->w) != b) return mkConst(0, 1);
      return mkEq(a->a, lo);
    }
    case K_ITE:
      if (isC(a->b) && isC(a->c)) {
        bool x = a->b == b, y = a->c == b;
        if (x && y) return mkConst(1, 1);
        if (x) return a->a;
        if (y) return mkNot(a->a);
        return mkConst(0, 1);
      }
      if (isC(a->b)) {
        if (a->b == b) return mkOr(a->a, mkEq(a->c, b));
        return mkAnd(mkNot(a->a), mkEq(a->c, b));
      }
      if (isC(a->c)) {
        if (a->c == b) return mkOr(mkNot(a->a), mkEq(a->b, b));
        return mkAnd(a->a, mkEq(a->b, b));
      }
      break;
    case K_NOT: return mkEq(a->a, mkNot(b));
    case K_XOR:
      if (isC(a->b)) return mkEq(a->a, mkXor(a->b, b));
      if (b->v == 0) return mkEq(a->a, a->b);
      break;
    case K_ADD:
      if (isC(a->b)) return mkEq(a->a, mkSub(b, a->b));
      break;
    case K_SUB:
      if (b->v == 0) return mkEq(a->a, a->b);
      if (isC(a->a)) return mkEq(a->b, mkSub(a->a, b));
      break;
    default: break;
    }
  } else {
    if (a->k == K_NOT && b->k == K_NOT) return mkEq(a->a, b->a);
    if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
    if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
    if (a->k == K_CONCAT && b->k == K_CONCAT && a->a->w == b->a->w)
      return mkAnd(mkEq(a->a, b->a), mkEq(a->b, b->b));
    if (a->k == K_ADD && isC(a->b) && a->a == b) return mkConst(a->b->v == 0, 1);
    if (b->k == K_ADD && isC(b->b) && b->a == a) return mkConst(b->b->v == 0, 1);
    if (a->k == K_ADD && b->k == K_ADD && isC(a->b) && isC(b->b)) return mkEq(a->a, mkAdd(b->a, mkSub(b->b, a->b)));
    if (a->w == 1 && a->k == K_NOT) return mkNot(mkEq(a->a, b));
    if (a->w == 1 && b->k == K_NOT) return mkNot(mkEq(a, b->a));
  }
  return intern(K_EQ, 1, 0, a, b, 0, 0);
}
E mkUlt(E a, E b) {
  assert(a->w == b->w);
  if (a == b) return mkConst(0, 1);
  if (isC(a) && isC(b)) return mkConst(a->v < b->v, 1);
  if (isZero(b)) return mkConst(0, 1);
  if (isOnes(a)) return mkConst(0, 1);
  if (isC(b) && b->v == 1) return mkEq(a, mkConst(0, a->w));
  if (isZero(a)) return mkNot(mkEq(b, a));
  if (a->k == K_ZEXT && isC(b)) {
    if (b->v >> a->a->w) return mkConst(1, 1);
    return mkUlt(a->a, mkConst(b->v, a->a->w));
  }
  if (b->k == K_ZEXT && isC(a)) {
    if (a->v >> b->a->w) return mkConst(0, 1);
    return mkUlt(mkConst(a->v, b->a->w), b->a);
  }
  if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkUlt(a->a, b->a);
  if (a->k == K_CONCAT && b->k == K_CONCAT && a->a == b->a && a->b->w == b->b->w) return mkUlt(a->b, b->b);
  if (a->k == K_CONCAT && b->k == K_CONCAT && a->b == b->b) return mkUlt(a->a, b->a);
  if (a->k == K_ITE && isC(a->b) && isC(a->c) && isC(b)) return mkIte(a->a, mkUlt(a->b, b), mkUlt(a->c, b));
  if (b->k == K_ITE && isC(b->b) && isC(b->c) && isC(a)) return mkIte(b->a, mkUlt(a, b->b), mkUlt(a, b->c));
  if (a->k == K_CONCAT && isC(b)) {
    // leading zeros
    if (isZero(a->a)) {
      if (b->v >> a->b->w) return mkConst(1, 1);
      return mkUlt(a->b, mkConst(b->v, a->b->w));
    }
  }
  if (a->w == 1) return mkAnd(mkNot(a), b);
  return intern(K_ULT, 1, 0, a, b, 0, 0);
}
E mkSlt(E a, E b) {
  assert(a->w == b->w);
  if (a == b) return mkConst(0, 1);
  u32 w = a->w;
  if (isC(a) && isC(b)) return mkConst(sextOf(a->v, w) < sextOf(b->v, w), 1);
  // both known non-negative -> unsigned
  auto nonneg = [&](E e) {
    if (e->k == K_ZEXT) return true;
    if (isC(e)) return !((e->v >> (w - 1)) & 1);
    if (e->k == K_CONCAT) {
      E h = e->a;
      while (h->k == K_CONCAT) h = h->a;
      if (h->k == K_ZEXT) return true;
      return isC(h) && !((h->v >> (h->w - 1)) & 1);
    }
    return false;
  };
  if (nonneg(a) && nonneg(b)) return mkUlt(a, b);
  if (isZero(b) && a->k != K_ITE) { // sign bit
    return mkExtract(a, w - 1, 1);
  }
  if (isOnes(a)) return mkNot(mkExtract(b, w - 1, 1));
  if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return mkSlt(a->a, b->a);
  if (a->k == K_SEXT && isC(b)) {
    E lo = mkExtract(b, 0, a->a->w);
    if (mkSExt(lo, w) == b) return mkSlt(a->a, lo);
    return mkConst(sextOf(b->v, w) > 0, 1);
  }
  if (b->k == K_SEXT && isC(a)) {
    E lo = mkExtract(a, 0, b->a->w);
    if (mkSExt(lo, w) == a) return mkSlt(lo, b->a);
    return mkConst(sextOf(a->v, w) < 0, 1);
  }
  if (a->k == K_ITE && isC(a->b) && isC(a->c) && isC(b)) return mkIte(a->a, mkSlt(a->b, b), mkSlt(a->c, b));
  if (b->k == K_ITE && isC(b->b) && isC(b->c) && isC(a)) return mkIte(b->a, mkSlt(a, b->b), mkSlt(a, b->c));
  if (a->k == K_ITE && (isC(a->b) || isC(a->c)) && isC(b)) return mkIte(a->a, mkSlt(a->b, b), mkSlt(a->c, b));
  if (w == 1) return mkAnd(a, mkNot(b));
  return intern(K_SLT, 1, 0, a, b, 0, 0);
}
E mkConcat(E hi, E lo) {
  u32 w = hi->w + lo->w;
  assert(w <= 128);
  if (isC(hi) && isC(lo)) return mkConst((hi->v << lo->w) | lo->v, w);
  if (hi->k == K_EXTRACT && lo->k == K_EXTRACT && hi->a == lo->a && lo->aux + lo->w == hi->aux)
    return mkExtract(lo->a, lo->aux, w);
  // low part is the low end of an expression and high is the rest
  if (hi->k == K_EXTRACT && hi->a == lo && hi->aux == lo->w) return mkExtract(lo, 0, w);
  // re-associate to the right-leaning form Concat(x, Concat(y, z))
  if (hi->k == K_CONCAT) return mkConcat(hi->a, mkConcat(hi->b, lo));
  if (lo->k == K_CONCAT) {
    // merge hi with the head of lo when adjacent
    E h2 = lo->a;
    if (hi->k == K_EXTRACT && h2->k == K_EXTRACT && hi->a == h2->a && h2->aux + h2->w == hi->aux)
      return mkConcat(mkExtract(hi->a, h2->aux, hi->w + h2->w), lo->b);
    if (isC(hi) && isC(h2)) return mkConcat(mkConcat(hi, h2), lo->b);
    if (isZero(hi)) {}
  }
  if (isZero(hi)) return mkZExt(lo, w);
  if (lo->k == K_ZEXT) // Concat(hi, ZExt(x)) -> Concat(hi, Concat(0,x)) keep canonical via zext
    {}
  return intern(K_CONCAT, w, 0, hi, lo, 0, 0);
}
E mkConcatMany(const std::vector<E>& p) {
  E r = p[0];
  // build from the most significant end so that right-leaning merging is linear
  if (p.size() > 1) {
    r = p[0];
    for (size_t i = 1; i < p.size(); i++) r = mkConcat(p[i], r);
  }
  return r;
}
E mkExtract(E a, u32 lo, u32 w) {
  assert(w > 0 && lo + w <= a->w);
  if (w == a->w) return a;
  switch (a->k) {
  case K_CONST: return mkConst(a->v >> lo, w);
  case K_EXTRACT: return mkExtract(a->a, a->aux + lo, w);
  case K_CONCAT:
    if (lo + w <= a->b->w) return mkExtract(a->b, lo, w);
    if (lo >= a->b->w) return mkExtract(a->a, lo - a->b->w, w);
    return mkConcat(mkExtract(a->a, 0, lo + w - a->b->w), mkExtract(a->b, lo, a->b->w - lo));
  case K_ZEXT:
    if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
    if (lo >= a->a->w) return mkConst(0, w);
    return mkZExt(mkExtract(a->a, lo, a->a->w - lo), w);
  case K_SEXT:
    if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
    if (lo >= a->a->w) return mkSExt(mkExtract(a->a, a->a->w - 1, 1), w);
    return mkSExt(mkExtract(a->a, lo, a->a->w - lo), w);
  case K_ITE:
    if (isC(a->b) || isC(a->c) || w <= 8) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
    break;
  case K_NOT: return mkNot(mkExtract(a->a, lo, w));
  case K_AND: return mkAnd(mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
  case K_OR: return mkOr(mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
  case K_XOR: return mkXor(mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
  case K_ADD:
    if (lo == 0) return mkAdd(mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
    break;
  case K_SUB:
    if (lo == 0) return mkSub(mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
    break;
  case K_MUL:
    if (lo == 0) return mkMul(mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
    break;
  default: break;
  }
  return intern(K_EXTRACT, w, lo, a, 0, 0, 0);
}
E mkZExt(E a, u32 w) {
  assert(w >= a->w);
  if (w == a->w) return a;
  if (isC(a)) return mkConst(a->v, w);
  if (a->k == K_ZEXT) return mkZExt(a->a, w);
  if (a->k == K_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkZExt(a->b, w), mkZExt(a->c, w));
  return intern(K_ZEXT, w, 0, a, 0, 0, 0);
}
E mkSExt(E a, u32 w) {
  assert(w >= a->w);
  if (w == a->w) return a;
  if (isC(a)) return mkConst((u128)sextOf(a->v, a->w), w);
  if (a->k == K_ZEXT) return mkZExt(a->a, w);
  if (a->k == K_SEXT) return mkSExt(a->a, w);
  if (a->k == K_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
  return intern(K_SEXT, w, 0, a, 0, 0, 0);
}
E mkIte(E c, E t, E f) {
  assert(t->w == f->w && c->w == 1);
  if (isC(c)) return c->v ? t : f;
  if (t == f) return t;
  if (c->k == K_NOT) return mkIte(c->a, f, t);
  if (t->w == 1) {
    if (isC(t)) return t->v ? mkOr(c, f) : mkAnd(mkNot(c), f);
    if (isC(f)) return f->v ? mkOr(mkNot(c), t) : mkAnd(c, t);
  }
  if (t->k == K_ITE && t->a == c) return mkIte(c, t->b, f);
  if (f->k == K_ITE && f->a == c) return mkIte(c, t, f->c);
  if (f->k == K_ITE && f->b == t) return mkIte(mkOr(c, f->a), t, f->c);
  if (t->k == K_ITE && t->c == f) return mkIte(mkAnd(c, t->a), t->b, f);
  return intern(K_ITE, t->w, 0, c, t, f, 0);
}
E mkBin(Kind k, E a, E b) {
  switch (k) {
  case K_AND: return mkAnd(a, b);
  case K_OR: return mkOr(a, b);
  case K_XOR: return mkXor(a, b);
  case K_ADD: return mkAdd(a, b);
  case K_SUB: return mkSub(a, b);
  case K_MUL: return mkMul(a, b);
  case K_UDIV: return mkUDiv(a, b);
  case K_SDIV: return mkSDiv(a, b);
  case K_UREM: return mkURem(a, b);
  case K_SREM: return mkSRem(a, b);
  case K_SHL: return mkShl(a, b);
  case K_LSHR: return mkLShr(a, b);
  case K_ASHR: return mkAShr(a, b);
  case K_EQ: return mkEq(a, b);
  case K_ULT: return mkUlt(a, b);
  case K_SLT: return mkSlt(a, b);
  default: abort();
  }
}
E mkCtz(E a) {
  E r = mkConst(a->w, a->w);
  for (int i = (int)a->w - 1; i >= 0; i--) r = mkIte(mkExtract(a, (u32)i, 1), mkConst((u32)i, a->w), r);
  return r;
}
E mkClz(E a) {
  E r = mkConst(a->w, a->w);
  for (u32 i = 0; i < a->w; i++) r = mkIte(mkExtract(a, i, 1), mkConst(a->w - 1 - i, a->w), r);
  return r;
}
E mkCtpop(E a) {
  E r = mkConst(0, a->w);
  for (u32 i = 0; i < a->w; i++) r = mkAdd(r, mkZExt(mkExtract(a, i, 1), a->w));
  return r;
}
E mkBswap(E a) {
  std::vector<E> p;
  for (int i = (int)a->w / 8 - 1; i >= 0; i--) p.push_back(mkExtract(a, (u32)i * 8, 8));
  return mkConcatMany(p);
}

u128 Model::eval(E e) const {
  if (e->k == K_CONST) return e->v;
  if (e->k == K_VAR) return var(e->aux) & maskOf(e->w);
  auto it = memo.find(e->id);
  if (it != memo.end()) return it->second;
  u128 r = 0;
  switch (e->k) {
  case K_NOT: r = ~eval(e->a) & maskOf(e->w); break;
  case K_CONCAT: r = (eval(e->a) << e->b->w) | eval(e->b); break;
  case K_EXTRACT: r = (eval(e->a) >> e->aux) & maskOf(e->w); break;
  case K_ZEXT: r = eval(e->a); break;
  case K_SEXT: r = (u128)sextOf(eval(e->a), e->a->w) & maskOf(e->w); break;
  case K_ITE: r = eval(e->a) ? eval(e->b) : eval(e->c); break;
  default: r = evalBin(e->k, e->a->w, eval(e->a), eval(e->b)); break;
  }
  memo.emplace(e->id, r);
  return r;
}

const VarSet* varsOf(E e) {
  if (e->vars) return e->vars;
  static VarSet empty;
  if (e->k == K_CONST) return e->vars = &empty;
  if (e->k == K_VAR) {
    auto* s = new VarSet();
    s->ids.push_back(e->aux);
    return e->vars = s;
  }
  const VarSet* sets[3];
  int           n = 0;
  sets[n++]       = varsOf(e->a);
  if (e->b) sets[n++] = varsOf(e->b);
  if (e->c) sets[n++] = varsOf(e->c);
  const VarSet* best = sets[0];
  for (int i = 1; i < n; i++) {
    const VarSet* o = sets[i];
    if (o == best) continue;
    const VarSet *big = best, *small = o;
    if (big->ids.size() < small->ids.size()) std::swap(big, small);
    if (std::includes(big->ids.begin(), big->ids.end(), small->ids.begin(), small->ids.end())) {
      best = big;
      continue;
    }
    auto* s = new VarSet();
    std::set_union(big->ids.begin(), big->ids.end(), small->ids.begin(), small->ids.end(), std::back_inserter(s->ids));
    best = s;
  }
  return e->vars = best;
}

std::string toString(E e, int depth) {
  static const char* names[] = {"const", "var", "not", "and", "or", "xor", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "eq", "ult", "slt", "concat", "extract", "zext", "sext", "ite"};
  if (e->k == K_CONST) {
    char b[64];
    snprintf(b, sizeof b, "0x%llx:%u", (unsigned long long)e->v, e->w);
    return b;
  }
  if (e->k == K_VAR) return g_vars[e->aux].name;
  if (depth <= 0) return "...";
  std::string s = std::string("(") + names[e->k];
  if (e->k == K_EXTRACT) s += "[" + std::to_string(e->aux) + "+" + std::to_string(e->w) + "]";
  if (e->k == K_ZEXT || e->k == K_SEXT) s += std::to_string(e->w);
  for (E x : {e->a, e->b, e->c})
    if (x) s += " " + toString(x, depth - 1);
  return s + ")";
}
