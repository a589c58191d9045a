// Hash-consed bit-vector expression DAG with local simplification.
#pragma once
#include <cstdint>
#include <cstring>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>

typedef uint64_t          u64;
typedef uint32_t          u32;
typedef uint16_t          u16;
typedef uint8_t           u8;
typedef unsigned __int128 u128;
typedef __int128          i128;

enum Kind : u8 {
  K_CONST, K_VAR, K_NOT, K_AND, K_OR, K_XOR, K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM,
  K_SHL, K_LSHR, K_ASHR, K_EQ, K_ULT, K_SLT, K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT, K_ITE
};

struct VarSet; // sorted unique var ids

struct Expr {
  u32                 id;
  u32                 w;
  Kind                k;
  u32                 aux; // var id / extract low bit
  const Expr *        a, *b, *c;
  u128                v; // constant
  mutable const VarSet* vars = nullptr;
  bool isConst() const { return k == K_CONST; }
};
typedef const Expr* E;

struct VarSet {
  std::vector<u32> ids;
};

struct VarInfo {
  std::string name;
  u32         w;
};
extern std::vector<VarInfo> g_vars;

static inline u128 maskOf(u32 w) { return w >= 128 ? ~(u128)0 : (((u128)1) << w) - 1; }
static inline i128 sextOf(u128 v, u32 w) {
  if (w >= 128) return (i128)v;
  u128 m = (u128)1 << (w - 1);
  v &= maskOf(w);
  return (i128)((v ^ m) - m);
}

E mkConst(u128 v, u32 w);
E mkVar(const std::string& name, u32 w);
E mkNot(E a);
E mkAnd(E a, E b);
E mkOr(E a, E b);
E mkXor(E a, E b);
E mkAdd(E a, E b);
E mkSub(E a, E b);
E mkMul(E a, E b);
E mkUDiv(E a, E b);
E mkSDiv(E a, E b);
E mkURem(E a, E b);
E mkSRem(E a, E b);
E mkShl(E a, E b);
E mkLShr(E a, E b);
E mkAShr(E a, E b);
E mkEq(E a, E b);
E mkUlt(E a, E b);
E mkSlt(E a, E b);
static inline E mkUle(E a, E b) { return mkNot(mkUlt(b, a)); }
static inline E mkSle(E a, E b) { return mkNot(mkSlt(b, a)); }
static inline E mkNe(E a, E b) { return mkNot(mkEq(a, b)); }
E mkConcat(E hi, E lo);
E mkExtract(E a, u32 lo, u32 w);
E mkZExt(E a, u32 w);
E mkSExt(E a, u32 w);
E mkIte(E c, E t, E f);

const VarSet* varsOf(E e);
std::string   toString(E e, int depth = 6);

// assignment of variables, with evaluation memo
struct Model {
  std::unordered_map<u32, u128>         val; // var id -> value (default 0)
  mutable std::unordered_map<u32, u128> memo;
  u128 eval(E e) const;
  u128 var(u32 id) const {
    auto it = val.find(id);
    return it == val.end() ? 0 : it->second;
  }
};
extern u64 g_nexprs;
E    mkBin(Kind k, E a, E b);
E    mkCtz(E a);
E    mkClz(E a);
E    mkCtpop(E a);
E    mkBswap(E a);
u128 evalBin(Kind k, u32 w, u128 a, u128 b);
E    mkFresh(const std::string& base, u32 w);
E    mkConcatMany(const std::vector<E>& lsbFirst);
static inline E mkBool(bool b) { return mkConst(b, 1); }
