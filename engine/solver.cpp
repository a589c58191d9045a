#include <atomic>
#include <thread>
#include "solver.h"
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <unordered_set>
#include <z3.h>

SolverStats g_sstats;
unsigned    g_query_timeout_ms = 60000;
std::string g_dump_dir;
int         g_dump_max = 0;

namespace {
Z3_context ctx = nullptr;
Z3_solver  slv = nullptr;
bool       zerr = false;

void onErr(Z3_context c, Z3_error_code e) {
  fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
  zerr = true;
}

std::unordered_map<E, Z3_ast>             tr;      // bit-vector translation
std::unordered_map<E, Z3_ast>             trB;     // boolean translation of width-1
std::unordered_map<E, std::pair<Z3_ast, bool>> lits; // assumption literal per constraint (asserted in slv)
std::vector<Z3_ast>                       varAst;

Z3_ast keep(Z3_ast a) {
  Z3_inc_ref(ctx, a);
  return a;
}

// the incremental solver ignores its own timeout parameter: a watcher interrupts it
std::atomic<long long> deadlineMs{0};
long long nowMs() { return std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
void watcher() {
  for (;;) {
    std::this_thread::sleep_for(std::chrono::milliseconds(100));
    long long d = deadlineMs.load();
    if (d && nowMs() > d) {
      Z3_interrupt(ctx);
      long long nx = nowMs() + 1000;
      deadlineMs.compare_exchange_strong(d, nx);
    }
  }
}
struct Deadline {
  explicit Deadline(unsigned ms) { deadlineMs = nowMs() + ms; }
  ~Deadline() { deadlineMs = 0; }
};

void newSolver() {
  if (slv) Z3_solver_dec_ref(ctx, slv);
  slv = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
  Z3_solver_inc_ref(ctx, slv);
  Z3_params p = Z3_mk_params(ctx);
  Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), std::min(g_query_timeout_ms, 8000u));
  Z3_solver_set_params(ctx, slv, p);
  Z3_params_dec_ref(ctx, p);
}
void init() {
  Z3_config cfg = Z3_mk_config();
  ctx           = Z3_mk_context(cfg);
  Z3_del_config(cfg);
  Z3_set_error_handler(ctx, onErr);
  std::thread(watcher).detach();
  newSolver();
}

Z3_ast bv(E e);
Z3_ast boolOf(E e);

Z3_ast mkB2BV(Z3_ast b) {
  Z3_sort s = Z3_mk_bv_sort(ctx, 1);
  return Z3_mk_ite(ctx, b, Z3_mk_unsigned_int(ctx, 1, s), Z3_mk_unsigned_int(ctx, 0, s));
}

// boolean view of a width-1 expression
Z3_ast boolOf(E e) {
  auto it = trB.find(e);
  if (it != trB.end()) return it->second;
  Z3_ast r = nullptr;
  switch (e->k) {
  case K_CONST: r = e->v ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
  case K_NOT: r = Z3_mk_not(ctx, boolOf(e->a)); break;
  case K_AND: { Z3_ast a[2] = {boolOf(e->a), boolOf(e->b)}; r = Z3_mk_and(ctx, 2, a); break; }
  case K_OR: { Z3_ast a[2] = {boolOf(e->a), boolOf(e->b)}; r = Z3_mk_or(ctx, 2, a); break; }
  case K_XOR: r = Z3_mk_xor(ctx, boolOf(e->a), boolOf(e->b)); break;
  case K_ITE: r = Z3_mk_ite(ctx, boolOf(e->a), boolOf(e->b), boolOf(e->c)); break;
  case K_EQ:
    if (e->a->w == 1) r = Z3_mk_iff(ctx, boolOf(e->a), boolOf(e->b));
    else r = Z3_mk_eq(ctx, bv(e->a), bv(e->b));
    break;
  case K_ULT: r = Z3_mk_bvult(ctx, bv(e->a), bv(e->b)); break;
  case K_SLT: r = Z3_mk_bvslt(ctx, bv(e->a), bv(e->b)); break;
  default: {
    Z3_sort s = Z3_mk_bv_sort(ctx, 1);
    r         = Z3_mk_eq(ctx, bv(e), Z3_mk_unsigned_int(ctx, 1, s));
  }
  }
  return trB[e] = keep(r);
}

Z3_ast bv(E e) {
  auto it = tr.find(e);
  if (it != tr.end()) return it->second;
  Z3_ast r = nullptr;
  switch (e->k) {
  case K_CONST: {
    if (e->w <= 64) r = Z3_mk_unsigned_int64(ctx, (u64)e->v, Z3_mk_bv_sort(ctx, e->w));
    else {
      Z3_ast lo = Z3_mk_unsigned_int64(ctx, (u64)e->v, Z3_mk_bv_sort(ctx, 64));
      Z3_ast hi = Z3_mk_unsigned_int64(ctx, (u64)(e->v >> 64), Z3_mk_bv_sort(ctx, e->w - 64));
      r         = Z3_mk_concat(ctx, hi, lo);
    }
    break;
  }
  case K_VAR: {
    std::string n = "v" + std::to_string(e->aux);
    r             = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), Z3_mk_bv_sort(ctx, e->w));
    if (varAst.size() <= e->aux) varAst.resize(e->aux + 1);
    varAst[e->aux] = keep(r);
    break;
  }
  case K_EQ: case K_ULT: case K_SLT: r = mkB2BV(boolOf(e)); break;
  case K_NOT: r = e->w == 1 ? mkB2BV(boolOf(e)) : Z3_mk_bvnot(ctx, bv(e->a)); break;
  case K_AND: r = e->w == 1 ? mkB2BV(boolOf(e)) : Z3_mk_bvand(ctx, bv(e->a), bv(e->b)); break;
  case K_OR: r = e->w == 1 ? mkB2BV(boolOf(e)) : Z3_mk_bvor(ctx, bv(e->a), bv(e->b)); break;
  case K_XOR: r = e->w == 1 ? mkB2BV(boolOf(e)) : Z3_mk_bvxor(ctx, bv(e->a), bv(e->b)); break;
  case K_ADD: r = Z3_mk_bvadd(ctx, bv(e->a), bv(e->b)); break;
  case K_SUB: r = Z3_mk_bvsub(ctx, bv(e->a), bv(e->b)); break;
  case K_MUL: r = Z3_mk_bvmul(ctx, bv(e->a), bv(e->b)); break;
  case K_UDIV: r = Z3_mk_bvudiv(ctx, bv(e->a), bv(e->b)); break;
  case K_SDIV: r = Z3_mk_bvsdiv(ctx, bv(e->a), bv(e->b)); break;
  case K_UREM: r = Z3_mk_bvurem(ctx, bv(e->a), bv(e->b)); break;
  case K_SREM: r = Z3_mk_bvsrem(ctx, bv(e->a), bv(e->b)); break;
  case K_SHL: r = Z3_mk_bvshl(ctx, bv(e->a), bv(e->b)); break;
  case K_LSHR: r = Z3_mk_bvlshr(ctx, bv(e->a), bv(e->b)); break;
  case K_ASHR: r = Z3_mk_bvashr(ctx, bv(e->a), bv(e->b)); break;
  case K_CONCAT: r = Z3_mk_concat(ctx, bv(e->a), bv(e->b)); break;
  case K_EXTRACT: r = Z3_mk_extract(ctx, e->aux + e->w - 1, e->aux, bv(e->a)); break;
  case K_ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, bv(e->a)); break;
  case K_SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, bv(e->a)); break;
  case K_ITE: r = Z3_mk_ite(ctx, boolOf(e->a), bv(e->b), bv(e->c)); break;
  }
  return tr[e] = keep(r);
}

Z3_ast litOf(E c) {
  auto it = lits.find(c);
  if (it != lits.end()) {
    if (it->second.second) return it->second.first;
  }
  Z3_ast p;
  if (it == lits.end()) {
    std::string n = "p" + std::to_string(c->id);
    p             = keep(Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), Z3_mk_bool_sort(ctx)));
  } else p = it->second.first;
  Z3_solver_assert(ctx, slv, Z3_mk_implies(ctx, p, boolOf(c)));
  lits[c] = {p, true};
  return p;
}
size_t assertedCount = 0;

struct QKey {
  std::vector<u32> ids;
  bool operator==(const QKey& o) const { return ids == o.ids; }
};
struct QHash {
  size_t operator()(const QKey& k) const {
    u64 h = 88172645463325252ull;
    for (u32 i: k.ids) { h ^= i; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 31; }
    return h;
  }
};
struct QVal {
  SatRes r;
  std::vector<std::pair<u32, u128>> vals;
};
std::unordered_map<QKey, QVal, QHash> qcache;

u128 getBV(Z3_ast v, u32 w) {
  uint64_t x = 0;
  if (w <= 64) {
    if (Z3_get_numeral_uint64(ctx, v, &x)) return x;
    return 0;
  }
  const char* s = Z3_get_numeral_string(ctx, v);
  u128        r = 0;
  for (; *s; ++s) r = r * 10 + (u128)(*s - '0');
  return r;
}
int dumped = 0;
constexpr u32 CUBE_BITS = 20;

// Cube and conquer over the few symbolic bits of a hard slice: the cases split on the values of the variables' bits, a few more of
// them at a time, and every case is decided by the solver.  Together the cases cover every value.
struct Cubes {
  Z3_solver                               s = nullptr;
  std::vector<std::pair<Z3_ast, Z3_ast>>  bits; // literal for "bit is 1", "bit is 0"
  std::vector<Z3_ast>                     cube;
  long long                               until = 0;
  Z3_lbool go(size_t at) {
    if (nowMs() > until) return Z3_L_UNDEF;
    Z3_lbool r = Z3_L_UNDEF;
    if (at || bits.size() > 10) {
      Deadline dl(at >= bits.size() ? 8000u : 1000u);
      r = Z3_solver_check_assumptions(ctx, s, (unsigned)cube.size(), cube.data());
    }
    if (zerr) { r = Z3_L_UNDEF; zerr = false; }
    if (r != Z3_L_UNDEF || at >= bits.size()) return r;
    size_t n = bits.size() - at <= 10 ? bits.size() - at : std::min<size_t>(4, bits.size() - at - 8), c0 = cube.size();
    bool   unk = false;
    for (unsigned m = 0; m < (1u << n); ++m) {
      for (size_t i = 0; i < n; ++i) cube.push_back(m >> i & 1 ? bits[at + i].first : bits[at + i].second);
      Z3_lbool k = go(at + n);
      cube.resize(c0);
      if (k == Z3_L_TRUE) return k;
      if (k == Z3_L_UNDEF) unk = true;
      if (unk && nowMs() > until) break;
    }
    return unk ? Z3_L_UNDEF : Z3_L_FALSE;
  }
};
} // namespace

SatRes solveWith(const std::vector<E>& cs, E extra, const Model* base, std::shared_ptr<Model>* out) {
  if (!ctx) init();
  if (extra->isConst()) {
    if (!extra->v) return UNSAT;
    if (base) { if (out) *out = std::make_shared<Model>(*base); return SAT; }
  }
  g_sstats.queries++;
  // slice
  std::vector<E> slice;
  {
    static std::vector<u32> varMark; // stamp
    static u32              stamp = 0;
    ++stamp;
    if (varMark.size() < g_vars.size()) varMark.resize(g_vars.size() + 1024, 0);
    std::vector<u8> in(cs.size(), 0);
    std::vector<u32> work = varsOf(extra)->ids;
    for (u32 v: work) varMark[v] = stamp;
    bool changed = base != nullptr;
    if (!base) { // whole thing
      slice = cs;
    }
    while (changed) {
      changed = false;
      for (size_t i = 0; i < cs.size(); ++i) {
        if (in[i]) continue;
        const VarSet* vs  = varsOf(cs[i]);
        bool          hit = false;
        for (u32 v: vs->ids) if (varMark[v] == stamp) { hit = true; break; }
        if (hit) {
          in[i] = 1;
          slice.push_back(cs[i]);
          for (u32 v: vs->ids) if (varMark[v] != stamp) { varMark[v] = stamp; changed = true; }
        }
      }
    }
  }
  slice.push_back(extra);
  QKey key;
  for (E e: slice) key.ids.push_back(e->id);
  std::sort(key.ids.begin(), key.ids.end());
  key.ids.erase(std::unique(key.ids.begin(), key.ids.end()), key.ids.end());
  auto it = qcache.find(key);
  if (it != qcache.end()) {
    g_sstats.cacheHits++;
    if (it->second.r == SAT && out) {
      auto m = std::make_shared<Model>();
      if (base) m->val = base->val;
      for (auto& p: it->second.vals) m->val[p.first] = p.second;
      *out = m;
    }
    return it->second.r;
  }
  auto t0 = std::chrono::steady_clock::now();
  if (assertedCount > 400 || lits.size() > 4000) {
    newSolver();
    for (auto& l: lits) l.second.second = false;
    assertedCount = 0;
  }
  std::vector<Z3_ast> as;
  for (E e: slice) {
    auto li = lits.find(e);
    if (li == lits.end() || !li->second.second) assertedCount++;
    as.push_back(litOf(e));
  }
  std::vector<u32> svars;
  u32              nbits = 0;
  {
    std::unordered_set<u32> seen;
    for (E e: slice) for (u32 v: varsOf(e)->ids) if (seen.insert(v).second) { svars.push_back(v); nbits += g_vars[v].w; }
  }
  Z3_lbool lr;
  {
    Deadline dl(std::min(g_query_timeout_ms, nbits <= 10 ? 500u : nbits <= CUBE_BITS ? 2000u : 8000u));
    lr = Z3_solver_check_assumptions(ctx, slv, (unsigned)as.size(), as.data());
  }
  QVal     qv;
  if (zerr) { lr = Z3_L_UNDEF; zerr = false; }
  auto takeModel = [&](Z3_solver from) {
    Z3_model m = Z3_solver_get_model(ctx, from);
    Z3_model_inc_ref(ctx, m);
    for (u32 v: svars) {
      Z3_ast r; u128 x = 0;
      if (Z3_model_eval(ctx, m, varAst[v], true, &r)) x = getBV(r, g_vars[v].w);
      qv.vals.push_back({v, x});
    }
    Z3_model_dec_ref(ctx, m);
  };
  bool done = false;
  if (lr == Z3_L_UNDEF && nbits <= CUBE_BITS) {
    Cubes cb;
    cb.s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
    Z3_solver_inc_ref(ctx, cb.s);
    for (E e: slice) Z3_solver_assert(ctx, cb.s, boolOf(e));
    for (u32 v: svars)
      for (u32 b = 0; b < g_vars[v].w; ++b) {
        std::string n = "c" + std::to_string(v) + "_" + std::to_string(b);
        Z3_ast      l = keep(Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), Z3_mk_bool_sort(ctx)));
        Z3_solver_assert(ctx, cb.s, Z3_mk_iff(ctx, l, Z3_mk_eq(ctx, Z3_mk_extract(ctx, b, b, varAst[v]), Z3_mk_unsigned_int(ctx, 1, Z3_mk_bv_sort(ctx, 1)))));
        cb.bits.push_back({l, keep(Z3_mk_not(ctx, l))});
      }
    zerr     = false;
    cb.until = nowMs() + g_query_timeout_ms;
    lr       = cb.go(0);
    done     = lr != Z3_L_UNDEF;
    g_sstats.cubed++;
    newSolver();
    for (auto& l: lits) l.second.second = false;
    assertedCount = 0;
    if (lr == Z3_L_TRUE) takeModel(cb.s);
    Z3_solver_dec_ref(ctx, cb.s);
  }
  if (lr == Z3_L_UNDEF) { // retry one-shot
    Z3_tactic tac = Z3_mk_tactic(ctx, "qfbv");
    Z3_tactic_inc_ref(ctx, tac);
    Z3_solver s2 = Z3_mk_solver_from_tactic(ctx, tac);
    Z3_solver_inc_ref(ctx, s2);
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), g_query_timeout_ms);
    Z3_solver_set_params(ctx, s2, p);
    for (E e: slice) Z3_solver_assert(ctx, s2, boolOf(e));
    zerr = false;
    {
      Deadline dl(g_query_timeout_ms);
      lr = Z3_solver_check(ctx, s2);
    }
    if (zerr) lr = Z3_L_UNDEF;
    newSolver(); // an interrupted incremental solver is discarded
    for (auto& l: lits) l.second.second = false;
    assertedCount = 0;
    if (lr == Z3_L_TRUE) takeModel(s2);
    Z3_solver_dec_ref(ctx, s2);
    Z3_tactic_dec_ref(ctx, tac);
    zerr = false;
  } else if (lr == Z3_L_TRUE && !done) takeModel(slv);
  g_sstats.seconds += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  if (getenv("HSX_SLOW")) {
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (dt > 1) { fprintf(stderr, "[slow] %.1fs\n", dt); for (E e: slice) fprintf(stderr, "   %s\n", toString(e, 40).c_str()); }
  }
  qv.r = lr == Z3_L_TRUE ? SAT : lr == Z3_L_FALSE ? UNSAT : UNKNOWN;
  if (qv.r == SAT) {
    // validate the model with our own evaluator (guards the translation)
    Model m;
    for (auto& p: qv.vals) m.val[p.first] = p.second;
    for (E e: slice) if (m.eval(e) != 1) {
      fprintf(stderr, "FATAL: solver model does not satisfy a constraint under the evaluator: %s\n", toString(e).c_str());
      abort();
    }
  }
  switch (qv.r) {
  case SAT: g_sstats.sat++; break;
  case UNSAT: g_sstats.unsat++; break;
  default: g_sstats.unknown++;
  }
  if (dumped < g_dump_max && !g_dump_dir.empty() && qv.r != UNKNOWN) {
    u64 n = g_sstats.sat + g_sstats.unsat;
    if ((n & (n - 1)) == 0 || n % 97 == 0 || qv.r == UNSAT) {
      if (qv.r == UNSAT && n % 3 && dumped > 4) {} else {
      Z3_solver s2 = Z3_mk_simple_solver(ctx);
      Z3_solver_inc_ref(ctx, s2);
      for (E e: slice) Z3_solver_assert(ctx, s2, boolOf(e));
      std::string fn = g_dump_dir + "/q" + std::to_string(dumped++) + (qv.r == SAT ? "_sat.smt2" : "_unsat.smt2");
      if (FILE* f = fopen(fn.c_str(), "w")) {
        fprintf(f, "(set-logic QF_BV)\n%s(check-sat)\n", Z3_solver_to_string(ctx, s2));
        fclose(f);
      }
      Z3_solver_dec_ref(ctx, s2);
      }
    }
  }
  if (qv.r == SAT && out) {
    auto m = std::make_shared<Model>();
    if (base) m->val = base->val;
    for (auto& p: qv.vals) m->val[p.first] = p.second;
    *out = m;
  }
  qcache.emplace(std::move(key), std::move(qv));
  return lr == Z3_L_TRUE ? SAT : lr == Z3_L_FALSE ? UNSAT : UNKNOWN;
}
