#include "exec.h"
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <functional>
#include <charconv>
#include <cmath>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/ReplaceConstant.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <random>

using namespace llvm;

// ------------------------------------------------------------------ options
static std::map<std::string, long> g_params;
static std::string g_out, g_repo = "/repo";
static u64    g_maxSteps = 200'000'000, g_maxPaths = ~0ull, g_maxTotal = ~0ull;
static double g_timeLimit = 800;
static int    g_maxErrors = 3, g_samples = 8, g_preemptBound = 2;
static bool   g_race = false;
static unsigned g_seed = 1;
static bool   g_verbose = false, g_traceCalls = false;
static u64    g_memLimitMB = 6000;
static std::string g_replayIn; // concrete inputs: run a single path

static double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static double g_t0;

enum EndKind { END_OK, END_ASSUME, END_ERROR, END_LIMIT, END_UNSUPPORTED };
struct PathEnd { EndKind k; std::string msg; };

[[noreturn]] static void unsupported(const std::string& m) { throw PathEnd{END_UNSUPPORTED, m}; }

// ------------------------------------------------------------------ helpers on values
static inline Val cv(u64 c) { return Val{c, nullptr}; }
static inline u64 m64(u32 w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
static inline E toE(const Val& v, u32 w) { return v.e ? v.e : mkConst(v.c, w); }
static inline Val fromE(E e) { return e->isConst() && e->w <= 64 ? Val{(u64)e->v, nullptr} : Val{0, e}; }
static inline bool isConcrete(const Val& v) { return !v.e; }
static Val mkAgg(u32 n) {
  Agg* a = (Agg*)malloc(sizeof(Agg) + n * sizeof(Val));
  a->n = n;
  for (u32 i = 0; i < n; i++) a->v[i] = cv(0);
  return Val{(u64)a, AGGTAG};
}

struct Exec;
typedef std::function<bool(Exec&, std::vector<Val>&, Val&)> BuiltinFn;
struct BuiltinDef { std::string name; BuiltinFn fn; };

struct Report { std::string kind, msg, where, fault; std::vector<std::pair<std::string, std::string>> inputs; std::vector<std::pair<std::string, std::string>> obs; std::vector<std::string> trace; std::vector<std::string> stack; std::vector<u8> sched; };

struct Exec {
  LLVMContext ctx;
  std::unique_ptr<Module> M;
  const DataLayout* DL = nullptr;
  std::unordered_map<const Function*, FuncInfo*> funcs;
  std::unordered_map<const GlobalVariable*, u32> gvId;
  std::vector<FuncInfo*> funcById; // object id -> func
  std::vector<BuiltinDef> builtins;
  std::unordered_map<std::string, int> builtinIdx;
  State* S = nullptr;
  std::vector<State*> work;
  std::unique_ptr<State> snapshot; // after global constructors
  u32 snapNext = 0;
  std::unordered_map<u32, bool> isTls;
  std::set<u32> persistent;
  // results
  u64 paths = 0, pathsOk = 0, pathsAssume = 0, pathsErr = 0, pathsLimit = 0, pathsUnsup = 0, forks = 0, instrs = 0, branches = 0, symBranches = 0, asserts = 0, assertsSym = 0;
  std::map<std::string, u64> covers, limits, unsup;
  std::vector<Report> errors, samples;
  u64 sampleSeen = 0;
  std::set<std::string> errKeys;
  std::mt19937_64 rng;
  bool stop = false; std::string stopReason;
  std::map<std::string, std::map<std::string, u64>> repoFuncs;
  std::map<std::string, std::string> concreteIn;
  Memory* curMem() { return &S->mem; }
  std::map<u64, u64> vtKind; // vptr value -> kind
  u64 vtClass = 0, vtSi = 0, vtVmi = 0;
  std::vector<u8> initModel;
  std::map<std::string, u64> forkSites;
  std::unordered_map<std::string, u64> querySites;
  bool profile = false;

  Thread& T() { return S->th[S->cur]; }
  Frame& F() { return S->th[S->cur].st.back(); }

  // ---------------------------------------------------------------- loading
  void addGlobal(const GlobalVariable& g) {
    u64 sz = DL->getTypeAllocSize(g.getValueType());
    bool decl = g.isDeclaration();
    if (decl && sz < 64) sz = 64;
    Obj* o = S->mem.alloc(sz, O_GLOBAL, true);
    o->tag = &g;
    gvId[&g] = o->id;
    if (g.isThreadLocal()) isTls[o->id] = true;
    if (g.getName().starts_with("hsx_persist")) persistent.insert(o->id);
  }
  u64 addrOfGlobal(const GlobalValue* g) {
    if (auto* f = dyn_cast<Function>(g)) return mkAddr(fi(f)->objId, 0);
    if (auto* v = dyn_cast<GlobalVariable>(g)) return mkAddr(gvId.at(v), 0);
    if (auto* a = dyn_cast<GlobalAlias>(g)) {
      Val v = constVal(a->getAliasee());
      return v.c;
    }
    unsupported("global kind " + g->getName().str());
  }
  FuncInfo* fi(const Function* f) {
    auto it = funcs.find(f);
    if (it != funcs.end()) return it->second;
    auto* x = new FuncInfo();
    x->F = const_cast<Function*>(f);
    x->name = f->getName().str();
    funcs[f] = x;
    return x;
  }
  void load(const std::string& file) {
    SMDiagnostic err;
    M = parseIRFile(file, err, ctx);
    if (!M) { err.print("hsx", errs()); exit(3); }
    DL = &M->getDataLayout();
    for (auto& g: M->globals()) { // the address of a thread-local is taken where it is used, never folded into a constant
      if (!g.isThreadLocal()) continue;
      convertUsersOfConstantsToInstructions({&g});
      std::vector<Use*> us;
      for (Use& u: g.uses()) if (isa<Instruction>(u.getUser())) us.push_back(&u);
      for (Use* u: us) {
        auto* I = cast<Instruction>(u->getUser());
        if (auto* ii = dyn_cast<IntrinsicInst>(I)) if (ii->getIntrinsicID() == Intrinsic::threadlocal_address) continue;
        IRBuilder<> b(I);
        if (auto* phi = dyn_cast<PHINode>(I)) b.SetInsertPoint(phi->getIncomingBlock(*u)->getTerminator());
        b.SetCurrentDebugLocation(I->getDebugLoc());
        u->set(b.CreateThreadLocalAddress(&g));
      }
    }
    S = new State();
    S->th.resize(1);
    S->model = std::make_shared<Model>();
    for (auto& f: *M) {
      FuncInfo* x = fi(&f);
      Obj* o = S->mem.alloc(1, O_FUNC, true);
      x->objId = o->id;
      if (funcById.size() <= o->id) funcById.resize(o->id + 1);
      funcById[o->id] = x;
      auto bi = builtinIdx.find(x->name);
      if (bi != builtinIdx.end()) x->builtin = bi->second;
      if (auto* sp = f.getSubprogram()) {
        std::string fn = sp->getFilename().str();
        if (!fn.empty() && fn[0] != '/') fn = sp->getDirectory().str() + "/" + fn;
        if (fn.rfind(g_repo + "/", 0) == 0 && fn.find("/ext/") == std::string::npos) x->repo = true;
        std::string base = fn.substr(fn.rfind('/') + 1);
        if (base == "rt.cpp" || base == "rt_libc.cpp" || base == "rt_io.cpp") x->layer = 1;
        else if (!fn.empty() && fn.rfind("/usr/", 0) != 0 && fn.find("/include/c++/") == std::string::npos) x->layer = 0;
      }
    }
    for (auto& g: M->globals()) addGlobal(g);
    for (auto& g: M->globals()) {
      if (!g.hasInitializer()) continue;
      u32 id = gvId[&g];
      if (!isa<ConstantAggregateZero>(g.getInitializer())) storeConst(id, 0, g.getInitializer());
    }
    for (auto& g: M->globals()) if (g.isConstant() && g.hasInitializer()) S->mem.getW(gvId[&g])->ro = true;
    auto vt = [&](const char* n) -> u64 {
      if (auto* g = M->getNamedGlobal(n)) return mkAddr(gvId[g], 16);
      return 0;
    };
    vtClass = vt("_ZTVN10__cxxabiv117__class_type_infoE");
    vtSi = vt("_ZTVN10__cxxabiv120__si_class_type_infoE");
    vtVmi = vt("_ZTVN10__cxxabiv121__vmi_class_type_infoE");
  }
  void storeConst(u32 id, u64 off, const Constant* c) {
    Type* t = c->getType();
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) return;
    if (auto* cs = dyn_cast<ConstantStruct>(c)) {
      auto* sl = DL->getStructLayout(cs->getType());
      for (unsigned i = 0; i < cs->getNumOperands(); i++) storeConst(id, off + sl->getElementOffset(i), cs->getOperand(i));
      return;
    }
    if (auto* ca = dyn_cast<ConstantArray>(c)) {
      u64 es = DL->getTypeAllocSize(ca->getType()->getElementType());
      for (unsigned i = 0; i < ca->getNumOperands(); i++) storeConst(id, off + i * es, ca->getOperand(i));
      return;
    }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
      u64 es = DL->getTypeAllocSize(cd->getElementType());
      StringRef raw = cd->getRawDataValues();
      (void)es;
      Obj* o = S->mem.getW(id);
      for (size_t i = 0; i < raw.size(); i++) Memory::writeByte(o, off + i, (u8)raw[i], nullptr);
      return;
    }
    Val v = constVal(c);
    storeTyped(mkAddr(id, off), v, t, true);
  }

  Val constVal(const Constant* c) {
    Type* t = c->getType();
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
      u32 w = ci->getBitWidth();
      if (w <= 64) return cv(ci->getZExtValue());
      if (w > 128) unsupported("int wider than 128");
      const u64* r = ci->getValue().getRawData();
      return fromE(mkConst((u128)r[0] | ((u128)r[1] << 64), w));
    }
    if (isa<ConstantPointerNull>(c)) return cv(0);
    if (auto* f = dyn_cast<ConstantFP>(c)) return cv(fpBits(f->getValueAPF(), t));
    if (auto* g = dyn_cast<GlobalValue>(c)) return cv(addrOfGlobal(g));
    if (t->isVectorTy() || t->isStructTy() || t->isArrayTy()) {
      u32 n = t->isVectorTy() ? cast<FixedVectorType>(t)->getNumElements() : t->isStructTy() ? t->getStructNumElements() : (u32)t->getArrayNumElements();
      Val v = mkAgg(n);
      for (u32 i = 0; i < n; i++) {
        Constant* el = c->getAggregateElement(i);
        agg(v)->v[i] = el ? constVal(el) : cv(0);
      }
      return v;
    }
    if (isa<UndefValue>(c)) {
      if (t->isIntegerTy() && t->getIntegerBitWidth() > 64) return fromE(mkConst(0, t->getIntegerBitWidth()));
      return cv(0);
    }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
      switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        auto* gep = cast<GEPOperator>(ce);
        APInt off(64, 0);
        if (!gep->accumulateConstantOffset(*DL, off)) unsupported("constant gep");
        return cv(constVal(ce->getOperand(0)).c + off.getZExtValue());
      }
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: return constVal(ce->getOperand(0));
      case Instruction::Sub: return cv((constVal(ce->getOperand(0)).c - constVal(ce->getOperand(1)).c) & m64(t->getIntegerBitWidth()));
      case Instruction::Add: return cv((constVal(ce->getOperand(0)).c + constVal(ce->getOperand(1)).c) & m64(t->getIntegerBitWidth()));
      case Instruction::Trunc: return cv(constVal(ce->getOperand(0)).c & m64(t->getIntegerBitWidth()));
      case Instruction::ICmp: {
        u64 a = constVal(ce->getOperand(0)).c, b = constVal(ce->getOperand(1)).c;
        if (ce->getPredicate() == CmpInst::ICMP_EQ) return cv(a == b);
        if (ce->getPredicate() == CmpInst::ICMP_NE) return cv(a != b);
        break;
      }
      default: break;
      }
      std::string s;
      raw_string_ostream os(s);
      ce->print(os);
      unsupported("constant expr " + s);
    }
    unsupported("constant");
  }
  static u64 fpBits(const APFloat& f, Type* t) {
    if (t->isFloatTy() || t->isDoubleTy()) return f.bitcastToAPInt().getZExtValue();
    APFloat x = f;
    bool li;
    x.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
    return x.bitcastToAPInt().getZExtValue();
  }

  static u32 widthOf(Type* t) {
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy() || t->isX86_FP80Ty()) return 64;
    return 0;
  }

  // ---------------------------------------------------------------- decoding
  void decode(FuncInfo* f) {
    f->decoded = true;
    Function* fn = f->F;
    std::unordered_map<const Value*, int> slot;
    std::unordered_map<const Constant*, int> cslot;
    u32 ns = 0;
    for (auto& a: fn->args()) slot[&a] = (int)ns++;
    f->nargs = ns;
    for (auto& bb: *fn) for (auto& i: bb) if (!i.getType()->isVoidTy()) slot[&i] = (int)ns++;
    f->nslots = ns;
    auto op = [&](const Value* v) -> int {
      auto it = slot.find(v);
      if (it != slot.end()) return it->second;
      if (auto* c = dyn_cast<Constant>(v)) {
        auto jt = cslot.find(c);
        if (jt != cslot.end()) return jt->second;
        f->consts.push_back(constVal(c));
        int k = -(int)f->consts.size();
        cslot[c] = k;
        return k;
      }
      if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return -1000000000;
      unsupported("operand");
    };
    std::unordered_map<const BasicBlock*, u32> bbpc;
    // first pass: assign pcs (skip phis and debug intrinsics)
    auto skip = [&](const Instruction& i) {
      if (isa<PHINode>(i)) return true;
      if (auto* ii = dyn_cast<IntrinsicInst>(&i)) {
        switch (ii->getIntrinsicID()) {
        case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign:
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::experimental_noalias_scope_decl:
        case Intrinsic::assume: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::invariant_start: case Intrinsic::invariant_end:
        case Intrinsic::sideeffect: case Intrinsic::var_annotation:
          return i.getType()->isVoidTy() || i.use_empty();
        default: return false;
        }
      }
      return false;
    };
    u32 pc = 0;
    for (auto& bb: *fn) {
      bbpc[&bb] = pc;
      for (auto& i: bb) if (!skip(i)) pc++;
    }
    auto edge = [&](const BasicBlock* from, const BasicBlock* to) -> int {
      Edge e;
      e.pc = bbpc[to];
      for (auto& phi: to->phis()) {
        const Value* v = phi.getIncomingValueForBlock(from);
        if (isa<UndefValue>(v) && widthOf(phi.getType())) { e.moves.push_back({slot[&phi], op(v)}); continue; }
        e.moves.push_back({slot[&phi], op(v)});
      }
      f->edges.push_back(std::move(e));
      return (int)f->edges.size() - 1;
    };
    for (auto& bb: *fn)
      for (auto& i: bb) {
        if (skip(i)) continue;
        Inst x{};
        x.I = &i;
        x.dst = i.getType()->isVoidTy() ? -1 : slot[&i];
        x.op = OP_GENERIC;
        Type* t = i.getType();
        bool scalar = widthOf(t) != 0;
        switch (i.getOpcode()) {
        case Instruction::Br: {
          auto& b = cast<BranchInst>(i);
          if (b.isConditional()) {
            x.op = OP_CBR;
            x.a = op(b.getCondition());
            x.b = edge(&bb, b.getSuccessor(0));
            x.c = edge(&bb, b.getSuccessor(1));
          } else {
            x.op = OP_BR;
            x.b = edge(&bb, b.getSuccessor(0));
          }
          break;
        }
        case Instruction::Switch: {
          auto& s = cast<SwitchInst>(i);
          x.op = OP_SWITCH;
          x.a = op(s.getCondition());
          x.w = (u16)widthOf(s.getCondition()->getType());
          std::pair<std::vector<std::pair<u64, u32>>, u32> sw;
          std::map<const BasicBlock*, u32> em;
          auto ed = [&](const BasicBlock* t) {
            auto it = em.find(t);
            if (it != em.end()) return it->second;
            return em[t] = (u32)edge(&bb, t);
          };
          for (auto& c: s.cases()) sw.first.push_back({c.getCaseValue()->getZExtValue(), ed(c.getCaseSuccessor())});
          sw.second = ed(s.getDefaultDest());
          x.x = (u32)f->switches.size();
          f->switches.push_back(sw);
          break;
        }
        case Instruction::Ret:
          x.op = OP_RET;
          x.a = i.getNumOperands() ? op(i.getOperand(0)) : -1000000000;
          x.b = i.getNumOperands() ? 1 : 0;
          break;
        case Instruction::Unreachable: x.op = OP_UNREACHABLE; break;
        case Instruction::Call: case Instruction::Invoke: {
          auto& cb = cast<CallBase>(i);
          x.op = isa<InvokeInst>(i) ? OP_INVOKE : OP_CALL;
          CallInfo ci;
          for (auto& a: cb.args()) ci.args.push_back(op(a.get()));
          Value* cal = cb.getCalledOperand()->stripPointerCasts();
          if (auto* ga = dyn_cast<GlobalAlias>(cal)) cal = const_cast<GlobalObject*>(ga->getAliaseeObject());
          if (auto* cf = dyn_cast<Function>(cal)) ci.callee = fi(cf);
          else if (isa<InlineAsm>(cal)) ci.callee = nullptr, ci.calleeOp = -1000000000;
          else ci.calleeOp = op(cb.getCalledOperand());
          if (auto* iv = dyn_cast<InvokeInst>(&i)) {
            ci.normal = edge(&bb, iv->getNormalDest());
            ci.unwind = edge(&bb, iv->getUnwindDest());
          }
          x.x = (u32)f->calls.size();
          f->calls.push_back(ci);
          break;
        }
        case Instruction::Resume: x.op = OP_RESUME; x.a = op(i.getOperand(0)); break;
        case Instruction::LandingPad: x.op = OP_LANDINGPAD; break;
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem:
        case Instruction::SRem: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::And: case Instruction::Or: case Instruction::Xor:
          if (scalar) {
            x.op = OP_BIN;
            x.sub = binKind(i.getOpcode());
            x.w = (u16)widthOf(t);
            x.a = op(i.getOperand(0));
            x.b = op(i.getOperand(1));
          }
          break;
        case Instruction::ICmp:
          if (scalar && widthOf(i.getOperand(0)->getType())) {
            x.op = OP_ICMP;
            x.sub = (u8)cast<ICmpInst>(i).getPredicate();
            x.w = (u16)widthOf(i.getOperand(0)->getType());
            x.a = op(i.getOperand(0));
            x.b = op(i.getOperand(1));
          }
          break;
        case Instruction::Select:
          if (scalar) {
            x.op = OP_SELECT;
            x.w = (u16)widthOf(t);
            x.a = op(i.getOperand(0));
            x.b = op(i.getOperand(1));
            x.c = op(i.getOperand(2));
          }
          break;
        case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc:
          if (scalar) {
            x.op = i.getOpcode() == Instruction::ZExt ? OP_ZEXT : i.getOpcode() == Instruction::SExt ? OP_SEXT : OP_TRUNC;
            x.w = (u16)widthOf(t);
            x.x = widthOf(i.getOperand(0)->getType());
            x.a = op(i.getOperand(0));
          }
          break;
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast:
          if (scalar && widthOf(i.getOperand(0)->getType())) {
            u32 sw = widthOf(i.getOperand(0)->getType()), dw = widthOf(t);
            x.op = sw == dw ? OP_NOP : sw < dw ? OP_ZEXT : OP_TRUNC;
            x.w = (u16)dw;
            x.x = sw;
            x.a = op(i.getOperand(0));
          }
          break;
        case Instruction::Freeze: x.op = OP_NOP; x.a = op(i.getOperand(0)); break;
        case Instruction::Load:
          x.op = OP_LOAD;
          x.sub = cast<LoadInst>(i).isAtomic() ? 1 + acqRel(cast<LoadInst>(i).getOrdering()) : 0;
          x.a = op(i.getOperand(0));
          x.w = (u16)(t->isX86_FP80Ty() ? 0 : widthOf(t));
          x.p = t;
          break;
        case Instruction::Store:
          x.op = OP_STORE;
          x.sub = cast<StoreInst>(i).isAtomic() ? 1 + acqRel(cast<StoreInst>(i).getOrdering()) : 0;
          x.a = op(i.getOperand(0));
          x.b = op(i.getOperand(1));
          x.p = i.getOperand(0)->getType();
          x.w = (u16)(i.getOperand(0)->getType()->isX86_FP80Ty() ? 0 : widthOf(i.getOperand(0)->getType()));
          break;
        case Instruction::GetElementPtr: {
          if (!scalar) break;
          auto& g = cast<GetElementPtrInst>(i);
          x.op = OP_GEP;
          x.a = op(g.getPointerOperand());
          std::vector<GepStep> steps;
          u64 off = 0;
          for (auto gti = gep_type_begin(g), ge = gep_type_end(g); gti != ge; ++gti) {
            Value* idx = gti.getOperand();
            if (StructType* st = gti.getStructTypeOrNull()) off += DL->getStructLayout(st)->getElementOffset((unsigned)cast<ConstantInt>(idx)->getZExtValue());
            else {
              u64 sc = DL->getTypeAllocSize(gti.getIndexedType());
              if (auto* ci = dyn_cast<ConstantInt>(idx)) off += sc * (u64)ci->getSExtValue();
              else steps.push_back({op(idx), sc, (u16)widthOf(idx->getType())});
            }
          }
          x.imm = off;
          x.x = (u32)f->geps.size();
          x.sub = steps.empty() ? 0 : 1;
          f->geps.push_back(steps);
          break;
        }
        case Instruction::Alloca: {
          auto& al = cast<AllocaInst>(i);
          x.op = OP_ALLOCA;
          x.imm = DL->getTypeAllocSize(al.getAllocatedType());
          x.a = op(al.getArraySize());
          break;
        }
        case Instruction::ExtractValue: x.op = OP_EXTRACTVALUE; x.a = op(i.getOperand(0)); break;
        case Instruction::InsertValue: x.op = OP_INSERTVALUE; x.a = op(i.getOperand(0)); x.b = op(i.getOperand(1)); break;
        case Instruction::Fence: x.op = OP_FENCE; break;
        case Instruction::AtomicRMW: x.sub = 1 + acqRel(cast<AtomicRMWInst>(i).getOrdering()); x.op = OP_ATOMICRMW; x.a = op(i.getOperand(0)); x.b = op(i.getOperand(1)); x.w = (u16)widthOf(i.getOperand(1)->getType()); x.p = i.getOperand(1)->getType(); break;
        case Instruction::AtomicCmpXchg: x.sub = 1 + acqRel(cast<AtomicCmpXchgInst>(i).getSuccessOrdering()); x.op = OP_CMPXCHG; x.a = op(i.getOperand(0)); x.b = op(i.getOperand(1)); x.c = op(i.getOperand(2)); x.w = (u16)widthOf(i.getOperand(1)->getType()); x.p = i.getOperand(1)->getType(); break;
        default: break;
        }
        if (x.op == OP_GENERIC) {
          std::vector<int> ops;
          for (auto& o: i.operands()) ops.push_back(op(o.get()));
          x.x = (u32)f->opnds.size();
          f->opnds.push_back(ops);
        }
        f->code.push_back(x);
      }
    f->cov.assign(f->code.size(), 0);
  }
  static u8 binKind(unsigned o) {
    switch (o) {
    case Instruction::Add: return K_ADD;
    case Instruction::Sub: return K_SUB;
    case Instruction::Mul: return K_MUL;
    case Instruction::UDiv: return K_UDIV;
    case Instruction::SDiv: return K_SDIV;
    case Instruction::URem: return K_UREM;
    case Instruction::SRem: return K_SREM;
    case Instruction::Shl: return K_SHL;
    case Instruction::LShr: return K_LSHR;
    case Instruction::AShr: return K_ASHR;
    case Instruction::And: return K_AND;
    case Instruction::Or: return K_OR;
    case Instruction::Xor: return K_XOR;
    }
    return 0;
  }

  inline const Val& V(int o) {
    Frame& fr = F();
    return o >= 0 ? fr.regs[(u32)o] : fr.f->consts[(u32)(-1 - o)];
  }

  // ---------------------------------------------------------------- solving
  bool allPinned(E e) {
    const VarSet* vs = varsOf(e);
    if (S->pinnedCount == 0) return vs->ids.empty();
    for (u32 v: vs->ids) if (v >= S->pinned.size() || !S->pinned[v]) return false;
    return true;
  }
  SatRes query(E extra, std::shared_ptr<Model>* out) {
    SatRes r = solveWith(S->pc, extra, S->model.get(), out);
    if (profile) querySites[where(2)]++;
    if (r == UNKNOWN) throw PathEnd{END_LIMIT, "solver returned unknown"};
    return r;
  }
  void addC(State* s, E c) {
    if (c->isConst()) return;
    s->known[c] = 1;
    s->known[mkNot(c)] = 0;
    if (c->k == K_AND && c->w == 1) { addC(s, c->a); addC(s, c->b); return; }
    s->pc.push_back(c);
    E x = nullptr, k = nullptr;
    if (c->k == K_EQ) {
      if (c->a->isConst()) x = c->b, k = c->a;
      else if (c->b->isConst()) x = c->a, k = c->b;
    } else if (c->k == K_VAR) x = c, k = mkConst(1, 1);
    else if (c->k == K_NOT && c->a->k == K_VAR) x = c->a, k = mkConst(0, 1);
    if (x && x->w <= 64) {
      s->known[x] = (u64)k->v;
      pin(s, x);
    }
  }
  void pin(State* s, E x) {
    if (x->k == K_VAR) {
      if (s->pinned.size() <= x->aux) s->pinned.resize(x->aux + 1, 0);
      if (!s->pinned[x->aux]) { s->pinned[x->aux] = 1; s->pinnedCount++; }
    } else if (x->k == K_CONCAT) { pin(s, x->a); pin(s, x->b); }
    else if (x->k == K_ZEXT || x->k == K_SEXT || x->k == K_NOT) pin(s, x->a);
    else if ((x->k == K_XOR || x->k == K_ADD) && x->b->isConst()) pin(s, x->a);
    else if ((x->k == K_XOR || x->k == K_ADD || x->k == K_SUB) && x->a->isConst()) pin(s, x->b);
  }
  // rewrite an expression with what the path has decided; most lengths and addresses that depend on a decision become constants
  std::unordered_map<E, E> redMemo;
  u32                      redLeft = 0;
  E red(E e) {
    if (e->isConst()) return e;
    auto kn = S->known.find(e);
    if (kn != S->known.end()) return mkConst(kn->second, e->w);
    if (e->k == K_VAR) return e;
    auto it = redMemo.find(e);
    if (it != redMemo.end()) return it->second;
    if (!redLeft) return e;
    redLeft--;
    E r = e;
    switch (e->k) {
    case K_ITE: {
      E c = red(e->a);
      if (c->isConst()) r = red(c->v ? e->b : e->c);
      else {
        E b = red(e->b), d = red(e->c);
        if (c != e->a || b != e->b || d != e->c) r = mkIte(c, b, d);
      }
      break;
    }
    case K_NOT: { E a = red(e->a); if (a != e->a) r = mkNot(a); break; }
    case K_ZEXT: { E a = red(e->a); if (a != e->a) r = mkZExt(a, e->w); break; }
    case K_SEXT: { E a = red(e->a); if (a != e->a) r = mkSExt(a, e->w); break; }
    case K_EXTRACT: { E a = red(e->a); if (a != e->a) r = mkExtract(a, e->aux, e->w); break; }
    case K_CONCAT: { E a = red(e->a), b = red(e->b); if (a != e->a || b != e->b) r = mkConcat(a, b); break; }
    case K_EQ: { E a = red(e->a), b = red(e->b); if (a != e->a || b != e->b) r = mkEq(a, b); break; }
    case K_ULT: { E a = red(e->a), b = red(e->b); if (a != e->a || b != e->b) r = mkUlt(a, b); break; }
    case K_SLT: { E a = red(e->a), b = red(e->b); if (a != e->a || b != e->b) r = mkSlt(a, b); break; }
    default: { E a = red(e->a), b = red(e->b); if (a != e->a || b != e->b) r = mkBin(e->k, a, b); }
    }
    redMemo[e] = r;
    return r;
  }
  // the constant an expression has on this path, if rewriting alone shows it
  E reduced(E e) {
    redMemo.clear();
    redLeft = 300;
    E r     = red(e);
    if (r->isConst() && S->known.find(e) == S->known.end() && e->w <= 64) S->known[e] = (u64)r->v;
    return r;
  }
  // fork a state in which cond (currently not true in the model) holds, same pc
  State* forkIf(E cond) {
    if (cond->isConst() && !cond->v) return nullptr;
    if (allPinned(cond)) { if (!S->model->eval(cond)) return nullptr; }
    std::shared_ptr<Model> m;
    if (query(cond, &m) != SAT) return nullptr;
    State* n = new State(*S);
    n->model = m;
    addC(n, cond);
    forks++;
    if (profile) forkSites[where(1)]++;
    return n;
  }
  // decide a condition, forking the other side at the same pc
  bool decide(E cond) {
    if (cond->isConst()) return cond->v != 0;
    bool v = S->model->eval(cond) != 0;
    auto kn = S->known.find(cond);
    if (kn != S->known.end()) return kn->second != 0;
    if (allPinned(cond)) return v;
    if (E k = reduced(cond); k->isConst()) return k->v != 0;
    E pos = v ? cond : mkNot(cond);
    State* o = forkIf(mkNot(pos));
    if (o) {
      work.push_back(o);
      addC(S, pos);
    } else S->known[cond] = v;
    symBranches++;
    return v;
  }
  u64 concretize(const Val& v, u32 w) {
    if (!v.e) return v.c;
    return concretizeE(v.e);
  }
  u64 concretizeE(E e) {
    if (e->isConst()) return (u64)e->v;
    auto kn = S->known.find(e);
    if (kn != S->known.end()) return kn->second;
    u64 v = (u64)S->model->eval(e);
    if (allPinned(e)) { S->known[e] = v; return v; }
    if (E k = reduced(e); k->isConst()) return (u64)k->v;
    E eq = mkEq(e, mkConst(v, e->w));
    State* o = forkIf(mkNot(eq));
    if (o) { work.push_back(o); addC(S, eq); }
    S->known[e] = v;
    symBranches++;
    return v;
  }
  bool mustBe(E cond) { // cond valid on this path?
    if (cond->isConst()) return cond->v;
    if (!S->model->eval(cond)) return false;
    if (allPinned(cond)) return true;
    if (E k = reduced(cond); k->isConst()) return k->v != 0;
    return query(mkNot(cond), nullptr) == UNSAT;
  }

  // ---------------------------------------------------------------- reporting
  std::string loc(const Instruction* I) {
    if (!I) return "?";
    std::string s;
    if (DILocation* l = I->getDebugLoc().get()) {
      s = l->getFilename().str() + ":" + std::to_string(l->getLine());
    }
    return s;
  }
  std::string where(int n) {
    std::string s;
    auto& st = T().st;
    for (int i = (int)st.size() - 1, k = 0; i >= 0 && k < n; i--, k++) {
      Frame& fr = st[(u32)i];
      const Instruction* I = fr.pc < fr.f->code.size() ? fr.f->code[fr.pc].I : nullptr;
      if (!s.empty()) s += " < ";
      s += fr.f->name + "@" + loc(I);
    }
    return s;
  }
  // innermost location in /repo
  std::string repoWhere() {
    auto& st = T().st;
    for (int i = (int)st.size() - 1; i >= 0; i--) {
      Frame& fr = st[(u32)i];
      const Instruction* I = fr.pc < fr.f->code.size() ? fr.f->code[fr.pc].I : nullptr;
      if (!I) continue;
      DILocation* l = I->getDebugLoc().get();
      while (l) {
        std::string fn = l->getFilename().str();
        if (!fn.empty() && fn[0] != '/') fn = l->getDirectory().str() + "/" + fn;
        if (fn.rfind(g_repo + "/", 0) == 0 && fn.find("/ext/") == std::string::npos) return fn.substr(g_repo.size() + 1) + ":" + std::to_string(l->getLine());
        l = l->getInlinedAt();
      }
    }
    return "";
  }
  static std::string hex(u8 b) { char x[3]; snprintf(x, 3, "%02x", b); return x; }
  Report mkReport(const std::string& kind, const std::string& msg, const Model& m) {
    Report r;
    r.kind = kind;
    r.msg = msg;
    r.where = repoWhere();
    r.fault = S->fault;
    for (auto& in: S->inputs) {
      std::string h;
      for (u32 v: in.vars) {
        u64 x = (u64)m.var(v);
        if (in.choice) h += std::to_string(x);
        else h += hex((u8)x);
      }
      r.inputs.push_back({in.name, (in.choice ? "i:" : "h:") + h});
    }
    for (auto& o: S->obs) {
      std::string h;
      for (E e: o.bytes) h += hex((u8)m.eval(e));
      r.obs.push_back({o.tag, h});
    }
    r.trace = S->trace;
    r.sched = S->sched;
    auto& st = T().st;
    for (int i = (int)st.size() - 1, k = 0; i >= 0 && k < 25; i--, k++) {
      Frame& fr = st[(u32)i];
      const Instruction* I = fr.pc < fr.f->code.size() ? fr.f->code[fr.pc].I : nullptr;
      r.stack.push_back(fr.f->name + "@" + loc(I));
    }
    return r;
  }
  void reportError(const std::string& kind, const std::string& msg, const Model& m) {
    std::string key = kind + "|" + msg + "|" + repoWhere();
    pathsErr++;
    if (errKeys.insert(key).second) {
      errors.push_back(mkReport(kind, msg, m));
      if (g_verbose) {
        fprintf(stderr, "[hsx] ERROR %s: %s at %s\n   %s\n", kind.c_str(), msg.c_str(), repoWhere().c_str(), where(12).c_str());
      }
      if ((int)errors.size() >= g_maxErrors) { stop = true; stopReason = "max errors"; }
    }
  }
  [[noreturn]] void error(const std::string& kind, const std::string& msg) {
    reportError(kind, msg, *S->model);
    throw PathEnd{END_ERROR, msg};
  }

  // ---------------------------------------------------------------- memory access
  std::string descAddr(u64 a) {
    char b[128];
    u64 id = a >> 32;
    const Obj* o = S->mem.get((u32)id);
    snprintf(b, sizeof b, "obj %llu off %lld", (unsigned long long)id, (long long)((a & 0xffffffff) - OFF0));
    std::string s = b;
    if (o) {
      s += " size " + std::to_string(o->size);
      if (o->kind == O_GLOBAL && o->tag) s += " global " + ((const GlobalVariable*)o->tag)->getName().str();
    }
    return s;
  }
  // concrete access check
  const Obj* check(u64 a, u64 n, bool wr, u64& off) {
    u32 id = (u32)(a >> 32);
    const Obj* o = S->mem.get(id);
    if (!o || o->kind == O_FUNC) {
      if (a < 65536 || id == 0) error("memory", std::string("null pointer ") + (wr ? "write" : "read"));
      error("memory", std::string(id < S->mem.nextId ? "use after free/scope: " : "wild pointer: ") + (wr ? "write " : "read ") + "of " + std::to_string(n) + " bytes");
    }
    off = (a & 0xffffffffull) - OFF0;
    if (off > o->size || n > o->size - off) error("memory", std::string("out of bounds ") + (wr ? "write" : "read") + " of " + std::to_string(n) + " bytes");
    if (wr && o->ro) error("memory", "write to read-only object");
    return o;
  }
  // resolve a possibly symbolic address to a concrete one or (object,base,offset expr)
  // returns true if concrete
  static u32 lowZeros(E e) {
    switch (e->k) {
    case K_CONST: { u32 n = 0; if (!e->v) return e->w; while (!((e->v >> n) & 1)) n++; return n; }
    case K_CONCAT: if (e->b->isConst() && !e->b->v) return e->b->w + lowZeros(e->a); else return lowZeros(e->b);
    case K_SHL: if (e->b->isConst()) return (u32)std::min<u128>(e->w, e->b->v + lowZeros(e->a)); return 0;
    case K_MUL: return std::min(e->w, lowZeros(e->a) + lowZeros(e->b));
    case K_ADD: case K_SUB: case K_OR: case K_XOR: return std::min(lowZeros(e->a), lowZeros(e->b));
    case K_AND: return std::max(lowZeros(e->a), lowZeros(e->b));
    case K_ZEXT: case K_SEXT: return lowZeros(e->a);
    case K_ITE: return std::min(lowZeros(e->b), lowZeros(e->c));
    default: return 0;
    }
  }
  // symbolic address: make sure it stays within one object; returns object and offset expression
  const Obj* resolveSym(E a, u64 n, bool wr, E& off) {
    u64 v = (u64)S->model->eval(a);
    u32 id = (u32)(v >> 32);
    const Obj* o = S->mem.get(id);
    if (!o || o->kind == O_FUNC) {
      // other models may be fine
      u64 lo = (u64)id << 32, hi = lo + 0xffffffffull;
      E inWild = mkAnd(mkUle(mkConst(lo, 64), a), mkUle(a, mkConst(hi, 64)));
      if (State* s = forkIf(mkNot(inWild))) work.push_back(s);
      u64 dummy;
      check(v, n, wr, dummy);
    }
    u64 base = mkAddr(id, 0);
    off = mkSub(a, mkConst(base, 64));
    E in = o->size >= n ? mkUle(off, mkConst(o->size - n, 64)) : mkConst(0, 1);
    if (!S->model->eval(in)) {
      if (State* s = forkIf(in)) work.push_back(s);
      u64 dummy;
      check(v, n, wr, dummy);
      error("memory", "symbolic address out of bounds");
    }
    if (!S->known.count(in) && !allPinned(in)) {
      if (State* s = forkIf(mkNot(in))) { work.push_back(s); addC(S, in); }
      S->known[in] = 1;
    }
    return o;
  }

  Val readBytes(const Obj* o, u64 off, u32 n) { // n <= 16 ; w = n*8
    const Chunk* c = o->ch[off / CH];
    u32 i = (u32)(off % CH);
    if (c && !c->sym && i + n <= CH && n <= 8) {
      u64 x = 0;
      memcpy(&x, c->data + i, n);
      return cv(x);
    }
    if (!c && o->zero && i + n <= CH && n <= 8) return cv(0);
    E bs[16];
    u8 ds[16];
    bool anySym = false;
    u32 nun = 0;
    for (u32 k = 0; k < n; k++) {
      Memory::readByte(o, off + k, ds[k], bs[k]);
      if (bs[k]) anySym = true;
      if (bs[k] == UNINIT) nun++;
    }
    if (!anySym && n <= 8) {
      u64 x = 0;
      memcpy(&x, ds, n);
      return cv(x);
    }
    if (nun) {
      // materialise uninitialised bytes as fresh variables
      Obj* w = S->mem.getW(o->id);
      for (u32 k = 0; k < n; k++) if (bs[k] == UNINIT) {
        bs[k] = mkFresh("uninit", 8);
        Memory::writeByte(w, off + k, 0, bs[k]);
      }
    }
    std::vector<E> p(n);
    for (u32 k = 0; k < n; k++) p[k] = bs[k] ? bs[k] : mkConst(ds[k], 8);
    return fromE(mkConcatMany(p));
  }
  void writeBytes(Obj* o, u64 off, u32 n, const Val& v) {
    if (!v.e) {
      Chunk* c = o->wch((u32)(off / CH));
      u32 i = (u32)(off % CH);
      if (i + n <= CH && n <= 8) {
        memcpy(c->data + i, &v.c, n);
        if (c->sym) for (u32 k = 0; k < n; k++) c->sym[i + k] = nullptr;
        return;
      }
      for (u32 k = 0; k < n; k++) Memory::writeByte(o, off + k, k < 8 ? (u8)(v.c >> (8 * k)) : 0, nullptr);
      return;
    }
    for (u32 k = 0; k < n; k++) {
      E b = mkExtract(v.e, k * 8, 8);
      if (b->isConst()) Memory::writeByte(o, off + k, (u8)b->v, nullptr);
      else Memory::writeByte(o, off + k, 0, b);
    }
  }
  // scalar load of w bits
  Val loadScalar(const Val& a, u32 w) {
    u32 n = (w + 7) / 8;
    if (!a.e) {
      u64 off;
      const Obj* o = check(a.c, n, false, off);
      Val v = readBytes(o, off, n);
      if (w & 7) v = v.e ? fromE(mkExtract(v.e, 0, w)) : cv(v.c & m64(w));
      return v;
    }
    if (E k = reduced(a.e); k->isConst()) return loadScalar(cv((u64)k->v), w);
    E off;
    const Obj* o = resolveSym(a.e, n, false, off);
    auto kn = S->known.find(off);
    if (kn != S->known.end()) return loadScalar(cv(mkAddr(o->id, kn->second)), w);
    if (allPinned(off)) return loadScalar(cv(mkAddr(o->id, (u64)S->model->eval(off))), w);
    if (!o->ro) { // a pointer advanced by a condition the path decides has only one value
      u64 ov = (u64)S->model->eval(off);
      if (mustBe(mkEq(off, mkConst(ov, off->w)))) {
        S->known[off] = ov;
        return loadScalar(cv(mkAddr(o->id, ov)), w);
      }
    }
    u64 span = o->size - n + 1;
    u32 lz = std::min(lowZeros(off), 12u);
    u64 stride = 1ull << lz;
    if (span / stride > 2100) {
      // small feasible set?
      std::vector<u64> vals;
      u64 cvv = concretizeE(off);
      return loadScalar(cv(mkAddr(o->id, cvv)), w);
    }
    Val r = readBytes(o, 0, n);
    bool first = true;
    E acc = nullptr;
    u32 id = o->id;
    // build from the top so that the chain ends in the first entry
    std::vector<std::pair<u64, E>> ent;
    for (u64 k = 0; k < span; k += stride) {
      o = S->mem.get(id);
      Val v = readBytes(o, k, n);
      ent.push_back({k, toE(v, n * 8)});
    }
    (void)first; (void)r;
    acc = ent.back().second;
    for (size_t i = ent.size() - 1; i-- > 0;) {
      // group runs with equal value using ranges
      if (ent[i].second == acc) continue;
      // find run start
      size_t j = i;
      while (j > 0 && ent[j - 1].second == ent[i].second) j--;
      E cond = mkUle(off, mkConst(ent[i].first, off->w));
      acc = mkIte(cond, ent[i].second, acc);
      i = j;
      if (i == 0) break;
    }
    if (w & 7) acc = mkExtract(acc, 0, w);
    return fromE(acc);
  }
  void storeScalar(const Val& a, Val v, u32 w) {
    u32 n = (w + 7) / 8;
    if (w & 7) { if (v.e) v = fromE(mkZExt(v.e, n * 8)); else v.c &= m64(w); }
    u64 addr = a.c;
    if (E k = a.e ? reduced(a.e) : nullptr; k && k->isConst()) addr = (u64)k->v;
    else if (a.e) {
      E off;
      const Obj* o = resolveSym(a.e, n, true, off);
      auto kn = S->known.find(off);
      if (kn != S->known.end()) addr = mkAddr(o->id, kn->second);
      else addr = mkAddr(o->id, concretizeE(off));
    }
    u64 off;
    const Obj* o = check(addr, n, true, off);
    writeBytes(S->mem.getW(o->id), off, n, v);
  }
  Val loadTyped(const Val& a, Type* t) {
    u32 w = widthOf(t);
    if (t->isX86_FP80Ty()) {
      u64 addr = concretize(a, 64);
      u64 off;
      const Obj* o = check(addr, 10, false, off);
      u8 buf[16] = {0};
      for (u32 i = 0; i < 10; i++) { E s; Memory::readByte(o, off + i, buf[i], s); if (s && s != UNINIT) unsupported("symbolic fp80"); }
      long double ld = 0;
      memcpy(&ld, buf, 10);
      double d = (double)ld;
      u64 x; memcpy(&x, &d, 8);
      return cv(x);
    }
    if (w) return loadScalar(a, w);
    u64 addr = concretize(a, 64);
    if (auto* vt = dyn_cast<FixedVectorType>(t)) {
      u32 n = vt->getNumElements(), ew = widthOf(vt->getElementType());
      if (ew & 7) unsupported("vector of odd width load");
      Val r = mkAgg(n);
      u64 off;
      check(addr, (u64)n * ew / 8, false, off);
      for (u32 i = 0; i < n; i++) agg(r)->v[i] = loadScalar(cv(addr + i * (ew / 8)), ew);
      return r;
    }
    if (auto* st = dyn_cast<StructType>(t)) {
      auto* sl = DL->getStructLayout(st);
      Val r = mkAgg(st->getNumElements());
      for (u32 i = 0; i < st->getNumElements(); i++) agg(r)->v[i] = loadTyped(cv(addr + sl->getElementOffset(i)), st->getElementType(i));
      return r;
    }
    if (auto* at = dyn_cast<ArrayType>(t)) {
      u64 es = DL->getTypeAllocSize(at->getElementType());
      Val r = mkAgg((u32)at->getNumElements());
      for (u32 i = 0; i < at->getNumElements(); i++) agg(r)->v[i] = loadTyped(cv(addr + i * es), at->getElementType());
      return r;
    }
    unsupported("load type");
  }
  void storeTyped(u64 addr, const Val& v, Type* t, bool force = false) {
    u32 w = widthOf(t);
    if (t->isX86_FP80Ty()) {
      double d; memcpy(&d, &v.c, 8);
      long double ld = d;
      u8 buf[16] = {0};
      memcpy(buf, &ld, 10);
      u64 off;
      const Obj* o = check(addr, 10, !force, off);
      Obj* wo = S->mem.getW(o->id);
      for (u32 i = 0; i < 10; i++) Memory::writeByte(wo, off + i, buf[i], nullptr);
      return;
    }
    if (w) { storeScalar(cv(addr), v, w); return; }
    if (auto* vt = dyn_cast<FixedVectorType>(t)) {
      u32 n = vt->getNumElements(), ew = widthOf(vt->getElementType());
      if (ew & 7) unsupported("vector of odd width store");
      for (u32 i = 0; i < n; i++) storeScalar(cv(addr + i * (ew / 8)), agg(v)->v[i], ew);
      return;
    }
    if (auto* st = dyn_cast<StructType>(t)) {
      auto* sl = DL->getStructLayout(st);
      for (u32 i = 0; i < st->getNumElements(); i++) storeTyped(addr + sl->getElementOffset(i), agg(v)->v[i], st->getElementType(i));
      return;
    }
    if (auto* at = dyn_cast<ArrayType>(t)) {
      u64 es = DL->getTypeAllocSize(at->getElementType());
      for (u32 i = 0; i < at->getNumElements(); i++) storeTyped(addr + i * es, agg(v)->v[i], at->getElementType());
      return;
    }
    unsupported("store type");
  }
  void copyMem(u64 d, u64 s, u64 n) {
    if (!n) return;
    u64 so, dof;
    raceAccess(s, n, false);
    raceAccess(d, n, true);
    const Obj* a = check(s, n, false, so);
    const Obj* b = check(d, n, true, dof);
    if (n <= 8) {
      // preserve uninitialised bytes
    }
    std::vector<u8> data(n);
    std::vector<E> sym(n);
    bool any = false;
    for (u64 i = 0; i < n;) {
      const Chunk* c = a->ch[(so + i) / CH];
      u32 k = (u32)((so + i) % CH);
      u64 len = std::min<u64>(n - i, CH - k);
      if (!c) {
        memset(&data[i], 0, len);
        if (!a->zero) { any = true; for (u64 j = 0; j < len; j++) sym[i + j] = UNINIT; }
      } else {
        memcpy(&data[i], c->data + k, len);
        if (c->sym) for (u64 j = 0; j < len; j++) if ((sym[i + j] = c->sym[k + j])) any = true;
      }
      i += len;
    }
    Obj* w = S->mem.getW(b->id);
    for (u64 i = 0; i < n;) {
      Chunk* c = w->wch((u32)((dof + i) / CH));
      u32 k = (u32)((dof + i) % CH);
      u64 len = std::min<u64>(n - i, CH - k);
      memcpy(c->data + k, &data[i], len);
      if (any && !c->sym) c->sym = (E*)calloc(c->n, sizeof(E));
      if (c->sym) memcpy(c->sym + k, &sym[i], len * sizeof(E));
      i += len;
    }
  }
  void setMem(u64 d, const Val& v, u64 n) {
    if (!n) return;
    u64 dof;
    raceAccess(d, n, true);
    const Obj* b = check(d, n, true, dof);
    Obj* w = S->mem.getW(b->id);
    if (dof == 0 && n == w->size) {
      for (u32 i = 0; i < w->nch; i++) if (w->ch[i]) { w->ch[i]->unref(); w->ch[i] = nullptr; }
      w->zero = true;
    }
    E s = v.e ? (v.e->w == 8 ? v.e : mkExtract(v.e, 0, 8)) : nullptr;
    u8 x = (u8)v.c;
    if (s && s->isConst()) { x = (u8)s->v; s = nullptr; }
    for (u64 i = 0; i < n;) {
      u32 ci = (u32)((dof + i) / CH);
      u32 k = (u32)((dof + i) % CH);
      u64 len = std::min<u64>(n - i, CH - k);
      if (!s && !x && k == 0 && (len == CH || dof + i + len == w->size) && w->zero) { // drop the chunk
        if (w->ch[ci]) { w->ch[ci]->unref(); w->ch[ci] = nullptr; }
        i += len;
        continue;
      }
      Chunk* c = w->wch(ci);
      memset(c->data + k, x, len);
      if (s && !c->sym) c->sym = (E*)calloc(c->n, sizeof(E));
      if (c->sym) for (u64 j = 0; j < len; j++) c->sym[k + j] = s;
      i += len;
    }
  }
#include "race.inc"
  // host helpers
  std::string cstr(u64 a) {
    std::string s;
    for (;;) {
      Val b = loadScalar(cv(a + s.size()), 8);
      u64 c = concretize(b, 8);
      if (!c) break;
      s += (char)c;
      if (s.size() > 100000) unsupported("cstr");
    }
    return s;
  }
  u64 ld64(u64 a) { return concretize(loadScalar(cv(a), 64), 64); }
  u64 ld32(u64 a) { return concretize(loadScalar(cv(a), 32), 32); }

  // ---------------------------------------------------------------- scalar ops
  Val binop(Kind k, u32 w, const Val& a, const Val& b) {
    if (!a.e && !b.e && w <= 64) {
      u64 x = a.c, y = b.c, m = m64(w);
      switch (k) {
      case K_ADD: return cv((x + y) & m);
      case K_SUB: return cv((x - y) & m);
      case K_MUL: return cv((x * y) & m);
      case K_AND: return cv(x & y);
      case K_OR: return cv(x | y);
      case K_XOR: return cv(x ^ y);
      case K_SHL: return cv(y >= w ? 0 : (x << y) & m);
      case K_LSHR: return cv(y >= w ? 0 : x >> y);
      case K_ASHR: return cv((u64)(y >= w ? (sextOf(x, w) < 0 ? m : 0) : ((u64)((int64_t)sextOf(x, w) >> y) & m)));
      case K_UDIV: case K_SDIV: case K_UREM: case K_SREM:
        if (!y) error("arith", "division by zero");
        return cv((u64)evalBin(k, w, x, y));
      default: break;
      }
    }
    E x = toE(a, w), y = toE(b, w);
    if (k == K_UDIV || k == K_SDIV || k == K_UREM || k == K_SREM) {
      E z = mkEq(y, mkConst(0, w));
      if (decide(z)) error("arith", "division by zero");
    }
    return fromE(mkBin(k, x, y));
  }
  Val icmp(unsigned p, u32 w, const Val& a, const Val& b) {
    if (!a.e && !b.e) {
      u64 x = a.c, y = b.c;
      i128 sx = sextOf(x, w), sy = sextOf(y, w);
      switch (p) {
      case CmpInst::ICMP_EQ: return cv(x == y);
      case CmpInst::ICMP_NE: return cv(x != y);
      case CmpInst::ICMP_UGT: return cv(x > y);
      case CmpInst::ICMP_UGE: return cv(x >= y);
      case CmpInst::ICMP_ULT: return cv(x < y);
      case CmpInst::ICMP_ULE: return cv(x <= y);
      case CmpInst::ICMP_SGT: return cv(sx > sy);
      case CmpInst::ICMP_SGE: return cv(sx >= sy);
      case CmpInst::ICMP_SLT: return cv(sx < sy);
      case CmpInst::ICMP_SLE: return cv(sx <= sy);
      }
    }
    E x = toE(a, w), y = toE(b, w), r = nullptr;
    switch (p) {
    case CmpInst::ICMP_EQ: r = mkEq(x, y); break;
    case CmpInst::ICMP_NE: r = mkNe(x, y); break;
    case CmpInst::ICMP_UGT: r = mkUlt(y, x); break;
    case CmpInst::ICMP_UGE: r = mkUle(y, x); break;
    case CmpInst::ICMP_ULT: r = mkUlt(x, y); break;
    case CmpInst::ICMP_ULE: r = mkUle(x, y); break;
    case CmpInst::ICMP_SGT: r = mkSlt(y, x); break;
    case CmpInst::ICMP_SGE: r = mkSle(y, x); break;
    case CmpInst::ICMP_SLT: r = mkSlt(x, y); break;
    case CmpInst::ICMP_SLE: r = mkSle(x, y); break;
    }
    return fromE(r);
  }
  Val castv(unsigned op, u32 sw, u32 dw, const Val& a) {
    if (op == Instruction::ZExt) {
      if (!a.e && dw <= 64) return a;
      return fromE(mkZExt(toE(a, sw), dw));
    }
    if (op == Instruction::SExt) {
      if (!a.e && dw <= 64) return cv((u64)sextOf(a.c, sw) & m64(dw));
      return fromE(mkSExt(toE(a, sw), dw));
    }
    if (op == Instruction::Trunc) {
      if (!a.e) return cv(a.c & m64(dw));
      return fromE(mkExtract(a.e, 0, dw));
    }
    return a;
  }
  Val sel(const Val& c, const Val& t, const Val& f, u32 w) {
    if (!c.e) return (c.c & 1) ? t : f;
    auto kn = S->known.find(c.e);
    if (kn != S->known.end()) return kn->second ? t : f;
    if (isAgg(t) || isAgg(f)) return decide(c.e) ? t : f;
    return fromE(mkIte(c.e, toE(t, w), toE(f, w)));
  }

  #include "generic.inc"
  #include "run.inc"
  #include "threads.inc"
};

#include "builtins.inc"
#include "main.inc"
