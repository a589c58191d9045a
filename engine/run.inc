// ---- the interpreter loop ----
void takeEdge(Frame& fr, int e) {
  const Edge& ed = fr.f->edges[(u32)e];
  if (!ed.moves.empty()) {
    if (ed.moves.size() == 1) fr.regs[(u32)ed.moves[0].first] = V(ed.moves[0].second);
    else {
      Val tmp[64];
      std::vector<Val> big;
      Val* p = tmp;
      if (ed.moves.size() > 64) { big.resize(ed.moves.size()); p = big.data(); }
      for (size_t i = 0; i < ed.moves.size(); i++) p[i] = V(ed.moves[i].second);
      for (size_t i = 0; i < ed.moves.size(); i++) fr.regs[(u32)ed.moves[i].first] = p[i];
    }
  }
  fr.pc = ed.pc;
}
void freeFrame(Frame& fr) {
  for (u32 id: fr.allocas) {
    S->mem.release(id);
    if (g_race) S->shadow.erase(id);
  }
}
void pushFrame(FuncInfo* f, const std::vector<Val>& args) {
  if (!f->decoded) {
    if (f->F->isDeclaration()) unsupported("call to undefined function " + f->name);
    decode(f);
  }
  f->hits++;
  if (g_traceCalls) fprintf(stderr, "%*scall %s\n", (int)T().st.size(), "", f->name.c_str());
  if (T().st.size() > 4000) error("stack", "stack overflow (recursion depth)");
  T().st.emplace_back();
  Frame& fr = T().st.back();
  fr.f = f;
  fr.pc = 0;
  fr.regs.assign(f->nslots, Val{0, nullptr});
  for (u32 i = 0; i < f->nargs && i < args.size(); i++) fr.regs[i] = args[i];
  for (u32 i = f->nargs; i < args.size(); i++) fr.varargs.push_back(args[i]);
}
// complete the call instruction at the top frame's pc with value r
void finishCall(const Val& r) {
  Frame& fr = F();
  const Inst& in = fr.f->code[fr.pc];
  if (in.dst >= 0) fr.regs[(u32)in.dst] = r;
  if (in.op == OP_INVOKE) takeEdge(fr, fr.f->calls[in.x].normal);
  else fr.pc++;
}
FuncInfo* funcAt(u64 a) {
  u32 id = (u32)(a >> 32);
  if (a && id < funcById.size() && funcById[id] && (a & 0xffffffff) == OFF0) return funcById[id];
  error("memory", "indirect call to a non-function address");
}
void doCall(const Inst& in) {
  Frame& fr = F();
  CallInfo& ci = fr.f->calls[in.x];
  FuncInfo* f = ci.callee;
  if (!f) {
    if (ci.calleeOp == -1000000000) { // inline asm: only empty barriers and pause
      auto* ia = cast<InlineAsm>(cast<CallBase>(in.I)->getCalledOperand());
      std::string s = ia->getAsmString().c_str();
      if (s.empty() || s.find("pause") != std::string::npos || s.find("rep") != std::string::npos) {
        finishCall(ci.args.empty() ? cv(0) : V(ci.args[0]));
        return;
      }
      unsupported("inline asm " + s);
    }
    Val t = V(ci.calleeOp);
    u64 a = concretize(t, 64);
    f = funcAt(a);
  }
  std::vector<Val> args;
  args.reserve(ci.args.size());
  for (int a: ci.args) args.push_back(a == -1000000000 ? cv(0) : V(a));
  if (f->builtin >= 0) {
    Val r = cv(0);
    f->hits++;
    if (g_traceCalls) fprintf(stderr, "%*sbuiltin %s\n", (int)T().st.size(), "", f->name.c_str());
    if (builtins[(u32)f->builtin].fn(*this, args, r)) finishCall(r);
    return;
  }
  if (f->F->isIntrinsic()) {
    Val r = cv(0);
    if (!intrinsic(*cast<CallBase>(in.I), f->F->getIntrinsicID(), args, r)) unsupported("intrinsic " + f->name);
    finishCall(r);
    return;
  }
  pushFrame(f, args);
}
void doRet(const Inst& in) {
  Val r = in.b ? V(in.a) : cv(0);
  Thread& t = T();
  freeFrame(t.st.back());
  t.st.pop_back();
  if (t.st.empty()) {
    threadFinished();
    return;
  }
  if (S->appDepthFrame && S->cur == 0 && t.st.size() == S->appDepthFrame) leaveApp();
  finishCall(r);
}
void leaveApp() {
  // the program under test ended: its other threads die with the process
  for (u32 i = 1; i < S->th.size(); i++) killThread(i);
  S->th.erase(S->th.begin() + 1, S->th.end());
  S->appDepthFrame = 0;
  S->mutexOwner.clear();
  raceReset();
}
void killThread(u32 i) {
  Thread& t = S->th[i];
  for (auto& f: t.st) for (u32 id: f.allocas) S->mem.release(id);
  t.st.clear();
  t.status = TH_DONE;
}
// end the program under test with an exit code (process semantics: no unwinding)
void appExit(u64 code) {
  if (!S->appDepthFrame) {
    if (S->cur == 0 && code < 128) throw PathEnd{END_OK, "exit"};
    error("terminate", "program ended with code " + std::to_string(code));
  }
  S->cur = 0;
  Thread& t = S->th[0];
  while (t.st.size() > S->appDepthFrame) {
    freeFrame(t.st.back());
    t.st.pop_back();
  }
  t.status = TH_RUN;
  leaveApp();
  finishCall(cv(code));
}
void terminate(const std::string& why) {
  S->trace.push_back("terminate: " + why);
  if (S->appDepthFrame) { lastTerminate = why; appExit(134); return; }
  error("terminate", why);
}
std::string lastTerminate;

// ---------------- exceptions
// typeinfo hierarchy: find target within (ti,obj); obj may be 0 for a pure type test
bool findBase(u64 ti, u64 obj, u64 target, u64& adj, int depth = 0) {
  if (ti == target) { adj = obj; return true; }
  if (depth > 20) return false;
  u32 id = (u32)(ti >> 32);
  const Obj* o = S->mem.get(id);
  if (!o || o->size < 16) return false;
  u64 vp = ld64(ti);
  if (vp == vtSi && vtSi) return findBase(ld64(ti + 16), obj, target, adj, depth + 1);
  if (vp == vtVmi && vtVmi) {
    u64 n = ld32(ti + 20);
    for (u64 i = 0; i < n; i++) {
      u64 b = ld64(ti + 24 + 16 * i);
      int64_t of = (int64_t)ld64(ti + 32 + 16 * i);
      int64_t boff = of >> 8;
      u64 nobj = obj;
      if (obj) {
        if (of & 1) nobj = obj + ld64(ld64(obj) + (u64)boff);
        else nobj = obj + (u64)boff;
      }
      if (findBase(b, nobj, target, adj, depth + 1)) return true;
    }
  }
  return false;
}
// find handler selector in a landing pad for exception type ti; 0 = cleanup, -1 none
int matchPad(const LandingPadInst* lp, u64 ti, u64 obj, u64& adj) {
  for (unsigned i = 0; i < lp->getNumClauses(); i++) {
    if (lp->isCatch(i)) {
      Constant* c = lp->getClause(i);
      if (isa<ConstantPointerNull>(c)) { adj = obj; return 1 << 30; }
      u64 t = constVal(c).c;
      if (findBase(ti, obj, t, adj)) return (int)(u32)(t >> 32);
    } else {
      // filter: an exception specification; empty filter == noexcept
      auto* ca = lp->getClause(i);
      u64 n = ca->getType()->getArrayNumElements();
      bool ok = false;
      for (u64 k = 0; k < n; k++) {
        Constant* el = ca->getAggregateElement((unsigned)k);
        if (isa<ConstantPointerNull>(el) || findBase(ti, obj, constVal(el).c, adj)) ok = true;
      }
      if (!ok) return -2;
    }
  }
  return lp->isCleanup() ? 0 : -1;
}
const LandingPadInst* padOf(const Frame& fr) {
  const Inst& in = fr.f->code[fr.pc];
  if (in.op != OP_INVOKE) return nullptr;
  return cast<InvokeInst>(in.I)->getLandingPadInst();
}
// begin throwing exception obj (type ti) from the current point: the top frame is at a call/resume instruction
void unwind(u64 obj, u64 ti, bool phase1) {
  Thread& t = T();
  u64 adj = obj;
  if (phase1) {
    bool found = false;
    for (int i = (int)t.st.size() - 1; i >= 0; i--) {
      Frame& fr = t.st[(u32)i];
      if (S->cur == 0 && S->appDepthFrame && (u32)i + 1 == S->appDepthFrame) break; // leaving main()
      if (auto* lp = padOf(fr)) {
        int s = matchPad(lp, ti, obj, adj);
        if (s > 0 || s == -2) { found = true; break; }
      }
      if (fr.f->F->doesNotThrow()) break;
    }
    if (!found) {
      std::string nm = "?";
      u32 id = (u32)(ti >> 32);
      if (const Obj* o = S->mem.get(id)) if (o->tag && o->kind == O_GLOBAL) nm = ((const GlobalVariable*)o->tag)->getName().str();
      terminate("uncaught exception of type " + nm);
      return;
    }
  }
  t.excObj = obj;
  t.excTi = ti;
  while (!t.st.empty()) {
    Frame& fr = t.st.back();
    if (auto* lp = padOf(fr)) {
      int s = matchPad(lp, ti, obj, adj);
      if (s >= 0) {
        if (s == (1 << 30)) s = catchAllId;
        // record the adjusted pointer in the exception header (see rt.cpp: ExcHdr.adjusted at obj-8)
        if (s > 0) storeScalar(cv(obj - 8), cv(adj), 64);
        const Inst& in = fr.f->code[fr.pc];
        takeEdge(fr, fr.f->calls[in.x].unwind);
        const Inst& li = fr.f->code[fr.pc];
        if (li.op != OP_LANDINGPAD) unsupported("landing pad expected");
        Val v = mkAgg(2);
        agg(v)->v[0] = cv(obj);
        agg(v)->v[1] = cv((u32)s);
        if (li.dst >= 0) fr.regs[(u32)li.dst] = v;
        fr.pc++;
        return;
      }
      if (s == -2) { terminate("exception specification violated"); return; }
    }
    if (fr.f->F->doesNotThrow()) { terminate("exception left a noexcept function"); return; }
    freeFrame(fr);
    t.st.pop_back();
  }
  unsupported("unwound past the bottom of the stack");
}
static const int catchAllId = 0x3fffffff;

void step() {
  Frame& fr = F();
  if (fr.pc >= fr.f->code.size()) unsupported("pc past end");
  const Inst& in = fr.f->code[fr.pc];
  fr.f->cov[fr.pc] = 1;
  switch (in.op) {
  case OP_BR: takeEdge(fr, in.b); break;
  case OP_CBR: {
    const Val& c = V(in.a);
    branches++;
    bool v = c.e ? decide(c.e) : (c.c & 1);
    takeEdge(F(), v ? in.b : in.c);
    break;
  }
  case OP_SWITCH: {
    Val c = V(in.a);
    auto& sw = fr.f->switches[in.x];
    branches++;
    if (c.e) {
      auto kn = S->known.find(c.e);
      if (kn != S->known.end()) c = cv(kn->second);
      else if (allPinned(c.e)) c = cv((u64)S->model->eval(c.e));
    }
    if (!c.e) {
      u32 e = sw.second;
      for (auto& k: sw.first) if (k.first == c.c) { e = k.second; break; }
      takeEdge(fr, (int)e);
      break;
    }
    symBranches++;
    u64 mv = (u64)S->model->eval(c.e);
    std::map<u32, E> groups;
    E any = mkBool(false);
    for (auto& k: sw.first) {
      E eq = mkEq(c.e, mkConst(k.first, in.w));
      any = mkOr(any, eq);
      auto it = groups.find(k.second);
      if (it == groups.end()) groups[k.second] = eq;
      else it->second = mkOr(it->second, eq);
    }
    E dflt = mkNot(any);
    auto it = groups.find(sw.second);
    if (it == groups.end()) groups[sw.second] = dflt;
    else it->second = mkOr(it->second, dflt);
    u32 mine = sw.second;
    for (auto& k: sw.first) if (k.first == mv) { mine = k.second; break; }
    for (auto& g: groups) {
      if (g.first == mine) continue;
      if (State* o = forkIf(g.second)) {
        State* sv = S;
        S = o;
        takeEdge(F(), (int)g.first);
        S = sv;
        work.push_back(o);
      }
    }
    addC(S, groups[mine]);
    takeEdge(F(), (int)mine);
    break;
  }
  case OP_RET: doRet(in); break;
  case OP_UNREACHABLE: error("unreachable", "reached code the compiler assumes unreachable"); break;
  case OP_CALL: case OP_INVOKE: doCall(in); break;
  case OP_RESUME: {
    Val v = V(in.a);
    u64 obj = agg(v)->v[0].c;
    Thread& t = T();
    u64 ti = t.excObj == obj ? t.excTi : ld64(obj - 48);
    freeFrame(t.st.back());
    t.st.pop_back();
    unwind(obj, ti, false);
    break;
  }
  case OP_LANDINGPAD: unsupported("landingpad executed");
  case OP_BIN: {
    Val r = binop((Kind)in.sub, in.w, V(in.a), V(in.b));
    Frame& f2 = F();
    f2.regs[(u32)in.dst] = r;
    f2.pc++;
    break;
  }
  case OP_ICMP: fr.regs[(u32)in.dst] = icmp(in.sub, in.w, V(in.a), V(in.b)); fr.pc++; break;
  case OP_SELECT: { Val r = sel(V(in.a), V(in.b), V(in.c), in.w); F().regs[(u32)in.dst] = r; F().pc++; break; }
  case OP_ZEXT: fr.regs[(u32)in.dst] = castv(Instruction::ZExt, in.x, in.w, V(in.a)); fr.pc++; break;
  case OP_SEXT: fr.regs[(u32)in.dst] = castv(Instruction::SExt, in.x, in.w, V(in.a)); fr.pc++; break;
  case OP_TRUNC: fr.regs[(u32)in.dst] = castv(Instruction::Trunc, in.x, in.w, V(in.a)); fr.pc++; break;
  case OP_NOP: fr.regs[(u32)in.dst] = V(in.a); fr.pc++; break;
  case OP_LOAD: {
    if (g_race && S->th.size() > 1) raceInst(V(in.a), in, false);
    Val r = in.w ? loadScalar(V(in.a), in.w) : loadTyped(V(in.a), (Type*)in.p);
    F().regs[(u32)in.dst] = r;
    F().pc++;
    break;
  }
  case OP_STORE: {
    if (g_race && S->th.size() > 1) raceInst(V(in.b), in, true);
    if (in.w) storeScalar(V(in.b), V(in.a), in.w);
    else storeTyped(concretize(V(in.b), 64), V(in.a), (Type*)in.p);
    F().pc++;
    break;
  }
  case OP_GEP: {
    Val b = V(in.a);
    if (!in.sub) {
      fr.regs[(u32)in.dst] = b.e ? fromE(mkAdd(b.e, mkConst(in.imm, 64))) : cv(b.c + in.imm);
    } else {
      u64 off = in.imm;
      E se = b.e;
      u64 base = b.c;
      for (auto& g: fr.f->geps[in.x]) {
        const Val& i = V(g.op);
        if (!i.e) off += g.scale * (u64)sextOf(i.c, g.w);
        else {
          E x = mkMul(mkSExt(i.e, 64), mkConst(g.scale, 64));
          se = se ? mkAdd(se, x) : mkAdd(mkConst(base, 64), x);
        }
      }
      fr.regs[(u32)in.dst] = se ? fromE(mkAdd(se, mkConst(off, 64))) : cv(base + off);
    }
    fr.pc++;
    break;
  }
  case OP_ALLOCA: {
    u64 n = concretize(V(in.a), 32) * in.imm;
    Obj* o = S->mem.alloc(n ? n : 1, O_STACK, false);
    Frame& f2 = F();
    f2.allocas.push_back(o->id);
    f2.regs[(u32)in.dst] = cv(mkAddr(o->id, 0));
    f2.pc++;
    break;
  }
  case OP_EXTRACTVALUE: {
    Val v = V(in.a);
    for (unsigned i: cast<ExtractValueInst>(in.I)->indices()) v = agg(v)->v[i];
    fr.regs[(u32)in.dst] = v;
    fr.pc++;
    break;
  }
  case OP_INSERTVALUE: {
    auto idx = cast<InsertValueInst>(in.I)->getIndices();
    std::function<Val(Val, Type*, unsigned)> ins = [&](Val v, Type* t, unsigned d) -> Val {
      if (d == idx.size()) return V(in.b);
      u32 n = t->isStructTy() ? t->getStructNumElements() : (u32)t->getArrayNumElements();
      Val r = mkAgg(n);
      for (u32 i = 0; i < n; i++) {
        Val old = isAgg(v) ? agg(v)->v[i] : cv(0);
        agg(r)->v[i] = i == idx[d] ? ins(old, t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType(), d + 1) : old;
      }
      return r;
    };
    Val r = ins(V(in.a), in.I->getType(), 0);
    fr.regs[(u32)in.dst] = r;
    fr.pc++;
    break;
  }
  case OP_FENCE: if (g_race && S->th.size() > 1) { hbAcquire(1); hbRelease(1); } fr.pc++; break;
  case OP_ATOMICRMW: {
    if (g_race && S->th.size() > 1) raceRmw(V(in.a), in);
    Val old = loadScalar(V(in.a), in.w);
    Val b = V(in.b), n;
    switch (cast<AtomicRMWInst>(in.I)->getOperation()) {
    case AtomicRMWInst::Xchg: n = b; break;
    case AtomicRMWInst::Add: n = binop(K_ADD, in.w, old, b); break;
    case AtomicRMWInst::Sub: n = binop(K_SUB, in.w, old, b); break;
    case AtomicRMWInst::And: n = binop(K_AND, in.w, old, b); break;
    case AtomicRMWInst::Or: n = binop(K_OR, in.w, old, b); break;
    case AtomicRMWInst::Xor: n = binop(K_XOR, in.w, old, b); break;
    case AtomicRMWInst::UMax: n = sel(icmp(CmpInst::ICMP_UGT, in.w, old, b), old, b, in.w); break;
    case AtomicRMWInst::UMin: n = sel(icmp(CmpInst::ICMP_ULT, in.w, old, b), old, b, in.w); break;
    default: unsupported("atomicrmw");
    }
    storeScalar(V(in.a), n, in.w);
    if (in.dst >= 0) F().regs[(u32)in.dst] = old;
    F().pc++;
    break;
  }
  case OP_CMPXCHG: {
    if (g_race && S->th.size() > 1) raceRmw(V(in.a), in);
    Val old = loadScalar(V(in.a), in.w);
    Val eq = icmp(CmpInst::ICMP_EQ, in.w, old, V(in.b));
    bool t = eq.e ? decide(eq.e) : eq.c;
    if (t) storeScalar(V(in.a), V(in.c), in.w);
    Val r = mkAgg(2);
    agg(r)->v[0] = old;
    agg(r)->v[1] = cv(t);
    if (in.dst >= 0) F().regs[(u32)in.dst] = r;
    F().pc++;
    break;
  }
  case OP_GENERIC: {
    Val r = execGeneric(in);
    Frame& f2 = F();
    if (in.dst >= 0) f2.regs[(u32)in.dst] = r;
    f2.pc++;
    break;
  }
  }
}

u64 tlsAddr(u64 a) {
  u32 id = (u32)(a >> 32);
  auto it = isTls.find(id);
  if (it == isTls.end()) return a;
  Thread& t = T();
  if (S->cur == 0) return a;
  auto jt = t.tls.find(id);
  u32 nid;
  if (jt == t.tls.end()) {
    const Obj* o = (snapshot ? snapshot->mem : S->mem).get(id);
    Obj* n = S->mem.alloc(o->size, O_GLOBAL, true);
    nid = n->id;
    t.tls[id] = nid;
    const GlobalVariable* g = (const GlobalVariable*)o->tag;
    if (g->hasInitializer()) storeConst(nid, 0, g->getInitializer());
  } else nid = jt->second;
  return mkAddr(nid, (a & 0xffffffff) - OFF0);
}

static u64 rssMB() {
  FILE* f = fopen("/proc/self/statm", "r");
  if (!f) return 0;
  long a = 0, b = 0;
  if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0;
  fclose(f);
  return (u64)b * 4096 / 1048576;
}
// run the current state to the end of its path
void runPath() {
  try {
    for (;;) {
      for (int k = 0; k < 4096; k++) {
        step();
        instrs++;
        S->steps++;
      }
      if (S->steps > g_maxSteps) {
        reportError("hang", "no end within " + std::to_string(g_maxSteps) + " instructions", *S->model);
        throw PathEnd{END_LIMIT, "per-path instruction bound at " + where(3)};
      }
      if ((S->steps & 0xfffff) == 0 && rssMB() > 2 * g_memLimitMB) {
        reportError("hang", "memory grows without end", *S->model);
        stop = true; stopReason = "memory limit";
        throw PathEnd{END_LIMIT, "memory limit at " + where(3)};
      }
      if (now() - g_t0 > g_timeLimit) { stop = true; stopReason = "time limit"; throw PathEnd{END_LIMIT, "time limit"}; }
    }
  } catch (PathEnd& e) {
    paths++;
    switch (e.k) {
    case END_OK: pathsOk++; takeSample(); break;
    case END_ASSUME: pathsAssume++; break;
    case END_ERROR: break;
    case END_LIMIT: pathsLimit++; limits[e.msg]++; if (g_verbose) fprintf(stderr, "[hsx] LIMIT %s\n", e.msg.c_str()); break;
    case END_UNSUPPORTED:
      pathsUnsup++;
      if (!unsup[e.msg + " at " + where(8)]++ && g_verbose) fprintf(stderr, "[hsx] UNSUPPORTED %s\n   at %s\n", e.msg.c_str(), where(14).c_str());
      if (pathsUnsup > 20) { stop = true; stopReason = "too many unsupported paths"; }
      break;
    }
  }
}
void takeSample() {
  if (g_samples <= 0) return;
  sampleSeen++;
  if ((int)samples.size() < g_samples) samples.push_back(mkReport("sample", "", *S->model));
  else {
    u64 k = rng() % sampleSeen;
    if (k < (u64)g_samples) samples[k] = mkReport("sample", "", *S->model);
  }
}
void runFunction(FuncInfo* f) { // concrete start-up code
  pushFrame(f, {});
  try {
    while (!S->th[0].st.empty()) { step(); instrs++; }
  } catch (PathEnd& e) {
    if (e.k == END_OK) return;
    fprintf(stderr, "[hsx] start-up failed: %s at %s\n", e.msg.c_str(), where(14).c_str());
    exit(3);
  }
}
bool starting = false;
void runAll(const std::string& entry) {
  starting = true;
  if (auto* g = M->getNamedGlobal("llvm.global_ctors")) {
    if (auto* ca = dyn_cast<ConstantArray>(g->getInitializer())) {
      std::vector<std::pair<u64, FuncInfo*>> v;
      for (auto& op: ca->operands()) {
        auto* cs = cast<ConstantStruct>(op);
        auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts());
        if (f) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fi(f)});
      }
      std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
      for (auto& p: v) runFunction(p.second);
    }
  }
  starting = false;
  snapshot.reset(new State(*S));
  snapNext = S->mem.nextId;
  Function* f = M->getFunction(entry);
  if (!f) { fprintf(stderr, "no entry %s\n", entry.c_str()); exit(3); }
  S->steps = 0;
  pushFrame(fi(f), {});
  work.push_back(S);
  S = nullptr;
  u64 it = 0;
  double lastV = now();
  while (!work.empty() && !stop) {
    S = work.back();
    work.pop_back();
    runPath();
    delete S;
    S = nullptr;
    if (paths >= g_maxPaths) { stop = !work.empty(); if (stop) stopReason = "max paths"; }
    if ((++it & 63) == 0 && rssMB() > g_memLimitMB) { stop = true; stopReason = "memory limit"; }
    if (g_verbose && now() - lastV > 5) {
      lastV = now();
      fprintf(stderr, "[hsx] %.0fs paths=%llu (ok %llu assume %llu err %llu) pending=%zu instr=%lluM queries=%llu solver=%.1fs exprs=%llu rss=%lluMB\n", now() - g_t0, (unsigned long long)paths, (unsigned long long)pathsOk, (unsigned long long)pathsAssume, (unsigned long long)pathsErr, work.size(), (unsigned long long)(instrs / 1000000), (unsigned long long)g_sstats.queries, g_sstats.seconds, (unsigned long long)g_nexprs, (unsigned long long)rssMB());
    }
  }
}
