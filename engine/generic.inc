// ---- slow path: vectors, floating point, odd casts ----
static double asD(u64 c) { double d; memcpy(&d, &c, 8); return d; }
static u64 fromD(double d) { u64 c; memcpy(&c, &d, 8); return c; }
static float asF(u64 c) { u32 x = (u32)c; float d; memcpy(&d, &x, 4); return d; }
static u64 fromF(float d) { u32 c; memcpy(&c, &d, 4); return c; }
static bool isFloatTy(Type* t) { return t->isFloatTy(); }
static double getFP(u64 c, Type* t) { return t->isFloatTy() ? (double)asF(c) : asD(c); }
static u64 putFP(double d, Type* t) { return t->isFloatTy() ? fromF((float)d) : fromD(d); }

Val lane(const Val& v, u32 i) {
  if (!isAgg(v)) return cv(0); // zeroinit fallback
  return agg(v)->v[i];
}

// flatten to bit-vector
E flat(const Val& v, Type* t) {
  if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    u32 ew = widthOf(vt->getElementType());
    std::vector<E> p;
    for (u32 i = 0; i < vt->getNumElements(); i++) p.push_back(toE(agg(v)->v[i], ew));
    if ((u64)ew * p.size() > 128) unsupported("wide vector bitcast");
    return mkConcatMany(p);
  }
  return toE(v, widthOf(t));
}
Val unflat(E e, Type* t) {
  if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    u32 ew = widthOf(vt->getElementType());
    Val r = mkAgg(vt->getNumElements());
    for (u32 i = 0; i < vt->getNumElements(); i++) agg(r)->v[i] = fromE(mkExtract(e, i * ew, ew));
    return r;
  }
  return fromE(e);
}
Val bitcastV(const Val& v, Type* st, Type* dt) {
  auto* sv = dyn_cast<FixedVectorType>(st);
  auto* dv = dyn_cast<FixedVectorType>(dt);
  if (sv && dv) {
    u32 sw = widthOf(sv->getElementType()), dw = widthOf(dv->getElementType());
    u32 sn = sv->getNumElements(), dn = dv->getNumElements();
    if (sw == dw) return v;
    Val r = mkAgg(dn);
    if (sw > dw) {
      u32 k = sw / dw;
      for (u32 i = 0; i < dn; i++) agg(r)->v[i] = fromE(mkExtract(toE(agg(v)->v[i / k], sw), (i % k) * dw, dw));
    } else {
      u32 k = dw / sw;
      for (u32 i = 0; i < dn; i++) {
        std::vector<E> p;
        for (u32 j = 0; j < k; j++) p.push_back(toE(agg(v)->v[i * k + j], sw));
        agg(r)->v[i] = fromE(mkConcatMany(p));
      }
    }
    (void)sn;
    return r;
  }
  return unflat(flat(v, st), dt);
}

Val fpBin(unsigned opc, Type* t, u64 a, u64 b) {
  if (t->isFloatTy()) {
    float x = asF(a), y = asF(b);
    switch (opc) {
    case Instruction::FAdd: return cv(fromF(x + y));
    case Instruction::FSub: return cv(fromF(x - y));
    case Instruction::FMul: return cv(fromF(x * y));
    case Instruction::FDiv: return cv(fromF(x / y));
    case Instruction::FRem: return cv(fromF(std::fmod(x, y)));
    }
  }
  double x = asD(a), y = asD(b);
  switch (opc) {
  case Instruction::FAdd: return cv(fromD(x + y));
  case Instruction::FSub: return cv(fromD(x - y));
  case Instruction::FMul: return cv(fromD(x * y));
  case Instruction::FDiv: return cv(fromD(x / y));
  case Instruction::FRem: return cv(fromD(std::fmod(x, y)));
  }
  unsupported("fp op");
}
bool fcmp(unsigned p, double x, double y) {
  bool un = std::isnan(x) || std::isnan(y);
  switch (p) {
  case CmpInst::FCMP_FALSE: return false;
  case CmpInst::FCMP_OEQ: return !un && x == y;
  case CmpInst::FCMP_OGT: return !un && x > y;
  case CmpInst::FCMP_OGE: return !un && x >= y;
  case CmpInst::FCMP_OLT: return !un && x < y;
  case CmpInst::FCMP_OLE: return !un && x <= y;
  case CmpInst::FCMP_ONE: return !un && x != y;
  case CmpInst::FCMP_ORD: return !un;
  case CmpInst::FCMP_UNO: return un;
  case CmpInst::FCMP_UEQ: return un || x == y;
  case CmpInst::FCMP_UGT: return un || x > y;
  case CmpInst::FCMP_UGE: return un || x >= y;
  case CmpInst::FCMP_ULT: return un || x < y;
  case CmpInst::FCMP_ULE: return un || x <= y;
  case CmpInst::FCMP_UNE: return un || x != y;
  default: return true;
  }
}
Val castAny(unsigned opc, Type* st, Type* dt, const Val& a) {
  u32 sw = widthOf(st), dw = widthOf(dt);
  switch (opc) {
  case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: return castv(opc, sw, dw, a);
  case Instruction::UIToFP: return cv(putFP((double)concretize(a, sw), dt));
  case Instruction::SIToFP: return cv(putFP((double)(int64_t)sextOf(concretize(a, sw), sw), dt));
  case Instruction::FPToUI: return cv((u64)getFP(concretize(a, sw), st) & m64(dw));
  case Instruction::FPToSI: return cv((u64)(int64_t)getFP(concretize(a, sw), st) & m64(dw));
  case Instruction::FPExt: case Instruction::FPTrunc: return cv(putFP(getFP(concretize(a, sw), st), dt));
  case Instruction::PtrToInt: case Instruction::IntToPtr: return dw < sw ? castv(Instruction::Trunc, sw, dw, a) : a;
  }
  unsupported("cast");
}

Val execGeneric(const Inst& in) {
  const Instruction& I = *in.I;
  const std::vector<int>& ops = F().f->opnds[in.x];
  Type* t = I.getType();
  unsigned opc = I.getOpcode();
  if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    u32 n = vt->getNumElements();
    Type* et = vt->getElementType();
    u32 ew = widthOf(et);
    if (I.isBinaryOp()) {
      Val a = V(ops[0]), b = V(ops[1]), r = mkAgg(n);
      for (u32 i = 0; i < n; i++) {
        if (et->isFloatingPointTy()) agg(r)->v[i] = fpBin(opc, et, concretize(lane(a, i), ew), concretize(lane(b, i), ew));
        else agg(r)->v[i] = binop((Kind)binKind(opc), ew, lane(a, i), lane(b, i));
      }
      return r;
    }
    switch (opc) {
    case Instruction::ICmp: {
      Val a = V(ops[0]), b = V(ops[1]), r = mkAgg(n);
      u32 w = widthOf(cast<FixedVectorType>(I.getOperand(0)->getType())->getElementType());
      for (u32 i = 0; i < n; i++) agg(r)->v[i] = icmp(cast<ICmpInst>(I).getPredicate(), w, lane(a, i), lane(b, i));
      return r;
    }
    case Instruction::Select: {
      Val c = V(ops[0]), a = V(ops[1]), b = V(ops[2]), r = mkAgg(n);
      for (u32 i = 0; i < n; i++) agg(r)->v[i] = sel(isAgg(c) ? lane(c, i) : c, lane(a, i), lane(b, i), ew);
      return r;
    }
    case Instruction::InsertElement: {
      Val a = V(ops[0]), r = mkAgg(n);
      u64 k = concretize(V(ops[2]), 64);
      for (u32 i = 0; i < n; i++) agg(r)->v[i] = i == k ? V(ops[1]) : lane(a, i);
      return r;
    }
    case Instruction::ShuffleVector: {
      auto& sv = cast<ShuffleVectorInst>(I);
      Val a = V(ops[0]), b = V(ops[1]), r = mkAgg(n);
      u32 an = cast<FixedVectorType>(sv.getOperand(0)->getType())->getNumElements();
      for (u32 i = 0; i < n; i++) {
        int m = sv.getMaskValue(i);
        agg(r)->v[i] = m < 0 ? cv(0) : (u32)m < an ? lane(a, (u32)m) : lane(b, (u32)m - an);
      }
      return r;
    }
    case Instruction::BitCast: return bitcastV(V(ops[0]), I.getOperand(0)->getType(), t);
    default: break;
    }
    if (I.isCast()) {
      Val a = V(ops[0]), r = mkAgg(n);
      Type* st = cast<FixedVectorType>(I.getOperand(0)->getType())->getElementType();
      for (u32 i = 0; i < n; i++) agg(r)->v[i] = castAny(opc, st, et, lane(a, i));
      return r;
    }
  }
  switch (opc) {
  case Instruction::ExtractElement: return lane(V(ops[0]), (u32)concretize(V(ops[1]), 64));
  case Instruction::BitCast: return bitcastV(V(ops[0]), I.getOperand(0)->getType(), t);
  case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
    u32 w = widthOf(t);
    u64 a = concretize(V(ops[0]), w), b = concretize(V(ops[1]), w);
    return fpBin(opc, t, a, b);
  }
  case Instruction::FNeg: return cv(putFP(-getFP(concretize(V(ops[0]), widthOf(t)), t), t));
  case Instruction::FCmp: {
    Type* st = I.getOperand(0)->getType();
    u64 a = concretize(V(ops[0]), widthOf(st)), b = concretize(V(ops[1]), widthOf(st));
    return cv(fcmp(cast<FCmpInst>(I).getPredicate(), getFP(a, st), getFP(b, st)));
  }
  case Instruction::Select: { // aggregates / odd
    bool c = decide(toE(V(ops[0]), 1));
    return V(ops[c ? 1 : 2]);
  }
  default: break;
  }
  if (I.isCast()) return castAny(opc, I.getOperand(0)->getType(), t, V(ops[0]));
  std::string s;
  raw_string_ostream os(s);
  I.print(os);
  unsupported("instruction " + s);
}

// intrinsics; returns false if unknown
bool intrinsic(const CallBase& cb, unsigned id, std::vector<Val>& a, Val& r) {
  Type* t = cb.getType();
  u32 w = widthOf(t);
  auto vecmap2 = [&](auto f) {
    auto* vt = cast<FixedVectorType>(t);
    r = mkAgg(vt->getNumElements());
    u32 ew = widthOf(vt->getElementType());
    for (u32 i = 0; i < vt->getNumElements(); i++) agg(r)->v[i] = f(lane(a[0], i), a.size() > 1 && isAgg(a[1]) ? lane(a[1], i) : cv(0), ew);
  };
  switch (id) {
  case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove: {
    u64 n = concretize(a[2], widthOf(cb.getArgOperand(2)->getType()));
    u64 d = concretize(a[0], 64), s = concretize(a[1], 64);
    copyMem(d, s, n);
    return true;
  }
  case Intrinsic::memset: case Intrinsic::memset_inline: {
    u64 n = concretize(a[2], widthOf(cb.getArgOperand(2)->getType()));
    u64 d = concretize(a[0], 64);
    setMem(d, a[1], n);
    return true;
  }
  case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: {
    unsigned p = id == Intrinsic::umin ? CmpInst::ICMP_ULT : id == Intrinsic::umax ? CmpInst::ICMP_UGT : id == Intrinsic::smin ? CmpInst::ICMP_SLT : CmpInst::ICMP_SGT;
    if (!w) { vecmap2([&](Val x, Val y, u32 ew) { return sel(icmp(p, ew, x, y), x, y, ew); }); return true; }
    r = sel(icmp(p, w, a[0], a[1]), a[0], a[1], w);
    return true;
  }
  case Intrinsic::abs: {
    if (!w) { vecmap2([&](Val x, Val, u32 ew) { return sel(icmp(CmpInst::ICMP_SLT, ew, x, cv(0)), binop(K_SUB, ew, cv(0), x), x, ew); }); return true; }
    r = sel(icmp(CmpInst::ICMP_SLT, w, a[0], cv(0)), binop(K_SUB, w, cv(0), a[0]), a[0], w);
    return true;
  }
  case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: {
    if (!w) return false;
    E e = toE(a[0], w);
    r = fromE(id == Intrinsic::ctlz ? mkClz(e) : id == Intrinsic::cttz ? mkCtz(e) : mkCtpop(e));
    return true;
  }
  case Intrinsic::bswap: {
    if (!w) return false;
    r = fromE(mkBswap(toE(a[0], w)));
    return true;
  }
  case Intrinsic::fshl: case Intrinsic::fshr: {
    if (!w) return false;
    u64 s = 0;
    if (a[2].e) s = concretize(a[2], w);
    else s = a[2].c;
    s %= w;
    E x = toE(a[0], w), y = toE(a[1], w);
    if (id == Intrinsic::fshl) r = s == 0 ? a[0] : fromE(mkOr(mkShl(x, mkConst(s, w)), mkLShr(y, mkConst(w - s, w))));
    else r = s == 0 ? a[1] : fromE(mkOr(mkShl(x, mkConst(w - s, w)), mkLShr(y, mkConst(s, w))));
    return true;
  }
  case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
  case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
    u32 ew = widthOf(cb.getArgOperand(0)->getType());
    bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
    Kind k = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? K_ADD : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? K_SUB : K_MUL;
    u32 ww = k == K_MUL ? ew * 2 : ew + 1;
    r = mkAgg(2);
    E x = toE(a[0], ew), y = toE(a[1], ew);
    E res = mkBin(k, x, y);
    E wide = mkBin(k, sg ? mkSExt(x, ww) : mkZExt(x, ww), sg ? mkSExt(y, ww) : mkZExt(y, ww));
    E ov = mkNe(wide, sg ? mkSExt(res, ww) : mkZExt(res, ww));
    agg(r)->v[0] = fromE(res);
    agg(r)->v[1] = fromE(ov);
    return true;
  }
  case Intrinsic::uadd_sat: case Intrinsic::usub_sat: {
    if (!w) return false;
    E x = toE(a[0], w), y = toE(a[1], w);
    if (id == Intrinsic::usub_sat) r = fromE(mkIte(mkUlt(x, y), mkConst(0, w), mkSub(x, y)));
    else { E s = mkAdd(x, y); r = fromE(mkIte(mkUlt(s, x), mkConst(maskOf(w), w), s)); }
    return true;
  }
  case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
  case Intrinsic::ssa_copy: case Intrinsic::annotation: case Intrinsic::ptr_annotation:
    r = a[0];
    return true;
  case Intrinsic::assume: return true;
  case Intrinsic::vastart: { // all arguments passed as if on the stack
    Frame& fr = F();
    std::vector<Val> va = fr.varargs;
    Obj* o = S->mem.alloc(va.size() * 8 + 8, O_STACK, true);
    fr.allocas.push_back(o->id);
    u64 blk = mkAddr(o->id, 0), l = a[0].c;
    for (size_t i = 0; i < va.size(); i++) {
      if (isAgg(va[i])) unsupported("aggregate vararg");
      storeScalar(cv(blk + 8 * i), va[i].e ? fromE(va[i].e->w < 64 ? mkZExt(va[i].e, 64) : va[i].e) : va[i], 64);
    }
    storeScalar(cv(l), cv(48), 32);
    storeScalar(cv(l + 4), cv(176), 32);
    storeScalar(cv(l + 8), cv(blk), 64);
    storeScalar(cv(l + 16), cv(0), 64);
    return true;
  }
  case Intrinsic::vaend: return true;
  case Intrinsic::is_constant: r = cv(0); return true;
  case Intrinsic::objectsize: r = cv(concretize(a[1], 1) ? 0 : m64(w)); return true;
  case Intrinsic::threadlocal_address: r = cv(tlsAddr(a[0].c)); return true;
  case Intrinsic::eh_typeid_for: r = cv((u32)(a[0].c >> 32)); return true;
  case Intrinsic::stacksave: r = cv(0); return true;
  case Intrinsic::stackrestore: return true;
  case Intrinsic::trap: case Intrinsic::debugtrap: error("trap", "llvm.trap reached");
  case Intrinsic::load_relative: {
    u64 base = concretize(a[0], 64), off = concretize(a[1], widthOf(cb.getArgOperand(1)->getType()));
    r = cv(base + (u64)(int64_t)(int32_t)concretize(loadScalar(cv(base + off), 32), 32));
    return true;
  }
  case Intrinsic::fabs: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::round: case Intrinsic::trunc: case Intrinsic::sqrt: {
    if (!w) return false;
    double d = getFP(concretize(a[0], w), t);
    d = id == Intrinsic::fabs ? std::fabs(d) : id == Intrinsic::floor ? std::floor(d) : id == Intrinsic::ceil ? std::ceil(d) : id == Intrinsic::round ? std::round(d) : id == Intrinsic::trunc ? std::trunc(d) : id == Intrinsic::sqrt ? std::sqrt(d) : std::nearbyint(d);
    r = cv(putFP(d, t));
    return true;
  }
  case Intrinsic::fmuladd: case Intrinsic::fma: {
    double d = getFP(concretize(a[0], w), t) * getFP(concretize(a[1], w), t) + getFP(concretize(a[2], w), t);
    r = cv(putFP(d, t));
    return true;
  }
  case Intrinsic::copysign: r = cv(putFP(std::copysign(getFP(a[0].c, t), getFP(a[1].c, t)), t)); return true;
  case Intrinsic::minnum: case Intrinsic::maxnum: r = cv(putFP(id == Intrinsic::minnum ? std::fmin(getFP(a[0].c, t), getFP(a[1].c, t)) : std::fmax(getFP(a[0].c, t), getFP(a[1].c, t)), t)); return true;
  case Intrinsic::is_fpclass: {
    Type* st = cb.getArgOperand(0)->getType();
    double d = getFP(concretize(a[0], widthOf(st)), st);
    u64 m = a[1].c;
    u64 cls = std::isnan(d) ? 3 : std::isinf(d) ? (d < 0 ? 4 : 512) : d == 0 ? (std::signbit(d) ? 32 : 64) : std::fpclassify(d) == FP_SUBNORMAL ? (d < 0 ? 16 : 128) : (d < 0 ? 8 : 256);
    r = cv((cls & m) != 0);
    return true;
  }
  case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_xor:
  case Intrinsic::vector_reduce_umax: case Intrinsic::vector_reduce_umin: {
    auto* vt = cast<FixedVectorType>(cb.getArgOperand(0)->getType());
    u32 ew = widthOf(vt->getElementType());
    Val x = lane(a[0], 0);
    for (u32 i = 1; i < vt->getNumElements(); i++) {
      Val y = lane(a[0], i);
      x = id == Intrinsic::vector_reduce_and ? binop(K_AND, ew, x, y) : id == Intrinsic::vector_reduce_or ? binop(K_OR, ew, x, y) : id == Intrinsic::vector_reduce_xor ? binop(K_XOR, ew, x, y) : id == Intrinsic::vector_reduce_add ? binop(K_ADD, ew, x, y)
        : id == Intrinsic::vector_reduce_umax ? sel(icmp(CmpInst::ICMP_UGT, ew, x, y), x, y, ew) : sel(icmp(CmpInst::ICMP_ULT, ew, x, y), x, y, ew);
    }
    r = x;
    return true;
  }
  default: break;
  }
  StringRef nm = cb.getCalledFunction()->getName();
  if (nm == "llvm.x86.sse2.pause") { r = cv(0); return true; }
  if (nm.contains("pmovmskb")) { // x86 byte mask
    auto* vt = cast<FixedVectorType>(cb.getArgOperand(0)->getType());
    std::vector<E> p;
    for (u32 i = 0; i < vt->getNumElements(); i++) p.push_back(mkExtract(toE(lane(a[0], i), 8), 7, 1));
    E e = mkConcatMany(p);
    r = fromE(e->w < w ? mkZExt(e, w) : e);
    return true;
  }
  return false;
}
