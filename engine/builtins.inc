// ---- functions the engine implements itself ----
static std::map<std::string, std::string> g_concrete; // replay inputs: name -> "h:.."/"i:.."

static void makeSymbolic(Exec& x, u64 a, u64 n, const std::string& base) {
  u32 k = x.S->counters["in:" + base]++;
  std::string name = k ? base + "#" + std::to_string(k) : base;
  InputItem it;
  it.name = name;
  it.choice = false;
  u64 off;
  auto gi = g_concrete.find(name);
  if (n) {
    const Obj* o = x.check(a, n, true, off);
    Obj* w = x.S->mem.getW(o->id);
    for (u64 i = 0; i < n; i++) {
      E v = mkVar(name + "[" + std::to_string(i) + "]", 8);
      it.vars.push_back(v->aux);
      if (gi != g_concrete.end() && gi->second.size() >= 2 + 2 * (i + 1)) {
        u8 b = (u8)strtoul(gi->second.substr(2 + 2 * i, 2).c_str(), nullptr, 16);
        auto m = std::make_shared<Model>();
        m->val = x.S->model->val;
        m->val[v->aux] = b;
        x.S->model = m;
        x.addC(x.S, mkEq(v, mkConst(b, 8)));
      }
      Memory::writeByte(w, off + i, 0, v);
    }
  }
  x.S->inputs.push_back(it);
}

static void registerBuiltins(Exec& ex) {
  auto reg = [&](const char* n, BuiltinFn f) {
    ex.builtinIdx[n] = (int)ex.builtins.size();
    ex.builtins.push_back({n, f});
  };
  typedef std::vector<Val> A;
  // ---- heap
  auto alloc = [](Exec& x, u64 n, u8 kind) -> u64 {
    if (n > (1ull << 30)) throw PathEnd{END_LIMIT, "allocation larger than 1 GiB"};
    Obj* o = x.S->mem.alloc(n, O_HEAP, false);
    o->alloc = kind;
    return mkAddr(o->id, 0);
  };
  auto dealloc = [](Exec& x, const Val& p) {
    u64 a = x.concretize(p, 64);
    if (!a) return;
    u32 id = (u32)(a >> 32);
    const Obj* o = x.S->mem.get(id);
    if (!o) x.error("memory", "double free or invalid free");
    if (o->kind != O_HEAP) x.error("memory", "free of a non-heap object");
    if ((a & 0xffffffff) != OFF0) x.error("memory", "free of an interior pointer");
    x.raceAccess(a, o->size, true);
    if (g_race) x.S->shadow.erase(id);
    x.S->mem.release(id);
  };
  reg("malloc", [=](Exec& x, A& a, Val& r) { r = cv(alloc(x, x.concretize(a[0], 64), 1)); return true; });
  for (const char* n: {"_Znwm", "_Znam"}) reg(n, [=](Exec& x, A& a, Val& r) { r = cv(alloc(x, x.concretize(a[0], 64), 2)); return true; });
  for (const char* n: {"_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "_ZnwmSt11align_val_tRKSt9nothrow_t"}) reg(n, [=](Exec& x, A& a, Val& r) { r = cv(alloc(x, x.concretize(a[0], 64), 2)); return true; });
  reg("calloc", [=](Exec& x, A& a, Val& r) { u64 n = x.concretize(a[0], 64) * x.concretize(a[1], 64); u64 p = alloc(x, n, 1); x.S->mem.getW((u32)(p >> 32))->zero = true; r = cv(p); return true; });
  reg("aligned_alloc", [=](Exec& x, A& a, Val& r) { r = cv(alloc(x, x.concretize(a[1], 64), 1)); return true; });
  reg("realloc", [=](Exec& x, A& a, Val& r) {
    u64 n = x.concretize(a[1], 64), p = x.concretize(a[0], 64);
    u64 q = alloc(x, n, 1);
    if (p) {
      const Obj* o = x.S->mem.get((u32)(p >> 32));
      if (!o) x.error("memory", "realloc of freed memory");
      x.copyMem(q, p, std::min<u64>(n, o->size));
      dealloc(x, cv(p));
    }
    r = cv(q);
    return true;
  });
  for (const char* n: {"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdlPvRKSt9nothrow_t"})
    reg(n, [=](Exec& x, A& a, Val&) { dealloc(x, a[0]); return true; });
  // ---- memory and strings
  for (const char* n: {"memcpy", "memmove"}) reg(n, [](Exec& x, A& a, Val& r) {
    u64 k = x.concretize(a[2], 64), d = x.concretize(a[0], 64), s = x.concretize(a[1], 64);
    x.copyMem(d, s, k);
    r = cv(d);
    return true;
  });
  reg("memset", [](Exec& x, A& a, Val& r) {
    u64 k = x.concretize(a[2], 64), d = x.concretize(a[0], 64);
    Val b = a[1].e ? fromE(mkExtract(a[1].e, 0, 8)) : cv(a[1].c & 255);
    x.setMem(d, b, k);
    r = cv(d);
    return true;
  });
  for (const char* n: {"memcmp", "bcmp"}) {
    bool bc = n[0] == 'b';
    reg(n, [bc](Exec& x, A& a, Val& r) {
      u64 k = x.concretize(a[2], 64), p = x.concretize(a[0], 64), q = x.concretize(a[1], 64);
      x.raceAccess(p, k, false);
      x.raceAccess(q, k, false);
      E acc = mkConst(0, 32);
      if (bc) {
        E ne = mkBool(false);
        for (u64 i = k; i-- > 0;) {
          Val u = x.loadScalar(cv(p + i), 8), v = x.loadScalar(cv(q + i), 8);
          ne = mkOr(mkNe(toE(u, 8), toE(v, 8)), ne);
        }
        r = fromE(mkZExt(ne, 32));
        return true;
      }
      for (u64 i = k; i-- > 0;) {
        Val u = x.loadScalar(cv(p + i), 8), v = x.loadScalar(cv(q + i), 8);
        E ue = toE(u, 8), ve = toE(v, 8);
        acc = mkIte(mkEq(ue, ve), acc, mkIte(mkUlt(ue, ve), mkConst(0xffffffff, 32), mkConst(1, 32)));
      }
      r = fromE(acc);
      return true;
    });
  }
  reg("strlen", [](Exec& x, A& a, Val& r) {
    u64 p = x.concretize(a[0], 64), n = 0;
    for (;; n++) {
      Val b = x.loadScalar(cv(p + n), 8);
      if (!b.e) { if (!b.c) break; }
      else if (x.decide(mkEq(b.e, mkConst(0, 8)))) break;
    }
    x.raceAccess(p, n + 1, false);
    r = cv(n);
    return true;
  });
  reg("memchr", [](Exec& x, A& a, Val& r) {
    u64 p = x.concretize(a[0], 64), n = x.concretize(a[2], 64);
    E c = mkExtract(toE(a[1], 32), 0, 8);
    r = cv(0);
    for (u64 i = 0; i < n; i++) {
      Val b = x.loadScalar(cv(p + i), 8);
      E eq = mkEq(toE(b, 8), c);
      if (eq->isConst() ? (bool)eq->v : x.decide(eq)) { r = cv(p + i); break; }
    }
    return true;
  });
  // ---- harness API
  reg("hsx_make_symbolic", [](Exec& x, A& a, Val&) { makeSymbolic(x, x.concretize(a[0], 64), x.concretize(a[1], 64), x.cstr(x.concretize(a[2], 64))); return true; });
  reg("hsx_choice", [](Exec& x, A& a, Val& r) {
    u64 n = x.concretize(a[0], 32);
    std::string base = x.cstr(x.concretize(a[1], 64));
    std::string key = "ch:" + base;
    u32 k = x.S->counters[key];
    std::string name = k ? base + "#" + std::to_string(k) : base;
    E v = mkVar(name, 32);
    if (x.S->inputs.empty() || x.S->inputs.back().name != name) {
      InputItem it;
      it.name = name;
      it.choice = true;
      it.vars.push_back(v->aux);
      x.S->inputs.push_back(it);
      E lt = mkUlt(v, mkConst(n, 32));
      if (!x.S->model->eval(lt)) { auto m = std::make_shared<Model>(); m->val = x.S->model->val; m->val[v->aux] = 0; x.S->model = m; }
      x.addC(x.S, lt);
      auto gi = g_concrete.find(name);
      if (gi != g_concrete.end()) {
        u64 cvl = strtoull(gi->second.c_str() + 2, nullptr, 10);
        auto m = std::make_shared<Model>();
        m->val = x.S->model->val;
        m->val[v->aux] = cvl;
        x.S->model = m;
        x.addC(x.S, mkEq(v, mkConst(cvl, 32)));
      }
    }
    u64 c = x.concretizeE(v);
    x.S->counters[key]++;
    r = cv(c);
    return true;
  });
  reg("hsx_assume", [](Exec& x, A& a, Val&) {
    if (!a[0].e) { if (!(u32)a[0].c) throw PathEnd{END_ASSUME, ""}; return true; }
    E c = mkNe(a[0].e, mkConst(0, a[0].e->w));
    if (!x.S->model->eval(c)) {
      std::shared_ptr<Model> m;
      if (x.query(c, &m) != SAT) throw PathEnd{END_ASSUME, ""};
      x.S->model = m;
    }
    x.addC(x.S, c);
    return true;
  });
  reg("hsx_assert_", [](Exec& x, A& a, Val&) {
    x.asserts++;
    std::string msg;
    if (!a[0].e) {
      if (!(u32)a[0].c) x.error("assert", x.cstr(x.concretize(a[1], 64)));
      return true;
    }
    x.assertsSym++;
    E c = mkNe(a[0].e, mkConst(0, a[0].e->w));
    if (c->isConst()) { if (!c->v) x.error("assert", x.cstr(x.concretize(a[1], 64))); return true; }
    std::shared_ptr<Model> m;
    if (!x.S->model->eval(c)) {
      x.reportError("assert", x.cstr(x.concretize(a[1], 64)), *x.S->model);
      if (x.query(c, &m) != SAT) throw PathEnd{END_ERROR, ""};
      x.S->model = m;
      x.addC(x.S, c);
      return true;
    }
    if (x.S->known.count(c) || x.allPinned(c)) return true;
    if (x.query(mkNot(c), &m) == SAT) {
      x.reportError("assert", x.cstr(x.concretize(a[1], 64)), *m);
      x.addC(x.S, c);
    }
    return true;
  });
  reg("hsx_observe", [](Exec& x, A& a, Val&) {
    ObsItem o;
    o.tag = x.cstr(x.concretize(a[0], 64));
    u64 p = x.concretize(a[1], 64), n = x.concretize(a[2], 64);
    for (u64 i = 0; i < n; i++) o.bytes.push_back(toE(x.loadScalar(cv(p + i), 8), 8));
    x.S->obs.push_back(o);
    return true;
  });
  reg("hsx_cover", [](Exec& x, A& a, Val&) { x.covers[x.cstr(x.concretize(a[0], 64))]++; return true; });
  reg("hsx_param", [](Exec& x, A& a, Val& r) {
    std::string n = x.cstr(x.concretize(a[0], 64));
    auto it = g_params.find(n);
    r = it == g_params.end() ? a[1] : cv((u64)it->second);
    return true;
  });
  reg("hsx_native", [](Exec&, A&, Val& r) { r = cv(0); return true; });
  reg("hsx_concretize", [](Exec& x, A& a, Val& r) { r = cv(x.concretize(a[0], 64)); return true; });
  reg("hsx_decide", [](Exec& x, A& a, Val& r) { r = cv(a[0].e ? x.decide(mkNe(a[0].e, mkConst(0, a[0].e->w))) : (u32)a[0].c != 0); return true; });
  reg("hsx_is_sym", [](Exec& x, A& a, Val& r) { // any symbolic byte in [p,p+n)?
    u64 p = x.concretize(a[0], 64), n = x.concretize(a[1], 64);
    r = cv(0);
    for (u64 i = 0; i < n; i++) if (x.loadScalar(cv(p + i), 8).e) r = cv(1);
    return true;
  });
  reg("hsx_fault", [](Exec& x, A& a, Val&) { if (!x.S->fault.empty()) x.S->fault += "; "; x.S->fault += x.cstr(x.concretize(a[0], 64)); return true; });
  reg("hsx_trace", [](Exec& x, A& a, Val&) { x.S->trace.push_back(x.cstr(x.concretize(a[0], 64))); return true; });
  reg("hsx_print", [](Exec& x, A& a, Val&) {
    u64 p = x.concretize(a[0], 64), n = x.concretize(a[1], 64);
    std::string s;
    for (u64 i = 0; i < n; i++) { Val b = x.loadScalar(cv(p + i), 8); s += b.e ? (char)x.S->model->eval(b.e) : (char)b.c; }
    if (g_verbose) { fwrite(s.data(), 1, s.size(), stderr); }
    return true;
  });
  reg("hsx_dump", [](Exec& x, A& a, Val&) { fprintf(stderr, "[dump] %s\n", a[0].e ? toString(a[0].e).c_str() : std::to_string(a[0].c).c_str()); (void)x; return true; });
  reg("hsx_stop_path", [](Exec&, A&, Val&) -> bool { throw PathEnd{END_OK, "stop"}; });
  reg("hsx_error", [](Exec& x, A& a, Val&) -> bool { x.error("error", x.cstr(x.concretize(a[0], 64))); });
  reg("hsx_unsupported", [](Exec& x, A& a, Val&) -> bool { unsupported(x.cstr(x.concretize(a[0], 64))); });
  // floating point, on concrete values only: the host's C library
  reg("hsx_fmt_double", [](Exec& x, A& a, Val& r) { // (out, cap, printf spec, value)
    double d; u64 u = x.concretize(a[3], 64); memcpy(&d, &u, 8);
    char b[512];
    int n = snprintf(b, sizeof b, x.cstr(x.concretize(a[2], 64)).c_str(), d);
    u64 p = x.concretize(a[0], 64), cap = x.concretize(a[1], 64);
    for (int i = 0; i <= n && (u64)i < cap; i++) x.storeScalar(cv(p + (u64)i), cv((u8)b[i]), 8);
    r = cv((u64)(u32)n);
    return true;
  });
  reg("hsx_shortest_double", [](Exec& x, A& a, Val& r) { // (out, value): shortest text that reads back
    double d; u64 u = x.concretize(a[1], 64); memcpy(&d, &u, 8);
    char b[64];
    auto e = std::to_chars(b, b + sizeof b, d);
    u64 p = x.concretize(a[0], 64), n = (u64)(e.ptr - b);
    for (u64 i = 0; i < n; i++) x.storeScalar(cv(p + i), cv((u8)b[i]), 8);
    r = cv(n);
    return true;
  });
  reg("hsx_parse_double", [](Exec& x, A& a, Val& r) { // (text, length*): value
    std::string t = x.cstr(x.concretize(a[0], 64));
    char* e; double d = strtod(t.c_str(), &e);
    x.storeScalar(cv(x.concretize(a[1], 64)), cv((u64)(e - t.c_str())), 64);
    u64 u; memcpy(&u, &d, 8); r = cv(u);
    return true;
  });
#define HSX_M1(f) reg(#f, [](Exec& x, A& a, Val& r) { double d; u64 u = x.concretize(a[0], 64); memcpy(&d, &u, 8); d = ::f(d); memcpy(&u, &d, 8); r = cv(u); return true; });
  HSX_M1(log) HSX_M1(log2) HSX_M1(log10) HSX_M1(log1p) HSX_M1(exp) HSX_M1(exp2) HSX_M1(sqrt) HSX_M1(cbrt) HSX_M1(ceil) HSX_M1(floor) HSX_M1(round) HSX_M1(trunc) HSX_M1(rint) HSX_M1(nearbyint) HSX_M1(sin) HSX_M1(cos)
#define HSX_M2(f) reg(#f, [](Exec& x, A& a, Val& r) { double d, e; u64 u = x.concretize(a[0], 64), w = x.concretize(a[1], 64); memcpy(&d, &u, 8); memcpy(&e, &w, 8); d = ::f(d, e); memcpy(&u, &d, 8); r = cv(u); return true; });
  HSX_M2(pow) HSX_M2(fmod) HSX_M2(atan2) HSX_M2(hypot)
#define HSX_ML(f) reg(#f, [](Exec& x, A& a, Val& r) { double d; u64 u = x.concretize(a[0], 64); memcpy(&d, &u, 8); r = cv((u64)::f(d)); return true; });
  HSX_ML(lround) HSX_ML(llround) HSX_ML(lrint) HSX_ML(llrint)
  reg("hsx_preempt_bound", [](Exec&, A&, Val& r) { r = cv((u64)g_preemptBound); return true; });
  // ---- program under test
  reg("hsx_call_app_", [](Exec& x, A& a, Val&) {
    FuncInfo* f = x.funcAt(x.concretize(a[0], 64));
    std::vector<Val> args(a.begin() + 1, a.end());
    x.S->appDepthFrame = (u32)x.T().st.size();
    x.pushFrame(f, args);
    return false;
  });
  reg("hsx_app_exit", [](Exec& x, A& a, Val&) { x.appExit(x.concretize(a[0], 32)); return false; });
  reg("hsx_terminate", [](Exec& x, A& a, Val&) { x.terminate(x.cstr(x.concretize(a[0], 64))); return false; });
  reg("abort", [](Exec& x, A&, Val&) { x.terminate("abort"); return false; });
  reg("hsx_reset_globals", [](Exec& x, A&, Val&) { // fresh process image (all but hsx_persist* objects)
    for (u32 id = 1; id < x.snapNext; id++) {
      const Obj* o = x.snapshot->mem.get(id);
      if (x.persistent.count(id)) continue;
      const Obj* c = x.S->mem.get(id);
      if (o == c) continue;
      Page* p = x.S->mem.wpage(id / Page::N);
      Obj*& slot = p->o[id % Page::N];
      if (slot) slot->unref();
      slot = const_cast<Obj*>(o);
      if (slot) slot->rc++;
    }
    x.raceReset();
    return true;
  });
  // ---- exceptions
  reg("hsx_throw", [](Exec& x, A& a, Val&) {
    u64 obj = a[0].c, ti = a[1].c;
    x.unwind(obj, ti, true);
    return false;
  });
  reg("__dynamic_cast", [](Exec& x, A& a, Val& r) {
    u64 p = x.concretize(a[0], 64);
    r = cv(0);
    if (!p) return true;
    u64 vt = x.ld64(p);
    u64 top = x.ld64(vt - 16), ti = x.ld64(vt - 8);
    u64 whole = p + top, adj = 0;
    if (x.findBase(ti, whole, a[2].c, adj)) r = cv(adj);
    return true;
  });
  // ---- threads
  reg("pthread_create", [](Exec& x, A& a, Val& r) {
    x.schedPoint();
    u64 pt = x.concretize(a[0], 64);
    FuncInfo* f = x.funcAt(x.concretize(a[2], 64));
    u32 me = x.S->cur;
    u32 id = (u32)x.S->th.size();
    x.S->th.emplace_back();
    x.S->cur = id;
    x.pushFrame(f, {a[3]});
    x.S->cur = me;
    x.hbCreate(me, id);
    x.storeScalar(cv(pt), cv(id + 1), 64);
    x.S->trace.push_back("create t" + std::to_string(id));
    x.S->sched.push_back((u8)me);
    r = cv(0);
    return true;
  });
  reg("pthread_self", [](Exec& x, A&, Val& r) { r = cv(x.S->cur + 1); return true; });
  reg("pthread_join", [](Exec& x, A& a, Val& r) {
    u64 id = x.concretize(a[0], 64) - 1;
    if (id >= x.S->th.size()) x.error("thread", "join of an unknown thread");
    if (x.S->th[id].status != TH_DONE) {
      x.T().status = TH_JOIN;
      x.T().waitOn = id;
      x.switchAway();
      return false;
    }
    x.visible();
    if (g_race) x.hbJoin(x.T().vc, x.S->th[id].vc);
    r = cv(0);
    return true;
  });
  reg("pthread_detach", [](Exec&, A&, Val& r) { r = cv(0); return true; });
  reg("pthread_mutex_lock", [](Exec& x, A& a, Val& r) {
    x.schedPoint();
    r = cv(0);
    return x.mutexLock(x.concretize(a[0], 64));
  });
  reg("hsx_rdlock", [](Exec& x, A& a, Val& r) {
    x.schedPoint();
    r = cv(0);
    return x.mutexLock(x.concretize(a[0], 64), true);
  });
  reg("hsx_hb", [](Exec& x, A& a, Val&) { // 0: acquire, 1: release, 2: note that a lock just taken is shared
    u64 m = x.concretize(a[0], 64);
    if (!g_race) return true;
    if ((u32)a[1].c == 0) x.hbAcquire(m);
    else if ((u32)a[1].c == 1) x.hbRelease(m);
    else x.S->rdHeld.insert(m);
    return true;
  });
  reg("pthread_mutex_trylock", [](Exec& x, A& a, Val& r) {
    x.schedPoint();
    x.visible();
    u32& o = x.S->mutexOwner[x.concretize(a[0], 64)];
    if (o) r = cv(16);
    else { o = x.S->cur + 1; r = cv(0); x.mutexAcquired(x.concretize(a[0], 64), false); }
    return true;
  });
  reg("pthread_mutex_unlock", [](Exec& x, A& a, Val& r) {
    u32& o = x.S->mutexOwner[x.concretize(a[0], 64)];
    if (o != x.S->cur + 1) x.error("thread", "unlock of a mutex the thread does not hold");
    o = 0;
    x.mutexReleased(x.concretize(a[0], 64));
    r = cv(0);
    return true;
  });
  reg("hsx_pause", [](Exec& x, A&, Val& r) { x.freeSwitch = true; x.schedPoint(); x.freeSwitch = false; x.visible(); r = cv(0); return true; });
  reg("hsx_yield", [](Exec& x, A&, Val& r) { x.schedPoint(); x.visible(); r = cv(0); return true; });
  reg("sched_yield", [](Exec& x, A&, Val& r) {
    Thread& t = x.T();
    r = cv(0);
    if (t.cvDone) { t.cvDone = false; x.visible(); return true; }
    bool any = false;
    for (u32 i = 0; i < x.S->th.size(); i++) if (i != x.S->cur && x.enabled(x.S, i)) any = true;
    if (!any) { x.visible(); return true; }
    t.cvDone = true;
    x.switchAway();
    return false;
  });
  auto cvwait = [](Exec& x, u64 cvp, u64 m, bool timed, Val& r) {
    Thread& t = x.T();
    if (t.cvDone) {
      t.cvDone = false;
      x.visible();
      r = cv(t.timedOut ? 110 : 0);
      t.signalled = t.timed = t.timedOut = false;
      return true;
    }
    if (x.S->mutexOwner[m] != x.S->cur + 1) x.error("thread", "condition wait without holding the mutex");
    x.schedPoint();
    x.visible();
    x.S->mutexOwner[m] = 0;
    x.mutexReleased(m);
    t.status = TH_CV;
    t.waitOn = cvp;
    t.waitMutex = m;
    t.timed = timed;
    t.signalled = false;
    x.switchAway();
    return false;
  };
  reg("pthread_cond_wait", [=](Exec& x, A& a, Val& r) { return cvwait(x, x.concretize(a[0], 64), x.concretize(a[1], 64), false, r); });
  reg("pthread_cond_timedwait", [=](Exec& x, A& a, Val& r) { return cvwait(x, x.concretize(a[0], 64), x.concretize(a[1], 64), true, r); });
  reg("pthread_cond_clockwait", [=](Exec& x, A& a, Val& r) { return cvwait(x, x.concretize(a[0], 64), x.concretize(a[1], 64), true, r); });
  reg("pthread_cond_signal", [](Exec& x, A& a, Val& r) {
    x.schedPoint();
    x.visible();
    u64 c = x.concretize(a[0], 64);
    std::vector<u32> w;
    for (u32 i = 0; i < x.S->th.size(); i++) if (x.S->th[i].status == TH_CV && x.S->th[i].waitOn == c && !x.S->th[i].signalled) w.push_back(i);
    for (size_t k = 1; k < w.size(); k++) {
      State* n = new State(*x.S);
      n->th[w[k]].signalled = true;
      State* sv = x.S;
      x.S = n;
      x.finishCall(cv(0));
      x.S = sv;
      x.work.push_back(n);
    }
    if (!w.empty()) x.S->th[w[0]].signalled = true;
    r = cv(0);
    return true;
  });
  reg("pthread_cond_broadcast", [](Exec& x, A& a, Val& r) {
    x.schedPoint();
    x.visible();
    u64 c = x.concretize(a[0], 64);
    for (auto& t: x.S->th) if (t.status == TH_CV && t.waitOn == c) t.signalled = true;
    r = cv(0);
    return true;
  });
  for (const char* n: {"pthread_mutex_init", "pthread_mutex_destroy", "pthread_cond_init", "pthread_cond_destroy", "pthread_attr_init", "pthread_attr_destroy"}) reg(n, [](Exec&, A&, Val& r) { r = cv(0); return true; });
  reg("hsx_nthreads_alive", [](Exec& x, A&, Val& r) { u64 n = 0; for (auto& t: x.S->th) if (t.status != TH_DONE) n++; r = cv(n); return true; });
}
