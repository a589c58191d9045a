// ---- data races: vector clocks and shadow memory (happens-before), while the program has several threads ----
static u8 acqRel(AtomicOrdering o) { // 1 acquire, 2 release
  switch (o) {
  case AtomicOrdering::Acquire: return 1;
  case AtomicOrdering::Release: return 2;
  case AtomicOrdering::AcquireRelease: case AtomicOrdering::SequentiallyConsistent: return 3;
  default: return 0;
  }
}
static void hbJoin(std::vector<u32>& a, const std::vector<u32>& b) {
  if (a.size() < b.size()) a.resize(b.size(), 0);
  for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]);
}
std::vector<u32>& hbClock(u32 t) {
  auto& v = S->th[t].vc;
  if (v.size() <= t) v.resize(t + 1, 0);
  if (!v[t]) v[t] = 1;
  return v;
}
void hbAcquire(u64 m) {
  auto it = S->sync.find(m);
  if (it != S->sync.end()) hbJoin(hbClock(S->cur), it->second);
}
void hbRelease(u64 m, bool join = true) {
  auto& v = hbClock(S->cur);
  auto& s = S->sync[m];
  if (join) hbJoin(s, v);
  else s = v;
  v[S->cur]++;
}
void hbCreate(u32 parent, u32 child) {
  if (!g_race) return;
  auto& p = hbClock(parent);
  S->th[child].vc = p;
  hbClock(child);
  p[parent]++;
}
void raceReset() {
  if (!g_race) return;
  S->sync.clear();
  S->shadow.clear();
  S->rdHeld.clear();
  for (auto& t: S->th) t.vc.clear();
}
std::vector<std::pair<FuncInfo*, u32>> raceSites{{nullptr, 0}};
std::map<std::pair<FuncInfo*, u32>, u32> raceSiteIdx;
std::unordered_map<u32, bool> raceSkip; // globals of the runtime model and the standard streams
u32 raceSite() { // the code behind library headers; 0: the runtime model
  auto& st = T().st;
  for (size_t i = st.size(); i-- > 0;) {
    if (st[i].f->layer == 1) return 0;
    if (st[i].f->layer == 2) continue;
    auto k = std::make_pair(st[i].f, st[i].pc);
    auto it = raceSiteIdx.find(k);
    if (it != raceSiteIdx.end()) return it->second;
    raceSites.push_back(k);
    return raceSiteIdx[k] = (u32)raceSites.size() - 1;
  }
  return 0;
}
std::string siteName(u32 s) { // file and line in the innermost code that is not a library header
  auto [f, pc] = raceSites[s];
  if (!f) return "?";
  const Instruction* I = pc < f->code.size() ? f->code[pc].I : nullptr;
  DILocation* l = I ? I->getDebugLoc().get() : nullptr;
  for (; l; l = l->getInlinedAt()) {
    std::string fn = l->getFilename().str();
    if (!fn.empty() && fn[0] != '/') fn = l->getDirectory().str() + "/" + fn;
    if (fn.rfind(g_repo + "/", 0) == 0) return fn.substr(g_repo.size() + 1) + ":" + std::to_string(l->getLine());
    if (fn.rfind("/usr/", 0) != 0) return fn.substr(fn.rfind('/') + 1) + ":" + std::to_string(l->getLine());
  }
  return f->name;
}
void raceAccess(u64 a, u64 n, bool wr) {
  if (!g_race || S->th.size() < 2 || starting) return;
  u32 id = (u32)(a >> 32);
  const Obj* o = S->mem.get(id);
  if (!o || o->ro || o->kind == O_FUNC) return;
  u64 off = (a & 0xffffffffull) - OFF0;
  if (off >= o->size) return;
  n = std::min(n, o->size - off);
  if (o->kind == O_GLOBAL && o->tag && id < snapNext) {
    auto it = raceSkip.find(id);
    if (it == raceSkip.end()) {
      std::string nm = ((const GlobalVariable*)o->tag)->getName().str();
      bool std = nm.rfind("_ZSt4cout", 0) == 0 || nm.rfind("_ZSt4cerr", 0) == 0 || nm.rfind("_ZSt4clog", 0) == 0 || nm.rfind("_ZSt3cin", 0) == 0 || nm.rfind("_ZGV", 0) == 0;
      it = raceSkip.emplace(id, std).first;
    }
    if (it->second) return;
  }
  u32 me = S->cur;
  if (me >= 6) unsupported("data race detection beyond five threads");
  u32 site = raceSite();
  if (!site) return;
  auto& vc = hbClock(me);
  u32 clk = vc[me];
  auto knows = [&](u32 t, u32 c) { return t == me || (t < vc.size() && vc[t] >= c); };
  auto& sp = S->shadow[id];
  if (!sp) sp = std::make_shared<RaceObj>();
  else if (sp.use_count() > 1) sp = std::make_shared<RaceObj>(*sp);
  if (sp->p.size() <= (off + n - 1) / 32) sp->p.resize((off + n - 1) / 32 + 1);
  for (u64 k = off; k < off + n; k++) {
    auto& pg = sp->p[k / 32];
    if (!pg) pg = std::make_shared<RacePage>();
    RaceCell* c = &pg->c[k % 32];
    if (wr ? c->w == (clk << 4 | me) && c->wl == site : c->r[me] == clk) continue; // nothing new
    u32 other = 0;
    bool ow = false;
    if (c->w && !knows(c->w & 15, c->w >> 4)) { other = c->wl; ow = true; }
    else if (wr) for (u32 t = 0; t < 6; t++) if (c->r[t] && !knows(t, c->r[t])) other = c->rl;
    if (other) {
      std::string x = siteName(site) + (wr ? " (write)" : " (read)"), y = siteName(other) + (ow ? " (write)" : " (read)");
      if (y < x) std::swap(x, y);
      reportError("race", "unsynchronised access to the same memory by two threads: " + x + " and " + y, *S->model);
      throw PathEnd{END_ERROR, "race"};
    }
    if (pg.use_count() > 1) { pg = std::make_shared<RacePage>(*pg); c = &pg->c[k % 32]; }
    if (wr) { c->w = clk << 4 | me; c->wl = site; memset(c->r, 0, sizeof c->r); }
    else { c->r[me] = clk; c->rl = site; }
  }
}
void raceInst(const Val& p, const Inst& in, bool wr) {
  if (p.e) return; // a symbolic address: not tracked
  if (in.sub) {
    u8 o = in.sub - 1;
    if (!wr && (o & 1)) hbAcquire(p.c);
    if (wr && (o & 2)) hbRelease(p.c, false);
    else if (wr) S->sync.erase(p.c);
    return;
  }
  raceAccess(p.c, in.w ? (in.w + 7) / 8 : DL->getTypeStoreSize((Type*)in.p).getFixedValue(), wr);
}
void raceRmw(const Val& p, const Inst& in) {
  if (p.e || !in.sub) return;
  u8 o = in.sub - 1;
  if (o & 1) hbAcquire(p.c);
  if (o & 2) hbRelease(p.c);
}
