// ---- threads: visible operations, scheduling choices, deadlock detection ----
bool enabled(State* s, u32 i) {
  Thread& t = s->th[i];
  auto freeM = [&](u64 m) { auto it = s->mutexOwner.find(m); return it == s->mutexOwner.end() || !it->second; };
  switch (t.status) {
  case TH_RUN: return true;
  case TH_MUTEX: return freeM(t.waitOn);
  case TH_CV: return (t.signalled || t.timed) && freeM(t.waitMutex);
  case TH_JOIN: return s->th[t.waitOn].status == TH_DONE;
  case TH_DONE: return false;
  }
  return false;
}
void activate(State* s, u32 i) {
  Thread& t = s->th[i];
  s->cur = i;
  s->trace.push_back("run t" + std::to_string(i));
  if (t.status == TH_CV) {
    s->mutexOwner[t.waitMutex] = i + 1;
    if (g_race) hbJoin(t.vc, s->sync[t.waitMutex]), hbJoin(t.vc, s->sync[t.waitMutex ^ 1]);
    t.timedOut = !t.signalled;
    t.cvDone = true;
  }
  t.status = TH_RUN;
  if (!t.started && i) s->sched.push_back((u8)i);
  t.started = true;
}
void visible() { if (S->th.size() > 1) S->sched.push_back((u8)S->cur); }
// a point at which another thread may be scheduled first
bool freeSwitch = false; // a voluntary wait: not counted as a preemption
void schedPoint() {
  if (S->th.size() == 1) return;
  Thread& t = T();
  if (t.schedDone) { t.schedDone = false; return; }
  if (S->preempt >= g_preemptBound && !freeSwitch) return;
  for (u32 i = 0; i < S->th.size(); i++) {
    if (i == S->cur || !enabled(S, i)) continue;
    if (S->th[i].status == TH_CV && !S->th[i].signalled) continue; // time-outs only when forced or at a switch
    State* n = new State(*S);
    n->th[S->cur].schedDone = true;
    if (!freeSwitch) n->preempt++;
    activate(n, i);
    work.push_back(n);
    forks++;
  }
}
// current thread cannot continue: choose another
void switchAway() {
  std::vector<u32> en;
  for (u32 i = 0; i < S->th.size(); i++) if (i != S->cur && enabled(S, i)) en.push_back(i);
  if (en.empty() && enabled(S, S->cur)) en.push_back(S->cur);
  if (en.empty()) {
    std::string d;
    for (u32 i = 0; i < S->th.size(); i++) {
      Thread& t = S->th[i];
      d += " t" + std::to_string(i) + (t.status == TH_MUTEX ? "=mutex" : t.status == TH_CV ? "=condvar" : t.status == TH_JOIN ? "=join" : t.status == TH_DONE ? "=done" : "=run");
    }
    error("deadlock", "no thread can run:" + d);
  }
  for (size_t k = 1; k < en.size(); k++) {
    State* n = new State(*S);
    activate(n, en[k]);
    work.push_back(n);
    forks++;
  }
  activate(S, en[0]);
}
void threadFinished() {
  if (S->cur == 0) {
    if (starting) return;
    throw PathEnd{END_OK, "main returned"};
  }
  T().status = TH_DONE;
  S->trace.push_back("end t" + std::to_string(S->cur));
  switchAway();
}
void mutexAcquired(u64 m, bool shared) {
  if (!g_race) return;
  hbAcquire(m);
  if (shared) S->rdHeld.insert(m);
  else hbAcquire(m ^ 1); // what the readers did before
}
void mutexReleased(u64 m) {
  if (!g_race) return;
  hbRelease(S->rdHeld.erase(m) ? m ^ 1 : m);
}
bool mutexLock(u64 m, bool shared = false) { // false: blocked
  u32& o = S->mutexOwner[m];
  if (o == S->cur + 1) error("deadlock", "mutex locked twice by one thread");
  if (o) {
    Thread& t = T();
    t.status = TH_MUTEX;
    t.waitOn = m;
    t.schedDone = true;
    switchAway();
    return false;
  }
  o = S->cur + 1;
  mutexAcquired(m, shared);
  visible();
  return true;
}
