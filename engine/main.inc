static std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char c: s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o;
}
static void jreport(FILE* f, const Report& r) {
  fprintf(f, "{\"kind\":\"%s\",\"msg\":\"%s\",\"where\":\"%s\",\"fault\":\"%s\",\"inputs\":{", jesc(r.kind).c_str(), jesc(r.msg).c_str(), jesc(r.where).c_str(), jesc(r.fault).c_str());
  bool first = true;
  for (auto& i: r.inputs) { fprintf(f, "%s\"%s\":\"%s\"", first ? "" : ",", jesc(i.first).c_str(), i.second.c_str()); first = false; }
  fprintf(f, "},\"obs\":[");
  first = true;
  for (auto& i: r.obs) { fprintf(f, "%s[\"%s\",\"%s\"]", first ? "" : ",", jesc(i.first).c_str(), i.second.c_str()); first = false; }
  fprintf(f, "],\"trace\":[");
  first = true;
  for (auto& i: r.trace) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(i).c_str()); first = false; }
  fprintf(f, "],\"sched\":[");
  first = true;
  for (auto i: r.sched) { fprintf(f, "%s%d", first ? "" : ",", (int)i); first = false; }
  fprintf(f, "],\"stack\":[");
  first = true;
  for (auto& i: r.stack) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(i).c_str()); first = false; }
  fprintf(f, "]}");
}
template <class M> static void jmap(FILE* f, const M& m) {
  bool first = true;
  fprintf(f, "{");
  for (auto& p: m) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(p.first).c_str(), (unsigned long long)p.second); first = false; }
  fprintf(f, "}");
}

int main(int argc, char** argv) {
  std::string file, entry = "hsx_main";
  bool prof = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "-p") { std::string s = nx(); auto k = s.find('='); g_params[s.substr(0, k)] = atol(s.c_str() + k + 1); }
    else if (a == "-o") g_out = nx();
    else if (a == "--repo") g_repo = nx();
    else if (a == "--max-steps") g_maxSteps = strtoull(nx().c_str(), 0, 10);
    else if (a == "--max-paths") g_maxPaths = strtoull(nx().c_str(), 0, 10);
    else if (a == "--max-errors") g_maxErrors = atoi(nx().c_str());
    else if (a == "--time") g_timeLimit = atof(nx().c_str());
    else if (a == "--samples") g_samples = atoi(nx().c_str());
    else if (a == "--seed") g_seed = (unsigned)atoi(nx().c_str());
    else if (a == "--preempt") g_preemptBound = atoi(nx().c_str());
    else if (a == "--mem") g_memLimitMB = strtoull(nx().c_str(), 0, 10);
    else if (a == "--query-timeout") g_query_timeout_ms = (unsigned)atoi(nx().c_str());
    else if (a == "--dump") { g_dump_dir = nx(); g_dump_max = 24; }
    else if (a == "--entry") entry = nx();
    else if (a == "--input") { // name=value lines
      std::string fn = nx();
      if (FILE* f = fopen(fn.c_str(), "r")) {
        static char b[1 << 20];
        while (fgets(b, sizeof b, f)) {
          std::string s = b;
          while (!s.empty() && (s.back() == '\n' || s.back() == '\r')) s.pop_back();
          auto k = s.find('=');
          if (k != std::string::npos) g_concrete[s.substr(0, k)] = s.substr(k + 1);
        }
        fclose(f);
      }
    }
    else if (a == "--race") g_race = true;
    else if (a == "-v") g_verbose = true;
    else if (a == "--prof") prof = true;
    else if (a == "--calls") g_traceCalls = true;
    else file = a;
  }
  g_t0 = now();
  Exec& ex = *new Exec();
  ex.rng.seed(g_seed);
  ex.profile = prof;
  registerBuiltins(ex);
  try {
    ex.load(file);
    ex.runAll(entry);
  } catch (PathEnd& e) {
    fprintf(stderr, "[hsx] fatal: %s\n", e.msg.c_str());
    return 3;
  }
  double t = now() - g_t0;
  FILE* f = g_out.empty() ? nullptr : fopen(g_out.c_str(), "w");
  bool complete = !ex.stop && ex.work.empty() && !ex.pathsLimit && !ex.pathsUnsup;
  if (f) {
    fprintf(f, "{\"complete\":%s,\"stop\":\"%s\",\"paths\":%llu,\"ok\":%llu,\"assume\":%llu,\"err\":%llu,\"limit\":%llu,\"unsupported\":%llu,\"pending\":%zu,\"forks\":%llu,\"instructions\":%llu,\"branches\":%llu,\"symbolic_branches\":%llu,\"asserts\":%llu,\"symbolic_asserts\":%llu,",
            complete ? "true" : "false", jesc(ex.stopReason).c_str(), (unsigned long long)ex.paths, (unsigned long long)ex.pathsOk, (unsigned long long)ex.pathsAssume, (unsigned long long)ex.pathsErr, (unsigned long long)ex.pathsLimit, (unsigned long long)ex.pathsUnsup, ex.work.size(), (unsigned long long)ex.forks, (unsigned long long)ex.instrs, (unsigned long long)ex.branches, (unsigned long long)ex.symBranches, (unsigned long long)ex.asserts, (unsigned long long)ex.assertsSym);
    fprintf(f, "\"queries\":%llu,\"cache_hits\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cubed\":%llu,\"solver_s\":%.3f,\"wall_s\":%.3f,", (unsigned long long)g_sstats.queries, (unsigned long long)g_sstats.cacheHits, (unsigned long long)g_sstats.sat, (unsigned long long)g_sstats.unsat, (unsigned long long)g_sstats.unknown, (unsigned long long)g_sstats.cubed, g_sstats.seconds, t);
    fprintf(f, "\"covers\":"); jmap(f, ex.covers);
    fprintf(f, ",\"limits\":"); jmap(f, ex.limits);
    fprintf(f, ",\"unsupported_msgs\":"); jmap(f, ex.unsup);
    std::map<std::string, u64> fn;
    for (auto& p: ex.funcs) if (p.second->repo && p.second->hits) { u64 n = 0; for (u8 c: p.second->cov) n += c; fn[p.second->name] = n; }
    fprintf(f, ",\"functions\":"); jmap(f, fn);
    fprintf(f, ",\"errors\":[");
    for (size_t i = 0; i < ex.errors.size(); i++) { if (i) fprintf(f, ","); jreport(f, ex.errors[i]); }
    fprintf(f, "],\"samples\":[");
    for (size_t i = 0; i < ex.samples.size(); i++) { if (i) fprintf(f, ","); jreport(f, ex.samples[i]); }
    fprintf(f, "]}\n");
    fclose(f);
  }
  fprintf(stderr, "[hsx] %s paths=%llu ok=%llu assume=%llu errors=%zu limit=%llu unsup=%llu instr=%.1fM queries=%llu(hit %llu) solver=%.1fs wall=%.1fs%s%s\n", complete ? "complete" : "INCOMPLETE", (unsigned long long)ex.paths, (unsigned long long)ex.pathsOk, (unsigned long long)ex.pathsAssume, ex.errors.size(), (unsigned long long)ex.pathsLimit, (unsigned long long)ex.pathsUnsup, (double)ex.instrs / 1e6, (unsigned long long)g_sstats.queries, (unsigned long long)g_sstats.cacheHits, g_sstats.seconds, t, ex.stop ? " stop: " : "", ex.stopReason.c_str());
  if (prof) {
    std::vector<std::pair<u64, std::string>> v;
    for (auto& p: ex.forkSites) v.push_back({p.second, p.first});
    std::sort(v.rbegin(), v.rend());
    for (size_t i = 0; i < v.size() && i < 30; i++) fprintf(stderr, "  fork %8llu %s\n", (unsigned long long)v[i].first, v[i].second.c_str());
    v.clear();
    for (auto& p: ex.querySites) v.push_back({p.second, p.first});
    std::sort(v.rbegin(), v.rend());
    for (size_t i = 0; i < v.size() && i < 30; i++) fprintf(stderr, "  query %8llu %s\n", (unsigned long long)v[i].first, v[i].second.c_str());
  }
  fflush(stderr);
  _exit(ex.errors.empty() ? (complete ? 0 : 2) : 1);
}
