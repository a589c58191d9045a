// Solver front end: independence slicing, model reuse, query cache, Z3 back end.
#pragma once
#include "expr.h"
#include <memory>

enum SatRes { SAT, UNSAT, UNKNOWN };

struct SolverStats {
  u64    queries = 0, cacheHits = 0, modelHits = 0, sat = 0, unsat = 0, unknown = 0, cubed = 0;
  double seconds = 0;
};
extern SolverStats g_sstats;
extern unsigned    g_query_timeout_ms;
extern std::string g_dump_dir; // if set, sampled queries are written as SMT-LIB2
extern int         g_dump_max;

// Is (conj of cs) && extra satisfiable?  base is a model of cs (may be null).
// On SAT *out is a full model (base values overridden on the slice).
SatRes solveWith(const std::vector<E>& cs, E extra, const Model* base, std::shared_ptr<Model>* out);
