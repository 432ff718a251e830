// Lowering of expressions to Z3 and satisfiability queries.
#pragma once
#include "expr.hpp"
struct SolverStats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0; double seconds = 0; };
extern SolverStats g_sstats;
enum class SatR { SAT, UNSAT, UNKNOWN };
// Is the conjunction satisfiable?  On SAT, values of the variables occurring in it are written to model.
// modelOk tells whether re-evaluating the conjunction under the returned model (with the real libm for UF) gives true.
SatR solveConj(const std::vector<E> &cs, std::vector<u64> &model, bool &modelOk, u64 rlimit);
