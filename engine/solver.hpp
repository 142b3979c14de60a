// Path-condition queries: slicing by shared variables, caching, Z3 (QF_BV / QF_FPBV).
#pragma once
#include "expr.hpp"
enum class Res { Sat, Unsat, Unknown };
struct SolverStats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0; double time = 0, maxTime = 0; };
extern SolverStats g_ss;
extern unsigned g_rlimit;
extern std::string g_dumpDir;
// Is pc /\ cond satisfiable?  On Sat, `out` is `base` with the values of the sliced variables replaced.
Res checkSat(const std::vector<E> &pc, E cond, const Model &base, Model &out);
// A second opinion: writes the query as SMT-LIB2 text.
std::string toSmt2(const std::vector<E> &cs);
