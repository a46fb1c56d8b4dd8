#pragma once
#include "expr.h"
#include <functional>
enum SRes { S_UNSAT, S_SAT, S_UNKNOWN };
struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cached = 0, modelHits = 0, cross = 0, crossDisagree = 0, fallback = 0; double time = 0, crossTime = 0; };
extern SolverStats gS;
extern unsigned gTimeoutMs; extern double gEndTime;
extern double gCrossTime; extern std::string gCross;       // "" or path of a second solver used to re-check UNSAT assertion queries
// constraints: already sliced. Decide satisfiability; fill model for the involved symbols.
SRes solveSat(const std::vector<E>& cs, Model* out, bool important);
// slice pc by symbol reachability from the queries, then solve.
SRes solveWith(const std::vector<E>& pc, const std::vector<E>& query, Model* out, bool important = false);
std::string toSmt2(const std::vector<E>& cs);
