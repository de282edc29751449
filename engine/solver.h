// Z3 back end: decides conjunctions of expressions.
#pragma once
#include "expr.h"
#include <vector>
#include <string>
enum Res { RSat, RUnsat, RUnknown };
struct Mask { uint64_t m[4]; };
struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0; double sec = 0, maxSec = 0; };
extern SolverStats gSolver;
extern double gQueryTimeout;   // seconds
// Decide the conjunction of `cs` together with byte-domain restrictions. When sat, `vals[i]` receives the value of vars[i].
Res z3Check(const std::vector<E*>& cs, const std::vector<std::pair<uint32_t, const Mask*>>& doms, const std::vector<uint32_t>& vars, std::vector<uint8_t>& vals);
bool maskEmpty(const Mask& m);
