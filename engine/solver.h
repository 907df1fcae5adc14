#pragma once
#include "expr.h"
enum SatRes { SAT, UNSAT, UNKNOWN };
struct SolverStats { uint64_t queries = 0, cacheHits = 0, sat = 0, unsat = 0, unknown = 0, modelHits = 0, refinements = 0; double time = 0, maxTime = 0; };
extern SolverStats gStats;
// Decide the conjunction of `cs` (width-1 nodes). On SAT, `model` receives values for all variables involved.
SatRes solve(const std::vector<Node*>& cs, Model& model, unsigned timeoutMs);
void solverSeed(uint64_t s);
