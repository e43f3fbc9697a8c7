#pragma once
#include "expr.h"
struct SolverStats { uint64_t queries=0, sat=0, unsat=0, unknown=0, cacheHits=0; double time=0, maxTime=0; };
extern SolverStats gSS;
extern unsigned gQueryTimeoutMs;
void solverInit();
// decide conjunction of cs. returns 1 sat (model filled), 0 unsat, -1 unknown
int solverCheck(const std::vector<E>& cs, std::shared_ptr<Model>* out);
