#pragma once
#include "expr.h"
enum class Sat { Yes, No, Unknown };
struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0; double time = 0; };
extern SolverStats g_solverStats;
void solverInit();
// Is (pc restricted to the part sharing variables with cond) && cond satisfiable?  On Yes, 'm' (a model of pc) is updated.
Sat solverCheck(const std::vector<E> &pc, E cond, Model &m);
