#pragma once
#include "expr.h"
#include <string>

enum class Res { Sat, Unsat, Unknown };
struct SolverStats {
    uint64_t queries = 0;      // asked
    uint64_t solverCalls = 0;  // reached z3
    uint64_t cacheHits = 0;
    uint64_t modelHits = 0;
    uint64_t sat = 0, unsat = 0, unknown = 0;
    double time = 0, maxTime = 0;
};
extern SolverStats gStats;
void solverInit(unsigned timeoutMs, unsigned seed);
// Is (AND constraints) && cond satisfiable?  Only constraints connected to cond by shared symbols are considered
// (the rest must be known satisfiable).  On Sat, *model is `base` overwritten with the solution on the slice.
Res solve(const std::vector<const Node *> &constraints, const V &cond, const Model &base, Model *model);
// Full check without slicing.
Res solveFull(const std::vector<const Node *> &constraints, const V &cond, Model *model);
void dumpSmt2(const std::vector<const Node *> &constraints, const V &cond, const std::string &file);
