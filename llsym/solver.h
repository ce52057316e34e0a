#pragma once
#include "expr.h"
struct SolverStats { u64 abstract = 0; u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cached = 0; double secs = 0; };
extern SolverStats SS;
// 1 sat, 0 unsat, -1 unknown. On sat fills model (by variable id) when non-null.
bool unsatCut(X c, unsigned depth, unsigned timeout_ms);
bool unsatSums(X c, unsigned level, unsigned timeout_ms);
bool unsatShared(X x, X y, unsigned timeout_ms);
int solve(const std::vector<X>& cs, std::map<uint32_t, u128>* model, unsigned timeout_ms = 60000);
u128 evalModel(X x, const std::map<uint32_t, u128>& m);
X sweep(X root);
