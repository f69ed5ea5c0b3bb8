#pragma once
#include "expr.h"
#include <memory>
#include <vector>
struct Model { std::vector<u64> v; u64 gen; u64 get(size_t i) const { return i < v.size() ? v[i] : 0; } };
typedef std::shared_ptr<Model> ModelP;
ModelP newModel();
ModelP cloneModel(const ModelP &m);
u64 evalM(Expr *e, Model *m);
enum Res { R_UNSAT, R_SAT, R_UNKNOWN };
struct SolverStats { u64 queries = 0, z3calls = 0, cacheHits = 0, sat = 0, unsat = 0, unknown = 0, modelHits = 0, intOk = 0; double time = 0, maxTime = 0; };
extern SolverStats g_ss;
extern unsigned g_timeout_ms;
void solverInit();
// Is (pc && cond) satisfiable?  base: a model of pc (always valid for pc).  On SAT out = model of pc && cond.
Res checkSat(const std::vector<Expr *> &pc, Expr *cond, const ModelP &base, ModelP &out);
std::string dumpSmt(const std::vector<Expr *> &pc, Expr *cond);
