// Path-condition solving: models, uninterpreted-function axioms, slicing, Z3.
#pragma once
#include "expr.h"
#include <z3.h>
#include <map>
#include <memory>
#include <set>
#include <unordered_set>

// ---------- uninterpreted functions -------------------------------------
struct App { uint32_t tag; std::vector<E> in; bool concIn; bool symOut; uint32_t outlen; std::vector<E> out; uint32_t var0; };
struct VarInfo { int app; uint32_t byte; };  // app<0: plain input byte
extern std::vector<VarInfo> VARS;
extern std::vector<App> APPS;
uint32_t newVars(uint32_t n, int app);
// returns app index
uint32_t getApp(uint32_t tag, const std::vector<E> &in, uint32_t outlen, bool symOut);
void prf(uint32_t tag, const std::string &in, uint32_t outlen, uint8_t *out);
void sha256(const uint8_t *p, size_t n, uint8_t out[32]);

// ---------- models ---------------------------------------------------------
struct Model {
  uint64_t id;
  std::vector<int16_t> vals;                                           // plain vars; -1 unset (=0)
  std::map<std::pair<uint32_t, std::string>, std::string> uf;        // overrides
};
typedef std::shared_ptr<const Model> ModelP;
u128 evalE(const Model &m, E e);
uint8_t evalVar(const Model &m, uint32_t v);

struct Stats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, fullQueries = 0, z3calls = 0, repaired = 0; double z3time = 0, maxq = 0; };
extern Stats SS;
extern unsigned SOLVER_TIMEOUT_MS;

enum SatRes { R_SAT, R_UNSAT, R_UNKNOWN };
// Is pc ∧ cond satisfiable?  apps: applications live on this path.
// On SAT, out = model of *all* of pc ∧ cond.
SatRes solve(const std::vector<E> &pc, E cond, const std::vector<uint32_t> &apps, const ModelP &base, ModelP &out);
const std::vector<uint32_t> &varsOf(E e);
