#pragma once
#include "expr.h"
#include <memory>
#include <map>
enum class Res { Unsat, Sat, Unknown };
struct Model {
  std::unordered_map<uint32_t, u128> v;
  std::unordered_map<uint32_t, std::map<uint64_t, uint8_t>> arr;
  std::map<std::pair<uint32_t, std::vector<u128>>, u128> uf;
};
u128 evalE(E e, const Model& m);       // own evaluator (fresh stamp per call)
struct SolverStats { uint64_t queries = 0, cacheHits = 0, sat = 0, unsat = 0, unknown = 0; double secs = 0, maxSecs = 0; };
extern SolverStats g_ss;
extern int g_query_timeout_ms;
extern std::string g_cross_check;      // non-empty: binary to re-check every non-trivial unsat query with (cvc5)
extern uint64_t g_cross_ok, g_cross_unknown, g_cross_bad;
void solverInit();
Res checkSat(const std::vector<E>& cons, Model* out);
// slices cons to those connected with q; returns constraints list including q
std::vector<E> sliceFor(const std::vector<E>& cons, E q);
