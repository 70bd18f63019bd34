#pragma once
#include "expr.h"
#include <map>
#include <memory>
enum SatR { R_UNSAT, R_SAT, R_UNKNOWN };
struct SolverStats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0, checkQueries = 0; double time = 0, maxTime = 0; };
struct Solver {
  Z3_context ctx = nullptr; Z3_solver s = nullptr, s2 = nullptr; SolverStats st;
  unsigned rlimit = 0;
  Z3_sort bvs[130] = {nullptr};
  std::unordered_map<Expr*, Z3_ast> boolMemo; // for w==1 exprs (bool sort)
  std::unordered_map<u64, std::vector<std::pair<std::vector<uint32_t>, std::pair<SatR, std::vector<std::pair<uint32_t, u64>>>>>> cache;
  std::string dumpDir; unsigned dumpMax = 0, dumped = 0;
  void init(unsigned timeoutMs);
  Z3_sort bv(unsigned w);
  Z3_ast toBV(Expr* e); Z3_ast toBool(Expr* e); Z3_ast fp(Expr* e);
  // conj of cs; on SAT assigns vars into m (only those in support)
  SatR check(std::vector<Expr*>& cs, Model& m, bool isCheck);
};
extern Solver S;
