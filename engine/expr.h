// Hash-consed bit-vector / IEEE-754 expression layer of rsym.
#pragma once
#include <cstdint>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <vector>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <z3.h>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;

enum Kind : uint8_t {
  K_CONST, K_VAR,
  K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM,
  K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR,
  K_EQ, K_ULT, K_ULE, K_SLT, K_SLE,
  K_ITE, K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT,
  // floating point, operands are IEEE bit patterns (w = 32 or 64)
  K_FADD, K_FSUB, K_FMUL, K_FDIV, K_FREM,
  K_FOEQ, K_FOLT, K_FOLE, K_FUNO,
  K_FTOSI, K_FTOUI,      // saturating, NaN -> 0 (aux = fp width of the operand)
  K_SITOF, K_UITOF,
  K_FEXT, K_FTRUNC,
  K_FROUND,              // aux: 0 floor 1 ceil 2 trunc 3 rint(ties even) 4 round(ties away)
  K_FSQRT, K_FFMA
};

struct VarSet { std::vector<uint32_t> v; };

struct Expr {
  uint8_t k; uint16_t w; uint32_t aux; uint32_t id;
  Expr *a, *b, *c;
  u64 lo, hi;           // constant value
  const VarSet* vars;
  Z3_ast z;
  uint32_t evGen; u64 evLo, evHi;
  u128 val() const { return ((u128)hi << 64) | lo; }
};

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline u128 sx(u128 v, unsigned w) { // sign-extend to 128
  if (w >= 128) return v; if ((v >> (w - 1)) & 1) return v | ~maskw(w); return v & maskw(w); }

struct VarInfo { std::string name; unsigned w; Expr* e; };

struct ExprPool {
  std::vector<Expr*> table; size_t cnt = 0; uint32_t nextId = 1;
  std::vector<VarInfo> vars;
  std::unordered_map<std::string, uint32_t> varByName;
  std::vector<VarSet*> sets; std::unordered_map<u64, std::vector<const VarSet*>> setTab;
  const VarSet* emptySet;
  std::unordered_map<u64, const VarSet*> unionMemo;
  char* arena = nullptr; size_t arenaLeft = 0;
  Expr *T, *F;
  ExprPool();
  Expr* alloc() {
    if (arenaLeft < sizeof(Expr)) { arenaLeft = 1 << 20; arena = (char*)malloc(arenaLeft); }
    Expr* e = (Expr*)arena; arena += sizeof(Expr); arenaLeft -= sizeof(Expr); return e;
  }
  static u64 h(uint8_t k, unsigned w, unsigned aux, Expr* a, Expr* b, Expr* c, u64 lo, u64 hi) {
    u64 x = k * 0x9E3779B97F4A7C15ull ^ ((u64)w << 20) ^ ((u64)aux << 32);
    auto mix = [&](u64 y) { x ^= y + 0x9E3779B97F4A7C15ull + (x << 6) + (x >> 2); x *= 0xff51afd7ed558ccdull; x ^= x >> 32; };
    mix(a ? a->id : 0); mix(b ? b->id : 0); mix(c ? c->id : 0); mix(lo); mix(hi); return x;
  }
  const VarSet* internSet(std::vector<uint32_t>& v);
  const VarSet* uni(const VarSet* a, const VarSet* b);
  void grow();
  Expr* mk(uint8_t k, unsigned w, unsigned aux, Expr* a, Expr* b, Expr* c, u64 lo = 0, u64 hi = 0);
};
extern ExprPool P;

Expr* eConst(u128 v, unsigned w);
Expr* eVar(const std::string& name, unsigned w);
Expr* eBin(Kind k, Expr* a, Expr* b);           // arithmetic/logic
Expr* eCmp(Kind k, Expr* a, Expr* b);
Expr* eNot(Expr* a);                            // bitwise not (w=1: logical)
Expr* eIte(Expr* c, Expr* a, Expr* b);
Expr* eConcat(Expr* hi, Expr* lo);
Expr* eExtract(Expr* a, unsigned off, unsigned w);
Expr* eZext(Expr* a, unsigned w);
Expr* eSext(Expr* a, unsigned w);
Expr* eFp(Kind k, unsigned w, unsigned aux, Expr* a, Expr* b = nullptr, Expr* c = nullptr);
static inline bool isC(Expr* e) { return e->k == K_CONST; }

struct Model { std::vector<u64> v; };          // by var index, vars are <= 64 bits
u128 evalExpr(Expr* e, const Model& m);        // memoised per call of newEval()
void newEval();
u128 foldOp(uint8_t k, unsigned w, unsigned aux, unsigned wa, u128 a, u128 b, u128 c, unsigned wb);
