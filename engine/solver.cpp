#include "solver.h"
#include <chrono>
#include <cmath>
#include <unistd.h>
Solver S;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
void Solver::init(unsigned timeoutMs) {
  if (ctx) return;
  Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true");
  ctx = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(ctx, errh);
  s = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, s);
  Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), 40000000u);
  Z3_solver_set_params(ctx, s, p);
}
Z3_sort Solver::bv(unsigned w) { if (!bvs[w]) { bvs[w] = Z3_mk_bv_sort(ctx, w); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, bvs[w])); } return bvs[w]; }
static Z3_sort fpSort(Z3_context c, unsigned w) { return w == 64 ? Z3_mk_fpa_sort_double(c) : Z3_mk_fpa_sort_single(c); }
Z3_ast Solver::fp(Expr* e) { return Z3_mk_fpa_to_fp_bv(ctx, toBV(e), fpSort(ctx, e->w)); }
Z3_ast Solver::toBool(Expr* e) {
  auto it = boolMemo.find(e); if (it != boolMemo.end()) return it->second;
  Z3_ast r;
  switch (e->k) {
    case K_CONST: r = e->lo ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
    case K_AND: { Z3_ast x[2] = {toBool(e->a), toBool(e->b)}; r = Z3_mk_and(ctx, 2, x); break; }
    case K_MUL: { Z3_ast x[2] = {toBool(e->a), toBool(e->b)}; r = Z3_mk_and(ctx, 2, x); break; }
    case K_OR: { Z3_ast x[2] = {toBool(e->a), toBool(e->b)}; r = Z3_mk_or(ctx, 2, x); break; }
    case K_XOR: case K_ADD: case K_SUB:
      if (isC(e->b) && e->b->lo) r = Z3_mk_not(ctx, toBool(e->a)); else r = Z3_mk_xor(ctx, toBool(e->a), toBool(e->b)); break;
    case K_ITE: r = Z3_mk_ite(ctx, toBool(e->a), toBool(e->b), toBool(e->c)); break;
    case K_EQ: if (e->a->w == 1) r = Z3_mk_iff(ctx, toBool(e->a), toBool(e->b)); else r = Z3_mk_eq(ctx, toBV(e->a), toBV(e->b)); break;
    case K_ULT: r = Z3_mk_bvult(ctx, toBV(e->a), toBV(e->b)); break;
    case K_ULE: r = Z3_mk_bvule(ctx, toBV(e->a), toBV(e->b)); break;
    case K_SLT: r = Z3_mk_bvslt(ctx, toBV(e->a), toBV(e->b)); break;
    case K_SLE: r = Z3_mk_bvsle(ctx, toBV(e->a), toBV(e->b)); break;
    case K_FOEQ: r = Z3_mk_fpa_eq(ctx, fp(e->a), fp(e->b)); break;
    case K_FOLT: r = Z3_mk_fpa_lt(ctx, fp(e->a), fp(e->b)); break;
    case K_FOLE: r = Z3_mk_fpa_leq(ctx, fp(e->a), fp(e->b)); break;
    case K_FUNO: { Z3_ast x[2] = {Z3_mk_fpa_is_nan(ctx, fp(e->a)), Z3_mk_fpa_is_nan(ctx, fp(e->b))}; r = Z3_mk_or(ctx, 2, x); break; }
    default: r = Z3_mk_eq(ctx, toBV(e), Z3_mk_unsigned_int64(ctx, 1, bv(1)));
  }
  Z3_inc_ref(ctx, r); boolMemo[e] = r; return r;
}
Z3_ast Solver::toBV(Expr* e) {
  if (e->z) return e->z;
  Z3_ast r = nullptr;
  auto isBoolKind = [&](Expr* x) { return x->w == 1 && x->k != K_EXTRACT && x->k != K_VAR && x->k != K_CONST; };
  if (isBoolKind(e)) {
    r = Z3_mk_ite(ctx, toBool(e), Z3_mk_unsigned_int64(ctx, 1, bv(1)), Z3_mk_unsigned_int64(ctx, 0, bv(1)));
    Z3_inc_ref(ctx, r); e->z = r; return r;
  }
  switch (e->k) {
    case K_CONST:
      if (e->w <= 64) r = Z3_mk_unsigned_int64(ctx, e->lo, bv(e->w));
      else r = Z3_mk_concat(ctx, Z3_mk_unsigned_int64(ctx, e->hi & (u64)maskw(e->w - 64), bv(e->w - 64)), Z3_mk_unsigned_int64(ctx, e->lo, bv(64)));
      break;
    case K_VAR: { std::string n = "v" + std::to_string(e->aux); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), bv(e->w)); break; }
    case K_ADD: r = Z3_mk_bvadd(ctx, toBV(e->a), toBV(e->b)); break;
    case K_SUB: r = Z3_mk_bvsub(ctx, toBV(e->a), toBV(e->b)); break;
    case K_MUL: r = Z3_mk_bvmul(ctx, toBV(e->a), toBV(e->b)); break;
    case K_UDIV: r = Z3_mk_bvudiv(ctx, toBV(e->a), toBV(e->b)); break;
    case K_SDIV: r = Z3_mk_bvsdiv(ctx, toBV(e->a), toBV(e->b)); break;
    case K_UREM: r = Z3_mk_bvurem(ctx, toBV(e->a), toBV(e->b)); break;
    case K_SREM: r = Z3_mk_bvsrem(ctx, toBV(e->a), toBV(e->b)); break;
    case K_AND: r = Z3_mk_bvand(ctx, toBV(e->a), toBV(e->b)); break;
    case K_OR: r = Z3_mk_bvor(ctx, toBV(e->a), toBV(e->b)); break;
    case K_XOR: r = Z3_mk_bvxor(ctx, toBV(e->a), toBV(e->b)); break;
    case K_SHL: r = Z3_mk_bvshl(ctx, toBV(e->a), toBV(e->b)); break;
    case K_LSHR: r = Z3_mk_bvlshr(ctx, toBV(e->a), toBV(e->b)); break;
    case K_ASHR: r = Z3_mk_bvashr(ctx, toBV(e->a), toBV(e->b)); break;
    case K_ITE: r = Z3_mk_ite(ctx, toBool(e->a), toBV(e->b), toBV(e->c)); break;
    case K_CONCAT: r = Z3_mk_concat(ctx, toBV(e->a), toBV(e->b)); break;
    case K_EXTRACT: r = Z3_mk_extract(ctx, e->aux + e->w - 1, e->aux, toBV(e->a)); break;
    case K_ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, toBV(e->a)); break;
    case K_SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, toBV(e->a)); break;
    case K_FADD: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_add(ctx, Z3_mk_fpa_rne(ctx), fp(e->a), fp(e->b))); break;
    case K_FSUB: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_sub(ctx, Z3_mk_fpa_rne(ctx), fp(e->a), fp(e->b))); break;
    case K_FMUL: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_mul(ctx, Z3_mk_fpa_rne(ctx), fp(e->a), fp(e->b))); break;
    case K_FDIV: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_div(ctx, Z3_mk_fpa_rne(ctx), fp(e->a), fp(e->b))); break;
    case K_FSQRT: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_sqrt(ctx, Z3_mk_fpa_rne(ctx), fp(e->a))); break;
    case K_FFMA: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_fma(ctx, Z3_mk_fpa_rne(ctx), fp(e->a), fp(e->b), fp(e->c))); break;
    case K_FROUND: { Z3_ast rm = e->aux == 0 ? Z3_mk_fpa_rtn(ctx) : e->aux == 1 ? Z3_mk_fpa_rtp(ctx) : e->aux == 2 ? Z3_mk_fpa_rtz(ctx) : e->aux == 3 ? Z3_mk_fpa_rne(ctx) : Z3_mk_fpa_rna(ctx);
      r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_round_to_integral(ctx, rm, fp(e->a))); break; }
    case K_SITOF: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_signed(ctx, Z3_mk_fpa_rne(ctx), toBV(e->a), fpSort(ctx, e->w))); break;
    case K_UITOF: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_unsigned(ctx, Z3_mk_fpa_rne(ctx), toBV(e->a), fpSort(ctx, e->w))); break;
    case K_FEXT: case K_FTRUNC: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_float(ctx, Z3_mk_fpa_rne(ctx), fp(e->a), fpSort(ctx, e->w))); break;
    case K_FTOSI: case K_FTOUI: {
      bool sg = e->k == K_FTOSI; unsigned w = e->w; Expr* a = e->a;
      double limHi = std::ldexp(1.0, sg ? w - 1 : w), limLo = sg ? -std::ldexp(1.0, w - 1) : 0.0;
      Z3_sort fs = fpSort(ctx, a->w); Z3_ast x = fp(a);
      Z3_ast hiC = Z3_mk_fpa_geq(ctx, x, Z3_mk_fpa_numeral_double(ctx, limHi, fs));
      Z3_ast loC = sg ? Z3_mk_fpa_lt(ctx, x, Z3_mk_fpa_numeral_double(ctx, limLo, fs)) : Z3_mk_fpa_leq(ctx, x, Z3_mk_fpa_numeral_double(ctx, 0.0, fs));
      Z3_ast conv = sg ? Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), x, w) : Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_rtz(ctx), x, w);
      Z3_ast maxv = toBV(eConst(sg ? maskw(w - 1) : maskw(w), w)), minv = toBV(eConst(sg ? ((u128)1 << (w - 1)) : 0, w)), zero = toBV(eConst(0, w));
      r = Z3_mk_ite(ctx, Z3_mk_fpa_is_nan(ctx, x), zero, Z3_mk_ite(ctx, hiC, maxv, Z3_mk_ite(ctx, loC, minv, conv)));
      break; }
    default: fprintf(stderr, "toBV: unsupported expr kind %d\n", e->k); exit(3);
  }
  Z3_inc_ref(ctx, r); e->z = r; return r;
}

SatR Solver::check(std::vector<Expr*>& cs, Model& m, bool isCheck) {
  std::vector<uint32_t> key; for (auto* e : cs) key.push_back(e->id);
  std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  u64 hh = 1469598103934665603ull; for (auto x : key) { hh ^= x; hh *= 1099511628211ull; hh ^= hh >> 29; }
  auto& bucket = cache[hh];
  for (auto& en : bucket) if (en.first == key) {
    st.cacheHits++;
    if (en.second.first == R_SAT) for (auto& kv : en.second.second) { if (m.v.size() <= kv.first) m.v.resize(kv.first + 1, 0); m.v[kv.first] = kv.second; }
    return en.second.first;
  }
  init(0);
  double t0 = now();
  Z3_solver_push(ctx, s);
  const VarSet* vs = P.emptySet;
  for (auto* e : cs) { Z3_solver_assert(ctx, s, toBool(e)); vs = P.uni(vs, e->vars); }
  if (dumped < dumpMax && (isCheck || (st.queries % 17) == 0)) {
    dumped++; std::string fn = dumpDir + "/q" + std::to_string(getpid()) + "_" + std::to_string(dumped) + ".smt2";
    FILE* f = fopen(fn.c_str(), "w"); if (f) { fprintf(f, "%s\n(check-sat)\n", Z3_solver_to_string(ctx, s)); fclose(f); }
    FILE* g = fopen((dumpDir + "/index.txt").c_str(), "a"); if (g) { fprintf(g, "%s ", fn.c_str()); fclose(g); }
  }
  Z3_lbool r = Z3_solver_check(ctx, s);
  SatR res = r == Z3_L_TRUE ? R_SAT : r == Z3_L_FALSE ? R_UNSAT : R_UNKNOWN;
  std::vector<std::pair<uint32_t, u64>> asg;
  if (res == R_SAT) {
    Z3_model zm = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, zm);
    for (auto vi : vs->v) {
      Z3_ast out; u64 val = 0;
      if (Z3_model_eval(ctx, zm, toBV(P.vars[vi].e), true, &out)) Z3_get_numeral_uint64(ctx, out, (uint64_t*)&val);
      asg.push_back({vi, val});
      if (m.v.size() <= vi) m.v.resize(vi + 1, 0); m.v[vi] = val;
    }
    Z3_model_dec_ref(ctx, zm);
    newEval(); for (auto* e : cs) if (!evalExpr(e, m)) { res = R_UNKNOWN; fprintf(stderr, "rsym: solver model rejected by evaluator\n"); break; }
  }
  Z3_solver_pop(ctx, s, 1);
  double dt = now() - t0; st.time += dt; if (dt > st.maxTime) st.maxTime = dt;
  st.queries++; if (isCheck) st.checkQueries++;
  if (res == R_SAT) st.sat++; else if (res == R_UNSAT) st.unsat++; else st.unknown++;
  bucket.push_back({key, {res, asg}});
  return res;
}
