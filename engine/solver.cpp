#include "solver.h"
#include <z3.h>
#include <chrono>
#include <unordered_map>
#include <cstdio>
#include <cstdlib>
SolverStats gSolver;
double gQueryTimeout = 60;
static Z3_context C = nullptr;
static Z3_solver S1 = nullptr;
static bool zerr = false;
static void onErr(Z3_context, Z3_error_code) { zerr = true; }
static Z3_sort bv(unsigned w) { return Z3_mk_bv_sort(C, w); }
static Z3_ast keep(Z3_ast a) { return a; }
static void setTimeoutS(Z3_solver s, double sec) {
  Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
  Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), (unsigned)(sec * 1000));
  Z3_solver_set_params(C, s, p); Z3_params_dec_ref(C, p);
}
static void init() {
  if (C) return;
  Z3_config cfg = Z3_mk_config();
  C = Z3_mk_context(cfg);   // not reference-counted: intermediate terms stay alive
  Z3_del_config(cfg);
  Z3_set_error_handler(C, onErr);
  S1 = Z3_mk_simple_solver(C); Z3_solver_inc_ref(C, S1);
}
static Z3_sort fs(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(C) : Z3_mk_fpa_sort_64(C); }
static Z3_ast T(E* e);
static Z3_ast toF(E* e) { return Z3_mk_fpa_to_fp_bv(C, T(e), fs(e->w)); }
static Z3_ast b2bv(Z3_ast b) { return Z3_mk_ite(C, b, Z3_mk_unsigned_int64(C, 1, bv(1)), Z3_mk_unsigned_int64(C, 0, bv(1))); }
static Z3_ast bv2b(Z3_ast v) { return Z3_mk_eq(C, v, Z3_mk_unsigned_int64(C, 1, bv(1))); }
// Booleans: width-1 expressions are cached as Z3 Bool via TB, as bit-vectors via T.
static std::unordered_map<E*, Z3_ast> boolCache;
static Z3_ast TB(E* e) {
  auto it = boolCache.find(e);
  if (it != boolCache.end()) return it->second;
  Z3_ast r;
  switch (e->k) {
    case KConst: r = e->c ? Z3_mk_true(C) : Z3_mk_false(C); break;
    case KEq: r = e->a->w == 1 ? Z3_mk_iff(C, TB(e->a), TB(e->b)) : Z3_mk_eq(C, T(e->a), T(e->b)); break;
    case KUlt: r = Z3_mk_bvult(C, T(e->a), T(e->b)); break;
    case KUle: r = Z3_mk_bvule(C, T(e->a), T(e->b)); break;
    case KSlt: r = Z3_mk_bvslt(C, T(e->a), T(e->b)); break;
    case KSle: r = Z3_mk_bvsle(C, T(e->a), T(e->b)); break;
    case KNot: r = Z3_mk_not(C, TB(e->a)); break;
    case KAnd: { Z3_ast x[2] = {TB(e->a), TB(e->b)}; r = Z3_mk_and(C, 2, x); break; }
    case KOr: { Z3_ast x[2] = {TB(e->a), TB(e->b)}; r = Z3_mk_or(C, 2, x); break; }
    case KXor: r = Z3_mk_xor(C, TB(e->a), TB(e->b)); break;
    case KIte: r = Z3_mk_ite(C, TB(e->a), TB(e->b), TB(e->d)); break;
    case KFOeq: r = Z3_mk_fpa_eq(C, toF(e->a), toF(e->b)); break;
    case KFOlt: r = Z3_mk_fpa_lt(C, toF(e->a), toF(e->b)); break;
    case KFOle: r = Z3_mk_fpa_leq(C, toF(e->a), toF(e->b)); break;
    case KFUno: { Z3_ast x[2] = {Z3_mk_fpa_is_nan(C, toF(e->a)), Z3_mk_fpa_is_nan(C, toF(e->b))}; r = Z3_mk_or(C, 2, x); break; }
    default: r = bv2b(T(e)); break;
  }
  boolCache[e] = keep(r);
  return r;
}
static Z3_ast fToInt(E* x, unsigned w, bool sg) {
  Z3_ast f = toF(x);
  unsigned n = w < 32 ? 32 : w;
  unsigned cw = (!sg && w == 32) ? 64 : n;           // x86: u32 conversion goes through i64
  bool uns64 = !sg && w >= 64;
  Z3_ast rtz = Z3_mk_fpa_rtz(C);
  Z3_sort F = fs(x->w);
  double hi = uns64 ? 18446744073709551616.0 : (cw == 64 ? 9223372036854775808.0 : 2147483648.0);
  double lo = (uns64 || cw == 64) ? -9223372036854775808.0 : -2147483648.0;
  auto num = [&](double d) { return Z3_mk_fpa_numeral_double(C, d, F); };
  Z3_ast tr = Z3_mk_fpa_round_to_integral(C, rtz, f);
  Z3_ast ok[2] = {Z3_mk_fpa_lt(C, tr, num(hi)), Z3_mk_fpa_geq(C, tr, num(lo))};
  Z3_ast inr = Z3_mk_and(C, 2, ok);
  Z3_ast conv = Z3_mk_fpa_to_sbv(C, rtz, f, cw);
  if (uns64) conv = Z3_mk_ite(C, Z3_mk_fpa_is_negative(C, f), conv, Z3_mk_fpa_to_ubv(C, rtz, f, 64));
  Z3_ast ind = Z3_mk_unsigned_int64(C, cw == 64 ? 1ULL << 63 : 0x80000000u, bv(cw));
  Z3_ast r = Z3_mk_ite(C, inr, conv, ind);
  if (w < cw) r = Z3_mk_extract(C, w - 1, 0, r);
  return r;
}
static Z3_ast T(E* e) {
  if (e->z) return (Z3_ast)e->z;
  Z3_ast r;
  unsigned w = e->w;
  switch (e->k) {
    case KConst: r = Z3_mk_unsigned_int64(C, e->c, bv(w)); break;
    case KVar: { char n[24]; snprintf(n, 24, "i%u", e->aux); r = Z3_mk_const(C, Z3_mk_string_symbol(C, n), bv(8)); break; }
    #define B2(kk, fn) case kk: if (w == 1) r = b2bv(TB(e)); else r = fn(C, T(e->a), T(e->b)); break;
    case KAdd: r = Z3_mk_bvadd(C, T(e->a), T(e->b)); break;
    case KSub: r = Z3_mk_bvsub(C, T(e->a), T(e->b)); break;
    case KMul: r = Z3_mk_bvmul(C, T(e->a), T(e->b)); break;
    case KUDiv: r = Z3_mk_bvudiv(C, T(e->a), T(e->b)); break;
    case KSDiv: r = Z3_mk_bvsdiv(C, T(e->a), T(e->b)); break;
    case KURem: r = Z3_mk_bvurem(C, T(e->a), T(e->b)); break;
    case KSRem: r = Z3_mk_bvsrem(C, T(e->a), T(e->b)); break;
    B2(KAnd, Z3_mk_bvand) B2(KOr, Z3_mk_bvor) B2(KXor, Z3_mk_bvxor)
    case KShl: r = Z3_mk_bvshl(C, T(e->a), T(e->b)); break;
    case KLShr: r = Z3_mk_bvlshr(C, T(e->a), T(e->b)); break;
    case KAShr: r = Z3_mk_bvashr(C, T(e->a), T(e->b)); break;
    case KZExt: r = Z3_mk_zero_ext(C, w - e->a->w, T(e->a)); break;
    case KSExt: r = Z3_mk_sign_ext(C, w - e->a->w, T(e->a)); break;
    case KExtract: r = Z3_mk_extract(C, e->aux + w - 1, e->aux, T(e->a)); break;
    case KConcat: r = Z3_mk_concat(C, T(e->a), T(e->b)); break;
    case KIte: if (w == 1) r = b2bv(TB(e)); else r = Z3_mk_ite(C, TB(e->a), T(e->b), T(e->d)); break;
    #define TOBV(x) Z3_mk_fpa_to_ieee_bv(C, x)
    #define RNE Z3_mk_fpa_rne(C)
    case KFAdd: r = TOBV(Z3_mk_fpa_add(C, RNE, toF(e->a), toF(e->b))); break;
    case KFSub: r = TOBV(Z3_mk_fpa_sub(C, RNE, toF(e->a), toF(e->b))); break;
    case KFMul: r = TOBV(Z3_mk_fpa_mul(C, RNE, toF(e->a), toF(e->b))); break;
    case KFDiv: r = TOBV(Z3_mk_fpa_div(C, RNE, toF(e->a), toF(e->b))); break;
    case KFRem: r = TOBV(Z3_mk_fpa_rem(C, toF(e->a), toF(e->b))); break;
    case KFSqrt: r = TOBV(Z3_mk_fpa_sqrt(C, RNE, toF(e->a))); break;
    case KFFma: r = TOBV(Z3_mk_fpa_fma(C, RNE, toF(e->a), toF(e->b), toF(e->d))); break;
    case KFExt: r = TOBV(Z3_mk_fpa_to_fp_float(C, RNE, toF(e->a), fs(64))); break;
    case KFTrunc: r = TOBV(Z3_mk_fpa_to_fp_float(C, RNE, toF(e->a), fs(32))); break;
    case KFToSI: r = fToInt(e->a, w, true); break;
    case KFToUI: r = fToInt(e->a, w, false); break;
    case KSIToF: r = TOBV(Z3_mk_fpa_to_fp_signed(C, RNE, T(e->a), fs(w))); break;
    case KUIToF: r = TOBV(Z3_mk_fpa_to_fp_unsigned(C, RNE, T(e->a), fs(w))); break;
    case KFRound: {
      Z3_ast rm = e->aux == 0 ? RNE : e->aux == 1 ? Z3_mk_fpa_rtn(C) : e->aux == 2 ? Z3_mk_fpa_rtp(C) : e->aux == 3 ? Z3_mk_fpa_rtz(C) : Z3_mk_fpa_rna(C);
      r = TOBV(Z3_mk_fpa_round_to_integral(C, rm, toF(e->a))); break; }
    default: r = b2bv(TB(e)); break;
  }
  e->z = keep(r);
  return r;
}
bool maskEmpty(const Mask& m) { return !(m.m[0] | m.m[1] | m.m[2] | m.m[3]); }
static Z3_ast domAst(uint32_t var, const Mask* m) {
  static std::unordered_map<uint64_t, Z3_ast> cache;   // Mask pointers are interned
  uint64_t key = ((uint64_t)var << 40) ^ (uint64_t)(uintptr_t)m;
  auto it = cache.find(key);
  if (it != cache.end()) return it->second;
  Z3_ast v = T(mkVar(var));
  std::vector<Z3_ast> parts;
  for (int i = 0; i < 256;) {
    if (!(m->m[i >> 6] >> (i & 63) & 1)) { i++; continue; }
    int j = i; while (j + 1 < 256 && (m->m[(j + 1) >> 6] >> ((j + 1) & 63) & 1)) j++;
    if (i == j) parts.push_back(Z3_mk_eq(C, v, Z3_mk_unsigned_int64(C, i, bv(8))));
    else if (i == 0) parts.push_back(Z3_mk_bvule(C, v, Z3_mk_unsigned_int64(C, j, bv(8))));
    else if (j == 255) parts.push_back(Z3_mk_bvuge(C, v, Z3_mk_unsigned_int64(C, i, bv(8))));
    else { Z3_ast x[2] = {Z3_mk_bvuge(C, v, Z3_mk_unsigned_int64(C, i, bv(8))), Z3_mk_bvule(C, v, Z3_mk_unsigned_int64(C, j, bv(8)))}; parts.push_back(Z3_mk_and(C, 2, x)); }
    i = j + 1;
  }
  Z3_ast r = parts.empty() ? Z3_mk_false(C) : parts.size() == 1 ? parts[0] : Z3_mk_or(C, parts.size(), parts.data());
  cache[key] = keep(r);
  return r;
}
Res z3Check(const std::vector<E*>& cs, const std::vector<std::pair<uint32_t, const Mask*>>& doms, const std::vector<uint32_t>& vars, std::vector<uint8_t>& vals) {
  init();
  auto t0 = std::chrono::steady_clock::now();
  gSolver.queries++;
  std::vector<Z3_ast> as;
  zerr = false;
  bool fp = false, hard = false;
  for (E* c : cs) as.push_back(TB(c));
  for (auto& d : doms) as.push_back(domAst(d.first, d.second));
  (void)fp; (void)hard;
  Res res = RUnknown;
  for (int attempt = 0; attempt < 2 && res == RUnknown; attempt++) {
    Z3_solver s = S1;
    if (attempt == 0) { Z3_solver_push(C, s); setTimeoutS(s, gQueryTimeout < 2 ? gQueryTimeout : 2); }
    else {
      Z3_tactic tac = Z3_mk_tactic(C, "qffpbv"); Z3_tactic_inc_ref(C, tac);
      s = Z3_mk_solver_from_tactic(C, tac); Z3_solver_inc_ref(C, s);
      Z3_tactic_dec_ref(C, tac);
      setTimeoutS(s, gQueryTimeout);
    }
    for (Z3_ast a : as) Z3_solver_assert(C, s, a);
    Z3_lbool r = Z3_solver_check(C, s);
    if (zerr) r = Z3_L_UNDEF;
    if (r == Z3_L_FALSE) res = RUnsat;
    else if (r == Z3_L_TRUE) {
      Z3_model m = Z3_solver_get_model(C, s);
      if (m) {
        Z3_model_inc_ref(C, m);
        vals.assign(vars.size(), 0);
        for (size_t i = 0; i < vars.size(); i++) {
          Z3_ast v = nullptr; uint64_t u = 0;
          if (Z3_model_eval(C, m, T(mkVar(vars[i])), true, &v) && v) Z3_get_numeral_uint64(C, v, &u);
          vals[i] = (uint8_t)u;
        }
        Z3_model_dec_ref(C, m);
        res = RSat;
      }
    }
    if (attempt == 0) Z3_solver_pop(C, s, 1); else Z3_solver_dec_ref(C, s);
    zerr = false;
  }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  gSolver.sec += dt; if (dt > gSolver.maxSec) gSolver.maxSec = dt;
  if (getenv("SX_SLOWQ") && dt > atof(getenv("SX_SLOWQ"))) { fprintf(stderr, "slow query %.2fs %d:", dt, res); for (E* c : cs) fprintf(stderr, "\n   %s", exprStr(c, 7).c_str()); fprintf(stderr, "\n"); }
  if (res == RSat) gSolver.sat++; else if (res == RUnsat) gSolver.unsat++; else gSolver.unknown++;
  return res;
}
