#include "solver.h"
#include <z3.h>
#include <chrono>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <set>
SolverStats g_ss; int g_query_timeout_ms = 60000;
std::string g_cross_check; uint64_t g_cross_ok, g_cross_unknown, g_cross_bad;
static Z3_context C;
static Z3_sort bvs[300]; static Z3_sort S32, S64, ARR; static Z3_ast RNE, RTZ, RTN, RTP, RNA;
static Z3_ast ONE, ZERO;
static std::unordered_map<E, Z3_ast> boolCache;
static std::unordered_map<uint64_t, Z3_func_decl> ufd;
static Z3_ast ref(Z3_ast a) { Z3_inc_ref(C, a); return a; }
static void onerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); throw std::runtime_error("z3 error"); }
static Z3_sort BV(int w) { if (!bvs[w]) { bvs[w] = Z3_mk_bv_sort(C, w); Z3_inc_ref(C, Z3_sort_to_ast(C, bvs[w])); } return bvs[w]; }
void solverInit() {
  Z3_config cfg = Z3_mk_config(); C = Z3_mk_context_rc(cfg); Z3_set_error_handler(C, onerr);
  S32 = Z3_mk_fpa_sort_32(C); Z3_inc_ref(C, Z3_sort_to_ast(C, S32)); S64 = Z3_mk_fpa_sort_64(C); Z3_inc_ref(C, Z3_sort_to_ast(C, S64));
  RNE = ref(Z3_mk_fpa_rne(C)); RTZ = ref(Z3_mk_fpa_rtz(C)); RTN = ref(Z3_mk_fpa_rtn(C)); RTP = ref(Z3_mk_fpa_rtp(C)); RNA = ref(Z3_mk_fpa_rna(C));
  ARR = Z3_mk_array_sort(C, BV(64), BV(8)); Z3_inc_ref(C, Z3_sort_to_ast(C, ARR));
  ONE = ref(Z3_mk_unsigned_int64(C, 1, BV(1))); ZERO = ref(Z3_mk_unsigned_int64(C, 0, BV(1)));
}
static Z3_ast toBV(E e);
static Z3_ast toFP(E e);
static Z3_ast toBool(E e) {
  auto it = boolCache.find(e); if (it != boolCache.end()) return it->second;
  Z3_ast r;
  switch (e->k) {
    case K::Const: r = e->val ? Z3_mk_true(C) : Z3_mk_false(C); break;
    case K::And: { Z3_ast x[2] = {toBool(e->a), toBool(e->b)}; r = Z3_mk_and(C, 2, x); break; }
    case K::Or: { Z3_ast x[2] = {toBool(e->a), toBool(e->b)}; r = Z3_mk_or(C, 2, x); break; }
    case K::Xor: if (e->b->isC()) r = Z3_mk_not(C, toBool(e->a)); else r = Z3_mk_xor(C, toBool(e->a), toBool(e->b)); break;
    case K::Eq: if (e->a->w == 1) r = Z3_mk_iff(C, toBool(e->a), toBool(e->b)); else r = Z3_mk_eq(C, toBV(e->a), toBV(e->b)); break;
    case K::Ult: r = Z3_mk_bvult(C, toBV(e->a), toBV(e->b)); break;
    case K::Ule: r = Z3_mk_bvule(C, toBV(e->a), toBV(e->b)); break;
    case K::Slt: r = Z3_mk_bvslt(C, toBV(e->a), toBV(e->b)); break;
    case K::Sle: r = Z3_mk_bvsle(C, toBV(e->a), toBV(e->b)); break;
    case K::FEq: r = Z3_mk_fpa_eq(C, toFP(e->a), toFP(e->b)); break;
    case K::FLt: r = Z3_mk_fpa_lt(C, toFP(e->a), toFP(e->b)); break;
    case K::FLe: r = Z3_mk_fpa_leq(C, toFP(e->a), toFP(e->b)); break;
    case K::FIsNan: r = Z3_mk_fpa_is_nan(C, toFP(e->a)); break;
    case K::Ite: r = Z3_mk_ite(C, toBool(e->a), toBool(e->b), toBool(e->c)); break;
    default: r = Z3_mk_eq(C, toBV(e), ONE); break;
  }
  ref(r); boolCache[e] = r; return r;
}
static Z3_sort fpsort(int w) { return w == 64 ? S64 : S32; }
static Z3_ast toFP(E e) {
  if (e->z3fp) return (Z3_ast)e->z3fp;
  Z3_ast r;
  switch (e->k) {
    case K::FAdd: r = Z3_mk_fpa_add(C, RNE, toFP(e->a), toFP(e->b)); break;
    case K::FSub: r = Z3_mk_fpa_sub(C, RNE, toFP(e->a), toFP(e->b)); break;
    case K::FMul: r = Z3_mk_fpa_mul(C, RNE, toFP(e->a), toFP(e->b)); break;
    case K::FDiv: r = Z3_mk_fpa_div(C, RNE, toFP(e->a), toFP(e->b)); break;
    case K::FSqrt: r = Z3_mk_fpa_sqrt(C, RNE, toFP(e->a)); break;
    case K::FRound: { Z3_ast m = e->val == 0 ? RNE : e->val == 1 ? RTN : e->val == 2 ? RTP : e->val == 3 ? RTZ : RNA; r = Z3_mk_fpa_round_to_integral(C, m, toFP(e->a)); break; }
    case K::SIToF: r = Z3_mk_fpa_to_fp_signed(C, RNE, toBV(e->a), fpsort(e->w)); break;
    case K::UIToF: r = Z3_mk_fpa_to_fp_unsigned(C, RNE, toBV(e->a), fpsort(e->w)); break;
    case K::FToF: r = Z3_mk_fpa_to_fp_float(C, RNE, toFP(e->a), fpsort(e->w)); break;
    case K::Ite: r = Z3_mk_ite(C, toBool(e->a), toFP(e->b), toFP(e->c)); break;
    default: if (e->w != 64 && e->w != 32) throw std::runtime_error("fp of width " + std::to_string(e->w)); r = Z3_mk_fpa_to_fp_bv(C, toBV(e), fpsort(e->w)); break;
  }
  ref(r); e->z3fp = r; return r;
}
static Z3_ast toBV(E e) {
  if (e->z3) return (Z3_ast)e->z3;
  Z3_ast r = nullptr;
  switch (e->k) {
    case K::Const: {
      if (e->w <= 64) r = Z3_mk_unsigned_int64(C, (uint64_t)e->val, BV(e->w));
      else { Z3_ast lo = Z3_mk_unsigned_int64(C, (uint64_t)e->val, BV(64)); Z3_inc_ref(C, lo); Z3_ast hi = Z3_mk_unsigned_int64(C, (uint64_t)(e->val >> 64), BV(e->w - 64)); Z3_inc_ref(C, hi); r = Z3_mk_concat(C, hi, lo); }
      break; }
    case K::Var: { std::string n = "v" + std::to_string((uint64_t)e->val); r = Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), BV(e->w)); break; }
    case K::ArrVar: { std::string n = "a" + std::to_string((uint64_t)e->val); r = Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), ARR); break; }
    case K::ArrConst: r = Z3_mk_const_array(C, BV(64), toBV(e->a)); break;
    case K::ArrStore: { // iterative for deep chains
      std::vector<E> ch; E x = e; while (x->k == K::ArrStore && !x->z3) { ch.push_back(x); x = x->a; }
      Z3_ast cur = toBV(x);
      for (size_t i = ch.size(); i-- > 0;) { cur = ref(Z3_mk_store(C, cur, toBV(ch[i]->b), toBV(ch[i]->c))); ch[i]->z3 = cur; }
      return (Z3_ast)e->z3; }
    case K::Select: r = Z3_mk_select(C, toBV(e->a), toBV(e->b)); break;
    case K::Add: r = Z3_mk_bvadd(C, toBV(e->a), toBV(e->b)); break;
    case K::Sub: r = Z3_mk_bvsub(C, toBV(e->a), toBV(e->b)); break;
    case K::Mul: r = Z3_mk_bvmul(C, toBV(e->a), toBV(e->b)); break;
    case K::UDiv: r = Z3_mk_bvudiv(C, toBV(e->a), toBV(e->b)); break;
    case K::SDiv: r = Z3_mk_bvsdiv(C, toBV(e->a), toBV(e->b)); break;
    case K::URem: r = Z3_mk_bvurem(C, toBV(e->a), toBV(e->b)); break;
    case K::SRem: r = Z3_mk_bvsrem(C, toBV(e->a), toBV(e->b)); break;
    case K::Shl: r = Z3_mk_bvshl(C, toBV(e->a), toBV(e->b)); break;
    case K::LShr: r = Z3_mk_bvlshr(C, toBV(e->a), toBV(e->b)); break;
    case K::AShr: r = Z3_mk_bvashr(C, toBV(e->a), toBV(e->b)); break;
    case K::And: if (e->w == 1) goto viabool; r = Z3_mk_bvand(C, toBV(e->a), toBV(e->b)); break;
    case K::Or: if (e->w == 1) goto viabool; r = Z3_mk_bvor(C, toBV(e->a), toBV(e->b)); break;
    case K::Xor: if (e->w == 1) goto viabool; if (e->b->isC() && e->b->val == maskw(e->w)) r = Z3_mk_bvnot(C, toBV(e->a)); else r = Z3_mk_bvxor(C, toBV(e->a), toBV(e->b)); break;
    case K::Concat: r = Z3_mk_concat(C, toBV(e->a), toBV(e->b)); break;
    case K::Extract: r = Z3_mk_extract(C, (unsigned)e->val + e->w - 1, (unsigned)e->val, toBV(e->a)); break;
    case K::ZExt: r = Z3_mk_zero_ext(C, e->w - e->a->w, toBV(e->a)); break;
    case K::SExt: r = Z3_mk_sign_ext(C, e->w - e->a->w, toBV(e->a)); break;
    case K::Ite: r = Z3_mk_ite(C, toBool(e->a), toBV(e->b), toBV(e->c)); break;
    case K::Eq: case K::Ult: case K::Ule: case K::Slt: case K::Sle: case K::FEq: case K::FLt: case K::FLe: case K::FIsNan:
    viabool: r = Z3_mk_ite(C, toBool(e), ONE, ZERO); break;
    case K::FAdd: case K::FSub: case K::FMul: case K::FDiv: case K::FSqrt: case K::FRound: case K::SIToF: case K::UIToF: case K::FToF:
      r = Z3_mk_fpa_to_ieee_bv(C, toFP(e)); break;
    case K::FToSI: r = Z3_mk_fpa_to_sbv(C, RTZ, toFP(e->a), e->w); break;
    case K::FToUI: r = Z3_mk_fpa_to_ubv(C, RTZ, toFP(e->a), e->w); break;
    case K::FRem: { E args[2] = {e->a, e->b}; (void)args; // uninterpreted fmod
      r = toBV(mkUF("fmod" + std::to_string(e->w), e->w, {e->a, e->b})); break; }
    case K::UF: {
      uint64_t key = (uint64_t)e->val * 1000 + e->args->size();
      auto it = ufd.find(key); Z3_func_decl d;
      if (it == ufd.end()) {
        std::vector<Z3_sort> ds; for (auto x : *e->args) ds.push_back(BV(x->w));
        d = Z3_mk_func_decl(C, Z3_mk_string_symbol(C, ("uf_" + g_ufnames[(size_t)e->val]).c_str()), (unsigned)ds.size(), ds.data(), BV(e->w));
        Z3_inc_ref(C, Z3_func_decl_to_ast(C, d)); ufd[key] = d;
      } else d = it->second;
      std::vector<Z3_ast> as; for (auto x : *e->args) as.push_back(toBV(x));
      r = Z3_mk_app(C, d, (unsigned)as.size(), as.data()); break; }
    default: throw std::runtime_error("toBV: kind");
  }
  ref(r); e->z3 = r; return r;
}
// ---------------- evaluator
static uint32_t stamp = 0;
static uint8_t evalArr(E arr, uint64_t idx, const Model& m);
static u128 ev(E e, const Model& m) {
  if (e->k == K::Const) return e->val;
  if (e->ev_stamp == stamp) return e->ev_val;
  u128 r = 0;
  switch (e->k) {
    case K::Var: { auto it = m.v.find((uint32_t)e->val); r = it == m.v.end() ? 0 : it->second; break; }
    case K::Concat: r = (ev(e->a, m) << e->b->w) | ev(e->b, m); break;
    case K::Ite: r = ev(e->a, m) ? ev(e->b, m) : ev(e->c, m); break;
    case K::Select: r = evalArr(e->a, (uint64_t)ev(e->b, m), m); break;
    case K::UF: { std::vector<u128> a; for (auto x : *e->args) a.push_back(ev(x, m)); auto it = m.uf.find({(uint32_t)e->val, a}); r = it == m.uf.end() ? 0 : it->second; break; }
    case K::Extract: case K::ZExt: case K::SExt: case K::FNeg: case K::FAbs: case K::FSqrt: case K::FRound: case K::FIsNan: case K::FToSI: case K::FToUI: case K::SIToF: case K::UIToF: case K::FToF:
      r = foldUn(e->k, e, ev(e->a, m), e->a->w); break;
    default: { bool ok; r = foldBin(e->k, e->a->w, ev(e->a, m), ev(e->b, m), ok); if (!ok) throw std::runtime_error("eval kind"); }
  }
  e->ev_stamp = stamp; e->ev_val = r; return r;
}
static uint8_t evalArr(E a, uint64_t idx, const Model& m) {
  while (a->k == K::ArrStore) { if ((uint64_t)ev(a->b, m) == idx) return (uint8_t)ev(a->c, m); a = a->a; }
  if (a->k == K::ArrConst) return (uint8_t)ev(a->a, m);
  auto it = m.arr.find((uint32_t)a->val); if (it == m.arr.end()) return 0;
  auto j = it->second.find(idx); return j == it->second.end() ? 0 : j->second;
}
u128 evalE(E e, const Model& m) { if (e->isC()) return e->val; ++stamp; return ev(e, m); }

std::vector<E> sliceFor(const std::vector<E>& cons, E q) {
  std::unordered_set<uint32_t> vs(varsOf(q).begin(), varsOf(q).end());
  std::vector<char> in(cons.size(), 0); bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < cons.size(); i++) if (!in[i]) {
      auto& v = varsOf(cons[i]); bool hit = false; for (auto x : v) if (vs.count(x)) { hit = true; break; }
      if (hit) { in[i] = 1; bool grew = false; for (auto x : v) if (vs.insert(x).second) grew = true; if (grew) ch = true; }
    }
  }
  std::vector<E> r; for (size_t i = 0; i < cons.size(); i++) if (in[i]) r.push_back(cons[i]);
  r.push_back(q); return r;
}
static void collect(E e, std::unordered_set<E>& seen, std::vector<E>& sel, bool& fp, bool& arr) {
  if (!e || e->isC() || !seen.insert(e).second) return;
  if (e->k == K::Select || e->k == K::UF || e->k == K::FRem) sel.push_back(e);
  if (e->k == K::Select || e->k == K::UF || e->k == K::FRem) arr = true;
  if (e->k >= K::FAdd && e->k <= K::FToF) fp = true;
  collect(e->a, seen, sel, fp, arr); collect(e->b, seen, sel, fp, arr); collect(e->c, seen, sel, fp, arr);
  if (e->args) for (auto x : *e->args) collect(x, seen, sel, fp, arr);
}
static bool getNum(Z3_model m, Z3_ast a, u128& out) {
  Z3_ast r; if (!Z3_model_eval(C, m, a, true, &r)) return false; Z3_inc_ref(C, r);
  if (Z3_get_ast_kind(C, r) != Z3_NUMERAL_AST) { return false; }
  std::string s = Z3_get_numeral_string(C, r); u128 v = 0; for (char c : s) v = v * 10 + (c - '0'); out = v; Z3_dec_ref(C, r); return true;
}
static std::unordered_map<std::string, Res> unsatCache;
static void crossCheck(Z3_solver s, bool arr, bool fp) {
  std::string txt = Z3_solver_to_string(C, s);
  std::string lg = "(set-logic ALL)\n";
  char fn[] = "/tmp/vpx_XXXXXX"; int fd = mkstemp(fn); if (fd < 0) return;
  // z3 names fp.to_ieee_bv, which cvc5 does not know: skip those
  if (txt.find("fp.to_ieee_bv") != std::string::npos) { g_cross_unknown++; close(fd); unlink(fn); return; }
  std::string all = lg + txt + "\n(check-sat)\n"; if (write(fd, all.data(), all.size()) < 0) {} close(fd);
  std::string cmd = g_cross_check + " --tlimit=20000 --lang=smt2 " + fn + " 2>/dev/null";
  FILE* p = popen(cmd.c_str(), "r"); char buf[64] = {0}; if (p) { if (!fgets(buf, 63, p)) buf[0] = 0; pclose(p); }
  unlink(fn);
  std::string o = buf; if (o.rfind("unsat", 0) == 0) g_cross_ok++; else if (o.rfind("sat", 0) == 0) g_cross_bad++; else g_cross_unknown++;
}
Res checkSat(const std::vector<E>& cons0, Model* out) {
  std::vector<E> cons; for (E e : cons0) { if (e->isC()) { if (!e->val) return Res::Unsat; continue; } cons.push_back(e); }
  std::sort(cons.begin(), cons.end(), [](E a, E b) { return a->id < b->id; }); cons.erase(std::unique(cons.begin(), cons.end()), cons.end());
  std::string key; key.reserve(cons.size() * 4); for (E e : cons) key.append((const char*)&e->id, 4);
  auto it = unsatCache.find(key); if (it != unsatCache.end()) { g_ss.cacheHits++; if (it->second == Res::Unsat || !out) return it->second; }
  g_ss.queries++;
  auto t0 = std::chrono::steady_clock::now();
  std::unordered_set<E> seen; std::vector<E> sel; bool fp = false, arr = false;
  for (E e : cons) collect(e, seen, sel, fp, arr);
  for (E e : cons) for (auto v : varsOf(e)) if (!(v & 0x80000000u) && g_vars[v].arr) arr = true;
  Z3_solver s;
  if (!arr) s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, fp ? "QF_BVFP" : "QF_BV"));
  else s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, fp ? "ALL" : "QF_AUFBV"));
  Z3_solver_inc_ref(C, s);
  Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
  Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), g_query_timeout_ms);
  Z3_solver_set_params(C, s, p); Z3_params_dec_ref(C, p);
  for (E e : cons) Z3_solver_assert(C, s, toBool(e));
  Z3_lbool r = Z3_solver_check(C, s);
  Res res = r == Z3_L_TRUE ? Res::Sat : r == Z3_L_FALSE ? Res::Unsat : Res::Unknown;
  if (res == Res::Sat && out) {
    Z3_model m = Z3_solver_get_model(C, s); Z3_model_inc_ref(C, m);
    std::unordered_set<uint32_t> vs; for (E e : cons) for (auto v : varsOf(e)) vs.insert(v);
    // find Var exprs
    std::vector<E> varE; for (E e : seen) if (e->k == K::Var) varE.push_back(e);
    for (E e : varE) { u128 v; if (getNum(m, toBV(e), v)) out->v[(uint32_t)e->val] = v; }
    // selects/UFs: inner first (by id order: children have smaller ids)
    std::sort(sel.begin(), sel.end(), [](E a, E b) { return a->id < b->id; });
    for (E e : sel) {
      if (e->k == K::Select) {
        u128 idx; E a = e->a; while (a->k == K::ArrStore) a = a->a; if (a->k != K::ArrVar) continue;
        if (!getNum(m, toBV(e->b), idx)) continue; u128 v;
        Z3_ast rd = Z3_mk_select(C, toBV(a), toBV(e->b)); Z3_inc_ref(C, rd); if (getNum(m, rd, v)) out->arr[(uint32_t)a->val][(uint64_t)idx] = (uint8_t)v;
      } else if (e->k == K::UF) {
        std::vector<u128> as; bool ok = true; for (auto x : *e->args) { u128 v; if (!getNum(m, toBV(x), v)) ok = false; as.push_back(v); }
        u128 v; if (ok && getNum(m, toBV(e), v)) out->uf[{(uint32_t)e->val, as}] = v;
      }
    }
    Z3_model_dec_ref(C, m);
  }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  g_ss.secs += dt; if (dt > g_ss.maxSecs) g_ss.maxSecs = dt;
  if (res == Res::Sat) g_ss.sat++; else if (res == Res::Unsat) g_ss.unsat++; else g_ss.unknown++;
  if (res == Res::Unsat && !g_cross_check.empty()) crossCheck(s, arr, fp);
  Z3_solver_dec_ref(C, s);
  if (res != Res::Unknown) unsatCache[key] = res;
  return res;
}
