#include "solver.h"
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <deque>
#include <unordered_map>
#include <cstring>
SolverStats g_ss; unsigned g_timeout_ms = 20000;
static u64 g_gen = 1;
ModelP newModel() { auto m = std::make_shared<Model>(); m->gen = ++g_gen; return m; }
ModelP cloneModel(const ModelP &o) { auto m = std::make_shared<Model>(*o); m->gen = ++g_gen; return m; }

u64 evalM(Expr *e, Model *m) {
  if (e->kind == K_CONST) return e->val;
  if (e->mgen == m->gen) return e->mval;
  u64 r;
  switch (e->kind) {
  case K_VAR: r = m->get(e->val); break;
  case K_ZEXT: r = evalM(e->a, m); break;
  case K_SEXT: r = (u64)sext(evalM(e->a, m), e->a->w) & maskw(e->w); break;
  case K_EXTRACT: r = (evalM(e->a, m) >> e->val) & maskw(e->w); break;
  case K_CONCAT: r = (evalM(e->a, m) << e->b->w) | evalM(e->b, m); break;
  case K_ITE: r = evalM(e->a, m) ? evalM(e->b, m) : evalM(e->c, m); break;
  case K_I2D: case K_D2I: r = constFold((Kind)e->kind, 64, evalM(e->a, m), 0); break;
  default: { u64 x = evalM(e->a, m), y = evalM(e->b, m); r = constFold((Kind)e->kind, e->a->w, x, y); }
  }
  e->mgen = m->gen; e->mval = r; return r;
}

static Z3_context C; static Z3_solver S1; static size_t astCount = 0;
static std::vector<Expr *> converted;
static void onErr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }
static void mkCtx() {
  Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true");
  C = Z3_mk_context_rc(cfg); Z3_del_config(cfg); Z3_set_error_handler(C, onErr);
  S1 = Z3_mk_simple_solver(C); Z3_solver_inc_ref(C, S1);
}
void solverInit() { mkCtx(); }
static void resetCtx() {
  for (Expr *e : converted) e->z3 = nullptr;
  converted.clear(); astCount = 0;
  Z3_solver_dec_ref(C, S1); Z3_del_context(C); mkCtx();
}
static Z3_ast keep(Expr *e, Z3_ast a) { Z3_inc_ref(C, a); e->z3 = a; converted.push_back(e); astCount++; return a; }
static std::vector<Z3_ast> tmpRefs; // reference-counted context: hold every intermediate while a node is being built
static Z3_ast H(Z3_ast a) { Z3_inc_ref(C, a); tmpRefs.push_back(a); return a; }
static Z3_sort HS(Z3_sort s) { Z3_ast a = Z3_sort_to_ast(C, s); Z3_inc_ref(C, a); tmpRefs.push_back(a); return s; }
static void dropTmp() { for (Z3_ast a : tmpRefs) Z3_dec_ref(C, a); tmpRefs.clear(); }
static Z3_ast bv(Expr *e) { // BV-sorted version of a converted node
  Z3_ast a = (Z3_ast)e->z3;
  if (e->w == 1) {
    Z3_sort s = HS(Z3_mk_bv_sort(C, 1));
    return H(Z3_mk_ite(C, a, H(Z3_mk_unsigned_int64(C, 1, s)), H(Z3_mk_unsigned_int64(C, 0, s))));
  }
  return a;
}
static Z3_ast conv1(Expr *e) {
  Z3_ast A = e->a ? (Z3_ast)e->a->z3 : nullptr, B = e->b ? (Z3_ast)e->b->z3 : nullptr, D = e->c ? (Z3_ast)e->c->z3 : nullptr;
  bool b1 = e->w == 1, c1 = e->a && e->a->w == 1;
  switch (e->kind) {
  case K_CONST: if (b1) return e->val ? H(Z3_mk_true(C)) : H(Z3_mk_false(C)); return H(Z3_mk_unsigned_int64(C, e->val, HS(Z3_mk_bv_sort(C, e->w))));
  case K_VAR: { char nm[32]; snprintf(nm, sizeof nm, "v%u", (unsigned)e->val); Z3_sort s = b1 ? HS(Z3_mk_bool_sort(C)) : HS(Z3_mk_bv_sort(C, e->w)); return H(Z3_mk_const(C, Z3_mk_string_symbol(C, nm), s)); }
  case K_ADD: return H(Z3_mk_bvadd(C, A, B));
  case K_SUB: return H(Z3_mk_bvsub(C, A, B));
  case K_MUL: if (b1) { Z3_ast x[2] = {A, B}; return H(Z3_mk_and(C, 2, x)); } return H(Z3_mk_bvmul(C, A, B));
  case K_UDIV: if (!b1) return H(Z3_mk_bvudiv(C, A, B)); break;
  case K_SDIV: if (!b1) return H(Z3_mk_bvsdiv(C, A, B)); break;
  case K_UREM: if (!b1) return H(Z3_mk_bvurem(C, A, B)); break;
  case K_SREM: if (!b1) return H(Z3_mk_bvsrem(C, A, B)); break;
  case K_AND: if (b1) { Z3_ast x[2] = {A, B}; return H(Z3_mk_and(C, 2, x)); } return H(Z3_mk_bvand(C, A, B));
  case K_OR: if (b1) { Z3_ast x[2] = {A, B}; return H(Z3_mk_or(C, 2, x)); } return H(Z3_mk_bvor(C, A, B));
  case K_XOR: if (b1) { if (e->b->isConst()) return H(Z3_mk_not(C, A)); return H(Z3_mk_xor(C, A, B)); } return H(Z3_mk_bvxor(C, A, B));
  case K_SHL: if (!b1) return H(Z3_mk_bvshl(C, A, B)); break;
  case K_LSHR: if (!b1) return H(Z3_mk_bvlshr(C, A, B)); break;
  case K_ASHR: if (!b1) return H(Z3_mk_bvashr(C, A, B)); break;
  case K_EQ: if (c1) return H(Z3_mk_iff(C, A, B)); return H(Z3_mk_eq(C, A, B));
  case K_ULT: if (!c1) return H(Z3_mk_bvult(C, A, B)); break;
  case K_ULE: if (!c1) return H(Z3_mk_bvule(C, A, B)); break;
  case K_SLT: if (!c1) return H(Z3_mk_bvslt(C, A, B)); { Z3_ast x[2] = {A, H(Z3_mk_not(C, B))}; return H(Z3_mk_and(C, 2, x)); }
  case K_SLE: if (!c1) return H(Z3_mk_bvsle(C, A, B)); { Z3_ast x[2] = {A, H(Z3_mk_not(C, B))}; return H(Z3_mk_or(C, 2, x)); }
  case K_ZEXT: return H(Z3_mk_zero_ext(C, e->w - e->a->w, bv(e->a)));
  case K_SEXT: return H(Z3_mk_sign_ext(C, e->w - e->a->w, bv(e->a)));
  case K_EXTRACT: {
    Z3_ast x = H(Z3_mk_extract(C, (unsigned)e->val + e->w - 1, (unsigned)e->val, bv(e->a)));
    if (b1) return H(Z3_mk_eq(C, x, H(Z3_mk_unsigned_int64(C, 1, HS(Z3_mk_bv_sort(C, 1))))));
    return x; }
  case K_CONCAT: return H(Z3_mk_concat(C, bv(e->a), bv(e->b)));
  case K_ITE: return H(Z3_mk_ite(C, A, B, D));
  case K_I2D: case K_D2I: case K_FADD: case K_FSUB: case K_FMUL: case K_FDIV: case K_FLT: case K_FLE: case K_FEQ: {
    Z3_sort ds = HS(Z3_mk_fpa_sort_double(C)); Z3_ast rne = H(Z3_mk_fpa_rne(C));
    if (e->kind == K_I2D) return H(Z3_mk_fpa_to_ieee_bv(C, H(Z3_mk_fpa_to_fp_signed(C, rne, A, ds))));
    Z3_ast x = H(Z3_mk_fpa_to_fp_bv(C, A, ds));
    if (e->kind == K_D2I) { Z3_ast lo = H(Z3_mk_fpa_numeral_double(C, -9223372036854775808.0, ds)), hi = H(Z3_mk_fpa_numeral_double(C, 9223372036854775808.0, ds)); Z3_ast in[2] = {H(Z3_mk_fpa_leq(C, lo, x)), H(Z3_mk_fpa_lt(C, x, hi))};
      return H(Z3_mk_ite(C, H(Z3_mk_and(C, 2, in)), H(Z3_mk_fpa_to_sbv(C, H(Z3_mk_fpa_rtz(C)), x, 64)), H(Z3_mk_unsigned_int64(C, 1ull << 63, HS(Z3_mk_bv_sort(C, 64)))))); }
    Z3_ast y = H(Z3_mk_fpa_to_fp_bv(C, B, ds));
    switch (e->kind) {
    case K_FLT: return H(Z3_mk_fpa_lt(C, x, y)); case K_FLE: return H(Z3_mk_fpa_leq(C, x, y)); case K_FEQ: return H(Z3_mk_fpa_eq(C, x, y));
    case K_FADD: x = Z3_mk_fpa_add(C, rne, x, y); break; case K_FSUB: x = Z3_mk_fpa_sub(C, rne, x, y); break; case K_FMUL: x = Z3_mk_fpa_mul(C, rne, x, y); break; default: x = Z3_mk_fpa_div(C, rne, x, y); }
    return H(Z3_mk_fpa_to_ieee_bv(C, H(x))); }
  default: break;
  }
  // remaining 1-bit oddities: go through bv
  Z3_sort s1 = HS(Z3_mk_bv_sort(C, 1)); Z3_ast one = H(Z3_mk_unsigned_int64(C, 1, s1)); Z3_ast x = bv(e->a), y = bv(e->b);
  switch (e->kind) {
  case K_UDIV: case K_SDIV: return H(Z3_mk_eq(C, H(Z3_mk_bvudiv(C, x, y)), one));
  case K_UREM: case K_SREM: return H(Z3_mk_eq(C, H(Z3_mk_bvurem(C, x, y)), one));
  case K_SHL: return H(Z3_mk_eq(C, H(Z3_mk_bvshl(C, x, y)), one));
  case K_LSHR: return H(Z3_mk_eq(C, H(Z3_mk_bvlshr(C, x, y)), one));
  case K_ASHR: return A;
  case K_ULT: return H(Z3_mk_bvult(C, x, y));
  case K_ULE: return H(Z3_mk_bvule(C, x, y));
  default: fprintf(stderr, "psym: conv kind %d\n", e->kind); abort();
  }
}
static Z3_ast conv(Expr *e) {
  if (e->z3) return (Z3_ast)e->z3;
  std::vector<Expr *> st{e};
  while (!st.empty()) {
    Expr *x = st.back();
    if (x->z3) { st.pop_back(); continue; }
    bool ready = true;
    for (Expr *c : {x->a, x->b, x->c}) if (c && !c->z3) { st.push_back(c); ready = false; }
    if (!ready) continue;
    st.pop_back(); keep(x, conv1(x)); dropTmp();
  }
  return (Z3_ast)e->z3;
}
struct QKey { std::vector<uint32_t> ids; bool operator==(const QKey &o) const { return ids == o.ids; } };
struct QHash { size_t operator()(const QKey &k) const { u64 h = 1469598103934665603ull; for (auto i : k.ids) { h ^= i; h *= 1099511628211ull; } return h; } };
static std::unordered_map<QKey, bool, QHash> unsatCache;
static std::deque<ModelP> recent;
static std::vector<u64> markGen; static u64 curMark = 0;

static void slice(const std::vector<Expr *> &pc, Expr *cond, std::vector<Expr *> &out, std::vector<uint32_t> &vars) {
  curMark++;
  if (markGen.size() < g_vars.size()) markGen.resize(g_vars.size() + 256, 0);
  std::vector<uint32_t> work;
  auto add = [&](const Sup *s) { for (uint32_t x : s->v) if (markGen[x] != curMark) { markGen[x] = curMark; vars.push_back(x); } };
  add(support(cond));
  std::vector<char> taken(pc.size(), 0);
  bool changed = true;
  while (changed) {
    changed = false;
    for (size_t i = 0; i < pc.size(); i++) if (!taken[i]) {
      const Sup *s = support(pc[i]);
      bool hit = false; for (uint32_t x : s->v) if (markGen[x] == curMark) { hit = true; break; }
      if (hit) { taken[i] = 1; out.push_back(pc[i]); size_t before = vars.size(); add(s); if (vars.size() != before) changed = true; }
    }
  }
}
std::string dumpSmt(const std::vector<Expr *> &pc, Expr *cond) {
  std::vector<Expr *> cs; std::vector<uint32_t> vars; slice(pc, cond, cs, vars);
  Z3_solver_push(C, S1);
  for (Expr *e : cs) Z3_solver_assert(C, S1, conv(e));
  Z3_solver_assert(C, S1, conv(cond));
  std::string r = Z3_solver_to_string(C, S1);
  Z3_solver_pop(C, S1, 1); return r;
}

// ---------- integer (LIA/NIA) encoding: exact modulo-2^w semantics, used for queries with division ----------
static std::unordered_map<uint32_t, Z3_ast> iU, iS; static std::vector<Z3_ast> iKept; static bool iFail; static Z3_sort intSort;
static std::unordered_map<uint32_t, bool> hardMemo;
static bool isHard(Expr *e) { // contains division or a nonlinear product
  auto it = hardMemo.find(e->id); if (it != hardMemo.end()) return it->second;
  std::vector<Expr *> st{e};
  while (!st.empty()) { Expr *x = st.back(); if (hardMemo.count(x->id)) { st.pop_back(); continue; } bool ready = true, h = x->kind == K_UDIV || x->kind == K_SDIV || x->kind == K_UREM || x->kind == K_SREM || (x->kind == K_MUL && x->w > 1);
    for (Expr *c : {x->a, x->b, x->c}) if (c) { auto j = hardMemo.find(c->id); if (j == hardMemo.end()) { st.push_back(c); ready = false; } else h = h || j->second; }
    if (!ready) continue; hardMemo[x->id] = h; st.pop_back(); }
  return hardMemo[e->id]; }
static Z3_ast ik(Z3_ast a) { Z3_inc_ref(C, a); iKept.push_back(a); return a; }
static Z3_ast iNum(i128 v) { char b[64]; char *q = b + 63; *q = 0; bool n = v < 0; u128 x = n ? -(u128)v : (u128)v; do { *--q = '0' + (int)(x % 10); x /= 10; } while (x); if (n) *--q = '-'; return ik(Z3_mk_numeral(C, q, intSort)); }
static Z3_ast iAdd(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return ik(Z3_mk_add(C, 2, x)); }
static Z3_ast iMul(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return ik(Z3_mk_mul(C, 2, x)); }
static Z3_ast iIte(Z3_ast c, Z3_ast a, Z3_ast b) { return ik(Z3_mk_ite(C, c, a, b)); }
static Z3_ast iNeg(Z3_ast a) { return ik(Z3_mk_unary_minus(C, a)); }
static Z3_ast iMod(Z3_ast a, i128 m) { return ik(Z3_mk_mod(C, a, iNum(m))); }
static Z3_ast iB(Expr *e); static Z3_ast U(Expr *e); static Z3_ast S(Expr *e);
static i128 pw(unsigned w) { return (i128)1 << w; }
static bool signedNative(Expr *e) { if (e->smin >= 0) return false; switch (e->kind) { case K_SEXT: case K_SDIV: case K_SREM: case K_ADD: case K_SUB: case K_MUL: return true; case K_CONST: return true; case K_CONCAT: return signedNative(e->a); case K_ITE: return signedNative(e->b) || signedNative(e->c); default: return false; } }
static void linI(Expr *e, i128 k, std::vector<std::pair<Expr *, i128>> &t, i128 &c, int d) {
  u64 M = maskw(e->w); (void)M;
  switch (e->kind) {
  case K_CONST: c += k * sext(e->val, e->w); return;
  case K_ADD: if (d) { linI(e->a, k, t, c, d - 1); linI(e->b, k, t, c, d - 1); return; } break;
  case K_SUB: if (d) { linI(e->a, k, t, c, d - 1); linI(e->b, -k, t, c, d - 1); return; } break;
  case K_MUL: if (d && e->b->isConst()) { i128 nk = k * sext(e->b->val, e->w); if (nk < ((i128)1 << 62) && nk > -((i128)1 << 62)) { linI(e->a, nk, t, c, d - 1); return; } } break;
  default: break; }
  for (auto &p : t) if (p.first == e) { p.second += k; return; }
  t.push_back({e, k}); }
static Z3_ast arith(Expr *e, bool wantU) { // ADD SUB MUL
  std::vector<std::pair<Expr *, i128>> t; i128 c = 0; Z3_ast sum; i128 lo, hi;
  if (e->kind == K_MUL && !e->b->isConst()) {
    bool sa = signedNative(e->a), sb = signedNative(e->b); Z3_ast x = sa ? S(e->a) : U(e->a), y = sb ? S(e->b) : U(e->b); sum = iMul(x, y);
    i128 al = sa ? (i128)e->a->smin : (i128)e->a->umin, ah = sa ? (i128)e->a->smax : (i128)e->a->umax, bl = sb ? (i128)e->b->smin : (i128)e->b->umin, bh = sb ? (i128)e->b->smax : (i128)e->b->umax;
    if (ah > ((i128)1 << 62) || bh > ((i128)1 << 62) || al < -((i128)1 << 62) || bl < -((i128)1 << 62)) { iFail = true; return sum; }
    i128 p[4] = {al * bl, al * bh, ah * bl, ah * bh}; lo = *std::min_element(p, p + 4); hi = *std::max_element(p, p + 4);
  } else {
    linI(e, 1, t, c, 24); lo = hi = c; std::vector<Z3_ast> xs; if (c) xs.push_back(iNum(c));
    for (auto &p : t) { if (!p.second) continue; bool sg = signedNative(p.first); if (p.first == e) { iFail = true; return iNum(0); } Z3_ast x = sg ? S(p.first) : U(p.first); i128 l = sg ? (i128)p.first->smin : (i128)p.first->umin, h = sg ? (i128)p.first->smax : (i128)p.first->umax;
      i128 k = p.second; if (k > ((i128)1 << 60) || k < -((i128)1 << 60)) { iFail = true; return iNum(0); } i128 y = k * l, z = k * h; if (y > z) std::swap(y, z); lo += y; hi += z; xs.push_back(k == 1 ? x : iMul(iNum(k), x)); }
    if (xs.empty()) sum = iNum(0); else if (xs.size() == 1) sum = xs[0]; else sum = ik(Z3_mk_add(C, xs.size(), xs.data())); }
  unsigned w = e->w;
  if (wantU) { if (lo >= 0 && hi < pw(w)) return sum; return iMod(sum, pw(w)); }
  if (lo >= -pw(w - 1) && hi < pw(w - 1)) return sum;
  return iAdd(iMod(iAdd(sum, iNum(pw(w - 1))), pw(w)), iNum(-pw(w - 1))); }
static Z3_ast zero() { return iNum(0); }
static Z3_ast U(Expr *e) {
  auto it = iU.find(e->id); if (it != iU.end()) return it->second; Z3_ast r;
  if (e->w == 1) r = iIte(iB(e), iNum(1), iNum(0));
  else switch (e->kind) {
  case K_CONST: r = iNum((i128)e->val); break;
  case K_VAR: { char nm[32]; snprintf(nm, sizeof nm, "i%u", (unsigned)e->val); r = ik(Z3_mk_const(C, Z3_mk_string_symbol(C, nm), intSort)); break; }
  case K_ZEXT: r = U(e->a); break;
  case K_CONCAT: r = iAdd(iMul(U(e->a), iNum(pw(e->b->w))), U(e->b)); break;
  case K_EXTRACT: { Z3_ast x = U(e->a); u64 hi = e->a->umax; if (e->val) { x = ik(Z3_mk_div(C, x, iNum(pw(e->val)))); hi >>= e->val; } if (hi > maskw(e->w)) x = iMod(x, pw(e->w)); r = x; break; }
  case K_UDIV: case K_UREM: { Z3_ast x = U(e->a), y = U(e->b); Z3_ast q = ik(e->kind == K_UDIV ? Z3_mk_div(C, x, y) : Z3_mk_mod(C, x, y)); if (e->b->umin == 0) q = iIte(ik(Z3_mk_eq(C, y, zero())), e->kind == K_UDIV ? iNum(pw(e->w) - 1) : x, q); r = q; break; }
  case K_ITE: r = iIte(iB(e->a), U(e->b), U(e->c)); break;
  case K_ADD: case K_SUB: case K_MUL: r = arith(e, true); break;
  case K_SEXT: case K_SDIV: case K_SREM: { Z3_ast x = S(e); if (e->smin >= 0) r = x; else if (e->smax < 0) r = iAdd(x, iNum(pw(e->w))); else r = iIte(ik(Z3_mk_lt(C, x, zero())), iAdd(x, iNum(pw(e->w))), x); break; }
  default: iFail = true; r = zero(); }
  iU[e->id] = r; return r; }
static Z3_ast S(Expr *e) {
  if (e->smin >= 0 && e->kind != K_SDIV && e->kind != K_SREM && e->kind != K_SEXT && e->kind != K_ADD && e->kind != K_SUB) return U(e);
  auto it = iS.find(e->id); if (it != iS.end()) return it->second; Z3_ast r;
  switch (e->kind) {
  case K_CONST: r = iNum(sext(e->val, e->w)); break;
  case K_SEXT: r = e->a->w == 1 ? iIte(iB(e->a), iNum(-1), iNum(0)) : S(e->a); break;
  case K_SDIV: case K_SREM: { Z3_ast x = S(e->a), y = S(e->b); if (e->b->smin <= 0 || e->a->smin == INT64_MIN) { iFail = true; r = zero(); break; }
    Z3_ast nx = iNeg(x); bool d = e->kind == K_SDIV; Z3_ast p = ik(d ? Z3_mk_div(C, x, y) : Z3_mk_mod(C, x, y)); if (e->a->smin >= 0) { r = p; break; }
    Z3_ast n = iNeg(ik(d ? Z3_mk_div(C, nx, y) : Z3_mk_mod(C, nx, y))); r = iIte(ik(Z3_mk_ge(C, x, zero())), p, n); break; }
  case K_ADD: case K_SUB: case K_MUL: r = arith(e, false); break;
  case K_CONCAT: if (signedNative(e->a)) { r = iAdd(iMul(S(e->a), iNum(pw(e->b->w))), U(e->b)); break; } { Z3_ast x = U(e); r = e->smax < 0 ? iAdd(x, iNum(-pw(e->w))) : iIte(ik(Z3_mk_ge(C, x, iNum(pw(e->w - 1)))), iAdd(x, iNum(-pw(e->w))), x); } break;
  case K_ITE: r = iIte(iB(e->a), S(e->b), S(e->c)); break;
  default: { Z3_ast x = U(e); if (e->smin >= 0) r = x; else if (e->smax < 0) r = iAdd(x, iNum(-pw(e->w))); else r = iIte(ik(Z3_mk_ge(C, x, iNum(pw(e->w - 1)))), iAdd(x, iNum(-pw(e->w))), x); } }
  iS[e->id] = r; return r; }
static std::unordered_map<uint32_t, Z3_ast> iBm;
static Z3_ast iB(Expr *e) {
  auto it = iBm.find(e->id); if (it != iBm.end()) return it->second; Z3_ast r;
  switch (e->kind) {
  case K_CONST: r = ik(e->val ? Z3_mk_true(C) : Z3_mk_false(C)); break;
  case K_VAR: { char nm[32]; snprintf(nm, sizeof nm, "i%u", (unsigned)e->val); r = ik(Z3_mk_const(C, Z3_mk_string_symbol(C, nm), Z3_mk_bool_sort(C))); break; }
  case K_AND: case K_MUL: { Z3_ast x[2] = {iB(e->a), iB(e->b)}; r = ik(Z3_mk_and(C, 2, x)); break; }
  case K_OR: { Z3_ast x[2] = {iB(e->a), iB(e->b)}; r = ik(Z3_mk_or(C, 2, x)); break; }
  case K_XOR: r = ik(Z3_mk_xor(C, iB(e->a), iB(e->b))); break;
  case K_ITE: r = iIte(iB(e->a), iB(e->b), iB(e->c)); break;
  case K_EQ: if (e->a->w == 1) { r = ik(Z3_mk_iff(C, iB(e->a), iB(e->b))); break; }
    if (signedNative(e->a) || signedNative(e->b)) r = ik(Z3_mk_eq(C, S(e->a), S(e->b))); else r = ik(Z3_mk_eq(C, U(e->a), U(e->b))); break;
  case K_ULT: r = ik(Z3_mk_lt(C, U(e->a), U(e->b))); break;
  case K_ULE: r = ik(Z3_mk_le(C, U(e->a), U(e->b))); break;
  case K_SLT: if (e->a->w == 1) { iFail = true; r = ik(Z3_mk_false(C)); break; } r = ik(Z3_mk_lt(C, S(e->a), S(e->b))); break;
  case K_SLE: if (e->a->w == 1) { iFail = true; r = ik(Z3_mk_false(C)); break; } r = ik(Z3_mk_le(C, S(e->a), S(e->b))); break;
  case K_EXTRACT: { Z3_ast x = U(e->a); if (e->val) x = ik(Z3_mk_div(C, x, iNum(pw(e->val)))); r = ik(Z3_mk_eq(C, iMod(x, 2), iNum(1))); break; }
  default: iFail = true; r = ik(Z3_mk_false(C)); }
  iBm[e->id] = r; return r; }
static void iReset() { for (Z3_ast a : iKept) Z3_dec_ref(C, a); iKept.clear(); iU.clear(); iS.clear(); iBm.clear(); }
static Res runInt(std::vector<Expr *> &cs, Expr *cond, std::vector<uint32_t> &vars, ModelP base, ModelP &out, unsigned ms) {
  iFail = false; intSort = Z3_mk_int_sort(C); std::vector<Z3_ast> as;
  for (Expr *e : cs) { as.push_back(iB(e)); if (iFail) { iReset(); return R_UNKNOWN; } }
  as.push_back(iB(cond)); if (iFail) { iReset(); return R_UNKNOWN; }
  Z3_solver s = Z3_mk_simple_solver(C); Z3_solver_inc_ref(C, s);
  Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), ms); Z3_solver_set_params(C, s, p); Z3_params_dec_ref(C, p);
  for (uint32_t v : vars) if (g_vars[v].w > 1) { Z3_ast x = U(g_vars[v].e); Z3_solver_assert(C, s, ik(Z3_mk_ge(C, x, zero()))); Z3_solver_assert(C, s, ik(Z3_mk_le(C, x, iNum((i128)std::min(g_vars[v].umax, maskw(g_vars[v].w)))))); }
  for (Z3_ast a : as) Z3_solver_assert(C, s, a);
  Z3_lbool r = Z3_solver_check(C, s); Res res = r == Z3_L_TRUE ? R_SAT : r == Z3_L_FALSE ? R_UNSAT : R_UNKNOWN;
  if (res == R_SAT) { Z3_model m = Z3_solver_get_model(C, s); Z3_model_inc_ref(C, m); out = cloneModel(base); if (out->v.size() < g_vars.size()) out->v.resize(g_vars.size(), 0);
    for (uint32_t v : vars) { Z3_ast val = nullptr; u64 x = 0; Z3_ast ve = g_vars[v].w == 1 ? iB(g_vars[v].e) : U(g_vars[v].e); if (Z3_model_eval(C, m, ve, true, &val) && val) { Z3_inc_ref(C, val); if (g_vars[v].w == 1) x = Z3_get_bool_value(C, val) == Z3_L_TRUE; else Z3_get_numeral_uint64(C, val, (uint64_t *)&x); Z3_dec_ref(C, val); } out->v[v] = x; }
    Z3_model_dec_ref(C, m);
    if (!evalM(cond, out.get())) { if (getenv("PSYM_INTDBG")) fprintf(stderr, "int model mismatch (cond)\n"); res = R_UNKNOWN; } else for (Expr *e : cs) if (!evalM(e, out.get())) { if (getenv("PSYM_INTDBG")) fprintf(stderr, "int model mismatch (pc)\n"); res = R_UNKNOWN; break; } }
  Z3_solver_dec_ref(C, s); iReset(); return res; }
static Res runZ3(std::vector<Expr *> &cs, Expr *cond, std::vector<uint32_t> &vars, ModelP base, ModelP &out) {
  auto assertAll = [&](Z3_solver s) {
    for (Expr *e : cs) Z3_solver_assert(C, s, conv(e));
    Z3_solver_assert(C, s, conv(cond));
    for (uint32_t v : vars) if (g_vars[v].umax < maskw(g_vars[v].w)) {
      Expr *ve = g_vars[v].e;
      Z3_ast a = conv(ve); Z3_sort so = HS(Z3_mk_bv_sort(C, g_vars[v].w));
      Z3_solver_assert(C, s, H(Z3_mk_bvule(C, a, H(Z3_mk_unsigned_int64(C, g_vars[v].umax, so))))); dropTmp();
    }
  };
  auto setTo = [&](Z3_solver s, unsigned ms) { Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), ms); Z3_solver_set_params(C, s, p); Z3_params_dec_ref(C, p); };
  bool hard = isHard(cond); for (Expr *e : cs) if (!hard && isHard(e)) hard = true;
  bool wide = !hard && !vars.empty(); for (uint32_t v : vars) if (g_vars[v].w == 8) wide = false; // linear arithmetic over integers
  if (hard || wide) { Res ri = runInt(cs, cond, vars, base, out, 800); if (ri != R_UNKNOWN) { g_ss.intOk++; return ri; } }
  Z3_lbool r; Z3_solver used = S1;
  Z3_solver_push(C, S1); assertAll(S1); setTo(S1, 1500);
  r = Z3_solver_check(C, S1);
  Z3_solver big = nullptr;
  if (r == Z3_L_UNDEF) {
    Z3_solver_pop(C, S1, 1);
    const char *tn[] = {"simplify", "fpa2bv", "simplify", "propagate-values", "solve-eqs", "elim-uncnstr", "simplify", "bit-blast", "aig", "sat"};
    Z3_tactic t = nullptr;
    for (const char *n : tn) { Z3_tactic x = Z3_mk_tactic(C, n); Z3_tactic_inc_ref(C, x); t = t ? Z3_tactic_and_then(C, t, x) : x; Z3_tactic_inc_ref(C, t); }
    big = Z3_mk_solver_from_tactic(C, t); Z3_solver_inc_ref(C, big);
    assertAll(big); setTo(big, g_timeout_ms);
    r = Z3_solver_check(C, big); used = big;
  }
  Res res = r == Z3_L_TRUE ? R_SAT : r == Z3_L_FALSE ? R_UNSAT : R_UNKNOWN;
  if (res == R_UNKNOWN && hard) { Res ri = runInt(cs, cond, vars, base, out, g_timeout_ms); if (ri != R_UNKNOWN) { g_ss.intOk++; if (big) Z3_solver_dec_ref(C, big); return ri; } }
  if (res == R_SAT) {
    Z3_model m = Z3_solver_get_model(C, used); Z3_model_inc_ref(C, m);
    out = cloneModel(base);
    if (out->v.size() < g_vars.size()) out->v.resize(g_vars.size(), 0);
    for (uint32_t v : vars) {
      Expr *ve = g_vars[v].e;
      Z3_ast val = nullptr; u64 x = 0;
      if (Z3_model_eval(C, m, conv(ve), true, &val) && val) {
        Z3_inc_ref(C, val);
        if (g_vars[v].w == 1) x = Z3_get_bool_value(C, val) == Z3_L_TRUE; else Z3_get_numeral_uint64(C, val, (uint64_t *)&x);
        Z3_dec_ref(C, val);
      }
      out->v[v] = x;
    }
    Z3_model_dec_ref(C, m);
    if (!evalM(cond, out.get())) { if (getenv("PSYM_MM")) { Z3_model_inc_ref(C, Z3_solver_get_model(C, used)); Z3_model mm = Z3_solver_get_model(C, used); std::vector<Expr *> st{cond}; std::unordered_map<uint32_t, bool> seen; while (!st.empty()) { Expr *x = st.back(); st.pop_back(); if (seen[x->id]) continue; seen[x->id] = true; Z3_ast val = nullptr; u64 y = 0; Z3_model_eval(C, mm, conv(x), true, &val); if (x->w == 1) y = Z3_get_bool_value(C, val) == Z3_L_TRUE; else Z3_get_numeral_uint64(C, val, (uint64_t *)&y); if (y != evalM(x, out.get())) { fprintf(stderr, "MISMATCH id %u kind %d w %d z3 %lx eval %lx  [%d %d %d] val %lx: %s\n", x->id, x->kind, x->w, y, evalM(x, out.get()), x->a ? x->a->id : -1, x->b ? x->b->id : -1, x->c ? x->c->id : -1, x->val, exprStr(x, 3).c_str()); } for (Expr *c : {x->a, x->b, x->c}) if (c) st.push_back(c); } } fprintf(stderr, "psym: WARNING model does not satisfy query (kind %d)\n", cond->kind); res = R_UNKNOWN; }
    else for (Expr *e : cs) if (!evalM(e, out.get())) { fprintf(stderr, "psym: WARNING model does not satisfy pc\n"); res = R_UNKNOWN; break; }
  }
  if (big) Z3_solver_dec_ref(C, big); else Z3_solver_pop(C, S1, 1);
  if (astCount > 1500000) resetCtx();
  return res;
}
Res checkSat(const std::vector<Expr *> &pc, Expr *cond, const ModelP &base, ModelP &out) {
  g_ss.queries++;
  if (cond->isConst()) { if (cond->val) { out = base; return R_SAT; } return R_UNSAT; }
  if (evalM(cond, base.get())) { out = base; g_ss.modelHits++; return R_SAT; }
  std::vector<Expr *> cs; std::vector<uint32_t> vars; slice(pc, cond, cs, vars);
  QKey k; for (Expr *e : cs) k.ids.push_back(e->id); std::sort(k.ids.begin(), k.ids.end()); k.ids.push_back(cond->id);
  if (unsatCache.count(k)) { g_ss.cacheHits++; return R_UNSAT; }
  for (auto &m : recent) {
    if (!evalM(cond, m.get())) continue;
    bool ok = true; for (Expr *e : cs) if (!evalM(e, m.get())) { ok = false; break; }
    if (ok) { // splice
      bool inr = true; for (uint32_t v : vars) if (m->get(v) > g_vars[v].umax) inr = false;
      if (!inr) continue;
      out = cloneModel(base); if (out->v.size() < g_vars.size()) out->v.resize(g_vars.size(), 0);
      for (uint32_t v : vars) out->v[v] = m->get(v);
      g_ss.cacheHits++; return R_SAT;
    }
  }
  auto t0 = std::chrono::steady_clock::now();
  g_ss.z3calls++;
  Res r = runZ3(cs, cond, vars, base, out);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  g_ss.time += dt; if (dt > g_ss.maxTime) g_ss.maxTime = dt;
  if (getenv("PSYM_SLOW") && dt > atof(getenv("PSYM_SLOW"))) {
    static int n; char fn[64]; snprintf(fn, sizeof fn, "/tmp/slow%d.smt2", n++); FILE *f = fopen(fn, "w"); fputs(dumpSmt(pc, cond).c_str(), f); fclose(f);
    fprintf(stderr, "slow query %.2fs res %d -> %s\n", dt, r, fn);
  }
  if (r == R_SAT) { g_ss.sat++; recent.push_front(out); if (recent.size() > 10) recent.pop_back(); }
  else if (r == R_UNSAT) { g_ss.unsat++; unsatCache[k] = true; if (unsatCache.size() > 2000000) unsatCache.clear(); }
  else g_ss.unknown++;
  return r;
}
