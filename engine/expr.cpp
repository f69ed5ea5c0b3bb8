#include "expr.h"
#include <cmath>
#include <cstring>
#include <algorithm>
#include <algorithm>
#include <map>
#include <cstring>
std::vector<VarInfo> g_vars;

// ---------- arena + hash table ----------
static std::vector<Expr *> table_(1 << 16, nullptr);
static size_t count_ = 0;
static std::vector<Expr *> chunks_;
static size_t chunkUsed_ = 1 << 14;
size_t exprCount() { return count_; }
static Expr *allocE() {
  if (chunkUsed_ >= (1 << 14)) { chunks_.push_back((Expr *)calloc(1 << 14, sizeof(Expr))); chunkUsed_ = 0; }
  return &chunks_.back()[chunkUsed_++];
}
static uint32_t hashOf(uint8_t k, uint8_t w, u64 val, Expr *a, Expr *b, Expr *c) {
  u64 h = k * 0x9E3779B97F4A7C15ull + w;
  auto mix = [&](u64 x) { h ^= x; h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
  mix(val); mix(a ? a->id + 1 : 0); mix(b ? b->id + 1 : 0); mix(c ? c->id + 1 : 0);
  return (uint32_t)(h ^ (h >> 29));
}
static void rehash() {
  std::vector<Expr *> old; old.swap(table_);
  table_.assign(old.size() * 2, nullptr);
  size_t m = table_.size() - 1;
  for (Expr *e : old) if (e) { size_t i = e->hash & m; while (table_[i]) i = (i + 1) & m; table_[i] = e; }
}
static void setRangeU(Expr *e, u64 lo, u64 hi) {   // derive signed range too
  u64 m = maskw(e->w);
  if (lo > e->umin) e->umin = lo;
  if (hi < e->umax) e->umax = hi;
  (void)m;
}
static void setRangeS(Expr *e, i64 lo, i64 hi) {
  if (lo > e->smin) e->smin = lo;
  if (hi < e->smax) e->smax = hi;
}
static void reconcile(Expr *e) {
  unsigned w = e->w; u64 sb = 1ull << (w - 1);
  for (int k = 0; k < 2; k++) {
    if (e->umax < sb) { setRangeS(e, (i64)e->umin, (i64)e->umax); }
    else if (e->umin >= sb) { setRangeS(e, sext(e->umin, w), sext(e->umax, w)); }
    if (e->smin >= 0) setRangeU(e, (u64)e->smin, (u64)e->smax);
    else if (e->smax < 0) setRangeU(e, (u64)e->smin & maskw(w), (u64)e->smax & maskw(w));
  }
}
static void computeRange(Expr *e);
static Expr *intern(Kind k, unsigned w, u64 val, Expr *a = nullptr, Expr *b = nullptr, Expr *c = nullptr) {
  if (w == 0 || w > 64) { fprintf(stderr, "psym: bad width %u kind %d\n", w, k); abort(); }
  uint32_t h = hashOf(k, w, val, a, b, c);
  size_t m = table_.size() - 1, i = h & m;
  while (Expr *e = table_[i]) {
    if (e->hash == h && e->kind == k && e->w == w && e->val == val && e->a == a && e->b == b && e->c == c) return e;
    i = (i + 1) & m;
  }
  Expr *e = allocE();
  e->kind = k; e->w = w; e->val = val; e->a = a; e->b = b; e->c = c; e->hash = h; e->id = (uint32_t)count_++;
  e->umin = 0; e->umax = maskw(w);
  e->smin = w >= 64 ? INT64_MIN : -(i64)(1ull << (w - 1)); e->smax = (i64)(maskw(w) >> 1);
  computeRange(e); reconcile(e);
  table_[i] = e;
  if (count_ * 2 > table_.size()) rehash();
  return e;
}
Expr *mkConst(u64 v, unsigned w) { return intern(K_CONST, w, v & maskw(w)); }
Expr *mkVar(const std::string &name, unsigned w, u64 umax) {
  static std::map<std::string, Expr *> vars;
  std::string key = name + "/" + std::to_string(w) + "/" + std::to_string(umax);
  auto it = vars.find(key);
  if (it != vars.end()) return it->second;
  g_vars.push_back({name, w, 0, umax, nullptr});
  Expr *e = intern(K_VAR, w, g_vars.size() - 1);
  g_vars.back().e = e;
  return vars[key] = e;
}
static bool fitsS(i128 lo, i128 hi, unsigned w) {
  i128 mn = w >= 64 ? (i128)INT64_MIN : -((i128)1 << (w - 1)), mx = (i128)(maskw(w) >> 1);
  return lo >= mn && hi <= mx;
}
static void computeRange(Expr *e) {
  unsigned w = e->w; Expr *a = e->a, *b = e->b; u64 M = maskw(w);
  switch (e->kind) {
  case K_CONST: e->umin = e->umax = e->val; e->smin = e->smax = sext(e->val, w); return;
  case K_VAR: e->umax = std::min(M, g_vars[e->val].umax); return;
  case K_ADD: {
    u128 lo = (u128)a->umin + b->umin, hi = (u128)a->umax + b->umax;
    if (hi <= M) setRangeU(e, (u64)lo, (u64)hi);
    else if (lo > M && hi <= ((u128)M * 2 + 1)) setRangeU(e, (u64)lo & M, (u64)hi & M);
    i128 sl = (i128)a->smin + b->smin, sh = (i128)a->smax + b->smax;
    if (fitsS(sl, sh, w)) setRangeS(e, (i64)sl, (i64)sh);
    return; }
  case K_SUB: {
    if (a->umin >= b->umax) setRangeU(e, a->umin - b->umax, a->umax - b->umin);
    i128 sl = (i128)a->smin - b->smax, sh = (i128)a->smax - b->smin;
    if (fitsS(sl, sh, w)) setRangeS(e, (i64)sl, (i64)sh);
    return; }
  case K_MUL: {
    u128 hi = (u128)a->umax * b->umax;
    if (hi <= M) setRangeU(e, a->umin * b->umin, (u64)hi);
    i128 p[4] = {(i128)a->smin * b->smin, (i128)a->smin * b->smax, (i128)a->smax * b->smin, (i128)a->smax * b->smax};
    i128 sl = *std::min_element(p, p + 4), sh = *std::max_element(p, p + 4);
    if (fitsS(sl, sh, w)) setRangeS(e, (i64)sl, (i64)sh);
    return; }
  case K_UDIV: if (b->umin > 0) setRangeU(e, a->umin / b->umax, a->umax / b->umin); return;
  case K_UREM: { u64 hi = a->umax; if (b->umin > 0) hi = std::min(hi, b->umax - 1); setRangeU(e, 0, hi); return; }
  case K_SDIV: {
    i64 m1 = a->smin < 0 ? (a->smin == INT64_MIN ? INT64_MAX : -a->smin) : 0; i64 m2 = a->smax > 0 ? a->smax : 0;
    i64 m = std::max(m1, m2);
    if (a->smin > INT64_MIN && (b->smin > 0 || b->smax < 0)) setRangeS(e, a->smin >= 0 && b->smin > 0 ? 0 : -m, m);
    return; }
  case K_SREM: {
    i64 lo = a->smin < 0 ? a->smin : 0, hi = a->smax > 0 ? a->smax : 0;
    if (b->smin > 0) { lo = std::max(lo, -(b->smax - 1)); hi = std::min(hi, b->smax - 1); }
    setRangeS(e, lo, hi); return; }
  case K_AND: setRangeU(e, 0, std::min(a->umax, b->umax)); return;
  case K_OR: case K_XOR: {
    u64 m = a->umax | b->umax; m |= m >> 1; m |= m >> 2; m |= m >> 4; m |= m >> 8; m |= m >> 16; m |= m >> 32;
    setRangeU(e, e->kind == K_OR ? std::max(a->umin, b->umin) : 0, m); return; }
  case K_SHL: if (b->isConst() && b->val < w && (a->umax << b->val >> b->val) == a->umax && ((a->umax << b->val) & ~M) == 0) setRangeU(e, a->umin << b->val, a->umax << b->val); return;
  case K_LSHR: if (b->isConst() && b->val < 64) setRangeU(e, a->umin >> b->val, a->umax >> b->val); else setRangeU(e, 0, a->umax); return;
  case K_ASHR: if (b->isConst() && b->val < 64) setRangeS(e, a->smin >> b->val, a->smax >> b->val);
    else setRangeS(e, std::min<i64>(a->smin, 0), std::max<i64>(a->smax, 0)); return;
  case K_ZEXT: setRangeU(e, a->umin, a->umax); return;
  case K_SEXT: setRangeS(e, a->smin, a->smax); return;
  case K_EXTRACT:
    if (e->val == 0 && a->umax <= M) setRangeU(e, a->umin, a->umax);
    else if (e->val) { u64 hi = a->umax >> e->val; if (hi <= M) setRangeU(e, a->umin >> e->val, hi); }
    if (e->val == 0 && fitsS(a->smin, a->smax, w)) setRangeS(e, a->smin, a->smax);
    return;
  case K_CONCAT: setRangeU(e, (a->umin << b->w) | b->umin, (a->umax << b->w) | b->umax); setRangeS(e, (i64)(((u64)a->smin << b->w) | b->umin), (i64)(((u64)a->smax << b->w) | b->umax)); return;
  case K_ITE: setRangeU(e, std::min(b->umin, e->c->umin), std::max(b->umax, e->c->umax));
    setRangeS(e, std::min(b->smin, e->c->smin), std::max(b->smax, e->c->smax)); return;
  default: return;
  }
}

u64 constFold(Kind k, unsigned w, u64 a, u64 b) {
  u64 M = maskw(w); i64 sa = sext(a, w), sb = sext(b, w);
  switch (k) {
  case K_ADD: return (a + b) & M; case K_SUB: return (a - b) & M; case K_MUL: return (a * b) & M;
  case K_UDIV: return b ? a / b : M; case K_UREM: return b ? a % b : a;
  case K_SDIV: if (!sb) return sa < 0 ? 1 : M; if (sb == -1) return (0 - a) & M; return (u64)(sa / sb) & M;
  case K_SREM: if (!sb) return a; if (sb == -1) return 0; return (u64)(sa % sb) & M;
  case K_AND: return a & b; case K_OR: return a | b; case K_XOR: return a ^ b;
  case K_SHL: return b >= w ? 0 : (a << b) & M; case K_LSHR: return b >= w ? 0 : a >> b;
  case K_ASHR: return b >= w ? (sa < 0 ? M : 0) : (u64)(sa >> b) & M;
  case K_EQ: return a == b; case K_ULT: return a < b; case K_ULE: return a <= b;
  case K_SLT: return sa < sb; case K_SLE: return sa <= sb;
  case K_I2D: { double d = (double)(i64)a; u64 r; memcpy(&r, &d, 8); return r; }
  case K_D2I: { double d; memcpy(&d, &a, 8); return d >= -9223372036854775808.0 && d < 9223372036854775808.0 ? (u64)(i64)d : 1ull << 63; }
  case K_FADD: case K_FSUB: case K_FMUL: case K_FDIV: case K_FLT: case K_FLE: case K_FEQ: { double x, y, z = 0; memcpy(&x, &a, 8); memcpy(&y, &b, 8); u64 r;
    switch (k) { case K_FADD: z = x + y; break; case K_FSUB: z = x - y; break; case K_FMUL: z = x * y; break; case K_FDIV: z = x / y; break; case K_FLT: return x < y; case K_FLE: return x <= y; default: return x == y; }
    memcpy(&r, &z, 8); return r; }
  default: abort();
  }
}
unsigned knownTz(Expr *e, int d) {
  if (d == 0) return 0;
  switch (e->kind) {
  case K_CONST: return e->val ? (unsigned)__builtin_ctzll(e->val) : e->w;
  case K_CONCAT: { unsigned t = knownTz(e->b, d - 1); if (t < e->b->w) return t; return e->b->w + knownTz(e->a, d - 1); }
  case K_ZEXT: { unsigned t = knownTz(e->a, d - 1); return t >= e->a->w ? e->w : t; }
  case K_SEXT: { unsigned t = knownTz(e->a, d - 1); return t >= e->a->w ? e->w : t; }
  case K_ADD: case K_SUB: case K_OR: case K_XOR: return std::min(knownTz(e->a, d - 1), knownTz(e->b, d - 1));
  case K_AND: return std::max(knownTz(e->a, d - 1), knownTz(e->b, d - 1));
  case K_MUL: return std::min<unsigned>(e->w, knownTz(e->a, d - 1) + knownTz(e->b, d - 1));
  case K_SHL: if (e->b->isConst()) return std::min<unsigned>(e->w, e->b->val + knownTz(e->a, d - 1)); return 0;
  case K_ITE: return std::min(knownTz(e->b, d - 1), knownTz(e->c, d - 1));
  case K_EXTRACT: if (e->val == 0) return std::min<unsigned>(e->w, knownTz(e->a, d - 1)); return 0;
  default: return 0;
  }
}
Expr *mkZExt(Expr *a, unsigned w) {
  if (a->w == w) return a;
  if (a->isConst()) return mkConst(a->val, w);
  if (a->kind == K_ZEXT) return mkZExt(a->a, w);
  if (a->kind == K_EXTRACT && a->val == 0 && a->a->umax <= maskw(a->w) && a->a->w <= w) return mkZExt(a->a, w);
  return intern(K_ZEXT, w, 0, a);
}
Expr *mkSExt(Expr *a, unsigned w) {
  if (a->w == w) return a;
  if (a->isConst()) return mkConst((u64)sext(a->val, a->w), w);
  if (a->smin >= 0) return mkZExt(a, w);
  if (a->kind == K_SEXT) return mkSExt(a->a, w);
  return intern(K_SEXT, w, 0, a);
}
Expr *mkExtract(Expr *a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (a->isConst()) return mkConst(a->val >> lo, w);
  switch (a->kind) {
  case K_EXTRACT: return mkExtract(a->a, lo + (unsigned)a->val, w);
  case K_ZEXT:
    if (lo >= a->a->w) return mkConst(0, w);
    if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
    return mkZExt(mkExtract(a->a, lo, a->a->w - lo), w);
  case K_SEXT:
    if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
    if (lo == 0) return mkSExt(a->a, w);
    break;
  case K_CONCAT:
    if (lo + w <= a->b->w) return mkExtract(a->b, lo, w);
    if (lo >= a->b->w) return mkExtract(a->a, lo - a->b->w, w);
    return mkConcat(mkExtract(a->a, 0, lo + w - a->b->w), mkExtract(a->b, lo, a->b->w - lo));
  case K_AND: case K_OR: case K_XOR:
    if (a->b->isConst() || lo == 0) return mkBin((Kind)a->kind, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
    break;
  case K_ADD: case K_SUB: case K_MUL:
    if (lo == 0 && a->umax > maskw(w)) return mkBin((Kind)a->kind, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
    break;
  case K_ITE:
    if (a->b->isConst() || a->c->isConst()) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
    break;
  default: break;
  }
  if (a->umin >> lo == a->umax >> lo && (a->umax <= maskw(a->w))) { // constant upper part
    if (lo && lo + w <= 64) { return mkConst(a->umin >> lo, w); }
  }
  if (lo == 0 || true) { // trailing zeros
    unsigned tz = knownTz(a); if (tz >= lo + w) return mkConst(0, w);
  }
  return intern(K_EXTRACT, w, lo, a);
}
// byte of a stored value: never pushed into arithmetic, so that adjacent bytes recombine on load
Expr *mkByte(Expr *a, unsigned lo) {
  Expr *x = a; while (x->kind == K_ZEXT && lo + 8 <= x->a->w) x = x->a;
  if (x->w > 8 && lo + 8 <= x->w && ((lo == 0 && (x->kind == K_ADD || x->kind == K_SUB || x->kind == K_MUL || x->kind == K_AND || x->kind == K_OR || x->kind == K_XOR) && x->umax > 255) || (x->kind == K_ITE && x->w > 8 && !(x->b->isConst() && x->c->isConst())))) return intern(K_EXTRACT, 8, lo, x);
  return mkExtract(a, lo, 8); }
Expr *mkConcat(Expr *hi, Expr *lo) {
  unsigned w = hi->w + lo->w;
  if (hi->isConst() && lo->isConst()) return mkConst((hi->val << lo->w) | lo->val, w);
  if (hi->isConst() && hi->val == 0) return mkZExt(lo, w);
  if (hi->kind == K_CONCAT) return mkConcat(hi->a, mkConcat(hi->b, lo));
  // adjacency
  auto lowOf = [](Expr *e, Expr *&base, unsigned &l) { if (e->kind == K_EXTRACT) { base = e->a; l = (unsigned)e->val; } else { base = e; l = 0; } };
  Expr *hb; unsigned hl; lowOf(hi, hb, hl);
  Expr *first = lo, *rest = nullptr;
  if (lo->kind == K_CONCAT) { first = lo->a; rest = lo->b; }
  Expr *lb; unsigned ll; lowOf(first, lb, ll);
  if (hi->kind == K_EXTRACT && hb == lb && hl == ll + first->w) {
    Expr *m = hb->kind == K_ITE && hi->w + first->w < hb->w ? intern(K_EXTRACT, hi->w + first->w, ll, hb) : mkExtract(hb, ll, hi->w + first->w);
    return rest ? mkConcat(m, rest) : m;
  }
  if (hi->isConst() && first->isConst()) { Expr *m = mkConst((hi->val << first->w) | first->val, hi->w + first->w); return rest ? mkConcat(m, rest) : m; }
  // zext adjacency: concat(extract(x..), ...) handled; concat(zext(h), lo) -> zext(concat(h,lo))
  if (hi->kind == K_ZEXT) return mkZExt(mkConcat(hi->a, lo), w);
  return intern(K_CONCAT, w, 0, hi, lo);
}
Expr *mkNot1(Expr *a) {
  assert(a->w == 1);
  if (a->isConst()) return mkConst(!a->val, 1);
  if (a->kind == K_XOR && a->b->isConst() && a->b->val == 1) return a->a;
  if (a->kind == K_ULT) return mkBin(K_ULE, a->b, a->a);
  if (a->kind == K_ULE) return mkBin(K_ULT, a->b, a->a);
  if (a->kind == K_SLT) return mkBin(K_SLE, a->b, a->a);
  if (a->kind == K_SLE) return mkBin(K_SLT, a->b, a->a);
  return intern(K_XOR, 1, 0, a, mkConst(1, 1));
}
Expr *mkIte(Expr *c, Expr *a, Expr *b) {
  if (c->isConst()) return c->val ? a : b;
  if (a == b) return a;
  if (c->kind == K_XOR && c->b->isConst()) return mkIte(c->a, b, a);
  if (a->w == 1) {
    if (a->isConst()) return a->val ? mkBin(K_OR, c, b) : mkBin(K_AND, mkNot1(c), b);
    if (b->isConst()) return b->val ? mkBin(K_OR, mkNot1(c), a) : mkBin(K_AND, c, a);
  }
  if (a->kind == K_ITE && a->a == c) a = a->b;
  if (b->kind == K_ITE && b->a == c) b = b->c;
  if (a == b) return a;
  // ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
  if (b->kind == K_ITE && b->b == a) return mkIte(mkBin(K_OR, c, b->a), a, b->c);
  if (b->kind == K_ITE && b->c == a) return mkIte(mkBin(K_AND, mkNot1(c), b->a), b->b, a);
  if (a->kind == K_ZEXT && b->kind == K_ZEXT && a->a->w == b->a->w) return mkZExt(mkIte(c, a->a, b->a), a->w);
  return intern(K_ITE, a->w, 0, c, a, b);
}
// ---- linear normal form for add/sub ----
struct Lin { std::vector<std::pair<Expr *, u64>> t; u64 c = 0; bool ok = true; };
static void linAdd(Lin &L, Expr *e, u64 k, int depth) {
  if (!L.ok) return;
  u64 M = maskw(e->w);
  switch (e->kind) {
  case K_CONST: L.c = (L.c + k * e->val) & M; return;
  case K_ADD: if (depth) { linAdd(L, e->a, k, depth - 1); linAdd(L, e->b, k, depth - 1); return; } break;
  case K_SUB: if (depth) { linAdd(L, e->a, k, depth - 1); linAdd(L, e->b, (0 - k) & M, depth - 1); return; } break;
  case K_MUL: if (depth && e->b->isConst()) { linAdd(L, e->a, (k * e->b->val) & M, depth - 1); return; } break;
  default: break;
  }
  for (auto &p : L.t) if (p.first == e) { p.second = (p.second + k) & M; return; }
  L.t.push_back({e, k & M});
  if (L.t.size() > 24) L.ok = false;
}
static Expr *rawBin(Kind k, Expr *a, Expr *b) { return intern(k, a->w, 0, a, b); }
static Expr *mulConst(Expr *x, u64 c) { // raw multiply by const
  unsigned w = x->w;
  if (c == 1) return x;
  // zext narrowing
  u128 hi = (u128)x->umax * c;
  if (hi <= maskw(w) && w > 8) {
    unsigned nw = 1; while (nw < 64 && hi > maskw(nw)) nw++;
    if (nw < w) { Expr *nx = mkExtract(x, 0, nw); return mkZExt(intern(K_MUL, nw, 0, nx, mkConst(c, nw)), w); }
  }
  return intern(K_MUL, w, 0, x, mkConst(c, w));
}
static Expr *buildLin(Lin &L, unsigned w) {
  u64 M = maskw(w);
  std::vector<std::pair<Expr *, u64>> t;
  for (auto &p : L.t) if (p.second & M) t.push_back({p.first, p.second & M});
  if (t.empty()) return mkConst(L.c, w);
  std::sort(t.begin(), t.end(), [](auto &x, auto &y) { return x.first->id < y.first->id; });
  // exact range of the sum
  i128 sl = sext(L.c, w), sh = sl; bool ov = false;
  i128 ul = sext(L.c, w), uh = ul;
  for (auto &p : t) {
    i128 k = sext(p.second, w);
    i128 x = k * p.first->smin, y = k * p.first->smax; if (x > y) std::swap(x, y); sl += x; sh += y;
    i128 ux = k * (i128)p.first->umin, uy = k * (i128)p.first->umax; if (ux > uy) std::swap(ux, uy); ul += ux; uh += uy;
    const i128 LIM = (i128)1 << 120;
    if (sl < -LIM || sh > LIM || ul < -LIM || uh > LIM) ov = true;
  }
  Expr *acc = nullptr;
  for (auto &p : t) if (sext(p.second, w) >= 0 || w == 1) { Expr *m = mulConst(p.first, p.second); acc = acc ? rawBin(K_ADD, acc, m) : m; }
  bool cused = false;
  if (!acc) { // all negative
    acc = mkConst(L.c, w); cused = true;
  }
  for (auto &p : t) if (sext(p.second, w) < 0 && w != 1) { Expr *m = mulConst(p.first, (0 - p.second) & M); acc = rawBin(K_SUB, acc, m); }
  if (!cused && L.c) acc = rawBin(K_ADD, acc, mkConst(L.c, w));
  if (!ov && acc->kind != K_VAR && !acc->isConst()) {
    if (fitsS(sl, sh, w)) { setRangeS(acc, (i64)sl, (i64)sh); }
    if (ul >= 0 && uh <= (i128)M) setRangeU(acc, (u64)ul, (u64)uh);
    reconcile(acc);
    if (acc->umin == acc->umax) return mkConst(acc->umin, w);
  }
  return acc;
}
static Expr *mkAddSub(bool sub, Expr *a, Expr *b) {
  unsigned w = a->w;
  if (w == 1) return mkBin(K_XOR, a, b);
  Lin L; linAdd(L, a, 1, 12); linAdd(L, b, sub ? maskw(w) : 1, 12);
  if (!L.ok) return intern(sub ? K_SUB : K_ADD, w, 0, a, b);
  return buildLin(L, w);
}
static unsigned bitsFor(u64 v) { unsigned n = 1; while (n < 64 && v > maskw(n)) n++; return n; }
static unsigned sbitsFor(i64 lo, i64 hi) { unsigned n = 1; while (n < 64 && (lo < -(i64)(1ull << (n - 1)) || hi > (i64)(maskw(n) >> 1))) n++; return n; }

// a = c*A + B with 0 <= B < c and no overflow: quotient A, remainder B
static bool splitDiv(Expr *a, u64 c, Expr *&q, Expr *&r) {
  unsigned w = a->w, W = w; Expr *x = a;
  if (a->kind == K_ZEXT) { x = a->a; w = x->w; if (c > maskw(w)) return false; }
  if (x->kind != K_ADD && x->kind != K_SUB && x->kind != K_MUL) return false;
  Lin L; linAdd(L, x, 1, 12); if (!L.ok) return false;
  i128 cs = sext(L.c, w), tl = cs, th = cs, bl, bh, al, ah; i128 cq = cs >= 0 ? cs / (i128)c : -((-cs + (i128)c - 1) / (i128)c), cr = cs - cq * (i128)c;
  Lin A, B; A.c = (u64)cq & maskw(w); B.c = (u64)cr; al = ah = cq; bl = bh = cr;
  for (auto &p : L.t) { i128 k = sext(p.second, w); if (!k) continue; if (k > ((i128)1 << 50) || k < -((i128)1 << 50)) return false;
    bool sg = p.first->smin < 0; i128 lo = sg ? (i128)p.first->smin : (i128)p.first->umin, hi = sg ? (i128)p.first->smax : (i128)p.first->umax; i128 u = k * lo, v = k * hi; if (u > v) std::swap(u, v); tl += u; th += v;
    if (k % (i128)c == 0) { i128 kk = k / (i128)c; u = kk * lo; v = kk * hi; if (u > v) std::swap(u, v); al += u; ah += v; A.t.push_back({p.first, (u64)kk & maskw(w)}); } else { bl += u; bh += v; B.t.push_back(p); } }
  if (tl < 0 || th > (i128)maskw(w) || bl < 0 || bh >= (i128)c || al < 0 || ah > (i128)maskw(w)) return false;
  q = mkZExt(buildLin(A, w), W); r = mkZExt(buildLin(B, w), W); return true; }
Expr *mkBin(Kind k, Expr *a, Expr *b) {
  unsigned w = a->w;
  if (a->w != b->w) { fprintf(stderr, "psym: width mismatch k=%d %u %u\n", k, a->w, b->w); abort(); }
  if (a->isConst() && b->isConst()) return mkConst(constFold(k, w, a->val, b->val), k >= K_EQ && k <= K_SLE ? 1 : w);
  u64 M = maskw(w);
  switch (k) {
  case K_ADD: case K_SUB: {
    if (b->isConst() && b->val == 0) return a;
    if (k == K_SUB && a == b) return mkConst(0, w);
    if (k == K_ADD && a->isConst() && a->val == 0) return b;
    if (k == K_ADD && w > 1) { // disjoint add -> concat
      for (int s = 0; s < 2; s++) { Expr *x = s ? b : a, *y = s ? a : b; unsigned tz = knownTz(x);
        if (tz && tz < w && !x->isConst() && !y->isConst() && y->umax <= maskw(tz) && x->kind == K_CONCAT) return mkConcat(mkExtract(x, tz, w - tz), mkExtract(y, 0, tz)); }
    }
    // constant over ite of constants
    return mkAddSub(k == K_SUB, a, b);
  }
  case K_MUL: {
    if (a->isConst()) std::swap(a, b);
    if (b->isConst()) {
      if (b->val == 0) return b;
      if (b->val == 1) return a;
      if ((b->val & (b->val - 1)) == 0) return mkBin(K_SHL, a, mkConst(__builtin_ctzll(b->val), w));
      Lin L; linAdd(L, a, b->val, 8); if (L.ok) return buildLin(L, w);
      return mulConst(a, b->val);
    }
    u128 hi = (u128)a->umax * b->umax;
    if (hi <= M) { unsigned nw = bitsFor((u64)hi); if (nw < w) return mkZExt(intern(K_MUL, nw, 0, mkExtract(a, 0, nw), mkExtract(b, 0, nw)), w); }
    if (a->id > b->id) std::swap(a, b);
    return intern(K_MUL, w, 0, a, b);
  }
  case K_UDIV: case K_UREM: {
    if (b->isConst() && b->val == 1) return k == K_UDIV ? a : mkConst(0, w);
    if (b->isConst() && b->val && (b->val & (b->val - 1)) == 0) {
      unsigned s = __builtin_ctzll(b->val);
      if (k == K_UDIV) return mkZExt(mkExtract(a, s, w - s), w);
      return mkZExt(mkExtract(a, 0, s), w);
    }
    if (a->umax < b->umin) return k == K_UDIV ? mkConst(0, w) : a;
    if (b->isConst() && (a->kind == K_ADD || a->kind == K_SUB || a->kind == K_MUL || a->kind == K_ZEXT)) { Expr *q, *r; if (splitDiv(a, b->val, q, r)) return k == K_UDIV ? q : r; }
    if (b->umin > 0) {
      unsigned nw = bitsFor(std::max(a->umax, b->umax));
      if (nw < w) return mkZExt(mkBin(k, mkExtract(a, 0, nw), mkExtract(b, 0, nw)), w);
      // a/const where a = c*x exactly
    }
    return intern(k, w, 0, a, b);
  }
  case K_SDIV: case K_SREM: {
    if (a->smin >= 0 && b->smin > 0) return mkBin(k == K_SDIV ? K_UDIV : K_UREM, a, b);
    if (b->smin > 0 || b->smax < 0) {
      unsigned nw = std::max(sbitsFor(a->smin, a->smax), sbitsFor(b->smin, b->smax)) + 1;
      if (nw < w) return mkSExt(intern(k, nw, 0, mkExtract(a, 0, nw), mkExtract(b, 0, nw)), w);
    }
    return intern(k, w, 0, a, b);
  }
  case K_AND:
    if (a->isConst()) std::swap(a, b);
    if (b->isConst()) {
      if (b->val == 0) return b;
      if (b->val == M) return a;
      if ((b->val & (b->val + 1)) == 0) { unsigned n = __builtin_popcountll(b->val); if (a->umax <= b->val) return a; return mkZExt(mkExtract(a, 0, n), w); }
      u64 inv = ~b->val & M;
      if ((inv & (inv + 1)) == 0) { unsigned n = __builtin_popcountll(inv); return mkConcat(mkExtract(a, n, w - n), mkConst(0, n)); }
      if (a->kind == K_AND && a->b->isConst()) return mkBin(K_AND, a->a, mkConst(a->b->val & b->val, w));
      // single contiguous field
      unsigned lo = __builtin_ctzll(b->val); u64 f = b->val >> lo;
      if ((f & (f + 1)) == 0) { unsigned n = __builtin_popcountll(f); Expr *x = mkZExt(mkExtract(a, lo, n), w - lo); return mkConcat(x, mkConst(0, lo)); }
    }
    if (a == b) return a;
    if (w == 1) {
      if (mkNot1(a) == b) return mkConst(0, 1);
      if (a->kind == K_AND && (a->a == b || a->b == b)) return a;
      if (b->kind == K_AND && (b->a == a || b->b == a)) return b;
    }
    if (a->id > b->id) std::swap(a, b);
    if (a->isConst()) std::swap(a, b);
    return intern(k, w, 0, a, b);
  case K_OR:
    if (a->isConst()) std::swap(a, b);
    if (b->isConst()) { if (b->val == 0) return a; if (b->val == M) return b; }
    if (a == b) return a;
    if (w == 1) { if (mkNot1(a) == b) return mkConst(1, 1); 
      if (a->kind == K_OR && (a->a == b || a->b == b)) return a;
      if (b->kind == K_OR && (b->a == a || b->b == a)) return b; }
    else {
      for (int s = 0; s < 2; s++) { Expr *x = s ? b : a, *y = s ? a : b; unsigned tz = knownTz(x);
        if (tz && tz < w && y->umax <= maskw(tz)) return mkConcat(mkExtract(x, tz, w - tz), mkExtract(y, 0, tz));
        if (tz >= w) return y; }
    }
    if (a->id > b->id) std::swap(a, b);
    if (a->isConst()) std::swap(a, b);
    return intern(k, w, 0, a, b);
  case K_XOR:
    if (a == b) return mkConst(0, w);
    if (a->isConst()) std::swap(a, b);
    if (b->isConst()) {
      if (b->val == 0) return a;
      if (w == 1) return mkNot1(a);
      if (a->kind == K_XOR && a->b->isConst()) return mkBin(K_XOR, a->a, mkConst(a->b->val ^ b->val, w));
    }
    if (a->id > b->id) std::swap(a, b);
    if (a->isConst()) std::swap(a, b);
    return intern(k, w, 0, a, b);
  case K_SHL:
    if (b->isConst()) { if (b->val >= w) return mkConst(0, w); if (!b->val) return a; return mkConcat(mkExtract(a, 0, w - b->val), mkConst(0, b->val)); }
    if (a->isConst() && a->val == 0) return a;
    return intern(k, w, 0, a, b);
  case K_LSHR:
    if (b->isConst()) { if (b->val >= w) return mkConst(0, w); if (!b->val) return a; return mkZExt(mkExtract(a, b->val, w - b->val), w); }
    if (a->isConst() && a->val == 0) return a;
    return intern(k, w, 0, a, b);
  case K_ASHR:
    if (b->isConst()) { if (!b->val) return a; if (a->smin >= 0) return mkBin(K_LSHR, a, b); u64 s = b->val >= w ? w - 1 : b->val; return mkSExt(mkExtract(a, s, w - s), w); }
    return intern(k, w, 0, a, b);
  case K_EQ: {
    if (a == b) return mkConst(1, 1);
    if (a->umax < b->umin || b->umax < a->umin || a->smax < b->smin || b->smax < a->smin) return mkConst(0, 1);
    if (a->isConst()) std::swap(a, b);
    if (w == 1) { if (b->isConst()) return b->val ? a : mkNot1(a); }
    if (b->isConst()) {
      u64 v = b->val;
      switch (a->kind) {
      case K_ZEXT: return mkBin(K_EQ, a->a, mkConst(v, a->a->w));
      case K_SEXT: { u64 nv = v & maskw(a->a->w); if (((u64)sext(nv, a->a->w) & M) != v) return mkConst(0, 1); return mkBin(K_EQ, a->a, mkConst(nv, a->a->w)); }
      case K_CONCAT: return mkBin(K_AND, mkBin(K_EQ, a->a, mkConst(v >> a->b->w, a->a->w)), mkBin(K_EQ, a->b, mkConst(v, a->b->w)));
      case K_ADD: if (a->b->isConst()) return mkBin(K_EQ, a->a, mkConst(v - a->b->val, w)); break;
      case K_XOR: if (a->b->isConst()) return mkBin(K_EQ, a->a, mkConst(v ^ a->b->val, w)); break;
      case K_SUB: if (v == 0) return mkBin(K_EQ, a->a, a->b); if (a->a->isConst()) return mkBin(K_EQ, a->b, mkConst(a->a->val - v, w)); break;
      case K_OR: if (v == 0) return mkBin(K_AND, mkBin(K_EQ, a->a, b), mkBin(K_EQ, a->b, b)); break;
      case K_ITE:
        if (a->b->isConst()) { if (a->b->val == v) return mkBin(K_OR, a->a, mkBin(K_EQ, a->c, b)); return mkBin(K_AND, mkNot1(a->a), mkBin(K_EQ, a->c, b)); }
        if (a->c->isConst()) { if (a->c->val == v) return mkBin(K_OR, mkNot1(a->a), mkBin(K_EQ, a->b, b)); return mkBin(K_AND, a->a, mkBin(K_EQ, a->b, b)); }
        break;
      default: break;
      }
    } else {
      if (a->kind == K_ZEXT && b->kind == K_ZEXT) {
        unsigned mw = std::max(a->a->w, b->a->w); return mkBin(K_EQ, mkZExt(a->a, mw), mkZExt(b->a, mw)); }
      if (a->kind == K_SEXT && b->kind == K_SEXT && a->a->w == b->a->w) return mkBin(K_EQ, a->a, b->a);
      if (a->kind == K_CONCAT && b->kind == K_CONCAT && a->b->w == b->b->w)
        return mkBin(K_AND, mkBin(K_EQ, a->a, b->a), mkBin(K_EQ, a->b, b->b));
      if (w > 1 && (a->kind == K_ADD || a->kind == K_SUB || b->kind == K_ADD || b->kind == K_SUB)) {
        Lin L; linAdd(L, a, 1, 12); linAdd(L, b, M, 12);
        if (L.ok) {
          size_t n = 0; Expr *x = nullptr; u64 kx = 0;
          for (auto &p : L.t) if (p.second & M) { n++; x = p.first; kx = p.second & M; }
          if (n == 0) return mkConst((L.c & M) == 0, 1);
          if (n == 1 && (kx == 1 || kx == M)) return mkBin(K_EQ, x, mkConst(kx == 1 ? (0 - L.c) & M : L.c, w));
        }
      }
    }
    if (!b->isConst() && a->id > b->id) std::swap(a, b);
    return intern(k, 1, 0, a, b);
  }
  case K_ULT: case K_ULE: {
    if (a == b) return mkConst(k == K_ULE, 1);
    if (k == K_ULT) { if (a->umax < b->umin) return mkConst(1, 1); if (a->umin >= b->umax) return mkConst(0, 1); }
    else { if (a->umax <= b->umin) return mkConst(1, 1); if (a->umin > b->umax) return mkConst(0, 1); }
    if (w == 1) { if (k == K_ULT) return mkBin(K_AND, mkNot1(a), b); return mkBin(K_OR, mkNot1(a), b); }
    unsigned nw = std::max(bitsFor(a->umax), bitsFor(b->umax));
    if (nw < w && (a->kind == K_ZEXT || a->isConst()) && (b->kind == K_ZEXT || b->isConst())) {
      unsigned m2 = std::max(a->isConst() ? nw : a->a->w, b->isConst() ? nw : b->a->w);
      if (m2 < nw) m2 = nw;
      if (m2 < w) return mkBin(k, mkExtract(a, 0, m2), mkExtract(b, 0, m2));
    }
    if (k == K_ULT && b->isConst() && b->val == 1) return mkBin(K_EQ, a, mkConst(0, w));
    if (k == K_ULE && b->isConst() && b->val == 0) return mkBin(K_EQ, a, b);
    if (k == K_ULE && a->isConst() && a->val == 1) return mkNot1(mkBin(K_EQ, b, mkConst(0, w)));
    if (k == K_ULT && a->isConst() && a->val == 0) return mkNot1(mkBin(K_EQ, b, a));
    return intern(k, 1, 0, a, b);
  }
  case K_SLT: case K_SLE: {
    if (a == b) return mkConst(k == K_SLE, 1);
    if (k == K_SLT) { if (a->smax < b->smin) return mkConst(1, 1); if (a->smin >= b->smax) return mkConst(0, 1); }
    else { if (a->smax <= b->smin) return mkConst(1, 1); if (a->smin > b->smax) return mkConst(0, 1); }
    if (a->smin >= 0 && b->smin >= 0) return mkBin(k == K_SLT ? K_ULT : K_ULE, a, b);
    if (a->kind == K_SEXT && b->kind == K_SEXT && a->a->w == b->a->w) return mkBin(k, a->a, b->a);
    return intern(k, 1, 0, a, b);
  }
  default: abort();
  }
}
Expr *mkBswap(Expr *a) {
  unsigned n = a->w / 8; Expr *r = nullptr;
  for (unsigned i = 0; i < n; i++) { Expr *byte = mkExtract(a, i * 8, 8); r = r ? mkConcat(r, byte) : byte; }
  return r;
}
// ---- support sets ----
static std::map<std::vector<uint32_t>, Sup *> supTab_;
static const i64 P53 = 1ll << 53;
static double bitsD(u64 v) { double d; memcpy(&d, &v, 8); return d; }
Expr *asInt(Expr *e) {
  if (e->kind == K_I2D) return e->a->smin >= -P53 && e->a->smax <= P53 ? e->a : nullptr;
  if (e->isConst()) { double d = bitsD(e->val); if (d >= -(double)P53 && d <= (double)P53 && d == (double)(i64)d && !(d == 0 && std::signbit(d))) return mkConst((u64)(i64)d, 64); }
  return nullptr; }
Expr *mkI2D(Expr *a) { if (a->isConst()) return mkConst(constFold(K_I2D, 64, a->val, 0), 64); return intern(K_I2D, 64, 0, a); }
Expr *mkD2I(Expr *a) {
  if (a->isConst()) return mkConst(constFold(K_D2I, 64, a->val, 0), 64);
  if (Expr *x = asInt(a)) return x;
  if (a->kind == K_FDIV) { Expr *x = asInt(a->a), *y = asInt(a->b); // |x| <= 2^53: the correctly rounded quotient never crosses an integer
    if (x && y && y->isConst() && (i64)y->val > 0) return mkBin(K_SDIV, x, y); }
  if (a->kind == K_ITE) { Expr *t = a->b, *u = a->c; if ((t->isConst() || asInt(t)) && (u->isConst() || asInt(u))) return mkIte(a->a, mkD2I(t), mkD2I(u)); }
  return intern(K_D2I, 64, 0, a); }
// bounds of a double expression, when they follow from its integer leaves
static bool rangeD(Expr *e, double &lo, double &hi, int depth = 6) {
  if (e->isConst()) { lo = hi = bitsD(e->val); return !std::isnan(lo); }
  if (depth == 0) return false;
  double al, ah, bl, bh;
  switch (e->kind) {
  case K_I2D: lo = (double)(i64)e->a->smin; hi = (double)(i64)e->a->smax; return true; // rounding is monotone
  case K_FDIV: if (!rangeD(e->a, al, ah, depth - 1) || !rangeD(e->b, bl, bh, depth - 1) || bl <= 0) return false;
    lo = std::min(al / bl, al / bh); hi = std::max(ah / bl, ah / bh); return true;
  case K_FMUL: { if (!rangeD(e->a, al, ah, depth - 1) || !rangeD(e->b, bl, bh, depth - 1)) return false; double p[4] = {al * bl, al * bh, ah * bl, ah * bh};
    for (double x : p) if (std::isnan(x)) return false; lo = *std::min_element(p, p + 4); hi = *std::max_element(p, p + 4); return true; }
  case K_FADD: if (!rangeD(e->a, al, ah, depth - 1) || !rangeD(e->b, bl, bh, depth - 1)) return false; lo = al + bl; hi = ah + bh; return !std::isnan(lo) && !std::isnan(hi);
  case K_FSUB: if (!rangeD(e->a, al, ah, depth - 1) || !rangeD(e->b, bl, bh, depth - 1)) return false; lo = al - bh; hi = ah - bl; return !std::isnan(lo) && !std::isnan(hi);
  case K_ITE: if (!rangeD(e->b, al, ah, depth - 1) || !rangeD(e->c, bl, bh, depth - 1)) return false; lo = std::min(al, bl); hi = std::max(ah, bh); return true;
  default: return false; } }
Expr *mkFP(Kind k, Expr *a, Expr *b) {
  bool cmp = k == K_FLT || k == K_FLE || k == K_FEQ;
  if (a->isConst() && b->isConst()) return mkConst(constFold(k, 64, a->val, b->val), cmp ? 1 : 64);
  Expr *x = asInt(a), *y = asInt(b);
  if (cmp) {
    if (x && y) return mkBin(k == K_FLT ? K_SLT : k == K_FLE ? K_SLE : K_EQ, x, y);
    if (x && b->isConst()) { double d = bitsD(b->val); if (std::isnan(d)) return mkConst(0, 1); if (k == K_FEQ) return mkConst(0, 1); if (d > 4e18) return mkConst(1, 1); if (d < -4e18) return mkConst(0, 1);
      i64 lim = k == K_FLT ? (i64)std::ceil(d) - 1 : (i64)std::floor(d); return mkBin(K_SLE, x, mkConst((u64)lim, 64)); }
    if (y && a->isConst()) { double d = bitsD(a->val); if (std::isnan(d)) return mkConst(0, 1); if (k == K_FEQ) return mkConst(0, 1); if (d > 4e18) return mkConst(0, 1); if (d < -4e18) return mkConst(1, 1);
      i64 lim = k == K_FLT ? (i64)std::floor(d) + 1 : (i64)std::ceil(d); return mkBin(K_SLE, mkConst((u64)lim, 64), y); }
    double al, ah, bl, bh;
    if (rangeD(a, al, ah) && rangeD(b, bl, bh)) {
      if (k == K_FLT) { if (ah < bl) return mkConst(1, 1); if (al >= bh) return mkConst(0, 1); }
      else if (k == K_FLE) { if (ah <= bl) return mkConst(1, 1); if (al > bh) return mkConst(0, 1); }
      else if (ah < bl || bh < al) return mkConst(0, 1); }
    return intern(k, 1, 0, a, b); }
  if (x && y && k != K_FDIV) {
    i128 lo, hi;
    if (k == K_FADD) { lo = (i128)x->smin + y->smin; hi = (i128)x->smax + y->smax; }
    else if (k == K_FSUB) { lo = (i128)x->smin - y->smax; hi = (i128)x->smax - y->smin; }
    else { i128 p[4] = {(i128)x->smin * y->smin, (i128)x->smin * y->smax, (i128)x->smax * y->smin, (i128)x->smax * y->smax}; lo = *std::min_element(p, p + 4); hi = *std::max_element(p, p + 4); }
    if (lo >= -P53 && hi <= P53) return mkI2D(mkBin(k == K_FADD ? K_ADD : k == K_FSUB ? K_SUB : K_MUL, x, y)); }
  if (k == K_FDIV && x && y && y->isConst() && y->val == 1) return a;
  return intern(k, 64, 0, a, b); }

static const Sup *internSup(std::vector<uint32_t> &&v) {
  auto it = supTab_.find(v);
  if (it != supTab_.end()) return it->second;
  Sup *s = new Sup{v};
  supTab_[v] = s; return s;
}
static const Sup *unionSup(const Sup *x, const Sup *y) {
  if (x == y || y->v.empty()) return x;
  if (x->v.empty()) return y;
  static std::unordered_map<u64, const Sup *> cache;
  u64 key = ((u64)(uintptr_t)x * 0x9E3779B97F4A7C15ull) ^ ((u64)(uintptr_t)y * 0xC2B2AE3D27D4EB4Full);
  static std::unordered_map<u64, std::pair<const Sup *, const Sup *>> keys;
  auto it = cache.find(key);
  if (it != cache.end() && keys[key] == std::make_pair(x, y)) return it->second;
  std::vector<uint32_t> r; r.reserve(x->v.size() + y->v.size());
  std::set_union(x->v.begin(), x->v.end(), y->v.begin(), y->v.end(), std::back_inserter(r));
  const Sup *s = internSup(std::move(r));
  cache[key] = s; keys[key] = {x, y};
  return s;
}
const Sup *support(Expr *e) {
  if (e->sup) return e->sup;
  // iterative post-order
  std::vector<Expr *> st{e};
  while (!st.empty()) {
    Expr *x = st.back();
    if (x->sup) { st.pop_back(); continue; }
    if (x->kind == K_CONST) { x->sup = internSup({}); st.pop_back(); continue; }
    if (x->kind == K_VAR) { x->sup = internSup({(uint32_t)x->val}); st.pop_back(); continue; }
    bool ready = true;
    for (Expr *c : {x->a, x->b, x->c}) if (c && !c->sup) { st.push_back(c); ready = false; }
    if (!ready) continue;
    const Sup *s = x->a->sup;
    if (x->b) s = unionSup(s, x->b->sup);
    if (x->c) s = unionSup(s, x->c->sup);
    x->sup = s; st.pop_back();
  }
  return e->sup;
}
std::string exprStr(Expr *e, int d) {
  static const char *nm[] = {"c", "v", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "zext", "sext", "ext", "cat", "ite"};
  if (e->isConst()) return std::to_string(e->val) + ":" + std::to_string(e->w);
  if (e->kind == K_VAR) return g_vars[e->val].name;
  if (d == 0) return "..";
  std::string s = std::string("(") + nm[e->kind];
  if (e->kind == K_EXTRACT) s += "[" + std::to_string(e->val) + "+" + std::to_string(e->w) + "]";
  if (e->kind == K_ZEXT || e->kind == K_SEXT) s += std::to_string(e->w);
  for (Expr *c : {e->a, e->b, e->c}) if (c) s += " " + exprStr(c, d - 1);
  return s + ")";
}
