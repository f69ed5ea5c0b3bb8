// Bit-vector expression DAG (hash-consed, simplified on construction, with interval information).
#pragma once
#include <cstdint>
#include <vector>
#include <string>
#include <unordered_map>
#include <cstdio>
#include <cstdlib>
#include <cassert>
typedef uint64_t u64; typedef int64_t i64; typedef __int128 i128; typedef unsigned __int128 u128;

enum Kind : uint8_t { K_CONST, K_VAR, K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM,
  K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR, K_EQ, K_ULT, K_ULE, K_SLT, K_SLE,
  K_ZEXT, K_SEXT, K_EXTRACT, K_CONCAT, K_ITE,
  K_I2D, K_D2I, K_FADD, K_FSUB, K_FMUL, K_FDIV, K_FLT, K_FLE, K_FEQ }; // IEEE doubles carried as 64-bit patterns

struct Sup { std::vector<uint32_t> v; };   // interned support set

struct Expr {
  uint8_t kind, w; uint32_t id; uint32_t hash;
  u64 val;            // const value / var index / extract low bit
  Expr *a, *b, *c;
  u64 umin, umax; i64 smin, smax;
  // memo
  uint64_t mgen; u64 mval;
  const Sup *sup;
  void *z3;
  bool isConst() const { return kind == K_CONST; }
};
static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sext(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 m = 1ull << (w - 1); v &= maskw(w); return (i64)((v ^ m) - m); }

struct VarInfo { std::string name; unsigned w; u64 umin, umax; Expr *e; };
extern std::vector<VarInfo> g_vars;

Expr *mkConst(u64 v, unsigned w);
Expr *mkVar(const std::string &name, unsigned w, u64 umax);
Expr *mkBin(Kind k, Expr *a, Expr *b);
Expr *mkZExt(Expr *a, unsigned w);
Expr *mkSExt(Expr *a, unsigned w);
Expr *mkExtract(Expr *a, unsigned lo, unsigned w);
Expr *mkConcat(Expr *hi, Expr *lo);
Expr *mkByte(Expr *a, unsigned lo);
Expr *mkIte(Expr *c, Expr *a, Expr *b);
Expr *mkNot1(Expr *a);
Expr *mkBswap(Expr *a);
Expr *mkI2D(Expr *a);              // signed 64-bit integer to double
Expr *mkD2I(Expr *a);              // double to signed 64-bit integer (x86: out of range gives INT64_MIN)
Expr *mkFP(Kind k, Expr *a, Expr *b);
Expr *asInt(Expr *a);              // the integer an exactly integral double (|v| <= 2^53) stands for, or null
u64 constFold(Kind k, unsigned w, u64 a, u64 b);
const Sup *support(Expr *e);
unsigned knownTz(Expr *e, int depth = 6);
std::string exprStr(Expr *e, int depth = 6);
size_t exprCount();
