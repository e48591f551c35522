// Hash-consed bit-vector expressions, evaluation, and the z3 bridge.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <algorithm>
#include <chrono>
#include <z3.h>
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8; typedef unsigned __int128 u128; typedef __int128 i128;

[[noreturn]] void fatal(const char *fmt, ...);

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sext128(u128 v, unsigned w) { if (w >= 128) return (i128)v; u128 s = (u128)1 << (w - 1); v &= maskw(w); return (i128)((v ^ s) - s); }

enum EK : u8 { E_CONST, E_VAR, E_ADD, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_SHL, E_LSHR, E_ASHR, E_AND, E_OR, E_XOR,
  E_EQ, E_ULT, E_SLT, E_NOT /* w==1 only */, E_ITE, E_ZEXT, E_SEXT, E_EXTRACT /* aux=low bit */, E_CONCAT /* a=hi b=lo */,
  E_OPAQUE /* a fixed 64-bit constant that absorbs + ^ and rotations: stands for hash state */ };
static const u64 OPAQUE_VALUE = 0x9e3779b97f4a7c15ull;

static const int MAXVARS = 192;
struct VarSet { u64 b[3] = {0,0,0};
  void add(unsigned i) { b[i >> 6] |= 1ull << (i & 63); }
  bool has(unsigned i) const { return b[i >> 6] >> (i & 63) & 1; }
  bool inter(const VarSet &o) const { return (b[0] & o.b[0]) | (b[1] & o.b[1]) | (b[2] & o.b[2]); }
  bool subset(const VarSet &o) const { return !((b[0] & ~o.b[0]) | (b[1] & ~o.b[1]) | (b[2] & ~o.b[2])); }
  void merge(const VarSet &o) { b[0] |= o.b[0]; b[1] |= o.b[1]; b[2] |= o.b[2]; }
  bool operator==(const VarSet &o) const { return b[0]==o.b[0] && b[1]==o.b[1] && b[2]==o.b[2]; } };

struct Expr { EK k; u8 w; u32 aux; u32 id; u32 depth; Expr *a, *b, *c; u128 v; u128 umax; VarSet vars; u64 evGen; u128 evVal; Z3_ast z; };

Expr *mkConst(u128 v, unsigned w);
Expr *mkVar(unsigned idx, unsigned w);
Expr *mkOpaque();
Expr *mkBin(EK k, Expr *a, Expr *b);
Expr *mkNot(Expr *a);
Expr *mkIte(Expr *c, Expr *a, Expr *b);
Expr *mkZext(Expr *a, unsigned w);
Expr *mkSext(Expr *a, unsigned w);
Expr *mkExtract(Expr *a, unsigned lo, unsigned w);
Expr *mkConcat(Expr *hi, Expr *lo);
static inline Expr *mkSub(Expr *a, Expr *b) { // a - b = a + (~b + 1)
  if (a == b) return mkConst(0, a->w);
  if (b->k == E_CONST) return mkBin(E_ADD, a, mkConst(-b->v, a->w));
  return mkBin(E_ADD, a, mkBin(E_ADD, mkBin(E_XOR, b, mkConst(~(u128)0, b->w)), mkConst(1, b->w)));
}
static inline Expr *mkEq(Expr *a, Expr *b) { return mkBin(E_EQ, a, b); }
static inline Expr *mkUlt(Expr *a, Expr *b) { return mkBin(E_ULT, a, b); }
static inline Expr *mkSlt(Expr *a, Expr *b) { return mkBin(E_SLT, a, b); }
static inline Expr *mkAnd1(Expr *a, Expr *b) { return mkBin(E_AND, a, b); }
static inline Expr *mkOr1(Expr *a, Expr *b) { return mkBin(E_OR, a, b); }

u128 evalBin(EK k, u128 x, u128 y, unsigned w);
struct Model { u8 val[MAXVARS]; };
u128 evalExpr(Expr *e, const Model &m);

struct SolverStats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cached = 0; u64 usec = 0; };
extern SolverStats gStats;
extern unsigned gQueryTimeoutMs;
void solverInit();
// 1 sat (model holds values for the variables in the constraints), 0 unsat, -1 unknown
int solverCheck(const std::vector<Expr *> &cs, const VarSet &vars, Model &out);
std::string exprToStr(Expr *e, int depth = 6);
