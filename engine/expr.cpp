#include "expr.h"
#include <deque>
static std::deque<Expr> pool;
struct Key { u64 h; };
static std::vector<Expr *> table(1 << 16, nullptr);
static size_t tableCount = 0;
static inline u64 mix(u64 x) { x ^= x >> 31; x *= 0x9E3779B97F4A7C15ull; x ^= x >> 29; return x; }
static u64 hashOf(EK k, unsigned w, u32 aux, Expr *a, Expr *b, Expr *c, u128 v) {
  u64 h = mix((u64)k * 1315423911u + w * 2654435761u + aux);
  h = mix(h + (a ? a->id + 1 : 0)); h = mix(h * 3 + (b ? b->id + 1 : 0)); h = mix(h * 5 + (c ? c->id + 1 : 0));
  h = mix(h + (u64)v); h = mix(h + (u64)(v >> 64)); return h;
}
static u128 satAdd(u128 a, u128 b, u128 m) { u128 s = a + b; if (s < a || s > m) return m; return s; }
static u128 fillBits(u128 x) { u128 r = x; r |= r >> 1; r |= r >> 2; r |= r >> 4; r |= r >> 8; r |= r >> 16; r |= r >> 32; r |= r >> 64; return r; }
static u128 computeUmax(EK k, unsigned w, u32 aux, Expr *a, Expr *b, Expr *c, u128 v) {
  u128 m = maskw(w);
  switch (k) {
  case E_CONST: return v;
  case E_ADD: return satAdd(a->umax, b->umax, m);
  case E_MUL: { if (a->umax == 0 || b->umax == 0) return 0; if (a->umax > m / b->umax) return m; return a->umax * b->umax; }
  case E_AND: return std::min(a->umax, b->umax);
  case E_OR: case E_XOR: return fillBits(a->umax | b->umax) & m;
  case E_UDIV: if (b->k == E_CONST && b->v) return a->umax / b->v; return m;
  case E_UREM: if (b->k == E_CONST && b->v) return std::min(a->umax, b->v - 1); return m;
  case E_SHL: if (b->k == E_CONST && b->v < w && a->umax <= (m >> (unsigned)b->v)) return a->umax << (unsigned)b->v; return m;
  case E_LSHR: if (b->k == E_CONST && b->v < w) return a->umax >> (unsigned)b->v; return a->umax;
  case E_ITE: return std::max(b->umax, c->umax);
  case E_ZEXT: return a->umax;
  case E_EXTRACT: if ((a->umax >> aux) <= m) return a->umax >> aux; return m;
  case E_CONCAT: return (a->umax << b->w) | (a->umax ? maskw(b->w) : b->umax);
  default: return m;
  }
}
static Expr *intern(EK k, unsigned w, u32 aux, Expr *a, Expr *b, Expr *c, u128 v) {
  if (w == 0 || w > 128) fatal("expr width %u", w);
  u64 h = hashOf(k, w, aux, a, b, c, v); size_t msk = table.size() - 1; size_t i = h & msk;
  while (table[i]) { Expr *e = table[i]; if (e->k == k && e->w == w && e->aux == aux && e->a == a && e->b == b && e->c == c && e->v == v) return e; i = (i + 1) & msk; }
  pool.emplace_back(); Expr *e = &pool.back();
  e->k = k; e->w = w; e->aux = aux; e->id = pool.size(); e->a = a; e->b = b; e->c = c; e->v = v; e->evGen = 0; e->z = nullptr;
  e->depth = 0; if (a) { e->vars.merge(a->vars); e->depth = std::max(e->depth, a->depth + 1); } if (b) { e->vars.merge(b->vars); e->depth = std::max(e->depth, b->depth + 1); } if (c) { e->vars.merge(c->vars); e->depth = std::max(e->depth, c->depth + 1); }
  if (k == E_VAR) e->vars.add(aux);
  e->umax = computeUmax(k, w, aux, a, b, c, v);
  table[i] = e;
  if (++tableCount * 2 > table.size()) {
    std::vector<Expr *> nt(table.size() * 2, nullptr); size_t nm = nt.size() - 1;
    for (Expr *x : table) if (x) { size_t j = hashOf(x->k, x->w, x->aux, x->a, x->b, x->c, x->v) & nm; while (nt[j]) j = (j + 1) & nm; nt[j] = x; }
    table.swap(nt);
  }
  return e;
}
Expr *mkConst(u128 v, unsigned w) { return intern(E_CONST, w, 0, 0, 0, 0, v & maskw(w)); }
Expr *mkVar(unsigned idx, unsigned w) { if (idx >= (unsigned)MAXVARS) fatal("too many symbolic variables"); return intern(E_VAR, w, idx, 0, 0, 0, 0); }
Expr *mkOpaque() { return intern(E_OPAQUE, 64, 0, 0, 0, 0, 0); }
u128 evalBin(EK k, u128 x, u128 y, unsigned w) {
  u128 m = maskw(w); x &= m; y &= m;
  switch (k) {
  case E_ADD: return (x + y) & m;
  case E_MUL: return (x * y) & m;
  case E_UDIV: return y ? x / y : m;
  case E_UREM: return y ? x % y : x;
  case E_SDIV: { i128 a = sext128(x, w), b = sext128(y, w); if (b == 0) return a < 0 ? 1 : m; if (b == -1) return (u128)(-a) & m; return (u128)(a / b) & m; }
  case E_SREM: { i128 a = sext128(x, w), b = sext128(y, w); if (b == 0) return x; if (b == -1) return 0; return (u128)(a % b) & m; }
  case E_SHL: return y >= w ? 0 : (x << (unsigned)y) & m;
  case E_LSHR: return y >= w ? 0 : x >> (unsigned)y;
  case E_ASHR: { i128 a = sext128(x, w); unsigned s = y >= w ? w - 1 : (unsigned)y; return (u128)(a >> s) & m; }
  case E_AND: return x & y; case E_OR: return x | y; case E_XOR: return x ^ y;
  case E_EQ: return x == y; case E_ULT: return x < y; case E_SLT: return sext128(x, w) < sext128(y, w);
  default: fatal("evalBin");
  }
}
static inline bool isC(Expr *e) { return e->k == E_CONST; }
static inline bool isAllOnes(Expr *e) { return isC(e) && e->v == maskw(e->w); }
Expr *mkNot(Expr *a) {
  if (isC(a)) return mkConst(!(a->v & 1), 1);
  if (a->k == E_NOT) return a->a;
  return intern(E_NOT, 1, 0, a, 0, 0, 0);
}
// number of low bits known zero
static unsigned lowZeros(Expr *e) {
  switch (e->k) {
  case E_CONST: { if (!e->v) return e->w; unsigned n = 0; while (!((e->v >> n) & 1)) n++; return n; }
  case E_CONCAT: { unsigned n = lowZeros(e->b); return n == e->b->w ? n + lowZeros(e->a) : n; }
  case E_ZEXT: { unsigned n = lowZeros(e->a); return n == e->a->w ? e->w : n; }
  case E_SHL: return isC(e->b) ? std::min<u128>(e->w, lowZeros(e->a) + e->b->v) : 0;
  case E_AND: return std::max(lowZeros(e->a), lowZeros(e->b));
  case E_OR: case E_ADD: case E_XOR: return std::min(lowZeros(e->a), lowZeros(e->b));
  case E_MUL: return std::min<unsigned>(e->w, lowZeros(e->a) + lowZeros(e->b));
  default: return 0;
  }
}
static bool iteConsts(Expr *e) { return e->k == E_ITE && isC(e->b) && isC(e->c); }
Expr *mkBin(EK k, Expr *a, Expr *b) {
  unsigned w = a->w;
  if (a->w != b->w) fatal("mkBin width mismatch %u %u kind %d", a->w, b->w, k);
  unsigned rw = (k == E_EQ || k == E_ULT || k == E_SLT) ? 1 : w;
  if (isC(a) && isC(b)) return mkConst(evalBin(k, a->v, b->v, w), rw);
  bool comm = k == E_ADD || k == E_MUL || k == E_AND || k == E_OR || k == E_XOR || k == E_EQ;
  if (comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
  u128 m = maskw(w);
  switch (k) {
  case E_ADD:
    if (isC(b)) { if (!b->v) return a;
      if (a->k == E_ADD && isC(a->b)) return mkBin(E_ADD, a->a, mkConst(a->b->v + b->v, w));
      if (iteConsts(a)) return mkIte(a->a, mkConst(a->b->v + b->v, w), mkConst(a->c->v + b->v, w));
      // a zero-extended narrower addition cannot be pulled out (wraps), leave it
    } else {
      if (a->k == E_ADD && isC(a->b)) return mkBin(E_ADD, mkBin(E_ADD, a->a, b), a->b);
      if (b->k == E_ADD && isC(b->b)) return mkBin(E_ADD, mkBin(E_ADD, a, b->a), b->b);
      // x + ~x = -1
      if ((a->k == E_XOR && a->a == b && isAllOnes(a->b)) || (b->k == E_XOR && b->a == a && isAllOnes(b->b))) return mkConst(m, w);
    }
    break;
  case E_MUL:
    if (isC(b)) { if (!b->v) return b; if (b->v == 1) return a;
      if ((b->v & (b->v - 1)) == 0) { unsigned s = 0; while (!((b->v >> s) & 1)) s++; return mkBin(E_SHL, a, mkConst(s, w)); }
      if (iteConsts(a)) return mkIte(a->a, mkConst(a->b->v * b->v, w), mkConst(a->c->v * b->v, w)); }
    break;
  case E_UDIV: case E_UREM:
    if (isC(b) && b->v) { if (b->v == 1) return k == E_UDIV ? a : mkConst(0, w);
      if ((b->v & (b->v - 1)) == 0) { unsigned s = 0; while (!((b->v >> s) & 1)) s++; return k == E_UDIV ? mkBin(E_LSHR, a, mkConst(s, w)) : mkBin(E_AND, a, mkConst(b->v - 1, w)); }
      if (a->umax < b->v) return k == E_UDIV ? mkConst(0, w) : a;
      if (a->k == E_ZEXT && b->v <= maskw(a->a->w)) return mkZext(mkBin(k, a->a, mkConst(b->v, a->a->w)), w); }
    break;
  case E_SHL:
    if (isC(a) && !a->v) return a;
    if (isC(b)) { if (!b->v) return a; if (b->v >= w) return mkConst(0, w); unsigned s = (unsigned)b->v; return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s)); }
    break;
  case E_LSHR:
    if (isC(a) && !a->v) return a;
    if (isC(b)) { if (!b->v) return a; if (b->v >= w) return mkConst(0, w); unsigned s = (unsigned)b->v; return mkZext(mkExtract(a, s, w - s), w); }
    break;
  case E_ASHR:
    if (isC(b)) { if (!b->v) return a; unsigned s = b->v >= w ? w - 1 : (unsigned)b->v; return mkSext(mkExtract(a, s, w - s), w); }
    break;
  case E_AND:
    if (a == b) return a;
    if (w == 1) { if ((a->k == E_NOT && a->a == b) || (b->k == E_NOT && b->a == a)) return mkConst(0, 1); }
    if (isC(b)) { if (!b->v) return b; if (b->v == m) return a;
      if ((fillBits(a->umax) & ~b->v) == 0) return a; // mask covers every possible bit
      if ((fillBits(a->umax) & b->v) == 0) return mkConst(0, w);
      if (a->k == E_AND && isC(a->b)) return mkBin(E_AND, a->a, mkConst(a->b->v & b->v, w));
      if (a->k == E_ZEXT) return mkZext(mkBin(E_AND, a->a, mkConst(b->v, a->a->w)), w);
      if (((b->v + 1) & b->v) == 0) { unsigned n = 0; while ((b->v >> n) & 1) n++; return mkZext(mkExtract(a, 0, n), w); }
      if (a->k == E_CONCAT) return mkConcat(mkBin(E_AND, a->a, mkConst(b->v >> a->b->w, a->a->w)), mkBin(E_AND, a->b, mkConst(b->v, a->b->w)));
      if (iteConsts(a)) return mkIte(a->a, mkConst(a->b->v & b->v, w), mkConst(a->c->v & b->v, w)); }
    if (a->k == E_SEXT && a->a->w == 1) return mkIte(a->a, b, mkConst(0, w));
    if (b->k == E_SEXT && b->a->w == 1) return mkIte(b->a, a, mkConst(0, w));
    break;
  case E_OR:
    if (a == b) return a;
    if (w == 1) { if ((a->k == E_NOT && a->a == b) || (b->k == E_NOT && b->a == a)) return mkConst(1, 1); }
    if (isC(b)) { if (!b->v) return a; if (b->v == m) return b;
      if (iteConsts(a)) return mkIte(a->a, mkConst(a->b->v | b->v, w), mkConst(a->c->v | b->v, w)); }
    if (w > 1) for (int t = 0; t < 2; t++) { // disjoint pieces become a concat
      Expr *x = t ? b : a, *y = t ? a : b; unsigned lz = lowZeros(x);
      if (lz && lz < w && y->umax <= maskw(lz) && !isC(x)) return mkConcat(mkExtract(x, lz, w - lz), mkExtract(y, 0, lz)); }
    if (a->k == E_CONCAT && b->k == E_CONCAT && a->b->w == b->b->w) return mkConcat(mkBin(E_OR, a->a, b->a), mkBin(E_OR, a->b, b->b));
    break;
  case E_XOR:
    if (a == b) return mkConst(0, w);
    if (w == 1) { if (isC(b)) return b->v ? mkNot(a) : a; if (a->k == E_NOT) return mkNot(mkBin(E_XOR, a->a, b)); if (b->k == E_NOT) return mkNot(mkBin(E_XOR, a, b->a)); }
    if (isC(b)) { if (!b->v) return a; if (a->k == E_XOR && isC(a->b)) return mkBin(E_XOR, a->a, mkConst(a->b->v ^ b->v, w));
      if (iteConsts(a)) return mkIte(a->a, mkConst(a->b->v ^ b->v, w), mkConst(a->c->v ^ b->v, w)); }
    break;
  case E_EQ:
    if (a == b) return mkConst(1, 1);
    if (w == 1) { if (isC(b)) return b->v ? a : mkNot(a); return mkNot(mkBin(E_XOR, a, b)); }
    if (isC(b)) {
      if (b->v > a->umax) return mkConst(0, 1);
      switch (a->k) {
      case E_ZEXT: return mkEq(a->a, mkConst(b->v, a->a->w));
      case E_SEXT: { u128 lo = b->v & maskw(a->a->w); if (((u128)sext128(lo, a->a->w) & m) != b->v) return mkConst(0, 1); return mkEq(a->a, mkConst(lo, a->a->w)); }
      case E_CONCAT: return mkAnd1(mkEq(a->a, mkConst(b->v >> a->b->w, a->a->w)), mkEq(a->b, mkConst(b->v, a->b->w)));
      case E_ADD: if (isC(a->b)) return mkEq(a->a, mkConst(b->v - a->b->v, w)); break;
      case E_XOR: if (isC(a->b)) return mkEq(a->a, mkConst(b->v ^ a->b->v, w)); break;
      case E_ITE: { bool bc = isC(a->b), cc = isC(a->c);
        if (bc && cc) { bool t = a->b->v == b->v, f = a->c->v == b->v; return t ? (f ? mkConst(1, 1) : a->a) : (f ? mkNot(a->a) : mkConst(0, 1)); }
        if (bc) { return a->b->v == b->v ? mkOr1(a->a, mkEq(a->c, b)) : mkAnd1(mkNot(a->a), mkEq(a->c, b)); }
        if (cc) { return a->c->v == b->v ? mkOr1(mkNot(a->a), mkEq(a->b, b)) : mkAnd1(a->a, mkEq(a->b, b)); }
        break; }
      default: break;
      }
    } else {
      if (a->k == E_ZEXT && b->k == E_ZEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
      if (a->k == E_CONCAT && b->k == E_CONCAT && a->b->w == b->b->w) return mkAnd1(mkEq(a->a, b->a), mkEq(a->b, b->b));
      if (a->k == E_ADD && b->k == E_ADD && isC(a->b) && isC(b->b) && a->b == b->b) return mkEq(a->a, b->a);
    }
    break;
  case E_ULT:
    if (a == b) return mkConst(0, 1);
    if (isC(b)) { if (!b->v) return mkConst(0, 1); if (a->umax < b->v) return mkConst(1, 1);
      if (b->v == 1) return mkEq(a, mkConst(0, w));
      if (a->k == E_ZEXT) return mkUlt(a->a, mkConst(b->v, a->a->w));
      if (a->k == E_CONCAT && (b->v & maskw(a->b->w)) == 0) return mkUlt(a->a, mkConst(b->v >> a->b->w, a->a->w));
      if (a->k == E_CONCAT && isC(a->a)) { u128 hi = b->v >> a->b->w; if (a->a->v < hi) return mkConst(1, 1); if (a->a->v > hi) return mkConst(0, 1); return mkUlt(a->b, mkConst(b->v, a->b->w)); }
      if (iteConsts(a)) return mkIte(a->a, mkConst(a->b->v < b->v, 1), mkConst(a->c->v < b->v, 1)); }
    if (isC(a)) { if (a->v >= b->umax) return mkConst(0, 1); if (!a->v) return mkNot(mkEq(b, mkConst(0, w)));
      if (b->k == E_ZEXT) return mkUlt(mkConst(a->v, b->a->w), b->a);
      if (iteConsts(b)) return mkIte(b->a, mkConst(a->v < b->b->v, 1), mkConst(a->v < b->c->v, 1)); }
    if (a->k == E_ZEXT && b->k == E_ZEXT && a->a->w == b->a->w) return mkUlt(a->a, b->a);
    break;
  case E_SLT:
    if (a == b) return mkConst(0, 1);
    { u128 sgn = (u128)1 << (w - 1);
      if (a->umax < sgn && b->umax < sgn) return mkUlt(a, b);
      if (isC(b) && b->v == 0) return mkEq(mkExtract(a, w - 1, 1), mkConst(1, 1));
      if (isC(b) && b->v >= sgn && a->umax < sgn) return mkConst(0, 1);
      if (isC(a) && a->v >= sgn && b->umax < sgn) return mkConst(1, 1);
      if (a->k == E_SEXT && isC(b)) { i128 bv = sext128(b->v, w); unsigned aw = a->a->w; i128 mx = (i128)(maskw(aw) >> 1), mn = -mx - 1; if (bv > mx) return mkConst(1, 1); if (bv <= mn) return mkConst(0, 1); return mkSlt(a->a, mkConst((u128)bv, aw)); }
      if (b->k == E_SEXT && isC(a)) { i128 av = sext128(a->v, w); unsigned bw = b->a->w; i128 mx = (i128)(maskw(bw) >> 1), mn = -mx - 1; if (av >= mx) return mkConst(0, 1); if (av < mn) return mkConst(1, 1); return mkSlt(mkConst((u128)av, bw), b->a); } }
    break;
  default: break;
  }
  return intern(k, rw, 0, a, b, 0, 0);
}
Expr *mkIte(Expr *c, Expr *a, Expr *b) {
  if (isC(c)) return c->v ? a : b;
  if (a == b) return a;
  if (a->w != b->w) fatal("mkIte width");
  if (c->k == E_NOT) return mkIte(c->a, b, a);
  if (a->w == 1) {
    if (isC(a)) return a->v ? mkOr1(c, b) : mkAnd1(mkNot(c), b);
    if (isC(b)) return b->v ? mkOr1(mkNot(c), a) : mkAnd1(c, a);
  }
  if (a->k == E_ITE && a->a == c) a = a->b;
  if (b->k == E_ITE && b->a == c) b = b->c;
  if (a == b) return a;
  return intern(E_ITE, a->w, 0, c, a, b, 0);
}
Expr *mkZext(Expr *a, unsigned w) {
  if (a->w == w) return a; if (w < a->w) fatal("zext narrower");
  if (isC(a)) return mkConst(a->v, w);
  if (a->k == E_ZEXT) return mkZext(a->a, w);
  if (iteConsts(a)) return mkIte(a->a, mkConst(a->b->v, w), mkConst(a->c->v, w));
  return intern(E_ZEXT, w, 0, a, 0, 0, 0);
}
Expr *mkSext(Expr *a, unsigned w) {
  if (a->w == w) return a; if (w < a->w) fatal("sext narrower");
  if (isC(a)) return mkConst((u128)sext128(a->v, a->w), w);
  if (a->k == E_SEXT) return mkSext(a->a, w);
  if (a->w > 1 && a->umax < ((u128)1 << (a->w - 1))) return mkZext(a, w);
  if (iteConsts(a)) return mkIte(a->a, mkConst((u128)sext128(a->b->v, a->w), w), mkConst((u128)sext128(a->c->v, a->w), w));
  return intern(E_SEXT, w, 0, a, 0, 0, 0);
}
Expr *mkExtract(Expr *a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (lo + w > a->w) fatal("extract range");
  switch (a->k) {
  case E_CONST: return mkConst(a->v >> lo, w);
  case E_EXTRACT: return mkExtract(a->a, a->aux + lo, w);
  case E_ZEXT: if (lo >= a->a->w) return mkConst(0, w); if (lo + w <= a->a->w) return mkExtract(a->a, lo, w); return mkZext(mkExtract(a->a, lo, a->a->w - lo), w);
  case E_SEXT: if (lo + w <= a->a->w) return mkExtract(a->a, lo, w); if (lo < a->a->w) return mkSext(mkExtract(a->a, lo, a->a->w - lo), w); return mkSext(mkExtract(a->a, a->a->w - 1, 1), w);
  case E_CONCAT: { unsigned bw = a->b->w; if (lo >= bw) return mkExtract(a->a, lo - bw, w); if (lo + w <= bw) return mkExtract(a->b, lo, w); return mkConcat(mkExtract(a->a, 0, lo + w - bw), mkExtract(a->b, lo, bw - lo)); }
  case E_AND: case E_OR: case E_XOR: if (isC(a->b) || a->a->k == E_CONCAT || a->b->k == E_CONCAT || a->a->k == E_ZEXT || a->b->k == E_ZEXT) return mkBin(a->k, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w)); break;
  case E_ADD: case E_MUL: if (lo == 0) return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
  case E_ITE: if (isC(a->b) || isC(a->c) || (a->b->k == E_CONCAT || a->c->k == E_CONCAT)) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w)); break;
  default: break;
  }
  if (a->umax <= maskw(lo)) return mkConst(0, w);
  return intern(E_EXTRACT, w, lo, a, 0, 0, 0);
}
Expr *mkConcat(Expr *hi, Expr *lo) {
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return mkConst((hi->v << lo->w) | lo->v, w);
  if (isC(hi) && hi->v == 0) return mkZext(lo, w);
  if (hi->k == E_EXTRACT && lo->k == E_EXTRACT && hi->a == lo->a && hi->aux == lo->aux + lo->w) return mkExtract(hi->a, lo->aux, w);
  if (hi->k == E_ZEXT) return mkZext(mkConcat(hi->a, lo), w);
  // zext(x):n ++ where hi = extract of the same ite: keep ite together
  if (hi->k == E_ITE && lo->k == E_ITE && hi->a == lo->a) return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
  // right-associate so that adjacent extracts merge: (x ++ y) ++ z -> x ++ (y ++ z)
  if (hi->k == E_CONCAT) return mkConcat(hi->a, mkConcat(hi->b, lo));
  if (lo->k == E_CONCAT && hi->k == E_EXTRACT && lo->a->k == E_EXTRACT && hi->a == lo->a->a && hi->aux == lo->a->aux + lo->a->w) return mkConcat(mkExtract(hi->a, lo->a->aux, hi->w + lo->a->w), lo->b);
  if (lo->k == E_CONCAT && isC(hi) && isC(lo->a)) return mkConcat(mkConst((hi->v << lo->a->w) | lo->a->v, hi->w + lo->a->w), lo->b);
  return intern(E_CONCAT, w, 0, hi, lo, 0, 0);
}
static u64 evGen = 0;
static u128 ev(Expr *e, const Model &m) {
  if (e->k == E_CONST) return e->v;
  if (e->k == E_VAR) return m.val[e->aux] & maskw(e->w);
  if (e->k == E_OPAQUE) return OPAQUE_VALUE;
  if (e->evGen == evGen) return e->evVal;
  u128 r;
  switch (e->k) {
  case E_NOT: r = !ev(e->a, m); break;
  case E_ITE: r = ev(e->a, m) ? ev(e->b, m) : ev(e->c, m); break;
  case E_ZEXT: r = ev(e->a, m); break;
  case E_SEXT: r = (u128)sext128(ev(e->a, m), e->a->w) & maskw(e->w); break;
  case E_EXTRACT: r = (ev(e->a, m) >> e->aux) & maskw(e->w); break;
  case E_CONCAT: r = (ev(e->a, m) << e->b->w) | ev(e->b, m); break;
  default: r = evalBin(e->k, ev(e->a, m), ev(e->b, m), e->a->w);
  }
  e->evGen = evGen; e->evVal = r; return r;
}
u128 evalExpr(Expr *e, const Model &m) { evGen++; return ev(e, m); }

// ---------------------------------------------------------------- z3
SolverStats gStats; unsigned gQueryTimeoutMs = 60000;
static Z3_context ctx; static Z3_solver slv;
static void z3err(Z3_context c, Z3_error_code e) { fatal("z3 error: %s", Z3_get_error_msg(c, e)); }
void solverInit() {
  Z3_config cfg = Z3_mk_config(); ctx = Z3_mk_context(cfg); Z3_set_error_handler(ctx, z3err); Z3_del_config(cfg);
  slv = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, slv);
  Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), gQueryTimeoutMs);
  Z3_solver_set_params(ctx, slv, p);
}
static Z3_ast num(u128 v, unsigned w) {
  if (w <= 64) return Z3_mk_unsigned_int64(ctx, (u64)v, Z3_mk_bv_sort(ctx, w));
  return Z3_mk_concat(ctx, Z3_mk_unsigned_int64(ctx, (u64)(v >> 64), Z3_mk_bv_sort(ctx, w - 64)), Z3_mk_unsigned_int64(ctx, (u64)v, Z3_mk_bv_sort(ctx, 64)));
}
static Z3_ast tz(Expr *e);
static Z3_ast asBv(Expr *e) { Z3_ast z = tz(e); if (e->w == 1) return Z3_mk_ite(ctx, z, num(1, 1), num(0, 1)); return z; }
static Z3_ast tz(Expr *e) {
  if (e->z) return e->z;
  Z3_ast r;
  switch (e->k) {
  case E_CONST: r = e->w == 1 ? (e->v ? Z3_mk_true(ctx) : Z3_mk_false(ctx)) : num(e->v, e->w); break;
  case E_VAR: { char nm[32]; snprintf(nm, 32, "v%u", e->aux); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), Z3_mk_bv_sort(ctx, e->w)); break; }
  case E_OPAQUE: r = num(OPAQUE_VALUE, 64); break;
  case E_NOT: r = Z3_mk_not(ctx, tz(e->a)); break;
  case E_ITE: r = Z3_mk_ite(ctx, tz(e->a), tz(e->b), tz(e->c)); break;
  case E_ZEXT: if (e->a->w == 1) r = Z3_mk_ite(ctx, tz(e->a), num(1, e->w), num(0, e->w)); else r = Z3_mk_zero_ext(ctx, e->w - e->a->w, tz(e->a)); break;
  case E_SEXT: if (e->a->w == 1) r = Z3_mk_ite(ctx, tz(e->a), num(~(u128)0 & maskw(e->w), e->w), num(0, e->w)); else r = Z3_mk_sign_ext(ctx, e->w - e->a->w, tz(e->a)); break;
  case E_EXTRACT: { Z3_ast x = Z3_mk_extract(ctx, e->aux + e->w - 1, e->aux, asBv(e->a)); r = e->w == 1 ? Z3_mk_eq(ctx, x, num(1, 1)) : x; break; }
  case E_CONCAT: r = Z3_mk_concat(ctx, asBv(e->a), asBv(e->b)); break;
  case E_EQ: r = Z3_mk_eq(ctx, tz(e->a), tz(e->b)); break;
  case E_ULT: if (e->a->w == 1) { Z3_ast x[2] = {Z3_mk_not(ctx, tz(e->a)), tz(e->b)}; r = Z3_mk_and(ctx, 2, x); } else r = Z3_mk_bvult(ctx, tz(e->a), tz(e->b)); break;
  case E_SLT: if (e->a->w == 1) { Z3_ast x[2] = {tz(e->a), Z3_mk_not(ctx, tz(e->b))}; r = Z3_mk_and(ctx, 2, x); } else r = Z3_mk_bvslt(ctx, tz(e->a), tz(e->b)); break;
  default:
    if (e->w == 1) {
      Z3_ast x[2] = {tz(e->a), tz(e->b)};
      switch (e->k) {
      case E_AND: case E_MUL: r = Z3_mk_and(ctx, 2, x); break;
      case E_OR: r = Z3_mk_or(ctx, 2, x); break;
      case E_XOR: case E_ADD: r = Z3_mk_xor(ctx, x[0], x[1]); break;
      default: fatal("z3 bool op %d", e->k);
      }
    } else {
      Z3_ast x = tz(e->a), y = tz(e->b);
      switch (e->k) {
      case E_ADD: r = Z3_mk_bvadd(ctx, x, y); break; case E_MUL: r = Z3_mk_bvmul(ctx, x, y); break;
      case E_UDIV: r = Z3_mk_bvudiv(ctx, x, y); break; case E_SDIV: r = Z3_mk_bvsdiv(ctx, x, y); break;
      case E_UREM: r = Z3_mk_bvurem(ctx, x, y); break; case E_SREM: r = Z3_mk_bvsrem(ctx, x, y); break;
      case E_SHL: r = Z3_mk_bvshl(ctx, x, y); break; case E_LSHR: r = Z3_mk_bvlshr(ctx, x, y); break; case E_ASHR: r = Z3_mk_bvashr(ctx, x, y); break;
      case E_AND: r = Z3_mk_bvand(ctx, x, y); break; case E_OR: r = Z3_mk_bvor(ctx, x, y); break; case E_XOR: r = Z3_mk_bvxor(ctx, x, y); break;
      default: fatal("z3 op %d", e->k);
      }
    }
  }
  e->z = r; return r;
}
struct CacheVal { int res; std::vector<std::pair<u8, u8>> m; };
static std::unordered_map<std::string, CacheVal> qcache;
int solverCheck(const std::vector<Expr *> &cs, const VarSet &vars, Model &out) {
  std::vector<u32> ids; for (Expr *e : cs) ids.push_back(e->id);
  std::sort(ids.begin(), ids.end()); ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
  std::string key((const char *)ids.data(), ids.size() * 4);
  auto it = qcache.find(key);
  if (it != qcache.end()) { gStats.cached++; if (it->second.res == 1) for (auto &p : it->second.m) out.val[p.first] = p.second; return it->second.res; }
  auto t0 = std::chrono::steady_clock::now();
  gStats.queries++;
  Z3_solver_push(ctx, slv);
  for (Expr *e : cs) Z3_solver_assert(ctx, slv, tz(e));
  Z3_lbool r = Z3_solver_check(ctx, slv);
  CacheVal cv; cv.res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
  if (cv.res == 1) {
    gStats.sat++;
    Z3_model m = Z3_solver_get_model(ctx, slv); Z3_model_inc_ref(ctx, m);
    for (unsigned i = 0; i < (unsigned)MAXVARS; i++) if (vars.has(i)) {
      Z3_ast val; u64 x = 0; Expr *v = mkVar(i, 8);
      if (Z3_model_eval(ctx, m, tz(v), true, &val)) Z3_get_numeral_uint64(ctx, val, &x);
      out.val[i] = (u8)x; cv.m.push_back({(u8)i, (u8)x});
    }
    Z3_model_dec_ref(ctx, m);
  } else if (cv.res == 0) gStats.unsat++; else gStats.unknown++;
  Z3_solver_pop(ctx, slv, 1);
  gStats.usec += std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now() - t0).count();
  if (cv.res == 1) { // never trust a model the engine's own evaluator does not confirm
    for (Expr *e : cs) if (!evalExpr(e, out)) fatal("z3 model does not satisfy the query under the evaluator");
  }
  if (cv.res >= 0) qcache.emplace(std::move(key), cv);
  return cv.res;
}
std::string exprToStr(Expr *e, int d) {
  static const char *nm[] = {"const","var","add","mul","udiv","sdiv","urem","srem","shl","lshr","ashr","and","or","xor","eq","ult","slt","not","ite","zext","sext","extract","concat"};
  char buf[64];
  if (e->k == E_CONST) { snprintf(buf, 64, "%llx:%u", (unsigned long long)e->v, e->w); return buf; }
  if (e->k == E_VAR) { snprintf(buf, 64, "v%u", e->aux); return buf; }
  if (!d) return "...";
  std::string s = "("; s += nm[e->k]; snprintf(buf, 64, ":%u", e->w); s += buf; if (e->k == E_EXTRACT) { snprintf(buf, 64, "@%u", e->aux); s += buf; }
  if (e->a) s += " " + exprToStr(e->a, d - 1); if (e->b) s += " " + exprToStr(e->b, d - 1); if (e->c) s += " " + exprToStr(e->c, d - 1);
  return s + ")";
}
