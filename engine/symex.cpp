// Path-exploring symbolic executor for LLVM IR produced by rustc.  See DESIGN.md.
#include "ir.h"
#include <atomic>
#include <cmath>
#include <cstdarg>
#include <deque>
#include <map>
#include <set>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
static Module mod; static std::string curHarness; static int outFd = 1; static bool trace = false;
struct Shared { std::atomic<int> tokens; std::atomic<int> incomplete; std::atomic<int> errors; std::atomic<long> paths; std::atomic<int> viols; };
static Shared *sh; static double deadline; static u64 maxInstr = 200000000ull; static int maxViol = 3;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static std::string jesc(const std::string &s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static void emit(const std::string &s) { std::string t = s + "\n"; ssize_t n = write(outFd, t.data(), t.size()); (void)n; }
void fatal(const char *fmt, ...) {
  char b[1000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  emit("{\"k\":\"error\",\"h\":\"" + jesc(curHarness) + "\",\"msg\":\"" + jesc(b) + "\"}"); if (sh) sh->errors++; fprintf(stderr, "symex: %s: %s\n", curHarness.c_str(), b); _exit(3);
}
struct Obj { int rc = 1; u64 base, size; bool ro = false; std::vector<u8> data; std::vector<Expr *> sym; };
struct Chunk { int rc = 1; Obj *o[64] = {}; ~Chunk() {} };
static void decObj(Obj *o) { if (o && --o->rc == 0) delete o; }
static void decChunk(Chunk *c) { if (c && --c->rc == 0) { for (Obj *o : c->o) decObj(o); delete c; } }
struct Table { std::vector<Chunk *> c;
  Table() {} Table(const Table &t) : c(t.c) { for (Chunk *x : c) if (x) x->rc++; }
  Table &operator=(const Table &) = delete; ~Table() { for (Chunk *x : c) decChunk(x); }
  Obj *get(u64 i) const { u64 k = i >> 6; return k < c.size() && c[k] ? c[k]->o[i & 63] : nullptr; }
  Chunk *own(u64 k) { if (k >= c.size()) c.resize(k + 1, nullptr); if (!c[k]) c[k] = new Chunk(); else if (c[k]->rc > 1) { Chunk *n = new Chunk(); for (int i = 0; i < 64; i++) { n->o[i] = c[k]->o[i]; if (n->o[i]) n->o[i]->rc++; } c[k]->rc--; c[k] = n; } return c[k]; }
  void set(u64 i, Obj *o) { Chunk *k = own(i >> 6); decObj(k->o[i & 63]); k->o[i & 63] = o; } };
struct Frame { int rc = 1; Func *f; int blk = 0, prev = -1; u32 ip = 0; std::vector<SV> regs; u64 stack = 0, va = 0; Inst *call = nullptr; };
// A thread that is not running (the running one's frames are State::st). status: 0 ready, 1 waiting on a futex or asleep, 2 waiting for another thread, 3 ended
struct Thread { std::vector<Frame *> st; u64 errnoAddr = 0, key = 0, wakeAt = ~0ull; int status = 0; Inst *res = nullptr; u128 resv = 0; };
struct State {
  std::vector<Thread> th; int cur = 0, sw = 0, delays = 0, maxDelays = 0; std::vector<int> ready; u64 clock = 0, points = 0, keys = 0; std::map<std::pair<int, u64>, u64> tls; size_t runDepth = 0; Inst *runInst = nullptr; std::vector<u32> sched;
  std::vector<Frame *> st; Table glob, stack, heap; u64 heapNext = 0; std::vector<u64> freeIds; std::vector<Expr *> pc; std::unordered_map<Expr *, u128> known; Model model; unsigned nin = 0; u64 instrs = 0; u64 forks = 0;
  std::vector<std::pair<u128, Expr *>> obs; u64 errnoAddr = 0; bool opaque = false, xp = false;
  State() { memset(&model, 0, sizeof model); }
  State(const State &o) : th(o.th), cur(o.cur), sw(o.sw), delays(o.delays), maxDelays(o.maxDelays), ready(o.ready), clock(o.clock), points(o.points), keys(o.keys), tls(o.tls), runDepth(o.runDepth), runInst(o.runInst), sched(o.sched), st(o.st), glob(o.glob), stack(o.stack), heap(o.heap), heapNext(o.heapNext), freeIds(o.freeIds), pc(o.pc), known(o.known), model(o.model), nin(o.nin), instrs(o.instrs), forks(o.forks), obs(o.obs), errnoAddr(o.errnoAddr), opaque(o.opaque), xp(o.xp) { for (Frame *f : st) f->rc++; for (Thread &x : th) for (Frame *f : x.st) f->rc++; }
  ~State() { for (Frame *f : st) if (--f->rc == 0) delete f; for (Thread &x : th) for (Frame *f : x.st) if (--f->rc == 0) delete f; }
};
static std::vector<State *> pending; static State *S;
// ---- per-process statistics
struct LabelStat { u64 reached = 0, proved = 0, trivial = 0, failed = 0; };
static std::map<std::string, LabelStat> labels; static std::map<std::string, u64> covers; static std::map<std::string, int> violSeen;
static u64 stInstr, stForks, stPaths, stPanics, stInfeasible, stConc; static u64 sampled;
static void resetStats() { labels.clear(); covers.clear(); stInstr = stForks = stPaths = stPanics = stInfeasible = stConc = 0; sampled = 0; gStats = SolverStats(); for (Func *f : mod.funcList) f->mark = false; }
static void flushStats() {
  std::string s = "{\"k\":\"stats\",\"h\":\"" + jesc(curHarness) + "\""; char b[600];
  snprintf(b, sizeof b, ",\"instrs\":%llu,\"forks\":%llu,\"paths\":%llu,\"panics\":%llu,\"infeasible\":%llu,\"conc\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cached\":%llu,\"solver_us\":%llu", (unsigned long long)stInstr, (unsigned long long)stForks, (unsigned long long)stPaths, (unsigned long long)stPanics, (unsigned long long)stInfeasible, (unsigned long long)stConc, (unsigned long long)gStats.queries, (unsigned long long)gStats.sat, (unsigned long long)gStats.unsat, (unsigned long long)gStats.unknown, (unsigned long long)gStats.cached, (unsigned long long)gStats.usec); s += b;
  s += ",\"labels\":{"; bool first = true; for (auto &l : labels) { snprintf(b, sizeof b, "%s\"%s\":[%llu,%llu,%llu,%llu]", first ? "" : ",", jesc(l.first).c_str(), (unsigned long long)l.second.reached, (unsigned long long)l.second.proved, (unsigned long long)l.second.trivial, (unsigned long long)l.second.failed); s += b; first = false; }
  s += "},\"covers\":{"; first = true; for (auto &l : covers) { snprintf(b, sizeof b, "%s\"%s\":%llu", first ? "" : ",", jesc(l.first).c_str(), (unsigned long long)l.second); s += b; first = false; } s += "}}"; emit(s);
  std::string fl; for (Func *f : mod.funcList) if (f->mark) { if (fl.size() > 3000) { emit("{\"k\":\"funcs\",\"h\":\"" + jesc(curHarness) + "\",\"f\":[" + fl + "]}"); fl.clear(); } if (!fl.empty()) fl += ","; fl += "\"" + jesc(f->name) + "\""; }
  if (!fl.empty()) emit("{\"k\":\"funcs\",\"h\":\"" + jesc(curHarness) + "\",\"f\":[" + fl + "]}");
}
static std::string inputsHex(const Model &m, unsigned n) { std::string s; char b[4]; for (unsigned i = 0; i < n; i++) { snprintf(b, 4, "%02x", m.val[i]); s += b; } return s; }
static std::string backtrace() { std::string s; int n = 0; for (int i = (int)S->st.size() - 1; i >= 0 && n < 14; i--, n++) { if (n) s += " < "; s += S->st[i]->f->name; } return s; }
static std::string schedule() { std::string s; for (u32 p : S->sched) { if (!s.empty()) s += " "; s += std::to_string(p); } return s; } // the points at which the running thread was put off
static void reportViolation(const std::string &kind, const std::string &label, const Model &m) {
  auto &n = violSeen[kind + label]; if (++n > maxViol) return; sh->viols++;
  emit("{\"k\":\"violation\",\"h\":\"" + jesc(curHarness) + "\",\"kind\":\"" + kind + "\",\"label\":\"" + jesc(label) + "\",\"inputs\":\"" + inputsHex(m, S->nin) + "\",\"schedule\":\"" + schedule() + "\",\"bt\":\"" + jesc(backtrace().substr(0, 2500)) + "\"}");
}
// ---- memory
static std::vector<Obj *> globCache; static std::vector<Global *> globByPage; static u64 nGlobPages;
static std::vector<u64> errBuf;
struct PathEnd { int code; };   // thrown to stop the current path
[[noreturn]] static void pathError(const char *fmt, ...) { char b[600]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); emit("{\"k\":\"patherror\",\"h\":\"" + jesc(curHarness) + "\",\"msg\":\"" + jesc(b) + "\",\"inputs\":\"" + inputsHex(S->model, S->nin) + "\",\"bt\":\"" + jesc(backtrace().substr(0, 2000)) + "\"}"); sh->errors++; throw PathEnd{2}; }
static Obj *findObj(u64 addr) {
  Obj *o = nullptr;
  if (addr >= HEAP_BASE && addr < HEAP_BASE + (1ull << 38)) o = S->heap.get((addr - HEAP_BASE) >> PAGE_SHIFT);
  else if (addr >= STACK_BASE && addr < HEAP_BASE) o = S->stack.get((addr - STACK_BASE) >> PAGE_SHIFT);
  else if (addr >= GLOBAL_BASE && addr < STACK_BASE) { u64 i = (addr - GLOBAL_BASE) >> PAGE_SHIFT; if (i < nGlobPages) { o = S->glob.get(i); if (!o) { o = globCache[i]; if (!o) { Global *g = globByPage[i]; o = new Obj(); o->base = g->addr; o->size = g->size; o->ro = g->isConst; mod.initGlobal(g, o->data); u64 i0 = (g->addr - GLOBAL_BASE) >> PAGE_SHIFT, n = (g->size >> PAGE_SHIFT) + 1; for (u64 k = 0; k < n; k++) { globCache[i0 + k] = o; o->rc++; } } } } }
  return o;
}
static Obj *writable(u64 addr) {
  Obj *o = findObj(addr); if (!o) return nullptr; if (o->ro) return nullptr;
  Table *t; u64 b; if (o->base >= HEAP_BASE) { t = &S->heap; b = HEAP_BASE; } else if (o->base >= STACK_BASE) { t = &S->stack; b = STACK_BASE; } else { t = &S->glob; b = GLOBAL_BASE; }
  u64 i0 = (o->base - b) >> PAGE_SHIFT, n = (o->size >> PAGE_SHIFT) + 1; Chunk *c = t->own(i0 >> 6); Obj *cur = c->o[i0 & 63];
  if (cur == o && o->rc == (int)n) return o;
  Obj *x = new Obj(*o); x->rc = (int)n; for (u64 k = 0; k < n; k++) { Chunk *ck = t->own((i0 + k) >> 6); decObj(ck->o[(i0 + k) & 63]); ck->o[(i0 + k) & 63] = x; } return x;
}
static u64 heapAlloc(u64 size) {
  u64 n = (size >> PAGE_SHIFT) + 1; u64 id; if (size > (1ull << 32)) pathError("allocation of %llu bytes", (unsigned long long)size);
  if (n == 1 && !S->freeIds.empty()) { id = S->freeIds.back(); S->freeIds.pop_back(); } else { id = S->heapNext; S->heapNext += n; }
  Obj *o = new Obj(); o->base = HEAP_BASE + (id << PAGE_SHIFT); o->size = size; o->data.assign(size, 0xAA); o->rc = (int)n; for (u64 k = 0; k < n; k++) S->heap.set(id + k, o); return o->base;
}
static void heapFree(u64 addr) { if (!addr) return; Obj *o = findObj(addr); if (!o || o->base != addr || addr < HEAP_BASE) pathError("bad free %llx", (unsigned long long)addr); u64 id = (addr - HEAP_BASE) >> PAGE_SHIFT, n = (o->size >> PAGE_SHIFT) + 1; for (u64 k = 0; k < n; k++) S->heap.set(id + k, nullptr); if (n == 1) S->freeIds.push_back(id); }
static int followMode = 0; static std::vector<u8> followIn; // debugging: 1 = concrete run on given inputs, 2 = symbolic run following them, both dumping register values
static Expr *OPQ; // opaque hash state, once a harness asks for it
static inline Expr *toE(const SV &v, unsigned w) { return v.e ? (v.e == OPQ ? mkConst(OPAQUE_VALUE, 64) : v.e) : mkConst(v.v, w); }
static inline SV fromE(Expr *e) { if (e->k == E_CONST) return {e->v, nullptr}; return {0, e}; }
static Obj *checkAccess(u64 addr, u64 n, const char *what) { Obj *o = findObj(addr); if (!o || addr < o->base || addr + n > o->base + o->size) pathError("out-of-bounds %s of %llu bytes at %llx (object %llx+%llu)", what, (unsigned long long)n, (unsigned long long)addr, o ? (unsigned long long)o->base : 0ull, o ? (unsigned long long)o->size : 0ull); return o; }
static SV loadScalarObj(Obj *o, u64 off, unsigned w) {
  unsigned n = (w + 7) / 8; bool sym = false;
  if (!o->sym.empty()) for (unsigned i = 0; i < n; i++) if (o->sym[off + i]) { sym = true; break; }
  if (!sym) { u128 v = 0; memcpy(&v, &o->data[off], n); return {v & maskw(w), nullptr}; }
  Expr *e = nullptr; for (int i = (int)n - 1; i >= 0; i--) { Expr *b = o->sym[off + i] ? o->sym[off + i] : mkConst(o->data[off + i], 8); e = e ? mkConcat(e, b) : b; }
  if (e->w > w) e = mkExtract(e, 0, w); return fromE(e);
}
static SV loadScalar(u64 addr, unsigned w) { Obj *o = checkAccess(addr, (w + 7) / 8, "load"); return loadScalarObj(o, addr - o->base, w); }
static void storeScalar(u64 addr, const SV &v, unsigned w) {
  unsigned n = (w + 7) / 8; checkAccess(addr, n, "store"); Obj *o = writable(addr); if (!o) pathError("store to read-only %llx", (unsigned long long)addr); u64 off = addr - o->base;
  if (!v.e) { u128 x = v.v; memcpy(&o->data[off], &x, n); if (!o->sym.empty()) for (unsigned i = 0; i < n; i++) o->sym[off + i] = nullptr; return; }
  if (o->sym.empty()) o->sym.assign(o->size, nullptr);
  Expr *e = mkZext(v.e, n * 8); for (unsigned i = 0; i < n; i++) { Expr *b = mkExtract(e, i * 8, 8); if (b->k == E_CONST) { o->data[off + i] = (u8)b->v; o->sym[off + i] = nullptr; } else o->sym[off + i] = b; }
}
static void memCopy(u64 d, u64 s, u64 n) {
  if (!n) return; Obj *so = checkAccess(s, n, "memcpy read"); checkAccess(d, n, "memcpy write");
  std::vector<u8> tmp(so->data.begin() + (s - so->base), so->data.begin() + (s - so->base) + n); std::vector<Expr *> ts; bool any = false; if (!so->sym.empty()) { ts.assign(so->sym.begin() + (s - so->base), so->sym.begin() + (s - so->base) + n); for (Expr *e : ts) if (e) { any = true; break; } }
  Obj *o = writable(d); if (!o) pathError("memcpy to read-only"); u64 off = d - o->base; memcpy(&o->data[off], tmp.data(), n);
  if (any) { if (o->sym.empty()) o->sym.assign(o->size, nullptr); std::copy(ts.begin(), ts.end(), o->sym.begin() + off); } else if (!o->sym.empty()) std::fill(o->sym.begin() + off, o->sym.begin() + off + n, nullptr);
}
// ---- constraints
static void addConstraint(State *s, Expr *c) {
  if (c->k == E_CONST) { if (!c->v) fatal("adding false constraint"); return; }
  s->known[c] = 1; Expr *nc = mkNot(c); s->known[nc] = 0;
  if (c->k == E_AND) { addConstraint(s, c->a); addConstraint(s, c->b); return; }
  if (c->k == E_NOT && c->a->k == E_OR) { addConstraint(s, mkNot(c->a->a)); addConstraint(s, mkNot(c->a->b)); return; }
  if (c->k == E_EQ && c->b->k == E_CONST) s->known[c->a] = c->b->v;
  s->pc.push_back(c);
}
static int feasible(State *s, Expr *c, Model &m) {
  if (c->k == E_CONST) { m = s->model; return c->v ? 1 : 0; }
  VarSet vs = c->vars; std::vector<Expr *> cs; std::vector<bool> used(s->pc.size(), false); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < s->pc.size(); i++) if (!used[i] && s->pc[i]->vars.inter(vs)) { used[i] = true; cs.push_back(s->pc[i]); if (!s->pc[i]->vars.subset(vs)) { vs.merge(s->pc[i]->vars); ch = true; } } }
  cs.push_back(c); m = s->model; int r = solverCheck(cs, vs, m); if (r < 0) pathError("solver returned unknown"); return r;
}
static void maybeDonate(); static void endRun(); static void wakeJoiners(); static Frame *reschedule(bool);
static void forkState(Expr *other, const Model &m) { if (followMode) return; State *n = new State(*S); n->model = m; addConstraint(n, other); n->forks++; S->forks++; stForks++; pending.push_back(n); }
// boolean decision on a symbolic condition: returns the side this state continues on
static bool decide(Expr *c) {
  auto k = S->known.find(c); if (k != S->known.end()) return k->second != 0;
  bool v = evalExpr(c, S->model) != 0; Expr *taken = v ? c : mkNot(c), *other = v ? mkNot(c) : c; Model m;
  if (feasible(S, other, m)) { forkState(other, m); addConstraint(S, taken); maybeDonate(); } else { S->known[c] = v; S->known[mkNot(c)] = !v; }
  return v;
}
static u128 concretize(SV &v, unsigned w) {
  if (!v.e) return v.v;
  if (v.e == OPQ) { v = {OPAQUE_VALUE, nullptr}; return v.v; }
  auto k = S->known.find(v.e); if (k != S->known.end()) { v = {k->second, nullptr}; return v.v; }
  u128 x = evalExpr(v.e, S->model); Expr *eq = mkEq(v.e, mkConst(x, v.e->w)); Model m;
  if (feasible(S, mkNot(eq), m)) { forkState(mkNot(eq), m); addConstraint(S, eq); stConc++; maybeDonate(); }
  S->known[v.e] = x; v = {x, nullptr}; return x;
}
// ---- execution
static Frame *topw() { Frame *&f = S->st.back(); if (f->rc > 1) { Frame *n = new Frame(*f); n->rc = 1; f->rc--; f = n; } return f; }
static inline SV getv(Frame *F, int o) { return o >= 0 ? F->regs[o] : F->f->consts[~o]; }
static inline int osl(int b, u32 i) { return b >= 0 ? b + (int)i : ~(~b + (int)i); }
static SV binop(u8 k, const SV &a, const SV &b, unsigned w) {
  if (!a.e && !b.e) {
    if (w <= 64) { u64 x = (u64)a.v, y = (u64)b.v, m = (u64)maskw(w); switch (k) { case E_ADD: return {(x + y) & m, 0}; case 255: return {(x - y) & m, 0}; case E_AND: return {x & y, 0}; case E_OR: return {x | y, 0}; case E_XOR: return {x ^ y, 0}; case E_MUL: return {(x * y) & m, 0}; case E_SHL: return {y >= w ? 0 : (x << y) & m, 0}; case E_LSHR: return {y >= w ? 0 : x >> y, 0}; default: break; } }
    if (k == 255) return {(a.v - b.v) & maskw(w), 0};
    return {evalBin((EK)k, a.v, b.v, w), nullptr};
  }
  if (OPQ && (a.e == OPQ || b.e == OPQ) && (k == E_ADD || k == E_XOR)) return {0, OPQ};
  Expr *x = toE(a, w), *y = toE(b, w); return fromE(k == 255 ? mkSub(x, y) : mkBin((EK)k, x, y));
}
static SV icmp(u8 p, const SV &a, const SV &b, unsigned w) {
  if (!a.e && !b.e) { u128 x = a.v, y = b.v; i128 sx = 0, sy = 0; if (p >= 6) { sx = sext128(x, w); sy = sext128(y, w); } bool r; switch (p) { case 0: r = x == y; break; case 1: r = x != y; break; case 2: r = x > y; break; case 3: r = x >= y; break; case 4: r = x < y; break; case 5: r = x <= y; break; case 6: r = sx > sy; break; case 7: r = sx >= sy; break; case 8: r = sx < sy; break; default: r = sx <= sy; } return {r, nullptr}; }
  Expr *x = toE(a, w), *y = toE(b, w); Expr *r; switch (p) { case 0: r = mkEq(x, y); break; case 1: r = mkNot(mkEq(x, y)); break; case 2: r = mkUlt(y, x); break; case 3: r = mkNot(mkUlt(x, y)); break; case 4: r = mkUlt(x, y); break; case 5: r = mkNot(mkUlt(y, x)); break; case 6: r = mkSlt(y, x); break; case 7: r = mkNot(mkSlt(x, y)); break; case 8: r = mkSlt(x, y); break; default: r = mkNot(mkSlt(y, x)); } return fromE(r);
}
static double asD(u128 v, unsigned w) { if (w == 32) { u32 x = (u32)v; float f; memcpy(&f, &x, 4); return f; } u64 x = (u64)v; double d; memcpy(&d, &x, 8); return d; }
static u128 fromD(double d, unsigned w) { if (w == 32) { float f = (float)d; u32 x; memcpy(&x, &f, 4); return x; } u64 x; memcpy(&x, &d, 8); return x; }
// symbolic-address load of one scalar: a mux over the object when possible
static Expr *muxLoad(Obj *o, Expr *idx, u64 off0, u64 lo, u64 hi, u64 stride, unsigned w) { // entries lo..hi inclusive
  if (lo == hi) { SV v = loadScalarObj(o, off0 + lo * stride, w); return toE(v, w); }
  u64 mid = lo + (hi - lo) / 2; Expr *l = muxLoad(o, idx, off0, lo, mid, stride, w), *r = muxLoad(o, idx, off0, mid + 1, hi, stride, w); if (l == r) return l;
  return mkIte(mkUlt(idx, mkConst(mid + 1, idx->w)), l, r);
}
static u64 strideOf(Expr *e) { // largest power-of-two factor known
  switch (e->k) { case E_CONCAT: { if (e->b->k == E_CONST && e->b->v == 0) return (u64)1 << e->b->w; return 1; } case E_ZEXT: return strideOf(e->a); case E_MUL: return strideOf(e->a) * (e->b->k == E_CONST ? (u64)(e->b->v & -e->b->v) : 1); case E_ITE: return std::min(strideOf(e->b), strideOf(e->c)); case E_ADD: return std::min(strideOf(e->a), strideOf(e->b)); case E_CONST: return e->v ? (u64)(e->v & -e->v) : (1ull << 30); default: return 1; }
}
static bool symLoad(Expr *addr, unsigned w, SV &out) {
  unsigned n = (w + 7) / 8; u64 cbase = 0; Expr *x = addr;
  if (addr->k == E_ADD && addr->b->k == E_CONST) { x = addr->a; cbase = (u64)addr->b->v; }
  u64 a0 = (u64)evalExpr(addr, S->model); Obj *o = findObj(a0); if (!o || a0 < o->base || a0 + n > o->base + o->size) return false;
  if (o->size > 65536) return false;
  u64 stride = strideOf(x);
  if (cbase >= o->base && x->umax < (1 << 16) && cbase + (u64)x->umax + n <= o->base + o->size) {
    u64 cnt = (u64)x->umax / stride; if (cnt <= 4096) { Expr *ix = x; if (stride > 1) { unsigned s = 0; while ((1ull << s) < stride) s++; ix = mkBin(E_LSHR, x, mkConst(s, 64)); } out = fromE(muxLoad(o, ix, cbase - o->base, 0, cnt, stride, w)); return true; }
  }
  // is the address provably within the object?
  if (o->size < n || o->size > 4096) return false;
  Expr *rel = mkBin(E_ADD, addr, mkConst(-(u128)o->base, 64)); Expr *inb = mkNot(mkUlt(mkConst(o->size - n, 64), rel)); Model m; auto k = S->known.find(inb);
  if (k == S->known.end()) { if (feasible(S, mkNot(inb), m)) return false; S->known[inb] = 1; }
  // narrow the range with a few queries
  u64 lo = 0, hi = o->size - n; 
  { u64 l = 0, h = hi; while (l < h) { u64 mid = l + (h - l) / 2; if (feasible(S, mkUlt(mkConst(mid, 64), rel), m)) l = mid + 1; else h = mid; } hi = l; }
  { u64 l = 0, h = hi; while (l < h) { u64 mid = l + (h - l + 1) / 2; if (feasible(S, mkUlt(rel, mkConst(mid, 64)), m)) h = mid - 1; else l = mid; } lo = l; }
  if (hi - lo > 2048) return false;
  out = fromE(muxLoad(o, rel, 0, lo, hi, 1, w)); return true;
}
enum Intr { N_NONE = -1, N_NOP, N_MEMCPY, N_MEMSET, N_ASSUME, N_EXPECT, N_UMAX, N_UMIN, N_SMAX, N_SMIN, N_ABS, N_CTPOP, N_CTLZ, N_CTTZ, N_BSWAP, N_BITREV, N_FSHL, N_FSHR, N_UADDO, N_USUBO, N_UMULO, N_SADDO, N_SSUBO, N_SMULO, N_UADDS, N_USUBS, N_SADDS, N_SSUBS, N_UCMP, N_SCMP, N_TRAP, N_ISCONST, N_OBJSIZE, N_TLS, N_PTRMASK, N_BCMP, N_MEMCMP, N_STRLEN, N_MALLOC, N_CALLOC, N_REALLOC, N_FREE, N_MEMALIGN, N_ALIGNED, N_ZERO, N_NEG1, N_ERRNO, N_ABORT, N_PANIC, N_VASTART, N_HASHKEYS, N_SIPFIN, N_VREDUCE, N_PMOVMSK, N_MEMCHR, N_FLOAT,
  N_SYM_U8, N_SYM_ASSUME, N_SYM_CHECK, N_SYM_COVER, N_SYM_OBSERVE, N_SYM_CONC, N_SYM_OPQ, N_SYM_XP, N_WRITE, N_WRITEV, N_SYM_FMT, N_THREAD, N_JOIN, N_SELF, N_YIELD, N_SYSCALL, N_CLOCK, N_SLEEP, N_EXIT, N_SYM_RUN, N_SYM_SCHED, N_KEY, N_KEYSET, N_KEYGET, N_SYM_CALL, N_LAST };
static bool stubFmt = false;
static int classify(Func *f) {
  const std::string &n = f->name; auto sw = [&](const char *p) { return n.compare(0, strlen(p), p) == 0; }; auto has = [&](const char *p) { return n.find(p) != std::string::npos; };
  if (sw("llvm.")) {
    if (sw("llvm.memcpy") || sw("llvm.memmove")) return N_MEMCPY; if (sw("llvm.memset")) return N_MEMSET;
    if (sw("llvm.lifetime") || sw("llvm.experimental.noalias") || sw("llvm.dbg") || sw("llvm.assume") || sw("llvm.invariant") || sw("llvm.x86.sse2.pause") || sw("llvm.donothing") || sw("llvm.prefetch") || sw("llvm.pseudoprobe") || sw("llvm.allow") || sw("llvm.experimental")) return N_NOP;
    if (sw("llvm.expect")) return N_EXPECT; if (sw("llvm.umax")) return N_UMAX; if (sw("llvm.umin")) return N_UMIN; if (sw("llvm.smax")) return N_SMAX; if (sw("llvm.smin")) return N_SMIN; if (sw("llvm.abs")) return N_ABS;
    if (sw("llvm.ctpop")) return N_CTPOP; if (sw("llvm.ctlz")) return N_CTLZ; if (sw("llvm.cttz")) return N_CTTZ; if (sw("llvm.bswap")) return N_BSWAP; if (sw("llvm.bitreverse")) return N_BITREV; if (sw("llvm.fshl")) return N_FSHL; if (sw("llvm.fshr")) return N_FSHR;
    if (sw("llvm.uadd.with")) return N_UADDO; if (sw("llvm.usub.with")) return N_USUBO; if (sw("llvm.umul.with")) return N_UMULO; if (sw("llvm.sadd.with")) return N_SADDO; if (sw("llvm.ssub.with")) return N_SSUBO; if (sw("llvm.smul.with")) return N_SMULO;
    if (sw("llvm.uadd.sat")) return N_UADDS; if (sw("llvm.usub.sat")) return N_USUBS; if (sw("llvm.sadd.sat")) return N_SADDS; if (sw("llvm.ssub.sat")) return N_SSUBS; if (sw("llvm.ucmp")) return N_UCMP; if (sw("llvm.scmp")) return N_SCMP;
    if (sw("llvm.va_start")) return N_VASTART; if (sw("llvm.va_end")) return N_NOP; if (sw("llvm.trap") || sw("llvm.ubsantrap")) return N_TRAP; if (sw("llvm.is.constant")) return N_ISCONST; if (sw("llvm.objectsize")) return N_OBJSIZE; if (sw("llvm.threadlocal")) return N_TLS; if (sw("llvm.ptrmask")) return N_PTRMASK; if (sw("llvm.vector.reduce")) return N_VREDUCE; if (sw("llvm.x86.sse2.pmovmskb")) return N_PMOVMSK;
    if (sw("llvm.fabs") || sw("llvm.floor") || sw("llvm.ceil") || sw("llvm.trunc") || sw("llvm.fma") || sw("llvm.copysign") || sw("llvm.rint") || sw("llvm.fptoui.sat") || sw("llvm.fptosi.sat")) return N_FLOAT;
    return N_NONE;
  }
  if (n == "memcpy" || n == "memmove") return N_MEMCPY; if (n == "memset") return N_MEMSET; if (n == "bcmp") return N_BCMP; if (n == "memcmp") return N_MEMCMP; if (n == "strlen") return N_STRLEN; if (n == "memchr") return N_MEMCHR;
  if (n == "malloc") return N_MALLOC; if (n == "calloc") return N_CALLOC; if (n == "realloc") return N_REALLOC; if (n == "free") return N_FREE; if (n == "posix_memalign") return N_MEMALIGN; if (n == "aligned_alloc") return N_ALIGNED; if (n == "__errno_location") return N_ERRNO; if (n == "abort") return N_ABORT;
  if ((n == "close" || n == "getenv") && f->hasBody) return N_NONE;
  if (n == "getenv" || n == "pthread_key_delete" || n == "__cxa_thread_atexit_impl" || n == "close") return N_ZERO; if (n == "pthread_key_create") return N_KEY; if (n == "pthread_setspecific") return N_KEYSET; if (n == "pthread_getspecific") return N_KEYGET;
  if ((n == "write" || n == "writev") && f->hasBody) return N_NONE;
  if (n == "pthread_create") return N_THREAD; if (n == "pthread_join") return N_JOIN; if (n == "pthread_self") return N_SELF; if (n == "sched_yield") return N_YIELD; if (n == "syscall") return N_SYSCALL; if (n == "clock_gettime") return N_CLOCK; if (n == "nanosleep" || n == "clock_nanosleep") return N_SLEEP; if (n == "exit" || n == "_exit") return N_EXIT; if (n == "sym_run") return N_SYM_RUN; if (n == "sym_child" || n == "sym_spawned" || n == "sym_program") return N_SYM_CALL; if (n == "sym_sched") return N_SYM_SCHED;
  if (n == "write") return N_WRITE; if (n == "writev") return N_WRITEV;
  if (n == "sym_u8") return N_SYM_U8; if (n == "sym_assume") return N_SYM_ASSUME; if (n == "sym_check") return N_SYM_CHECK; if (n == "sym_cover") return N_SYM_COVER; if (n == "sym_observe") return N_SYM_OBSERVE; if (n == "sym_conc") return N_SYM_CONC; if (n == "sym_opq") return N_SYM_OPQ; if (n == "sym_xp") return N_SYM_XP;
  if (has("hashmap_random_keys")) return N_HASHKEYS;
  if (has("9panicking11panic_count") || has("9panicking9panicking")) return N_NONE;
  if (has("4core9panicking") || has("4core6option13expect_failed") || has("4core6option13unwrap_failed") || has("4core6result13unwrap_failed") || has("16slice_error_fail") || has("rust_begin_unwind")) return N_PANIC;
  if (has("3std9panicking") && (has("begin_panic") || has("rust_panic") || has("13panic_handler"))) return N_PANIC;
  if (n.find("handle_alloc_error") != std::string::npos) return N_ABORT;
  if (has("DefaultHasher") && has("6Hasher6finish")) return N_SIPFIN;
  return N_NONE;
}
static Func *classifyOnce(Func *f) { if (f->intrinsic == -1) { f->intrinsic = classify(f); if (f->intrinsic == N_NONE) f->intrinsic = -2; } return f; }
static void pushFrame(Func *f, const SV *args, size_t nargs, Inst *call) {
  mod.parseBody(f); f->mark = true; if (S->st.size() > 3000) pathError("call depth");
  Frame *F = new Frame(); F->f = f; F->regs.assign(f->nslots, SV{0, nullptr}); size_t np = 0; for (u32 p : f->paramSlots) np += p; if (np != nargs && nargs < np) pathError("argument count %zu vs %zu for %s", nargs, np, f->name.c_str()); for (size_t i = 0; i < np; i++) F->regs[i] = args[i]; F->call = call;
  size_t extra = nargs > np ? nargs - np : 0; // variable arguments: 8 bytes each behind the frame
  if (f->frameSize || extra) { u64 id = ((u64)S->cur << 12) + S->st.size(), at = (f->frameSize + 15) & ~15ull; Obj *o = new Obj(); o->base = STACK_BASE + (id << PAGE_SHIFT); o->size = extra ? at + 8 * extra : f->frameSize; if (o->size >= (1 << PAGE_SHIFT)) pathError("huge frame"); o->data.assign(o->size, 0xCC); S->stack.set(id, o); F->stack = o->base; if (extra) { F->va = o->base + at; for (size_t i = 0; i < extra; i++) storeScalar(F->va + 8 * i, args[np + i], (unsigned)call->nums[np + i]); } }
  S->st.push_back(F);
}
static void gotoBlock(Frame *F, int b) {
  int from = F->blk; Block &B = F->f->blocks[b]; F->prev = from; F->blk = b; F->ip = 0;
  if (!B.phis.empty()) { static std::vector<SV> tmp; tmp.clear(); for (auto &p : B.phis) { int src = 0; bool ok = false; for (auto &in : p.in) if (in.first == from) { src = in.second; ok = true; break; } if (!ok) fatal("phi without predecessor in %s", F->f->name.c_str()); for (u32 i = 0; i < p.n; i++) tmp.push_back(getv(F, osl(src, i))); } size_t k = 0; for (auto &p : B.phis) for (u32 i = 0; i < p.n; i++) F->regs[p.dst + i] = tmp[k++]; }
}
static void endPath(const char *why) {
  stPaths++; sh->paths++;
  if (sampled < 40 || (stPaths & 1023) == 0) { // sample for native validation
    sampled++; u64 h = 1469598103934665603ull; for (auto &o : S->obs) { u64 v = o.second ? (u64)evalExpr(o.second, S->model) : (u64)o.first; for (int i = 0; i < 8; i++) { h ^= (v >> (8 * i)) & 255; h *= 1099511628211ull; } }
    char b[200]; snprintf(b, sizeof b, "\",\"nobs\":%zu,\"obs\":\"%016llx\",\"forks\":%llu}", S->obs.size(), (unsigned long long)h, (unsigned long long)S->forks); emit("{\"k\":\"path\",\"h\":\"" + jesc(curHarness) + "\",\"why\":\"" + why + "\",\"inputs\":\"" + inputsHex(S->model, S->nin) + b);
  }
}
static std::string readStr(u64 p, u64 n) { std::string s; for (u64 i = 0; i < n; i++) s += (char)loadScalar(p + i, 8).v; return s; }
static SV bytesCmp(u64 a, u64 b, u64 n, bool order) {
  if (!n) return {0, nullptr}; checkAccess(a, n, "memcmp"); checkAccess(b, n, "memcmp"); Expr *r = mkConst(0, 32); bool allc = true; i128 cres = 0;
  std::vector<SV> x(n), y(n); for (u64 i = 0; i < n; i++) { x[i] = loadScalar(a + i, 8); y[i] = loadScalar(b + i, 8); if (x[i].e || y[i].e) allc = false; }
  if (allc) { for (u64 i = 0; i < n; i++) if (x[i].v != y[i].v) { cres = x[i].v < y[i].v ? -1 : 1; break; } return {(u128)cres & maskw(32), nullptr}; }
  if (!order) { Expr *eq = mkConst(1, 1); for (u64 i = n; i-- > 0;) eq = mkAnd1(mkEq(toE(x[i], 8), toE(y[i], 8)), eq); return fromE(mkIte(eq, mkConst(0, 32), mkConst(1, 32))); }
  for (u64 i = n; i-- > 0;) { Expr *p = toE(x[i], 8), *q = toE(y[i], 8); r = mkIte(mkEq(p, q), r, mkIte(mkUlt(p, q), mkConst((u128)-1, 32), mkConst(1, 32))); }
  return fromE(r);
}
static SV lowbitTree(const SV &v, unsigned w, int kind, bool) { // ctpop/ctlz/cttz on symbolic
  Expr *e = v.e; Expr *r = mkConst(w, w);
  if (kind == N_CTPOP) { r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(E_ADD, r, mkZext(mkExtract(e, i, 1), w)); return fromE(r); }
  if (kind == N_CTTZ) { for (int i = (int)w - 1; i >= 0; i--) r = mkIte(mkExtract(e, i, 1), mkConst(i, w), r); return fromE(r); }
  for (int i = 0; i < (int)w; i++) r = mkIte(mkExtract(e, i, 1), mkConst(w - 1 - i, w), r); return fromE(r);
}
// ---- threads: one runs at a time; it can be put off (at most maxDelays times per path) before and after every atomic access, lock and system call
static void leave() { Thread &t = S->th[S->cur]; t.st.swap(S->st); t.errnoAddr = S->errnoAddr; }
static void enter(int k) { Thread &t = S->th[k]; S->cur = k; S->st.clear(); S->st.swap(t.st); S->errnoAddr = t.errnoAddr; if (t.res) { Frame *F = topw(); if (t.res->dst >= 0) F->regs[t.res->dst] = {t.resv, nullptr}; t.res = nullptr; } }
static void wake(int k, u128 v) { Thread &t = S->th[k]; t.status = 0; t.key = 0; t.wakeAt = ~0ull; t.resv = v; S->ready.push_back(k); }
static void wakeJoiners() { for (size_t i = 0; i < S->th.size(); i++) if (S->th[i].status == 2 && S->th[i].key == (u64)S->cur) wake((int)i, 0); }
static void setErrno(int e) { if (!S->errnoAddr) S->errnoAddr = heapAlloc(4); storeScalar(S->errnoAddr, SV{(u128)e, nullptr}, 32); }
// Some other thread goes on; `must`: the running one cannot.
static Frame *reschedule(bool must) {
  S->sw = 0; if (S->th.empty()) return topw(); if (!must) { if (S->ready.empty()) return topw(); S->ready.push_back(S->cur); }
  while (S->ready.empty()) { u64 m = ~0ull; for (Thread &t : S->th) if (t.status == 1 && t.wakeAt < m) m = t.wakeAt; if (m == ~0ull) { labels["terminates"].failed++; reportViolation("hang", "terminates", S->model); throw PathEnd{1}; }
    if (m > S->clock) S->clock = m; for (size_t i = 0; i < S->th.size(); i++) if (S->th[i].status == 1 && S->th[i].wakeAt <= S->clock) { bool fx = S->th[i].key != 0; wake((int)i, fx ? (u128)-1 & maskw(64) : 0); if (fx) { u64 &a = S->th[i].errnoAddr; if (!a) a = heapAlloc(4); storeScalar(a, SV{110, nullptr}, 32); } } }
  int k = S->ready.front(); S->ready.erase(S->ready.begin()); leave(); enter(k); return topw();
}
static void block(Inst &I, u64 key, u64 wakeAt, int status) { if (S->th.empty()) S->th.resize(1); Thread &t = S->th[S->cur]; t.status = status; t.key = key; t.wakeAt = wakeAt; t.res = &I; S->sw = 2; }
static void freeFrames(std::vector<Frame *> &st, int tid, size_t keep) { while (st.size() > keep) { Frame *f = st.back(); st.pop_back(); if (f->stack) S->stack.set(((u64)tid << 12) + st.size(), nullptr); if (--f->rc == 0) delete f; } }
// The process is over: its threads are no more.
static void endRun() { for (size_t i = 1; i < S->th.size(); i++) freeFrames(S->th[i].st, (int)i, 0); S->th.clear(); S->ready.clear(); S->tls.clear(); S->sw = 0; S->runDepth = 0; }
static void exitRun(u128 code) { if (S->cur) { freeFrames(S->st, S->cur, 0); S->th[S->cur].status = 3; S->th[0].res = nullptr; leave(); enter(0); } freeFrames(S->st, 0, S->runDepth); endRun(); Frame *F = topw(); if (S->runInst->dst >= 0) F->regs[S->runInst->dst] = {code, nullptr}; }
// The running thread is at a point where others may go first.
static void schedPoint() { S->points++; if (S->delays >= S->maxDelays || S->ready.empty() || followMode) return; State *n = new State(*S); n->delays++; n->sched.push_back((u32)S->points); n->forks++; S->forks++; stForks++; State *me = S; S = n; reschedule(false); S = me; pending.push_back(n); maybeDonate(); }
static void callIntrinsic(Frame *F, Inst &I, Func *f, std::vector<SV> &A) {
  int n = f->intrinsic; u32 w = I.nums.empty() ? 0 : (u32)I.nums[0]; auto W = [&](size_t i) { return (unsigned)I.nums[i]; };
  auto ret = [&](const SV &v) { if (I.dst >= 0) F->regs[I.dst] = v; }; auto C = [&](size_t i) { return (u64)concretize(A[i], W(i)); };
  u32 L = I.wide.empty() ? 1 : (u32)I.wide[0]; // lanes of the first argument
  switch (n) {
  case N_NOP: if (I.dst >= 0) for (u32 i = 0; i < I.n; i++) F->regs[I.dst + i] = {0, nullptr}; break;
  case N_MEMCPY: { u64 len = C(2); if (len) { u64 d = C(0), s = C(1); memCopy(d, s, len); } ret(A[0]); break; }
  case N_MEMSET: { u64 len = C(2); if (len) { u64 d = C(0); SV v = A[1]; if (W(1) > 8) { if (v.e) v = fromE(mkExtract(v.e, 0, 8)); else v.v &= 255; } checkAccess(d, len, "memset"); Obj *o = writable(d); if (!o) pathError("memset ro"); u64 off = d - o->base; if (!v.e) { memset(&o->data[off], (int)v.v, len); if (!o->sym.empty()) std::fill(o->sym.begin() + off, o->sym.begin() + off + len, nullptr); } else { if (o->sym.empty()) o->sym.assign(o->size, nullptr); std::fill(o->sym.begin() + off, o->sym.begin() + off + len, v.e); } } ret(A[0]); break; }
  case N_EXPECT: ret(A[0]); break;
  case N_UMAX: case N_UMIN: case N_SMAX: case N_SMIN: for (u32 i = 0; i < L; i++) { SV c = icmp(n == N_UMAX ? 2 : n == N_UMIN ? 4 : n == N_SMAX ? 6 : 8, A[i], A[L + i], w); if (I.dst >= 0) F->regs[I.dst + i] = c.e ? fromE(mkIte(c.e, toE(A[i], w), toE(A[L + i], w))) : c.v ? A[i] : A[L + i]; } break;
  case N_ABS: { SV c = icmp(8, A[0], SV{0, nullptr}, w); SV neg = binop(255, SV{0, nullptr}, A[0], w); ret(c.e ? fromE(mkIte(c.e, toE(neg, w), toE(A[0], w))) : c.v ? neg : A[0]); break; }
  case N_CTPOP: case N_CTLZ: case N_CTTZ: for (u32 l = 0; l < L; l++) { SV r; if (A[l].e) r = lowbitTree(A[l], w, n, false); else { u128 x = A[l].v; unsigned c = 0; if (n == N_CTPOP) { for (unsigned i = 0; i < w; i++) c += (x >> i) & 1; } else if (n == N_CTTZ) { while (c < w && !((x >> c) & 1)) c++; } else { while (c < w && !((x >> (w - 1 - c)) & 1)) c++; } r = {c, nullptr}; } if (I.dst >= 0) F->regs[I.dst + l] = r; } break;
  case N_BSWAP: { if (A[0].e) { Expr *r = nullptr; for (unsigned i = 0; i < w / 8; i++) { Expr *b = mkExtract(A[0].e, i * 8, 8); r = r ? mkConcat(r, b) : b; } ret(fromE(r)); } else { u128 r = 0; for (unsigned i = 0; i < w / 8; i++) r |= ((A[0].v >> (8 * i)) & 255) << (w - 8 - 8 * i); ret({r, nullptr}); } break; }
  case N_BITREV: { if (A[0].e) { Expr *r = nullptr; for (unsigned i = 0; i < w; i++) { Expr *b = mkExtract(A[0].e, i, 1); r = r ? mkConcat(r, b) : b; } ret(fromE(r)); } else { u128 r = 0; for (unsigned i = 0; i < w; i++) r |= ((A[0].v >> i) & 1) << (w - 1 - i); ret({r, nullptr}); } break; }
  case N_FSHL: case N_FSHR: for (u32 l = 0; l < L; l++) { SV sh_ = A[2 * L + l]; if (sh_.e) concretize(sh_, w); unsigned s = (unsigned)(sh_.v % w); SV a = A[l], b = A[L + l]; if (OPQ && (a.e == OPQ || b.e == OPQ)) { if (I.dst >= 0) F->regs[I.dst + l] = {0, OPQ}; continue; } if (n == N_FSHR) s = s ? w - s : 0; SV r; if (s == 0) r = n == N_FSHL ? a : b; else r = binop(E_OR, binop(E_SHL, a, SV{s, nullptr}, w), binop(E_LSHR, b, SV{w - s, nullptr}, w), w); if (I.dst >= 0) F->regs[I.dst + l] = r; } break;
  case N_UADDO: case N_USUBO: case N_UMULO: case N_SADDO: case N_SSUBO: case N_SMULO: {
    SV r, o; u8 k = (n == N_UADDO || n == N_SADDO) ? (u8)E_ADD : (n == N_USUBO || n == N_SSUBO) ? 255 : (u8)E_MUL; r = binop(k, A[0], A[1], w);
    if (!A[0].e && !A[1].e) { bool ov = false; u128 m = maskw(w); if (n == N_UADDO) ov = w == 128 ? r.v < A[0].v : A[0].v + A[1].v > m; else if (n == N_USUBO) ov = A[0].v < A[1].v; else if (n == N_UMULO) ov = A[1].v && A[0].v > m / A[1].v; else { i128 x = sext128(A[0].v, w), y = sext128(A[1].v, w), z; bool big = n == N_SADDO ? __builtin_add_overflow(x, y, &z) : n == N_SSUBO ? __builtin_sub_overflow(x, y, &z) : __builtin_mul_overflow(x, y, &z); ov = big || z != sext128(r.v, w); } o = {ov, nullptr}; }
    else { if (n == N_UADDO) o = icmp(4, r, A[0], w); else if (n == N_USUBO) o = icmp(4, A[0], A[1], w); else { unsigned W2 = n == N_UMULO || n == N_SMULO ? 2 * w : w + 1; if (W2 > 128) pathError("symbolic overflow check at width %u", w); bool sg = n != N_UMULO; Expr *x = sg ? mkSext(toE(A[0], w), W2) : mkZext(toE(A[0], w), W2), *y = sg ? mkSext(toE(A[1], w), W2) : mkZext(toE(A[1], w), W2); Expr *z = n == N_SADDO ? mkBin(E_ADD, x, y) : n == N_SSUBO ? mkSub(x, y) : mkBin(E_MUL, x, y); Expr *back = sg ? mkSext(toE(r, w), W2) : mkZext(toE(r, w), W2); o = fromE(mkNot(mkEq(z, back))); } }
    if (I.dst >= 0) { F->regs[I.dst] = r; F->regs[I.dst + 1] = o; } break; }
  case N_UADDS: case N_USUBS: for (u32 l = 0; l < L; l++) { SV r = binop(n == N_UADDS ? (u8)E_ADD : 255, A[l], A[L + l], w); SV o = n == N_UADDS ? icmp(4, r, A[l], w) : icmp(4, A[l], A[L + l], w); SV s = {n == N_UADDS ? maskw(w) : 0, nullptr}; if (I.dst >= 0) F->regs[I.dst + l] = o.e ? fromE(mkIte(o.e, toE(s, w), toE(r, w))) : o.v ? s : r; } break;
  case N_SADDS: case N_SSUBS: { if (A[0].e || A[1].e) { concretize(A[0], w); concretize(A[1], w); } i128 x = sext128(A[0].v, w), y = sext128(A[1].v, w), z = n == N_SADDS ? x + y : x - y; i128 mx = (i128)(maskw(w) >> 1), mn = -mx - 1; if (z > mx) z = mx; if (z < mn) z = mn; ret({(u128)z & maskw(w), nullptr}); break; }
  case N_UCMP: case N_SCMP: { unsigned rw = I.ty->slots[0].w; SV lt = icmp(n == N_UCMP ? 4 : 8, A[0], A[1], w), eq = icmp(0, A[0], A[1], w); Expr *r = mkIte(toE(lt, 1), mkConst((u128)-1, rw), mkIte(toE(eq, 1), mkConst(0, rw), mkConst(1, rw))); ret(fromE(r)); break; }
  case N_ISCONST: ret({0, nullptr}); break;
  case N_OBJSIZE: ret({(u128)-1 & maskw(I.ty->slots[0].w), nullptr}); break;
  case N_TLS: { if (!S->cur) { ret(A[0]); break; } u64 g = C(0); u64 &a = S->tls[{S->cur, g}]; if (!a) { Global *gl = globByPage[(g - GLOBAL_BASE) >> PAGE_SHIFT]; a = heapAlloc(gl->size); std::vector<u8> v; mod.initGlobal(gl, v); Obj *o = writable(a); std::copy(v.begin(), v.end(), o->data.begin()); } ret({a, nullptr}); break; }
  case N_THREAD: { u64 out = C(0), fn = C(2); SV arg = A[3]; auto it = mod.funcByAddr.find(fn); if (it == mod.funcByAddr.end()) pathError("thread function"); if (S->th.empty()) S->th.resize(1); int k = (int)S->th.size(); if (k >= 15) pathError("too many threads"); S->th.emplace_back(); storeScalar(out, SV{(u128)k + 1, nullptr}, 64); ret({0, nullptr}); int me = S->cur; leave(); S->cur = k; S->st.clear(); pushFrame(it->second, &arg, 1, nullptr); S->th[k].st.swap(S->st); S->cur = me; S->st.clear(); S->st.swap(S->th[me].st); S->errnoAddr = S->th[me].errnoAddr; S->ready.push_back(k); S->sw = 1; break; }
  case N_KEY: storeScalar(C(0), SV{(u128)++S->keys, nullptr}, 32); ret({0, nullptr}); break;
  case N_KEYSET: S->tls[{S->cur, C(0) | 1ull << 63}] = C(1); ret({0, nullptr}); break;
  case N_KEYGET: ret({S->tls[{S->cur, C(0) | 1ull << 63}], nullptr}); break;
  case N_JOIN: { u64 k = C(0) - 1; if (k >= S->th.size()) pathError("join"); ret({0, nullptr}); if (S->th[k].status != 3) block(I, k, ~0ull, 2); break; }
  case N_SELF: ret({(u128)S->cur + 1, nullptr}); break;
  case N_YIELD: ret({0, nullptr}); S->sw = 3; break;
  case N_SYSCALL: { u64 nr = C(0); if (nr == 186) { ret({(u128)S->cur + 4242, nullptr}); break; } if (nr == 318) { u64 p = C(1), l = C(2); for (u64 i = 0; i < l; i++) storeScalar(p + i, SV{(u128)(i * 37 + 11) & 255, nullptr}, 8); ret({l, nullptr}); break; } if (nr != 202) pathError("system call %llu", (unsigned long long)nr);
    u64 ad = C(1), op = C(2) & 127, val = C(3); 
    if (op == 0 || op == 9) { SV v = loadScalar(ad, 32); concretize(v, 32); F = topw(); if ((u32)v.v != (u32)val) { setErrno(11); ret({maskw(64), nullptr}); break; } u64 at = ~0ull; u64 ts = A.size() > 4 ? C(4) : 0; if (ts) { SV s = loadScalar(ts, 64), ns = loadScalar(ts + 8, 64); at = (u64)concretize(s, 64) * 1000000000ull + (u64)concretize(ns, 64); at = op == 0 ? S->clock + at : at > 1700000000ull * 1000000000ull ? at - 1700000000ull * 1000000000ull : 0; } ret({0, nullptr}); block(I, ad, at, 1); S->th[S->cur].resv = 0; }
    else if (op == 1) { u64 cnt = 0; for (size_t i = 0; i < S->th.size() && cnt < val; i++) if (S->th[i].status == 1 && S->th[i].key == ad) { wake((int)i, 0); cnt++; } ret({cnt, nullptr}); S->sw = 1; }
    else pathError("futex operation %llu", (unsigned long long)op); break; }
  case N_CLOCK: { u64 p = C(1), c = S->clock + 1700000000ull * 1000000000ull; storeScalar(p, SV{c / 1000000000ull, nullptr}, 64); storeScalar(p + 8, SV{c % 1000000000ull, nullptr}, 64); ret({0, nullptr}); break; }
  case N_SLEEP: { bool ck = f->name[0] == 'c'; u64 rq = C(ck ? 2 : 0); bool abs = ck && (C(1) & 1); SV s = loadScalar(rq, 64), ns = loadScalar(rq + 8, 64); u64 d = (u64)concretize(s, 64) * 1000000000ull + (u64)concretize(ns, 64); F = topw(); u64 at = abs ? (d > 1700000000ull * 1000000000ull ? d - 1700000000ull * 1000000000ull : 0) : S->clock + d; ret({0, nullptr}); if (S->th.empty()) { if (at > S->clock) S->clock = at; break; } block(I, 0, at, 1); break; }
  case N_EXIT: { u64 code = C(0); if (!S->runDepth) pathError("exit"); exitRun(code & 255); break; }
  case N_SYM_SCHED: S->maxDelays = (int)C(0); break;
  case N_PTRMASK: ret(binop(E_AND, A[0], A[1], 64)); break;
  case N_VREDUCE: { SV r = A[0]; const std::string &nm = f->name; u8 k = nm.find(".or.") != std::string::npos ? (u8)E_OR : nm.find(".and.") != std::string::npos ? (u8)E_AND : nm.find(".add.") != std::string::npos ? (u8)E_ADD : nm.find(".xor.") != std::string::npos ? (u8)E_XOR : 254; u8 p = nm.find("umax") != std::string::npos ? 2 : nm.find("umin") != std::string::npos ? 4 : nm.find("smax") != std::string::npos ? 6 : nm.find("smin") != std::string::npos ? 8 : 255; for (u32 i = 1; i < L; i++) { if (k != 254) r = binop(k, r, A[i], w); else { if (p == 255) pathError("vector reduce %s", nm.c_str()); SV c = icmp(p, r, A[i], w); r = c.e ? fromE(mkIte(c.e, toE(r, w), toE(A[i], w))) : c.v ? r : A[i]; } } ret(r); break; }
  case N_PMOVMSK: { Expr *r = nullptr; u128 cv = 0; bool c = true; for (u32 i = 0; i < 16; i++) if (A[i].e) c = false; if (c) { for (u32 i = 0; i < 16; i++) cv |= ((A[i].v >> 7) & 1) << i; ret({cv, nullptr}); } else { for (int i = 15; i >= 0; i--) { Expr *b = mkExtract(toE(A[i], 8), 7, 1); r = r ? mkConcat(r, b) : b; } ret(fromE(mkZext(r, 32))); } break; }
  case N_TRAP: case N_ABORT: pathError("abort/trap in %s", F->f->name.c_str());
  case N_BCMP: case N_MEMCMP: { u64 len = C(2); if (!len) { ret({0, nullptr}); break; } u64 a = C(0), b = C(1); ret(bytesCmp(a, b, len, n == N_MEMCMP)); break; }
  case N_STRLEN: { u64 a = C(0), i = 0; while (true) { SV b = loadScalar(a + i, 8); if (b.e) { if (!decide(mkNot(mkEq(b.e, mkConst(0, 8))))) break; } else if (!b.v) break; i++; } ret({i, nullptr}); break; }
  case N_MEMCHR: { u64 a = C(0), len = C(2); if (A[1].e) concretize(A[1], W(1)); u64 i = 0; u64 r = 0; for (; i < len; i++) { SV b = loadScalar(a + i, 8); if (b.e) { if (decide(mkEq(b.e, mkConst(A[1].v & 255, 8)))) { r = a + i; break; } } else if (b.v == (A[1].v & 255)) { r = a + i; break; } } ret({r, nullptr}); break; }
  case N_MALLOC: ret({heapAlloc(C(0)), nullptr}); break;
  case N_ALIGNED: ret({heapAlloc(C(1)), nullptr}); break;
  case N_CALLOC: { u64 x = C(0), y = C(1); u64 p = heapAlloc(x * y); Obj *o = writable(p); std::fill(o->data.begin(), o->data.end(), 0); ret({p, nullptr}); break; }
  case N_MEMALIGN: { u64 sz = C(2), pp = C(0); u64 p = heapAlloc(sz); storeScalar(pp, SV{p, nullptr}, 64); ret({0, nullptr}); break; }
  case N_REALLOC: { u64 p = C(0), sz = C(1); u64 q = heapAlloc(sz); if (p) { Obj *o = findObj(p); if (!o) pathError("realloc"); memCopy(q, p, std::min(sz, o->size)); heapFree(p); } ret({q, nullptr}); break; }
  case N_FREE: heapFree(C(0)); break;
  case N_ZERO: ret({0, nullptr}); break;
  case N_NEG1: ret({maskw(I.ty->slots.empty() ? 64 : I.ty->slots[0].w), nullptr}); break;
  case N_ERRNO: if (!S->errnoAddr) { S->errnoAddr = heapAlloc(4); storeScalar(S->errnoAddr, SV{5, nullptr}, 32); } ret({S->errnoAddr, nullptr}); break;
  case N_VASTART: { u64 p = C(0); storeScalar(p, {48, nullptr}, 32); storeScalar(p + 4, {176, nullptr}, 32); storeScalar(p + 8, {F->va, nullptr}, 64); storeScalar(p + 16, {0, nullptr}, 64); break; } // all of them in the overflow area
  case N_HASHKEYS: if (S->opaque && I.dst >= 0) { for (u32 i = 0; i < I.n; i++) F->regs[I.dst + i] = {0, OPQ}; break; } if (I.dst >= 0) { F->regs[I.dst] = {0x0123456789abcdefull, nullptr}; if (I.n > 1) F->regs[I.dst + 1] = {0xfedcba9876543210ull, nullptr}; } break;
  case N_SIPFIN: ret({0x5bd1e995a5a5a5a5ull, nullptr}); break;
  case N_WRITE: ret({C(2), nullptr}); break; // printed text goes nowhere
  case N_WRITEV: { u64 p = C(1), n = C(2), t = 0; for (u64 i = 0; i < n; i++) { SV l = loadScalar(p + 16 * i + 8, 64); if (l.e) pathError("writev"); t += (u64)l.v; } ret({t, nullptr}); break; }
  case N_SYM_XP: S->xp = true; break;
  case N_PANIC: { if (S->runDepth) { exitRun(101); break; } if (S->xp) { covers["(panic as specified)"]++; LabelStat &ls = labels["panics-where-specified"]; ls.reached++; ls.trivial++; endPath("done"); throw PathEnd{0}; } covers["(panic)"]++; stPanics++; labels["no-panic"].failed++; reportViolation("panic", "panic", S->model); throw PathEnd{1}; }
  case N_FLOAT: { for (auto &a : A) if (a.e) pathError("symbolic float"); const std::string &nm = f->name; double x = asD(A[0].v, w), r = 0; unsigned rw = I.ty->slots[0].w; if (nm.find("llvm.fptoui.sat") == 0) { double mx = (double)maskw(rw); ret({x != x || x <= 0 ? 0 : x >= mx ? maskw(rw) : (u128)x, nullptr}); break; } if (nm.find("llvm.fptosi.sat") == 0) { double mx = (double)(maskw(rw) >> 1); i128 v = x != x ? 0 : x >= mx ? (i128)(maskw(rw) >> 1) : x <= -mx - 1 ? -(i128)(maskw(rw) >> 1) - 1 : (i128)x; ret({(u128)v & maskw(rw), nullptr}); break; } if (nm.find("fabs") != std::string::npos) r = fabs(x); else if (nm.find("floor") != std::string::npos) r = floor(x); else if (nm.find("ceil") != std::string::npos) r = ceil(x); else if (nm.find("llvm.trunc") == 0) r = trunc(x); else if (nm.find("copysign") != std::string::npos) r = copysign(x, asD(A[1].v, w)); else pathError("float intrinsic %s", nm.c_str()); ret({fromD(r, w), nullptr}); break; }
  case N_SYM_U8: { unsigned ix = S->nin++; if (followMode == 1) { ret(SV{ix < followIn.size() ? followIn[ix] : 0u, nullptr}); break; } ret(SV{0, mkVar(ix, 8)}); break; }
  case N_SYM_ASSUME: { SV c = A[0]; if (!c.e) { if (!(c.v & 1)) { stInfeasible++; throw PathEnd{0}; } break; } Expr *e = c.e->w == 1 ? c.e : mkExtract(c.e, 0, 1); auto k = S->known.find(e); if (k != S->known.end()) { if (!k->second) { stInfeasible++; throw PathEnd{0}; } break; } Model m; if (evalExpr(e, S->model)) m = S->model; else if (!feasible(S, e, m)) { stInfeasible++; throw PathEnd{0}; } S->model = m; addConstraint(S, e); break; }
  case N_SYM_CHECK: { std::string lb = readStr(C(1), C(2)); LabelStat &ls = labels[lb]; ls.reached++; SV c = A[0]; if (!c.e) { if (c.v & 1) ls.trivial++; else { ls.failed++; reportViolation("check", lb, S->model); } break; } Expr *e = c.e->w == 1 ? c.e : mkExtract(c.e, 0, 1); auto k = S->known.find(e); if (k != S->known.end() && k->second) { ls.trivial++; break; } Model m; if (feasible(S, mkNot(e), m)) { ls.failed++; reportViolation("check", lb, m); Model m2; if (!feasible(S, e, m2)) throw PathEnd{1}; S->model = m2; addConstraint(S, e); } else { ls.proved++; S->known[e] = 1; S->known[mkNot(e)] = 0; } break; }
  case N_SYM_COVER: covers[readStr(C(0), C(1))]++; break;
  case N_SYM_OBSERVE: S->obs.push_back({A[0].v, A[0].e}); break;
  case N_SYM_OPQ: S->opaque = true; OPQ = mkOpaque(); break;
  case N_SYM_CONC: { u64 v = C(0); ret({v, nullptr}); break; }
  default: pathError("intrinsic %d (%s)", n, f->name.c_str());
  }
}
static Frame *dpF; static Inst *dpI; static size_t dpDepth;
static void dumpPrev() { if (!dpI || dpI->dst < 0 || S->st.size() != dpDepth || dpI->op == I_CALL) return; Frame *F = S->st.back(); printf("%s b%d i%d op%d:", F->f->name.c_str(), F->blk, F->ip, dpI->op); for (u32 i = 0; i < dpI->n && i < 20; i++) { SV v = F->regs[dpI->dst + i]; u128 x = v.e ? evalExpr(v.e, S->model) : v.v; printf(" %llx%016llx", (unsigned long long)(x >> 64), (unsigned long long)x); } printf("\n"); }
static void step() { // executes instructions until the path ends (by exception) or a state switch is wanted
  Frame *F = topw(); static std::vector<SV> args; u64 cnt = 0;
  while (true) {
    if ((++cnt & 0xffff) == 0) { if (now() > deadline) { sh->incomplete++; throw PathEnd{3}; } }
    if (followMode) dumpPrev();
    Inst &I = F->f->blocks[F->blk].insts[F->ip]; S->instrs++; stInstr++; if (followMode) { dpF = F; dpI = &I; dpDepth = S->st.size(); }
    if (S->instrs > maxInstr) { labels["terminates"].failed++; reportViolation("hang", "terminates", S->model); endPath("limit"); throw PathEnd{1}; }
    switch (I.op) {
    case I_BIN: for (u32 i = 0; i < I.n; i++) { SV a = getv(F, osl(I.a, i)), b = getv(F, osl(I.b, i)); if (I.sub >= E_UDIV && I.sub <= E_SREM && b.e) { b.e = b.e; } if (I.sub >= E_UDIV && I.sub <= E_SREM && !b.e && b.v == 0) pathError("division by zero"); F->regs[I.dst + i] = binop(I.sub, a, b, I.w); } F->ip++; break;
    case I_ICMP: for (u32 i = 0; i < I.n; i++) F->regs[I.dst + i] = icmp(I.sub, getv(F, osl(I.a, i)), getv(F, osl(I.b, i)), I.w); F->ip++; break;
    case I_SELECT: for (u32 i = 0; i < I.n; i++) { SV c = getv(F, I.sub ? osl(I.a, i) : I.a), t = getv(F, osl(I.b, i)), e = getv(F, osl(I.c, i)); if (!c.e) F->regs[I.dst + i] = (c.v & 1) ? t : e; else { auto k = S->known.find(c.e); if (k != S->known.end()) F->regs[I.dst + i] = k->second ? t : e; else { unsigned w = I.ty->slots[i].w; F->regs[I.dst + i] = fromE(mkIte(c.e, toE(t, w), toE(e, w))); } } } F->ip++; break;
    case I_ZEXT: for (u32 i = 0; i < I.n; i++) { SV a = getv(F, osl(I.a, i)); if (a.e && a.e == OPQ) a = {OPAQUE_VALUE, nullptr}; F->regs[I.dst + i] = a.e ? fromE(mkZext(a.e, I.w2)) : a; } F->ip++; break;
    case I_SEXT: for (u32 i = 0; i < I.n; i++) { SV a = getv(F, osl(I.a, i)); F->regs[I.dst + i] = a.e ? fromE(mkSext(a.e, I.w2)) : SV{(u128)sext128(a.v, I.w) & maskw(I.w2), nullptr}; } F->ip++; break;
    case I_TRUNC: for (u32 i = 0; i < I.n; i++) { SV a = getv(F, osl(I.a, i)); if (a.e && a.e == OPQ) a = {OPAQUE_VALUE, nullptr}; F->regs[I.dst + i] = a.e ? fromE(mkExtract(a.e, 0, I.w2)) : SV{a.v & maskw(I.w2), nullptr}; } F->ip++; break;
    case I_BITCAST: { u64 ns = I.nums[0], nd = I.nums[1]; if (ns == nd) { for (u64 i = 0; i < nd; i++) F->regs[I.dst + i] = getv(F, osl(I.a, i)); }
      else { // via a bit string, low lane first
        std::vector<SV> src; for (u64 i = 0; i < ns; i++) src.push_back(getv(F, osl(I.a, i))); bool sym = false; for (auto &x : src) sym |= x.e != nullptr;
        for (u64 d = 0; d < nd; d++) { unsigned lo = d * I.w2; if (ns * I.w <= 128 && !sym) { u128 all = 0; for (u64 i = 0; i < ns; i++) all |= src[i].v << (i * I.w); F->regs[I.dst + d] = {(all >> lo) & maskw(I.w2), nullptr}; continue; }
          Expr *r = nullptr; unsigned got = 0; while (got < I.w2) { unsigned bit = lo + got; unsigned lane = bit / I.w, o = bit % I.w; unsigned take = std::min<unsigned>(I.w - o, I.w2 - got); Expr *p = mkExtract(toE(src[lane], I.w), o, take); r = r ? mkConcat(p, r) : p; got += take; } F->regs[I.dst + d] = fromE(r); } }
      F->ip++; break; }
    case I_COPY: for (u32 i = 0; i < I.n; i++) F->regs[I.dst + i] = getv(F, osl(I.a, i)); F->ip++; break;
    case I_INSERTV: for (u32 i = 0; i < I.n; i++) F->regs[I.dst + i] = getv(F, osl(I.a, i)); for (u64 i = 0; i < I.nums[1]; i++) F->regs[I.dst + I.nums[0] + i] = getv(F, osl(I.b, i)); F->ip++; break;
    case I_EXTRACTE: { SV ix = getv(F, I.b); concretize(ix, 64); F = topw(); F->regs[I.dst] = getv(F, osl(I.a, (u32)ix.v)); F->ip++; break; }
    case I_INSERTE: { SV ix = getv(F, I.c); concretize(ix, 64); F = topw(); SV v = getv(F, I.b); for (u32 i = 0; i < I.n; i++) F->regs[I.dst + i] = getv(F, osl(I.a, i)); F->regs[I.dst + (u32)ix.v] = v; F->ip++; break; }
    case I_SHUFFLE: { std::vector<SV> t; u64 n1 = (u64)I.wide[0]; for (u64 m : I.nums) { u32 x = (u32)m; if (x >= 2 * n1) x = 0; t.push_back(x < n1 ? getv(F, osl(I.a, x)) : getv(F, osl(I.b, x - n1))); } for (u32 i = 0; i < I.n; i++) F->regs[I.dst + i] = t[i]; F->ip++; break; }
    case I_GEP: { SV r = getv(F, I.a); r = binop(E_ADD, r, SV{(u64)I.wide[0], nullptr}, 64); for (size_t i = 0; i < I.ops.size(); i++) { SV x = getv(F, I.ops[i]); unsigned w = (unsigned)I.nums[2 * i + 1]; if (w < 64) x = x.e ? fromE(mkSext(x.e, 64)) : SV{(u64)sext128(x.v, w), nullptr}; else if (w > 64) x = x.e ? fromE(mkExtract(x.e, 0, 64)) : SV{(u64)x.v, nullptr}; r = binop(E_ADD, r, binop(E_MUL, x, SV{I.nums[2 * i], nullptr}, 64), 64); } F->regs[I.dst] = r; F->ip++; break; }
    case I_ALLOCA: F->regs[I.dst] = {F->stack + (u64)I.wide[0], nullptr}; F->ip++; break;
    case I_LOAD: { SV a = getv(F, I.a); if (a.e) { auto k = S->known.find(a.e); if (k != S->known.end()) a = {k->second, nullptr}; }
      if (a.e && I.n == 1) { SV out; if (symLoad(a.e, I.ty->slots[0].w, out)) { F->regs[I.dst] = out; F->ip++; break; } }
      u64 ad = (u64)concretize(a, 64); F = topw(); if (I.ty->size == 0) { F->ip++; break; } if (I.ty->k == Type::Vec && I.ty->slots.size() && I.ty->slots[0].off == 0xffffffff) { unsigned nb = I.n; SV all = loadScalar(ad, nb); for (u32 i = 0; i < I.n; i++) F->regs[I.dst + i] = all.e ? fromE(mkExtract(all.e, i, 1)) : SV{(all.v >> i) & 1, nullptr}; F->ip++; break; }
      Obj *o = checkAccess(ad, I.ty->slots.back().off + (I.ty->slots.back().w + 7) / 8, "load"); u64 off = ad - o->base; for (u32 i = 0; i < I.n; i++) { auto &s = I.ty->slots[i]; F->regs[I.dst + i] = loadScalarObj(o, off + s.off, s.w); } F->ip++; if (I.sub && !S->ready.empty()) { schedPoint(); F = topw(); } break; }
    case I_STORE: { SV a = getv(F, I.a); u64 ad = (u64)concretize(a, 64); F = topw(); if (I.ty->k == Type::Vec && I.n && I.ty->slots[0].off == 0xffffffff) { u128 cv = 0; bool sy = false; for (u32 i = 0; i < I.n; i++) { SV v = getv(F, osl(I.b, i)); if (v.e) sy = true; else cv |= (v.v & 1) << i; }
        if (!sy) storeScalar(ad, SV{cv, nullptr}, I.n); else { Expr *e = nullptr; for (u32 i = 0; i < I.n; i++) { Expr *b = toE(getv(F, osl(I.b, i)), 1); e = e ? mkConcat(b, e) : b; } storeScalar(ad, fromE(e), I.n); } F->ip++; break; } for (u32 i = 0; i < I.n; i++) { auto &s = I.ty->slots[i]; storeScalar(ad + s.off, getv(F, osl(I.b, i)), s.w); } F->ip++; if (I.sub && !S->ready.empty()) { schedPoint(); F = topw(); } break; }
    case I_BR: gotoBlock(F, (int)I.nums[0]); break;
    case I_CBR: { SV c = getv(F, I.a); bool t = c.e ? decide(c.e) : (c.v & 1); F = topw(); gotoBlock(F, (int)I.nums[t ? 0 : 1]); break; }
    case I_SWITCH: { SV v = getv(F, I.a); if (v.e) { auto k = S->known.find(v.e); if (k != S->known.end()) v = {k->second, nullptr}; }
      u64 dst; if (!v.e) { dst = I.nums[0]; for (size_t i = 0; i < I.wide.size(); i++) if (I.wide[i] == v.v) { dst = I.nums[i + 1]; break; } }
      else { u128 x = evalExpr(v.e, S->model); dst = I.nums[0]; for (size_t i = 0; i < I.wide.size(); i++) if (I.wide[i] == x) { dst = I.nums[i + 1]; break; }
        Expr *c; if (dst == I.nums[0]) { Expr *o = mkConst(0, 1); for (size_t i = 0; i < I.wide.size(); i++) if (I.nums[i + 1] != dst) o = mkOr1(o, mkEq(v.e, mkConst(I.wide[i], I.w))); c = mkNot(o); } else { c = mkConst(0, 1); for (size_t i = 0; i < I.wide.size(); i++) if (I.nums[i + 1] == dst) c = mkOr1(c, mkEq(v.e, mkConst(I.wide[i], I.w))); }
        if (c->k != E_CONST) decide(c); F = topw(); }
      gotoBlock(F, (int)dst); break; }
    case I_RET: { static std::vector<SV> rv; rv.clear(); for (u32 i = 0; i < I.n; i++) rv.push_back(getv(F, osl(I.a, i))); Inst *call = F->call; bool fs = F->stack != 0; u64 id = ((u64)S->cur << 12) + S->st.size() - 1; S->st.pop_back(); if (--F->rc == 0) delete F; if (fs) S->stack.set(id, nullptr);
      if (S->st.empty() && !S->cur) { endPath("done"); throw PathEnd{0}; }
      if (S->st.empty()) { S->th[S->cur].status = 3; wakeJoiners(); F = reschedule(true); break; }
      if (S->runDepth && !S->cur && S->st.size() == S->runDepth) endRun();
      F = topw(); if (call->dst >= 0) for (size_t i = 0; i < rv.size(); i++) F->regs[call->dst + i] = rv[i]; F->ip++; break; }
    case I_UNREACHABLE: pathError("unreachable executed in %s", F->f->name.c_str());
    case I_CALL: { Func *f = I.callee; SV fp{0, nullptr};
      if (!f) { if (!I.text.empty()) { // inline asm: cpuid-style probes read as "no features"; fences are no-ops
          if (I.text.find("cpuid") != std::string::npos || I.text.find("xgetbv") != std::string::npos || I.n == 0) { for (u32 i = 0; i < I.n; i++) F->regs[I.dst + i] = {0, nullptr}; F->ip++; break; }
          if (I.text.find("asm sideeffect \"\"") != std::string::npos || I.text.find("asm \"\"") != std::string::npos) { for (u32 i = 0; i < I.n && i < I.ops.size(); i++) F->regs[I.dst + i] = getv(F, I.ops[i]); F->ip++; break; }
          pathError("inline asm: %s", I.text.c_str()); }
        fp = getv(F, I.a); u64 ad = (u64)concretize(fp, 64); F = topw(); auto it = mod.funcByAddr.find(ad); if (it == mod.funcByAddr.end()) pathError("call through bad pointer %llx", (unsigned long long)ad); f = it->second; }
      classifyOnce(f); args.clear(); for (int o : I.ops) args.push_back(getv(F, o));
      if (f->intrinsic >= 0) { std::vector<SV> A = args; if (f->intrinsic == N_SYM_RUN) { auto r = mod.funcs.find("uc_run"); if (r == mod.funcs.end()) pathError("nothing to run"); S->runDepth = S->st.size(); S->runInst = &I; S->clock = 0; pushFrame(r->second, A.data(), A.size(), &I); F = S->st.back(); break; }
        if (f->intrinsic == N_SYM_CALL) { auto r = mod.funcs.find("uc_" + f->name.substr(4)); if (r == mod.funcs.end()) pathError("no %s", f->name.c_str()); pushFrame(r->second, A.data(), A.size(), &I); F = S->st.back(); break; }
        callIntrinsic(F, I, f, A); F = topw(); F->ip++; if (S->sw) { int k = S->sw; if (k == 2) F = reschedule(true); else if (k == 3) F = reschedule(false); else { S->sw = 0; schedPoint(); F = topw(); } } }
      else if (!f->hasBody) { if (f->weak) { if (I.dst >= 0) for (u32 i = 0; i < I.n; i++) F->regs[I.dst + i] = {0, nullptr}; F->ip++; } else pathError("call to external %s", f->name.c_str()); }
      else { if (trace) fprintf(stderr, "%*s%s\n", (int)S->st.size(), "", f->name.c_str()); pushFrame(f, args.data(), args.size(), &I); F = S->st.back(); }
      break; }
    case I_CMPXCHG: { SV a = getv(F, I.a); u64 ad = (u64)concretize(a, 64); F = topw(); unsigned w = I.ty->slots[0].w; SV old = loadScalar(ad, w), cmp = getv(F, I.b); SV eq = icmp(0, old, cmp, w); bool r = eq.e ? decide(eq.e) : eq.v; F = topw(); if (r) storeScalar(ad, getv(F, I.c), w); F->regs[I.dst] = old; F->regs[I.dst + 1] = {r, nullptr}; F->ip++; if (!S->ready.empty()) { schedPoint(); F = topw(); } break; }
    case I_ARMW: { SV a = getv(F, I.a); u64 ad = (u64)concretize(a, 64); F = topw(); SV old = loadScalar(ad, I.w), v = getv(F, I.b), nv; const std::string &k = I.text; if (k == "xchg") nv = v; else if (k == "add") nv = binop(E_ADD, old, v, I.w); else if (k == "sub") nv = binop(255, old, v, I.w); else if (k == "and") nv = binop(E_AND, old, v, I.w); else if (k == "or") nv = binop(E_OR, old, v, I.w); else if (k == "xor") nv = binop(E_XOR, old, v, I.w); else pathError("atomicrmw %s", k.c_str()); storeScalar(ad, nv, I.w); F->regs[I.dst] = old; F->ip++; if (!S->ready.empty()) { schedPoint(); F = topw(); } break; }
    case I_FBIN: for (u32 i = 0; i < I.n; i++) { SV a = getv(F, osl(I.a, i)), b = getv(F, osl(I.b, i)); if (a.e || b.e) pathError("symbolic float"); double x = asD(a.v, I.w), y = asD(b.v, I.w), r; if (I.w == 32) { float fx = (float)x, fy = (float)y; r = I.sub == 'a' ? fx + fy : I.sub == 's' ? fx - fy : I.sub == 'm' ? fx * fy : I.sub == 'd' ? fx / fy : fmodf(fx, fy); } else r = I.sub == 'a' ? x + y : I.sub == 's' ? x - y : I.sub == 'm' ? x * y : I.sub == 'd' ? x / y : fmod(x, y); F->regs[I.dst + i] = {fromD(r, I.w), nullptr}; } F->ip++; break;
    case I_FNEG: for (u32 i = 0; i < I.n; i++) { SV a = getv(F, osl(I.a, i)); F->regs[I.dst + i] = binop(E_XOR, a, SV{(u128)1 << (I.w - 1), nullptr}, I.w); } F->ip++; break;
    case I_FCMP: { if (I.n != 1) pathError("vector fcmp"); SV a = getv(F, I.a), b = getv(F, I.b); if (a.e || b.e) pathError("symbolic float"); double x = asD(a.v, I.w), y = asD(b.v, I.w); bool un = x != x || y != y; const std::string &p = I.text; bool r; if (p == "ord") r = !un; else if (p == "uno") r = un; else if (p == "true") r = true; else if (p == "false") r = false; else { std::string q = p.substr(1); bool c = q == "eq" ? x == y : q == "ne" ? x != y : q == "gt" ? x > y : q == "ge" ? x >= y : q == "lt" ? x < y : x <= y; r = p[0] == 'u' ? (un || c) : (!un && c); } F->regs[I.dst] = {r, nullptr}; F->ip++; break; }
    case I_FPCAST: for (u32 i = 0; i < I.n; i++) { SV a = getv(F, osl(I.a, i)); if (a.e) { concretize(a, I.w); F = topw(); } const std::string &k = I.text; SV r{0, nullptr}; if (k == "uitofp") r.v = fromD((double)a.v, I.w2); else if (k == "sitofp") r.v = fromD((double)sext128(a.v, I.w), I.w2); else if (k == "fptoui") r.v = (u128)asD(a.v, I.w) & maskw(I.w2); else if (k == "fptosi") r.v = (u128)(i128)asD(a.v, I.w) & maskw(I.w2); else r.v = fromD(asD(a.v, I.w), I.w2); F = topw(); F->regs[I.dst + i] = r; } F->ip++; break;
    case I_NOP: F->ip++; break;
    case I_UNSUPPORTED: pathError("unsupported: %s in %s", I.text.substr(0, 100).c_str(), F->f->name.c_str());
    }
  }
}
static void worker() {
  while (true) {
    if (!S) { if (pending.empty()) break; S = pending.back(); pending.pop_back(); }
    int code = 0; try { step(); } catch (PathEnd &e) { code = e.code; }
    delete S; S = nullptr; if (code == 3) break; (void)code;
    if (now() > deadline) { if (!pending.empty()) sh->incomplete++; break; }
  }
  flushStats(); sh->tokens++; _exit(0);
}
static void maybeDonate() {
  if (pending.empty() || sh->tokens.load() <= 0) return;
  if (sh->tokens.fetch_sub(1) <= 0) { sh->tokens.fetch_add(1); return; }
  pid_t p = fork(); if (p < 0) { sh->tokens++; return; }
  size_t half = (pending.size() + 1) / 2;
  if (p == 0) { pending.resize(half); violSeen.clear(); resetStats(); // leave S allocated: the child never resumes it
    S = nullptr; worker(); }
  for (size_t i = 0; i < half; i++) delete pending[i]; pending.erase(pending.begin(), pending.begin() + half);
}
int main(int argc, char **argv) {
  std::string path; std::vector<std::string> hs; int jobs = 8; double tmo = 600; const char *out = nullptr;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a == "-j") jobs = atoi(argv[++i]); else if (a == "-t") tmo = atof(argv[++i]); else if (a == "-o") out = argv[++i]; else if (a == "--trace") trace = true; else if (a == "--concrete" || a == "--follow") { followMode = a == "--concrete" ? 1 : 2; jobs = 1; std::string h = argv[++i]; for (size_t k = 0; k + 1 < h.size(); k += 2) followIn.push_back((u8)strtol(h.substr(k, 2).c_str(), 0, 16)); } else if (a == "--maxinstr") maxInstr = strtoull(argv[++i], 0, 10); else if (path.empty()) path = a; else hs.push_back(a); }
  if (out) outFd = open(out, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); new (sh) Shared(); sh->tokens = jobs;
  prctl(PR_SET_CHILD_SUBREAPER, 1); struct rlimit rl = {256u << 20, 256u << 20}; setrlimit(RLIMIT_STACK, &rl);
  curHarness = "(load)"; mod.load(path); deadline = now() + tmo;
  for (Global *g : mod.globalList) { u64 n = (g->size >> PAGE_SHIFT) + 1; u64 i0 = (g->addr - GLOBAL_BASE) >> PAGE_SHIFT; if (globByPage.size() < i0 + n) globByPage.resize(i0 + n, nullptr); for (u64 k = 0; k < n; k++) globByPage[i0 + k] = g; } nGlobPages = globByPage.size(); globCache.assign(nGlobPages, nullptr);
  for (auto &h : hs) if (!mod.funcs.count(h) || !mod.funcs[h]->hasBody) { curHarness = h; fatal("no such harness"); }
  int status; bool bad = false; auto reap = [&](int fl) { pid_t p; while ((p = waitpid(-1, &status, fl)) > 0) if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0)) { if (!(WIFEXITED(status) && WEXITSTATUS(status) == 3)) { char b[80]; snprintf(b, 80, "{\"k\":\"error\",\"h\":\"\",\"msg\":\"worker died, status %x\"}", status); emit(b); sh->errors++; } sh->tokens++; bad = true; } };
  for (auto &h : hs) {
    while (sh->tokens.load() <= 0) { reap(WNOHANG); usleep(500); if (now() > deadline + 30) break; }
    sh->tokens--; pid_t p = fork();
    if (p == 0) { curHarness = h; solverInit(); S = new State(); for (size_t k = 0; k < followIn.size() && k < (size_t)MAXVARS; k++) S->model.val[k] = followIn[k]; try { pushFrame(mod.funcs[h], nullptr, 0, nullptr); } catch (PathEnd &) { _exit(3); } worker(); }
  }
  while (true) { pid_t p = waitpid(-1, &status, 0); if (p < 0) break; if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0)) { if (!(WIFEXITED(status) && WEXITSTATUS(status) == 3)) { char b[80]; snprintf(b, 80, "{\"k\":\"error\",\"h\":\"\",\"msg\":\"worker died, status %x\"}", status); emit(b); sh->errors++; } sh->tokens++; bad = true; } }
  char b[200]; snprintf(b, 200, "{\"k\":\"end\",\"incomplete\":%d,\"errors\":%d,\"violations\":%d,\"paths\":%ld}", sh->incomplete.load(), sh->errors.load(), sh->viols.load(), sh->paths.load()); emit(b);
  return sh->errors.load() || bad ? 3 : sh->incomplete.load() ? 4 : sh->viols.load() ? 1 : 0;
}
