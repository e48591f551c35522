#include "ir.h"
#include <fstream>
#include <sstream>
#include <map>
static std::map<std::string, Type *> typeCache; static std::unordered_map<std::string, std::string> namedTypes; static std::unordered_map<std::string, Type *> namedResolved;
static void layout(Type *t) {
  auto addSub = [&](Type *e, u64 off) { t->slotStart.push_back(t->slots.size()); t->offs.push_back(off); for (auto &s : e->slots) t->slots.push_back({(u32)(s.off + off), s.w, s.fp}); };
  switch (t->k) {
  case Type::Int: t->size = t->bits <= 8 ? 1 : t->bits <= 16 ? 2 : t->bits <= 32 ? 4 : t->bits <= 64 ? 8 : 16; t->align = t->size; t->slots = {{0, (u8)t->bits, false}}; if (t->bits > 128) t->slots.clear(); break;
  case Type::Ptr: t->size = t->align = 8; t->slots = {{0, 64, false}}; break;
  case Type::FP: t->size = t->align = t->bits / 8; t->slots = {{0, (u8)t->bits, true}}; break;
  case Type::Vec: case Type::Arr: { Type *e = t->el[0];
    if (t->k == Type::Vec) { u64 eb = e->k == Type::Int ? e->bits : e->size * 8; t->size = (eb * t->count + 7) / 8; u64 a = 1; while (a < t->size) a *= 2; t->align = a; t->size = a;
      if (eb % 8 == 0) for (u64 i = 0; i < t->count; i++) addSub(e, i * eb / 8); else for (u64 i = 0; i < t->count; i++) { t->slotStart.push_back(i); t->offs.push_back(0); t->slots.push_back({0xffffffff, (u8)e->bits, false}); } }
    else { t->align = e->align; t->size = e->size * t->count; if (t->count * e->slots.size() <= 4096) for (u64 i = 0; i < t->count; i++) addSub(e, i * e->size); }
    break; }
  case Type::Struct: { u64 off = 0; u64 al = 1; for (Type *e : t->el) { u64 a = t->packed ? 1 : e->align; off = (off + a - 1) / a * a; al = std::max(al, a); addSub(e, off); off += e->size; } t->align = al; t->size = (off + al - 1) / al * al; break; }
  default: break;
  }
}
struct Lex {
  const char *p, *end;
  void ws() { while (p < end && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r')) p++; }
  void wsl() { while (p < end && (*p == ' ' || *p == '\t')) p++; }
  char peek() { ws(); return p < end ? *p : 0; }
  bool acc(char c) { if (peek() == c) { p++; return true; } return false; }
  void exp(char c) { if (!acc(c)) fatal("IR parse: expected '%c' near: %.120s", c, p); }
  static bool idc(char c) { return isalnum((unsigned char)c) || c == '_' || c == '.' || c == '$' || c == '-'; }
  std::string word() { ws(); const char *s = p; while (p < end && idc(*p)) p++; return std::string(s, p); }
  std::string peekWord() { ws(); const char *s = p; const char *q = p; while (q < end && idc(*q)) q++; return std::string(s, q); }
  bool accWord(const char *w) { ws(); size_t n = strlen(w); if ((size_t)(end - p) >= n && !memcmp(p, w, n) && !(p + n < end && idc(p[n]))) { p += n; return true; } return false; }
  std::string name() { // after % or @
    if (*p == '"') { p++; std::string r; while (*p != '"') { if (*p == '\\' && p[1] != '\\') { r += (char)strtol(std::string(p + 1, p + 3).c_str(), 0, 16); p += 3; } else if (*p == '\\') { r += '\\'; p += 2; } else r += *p++; } p++; return r; }
    const char *s = p; while (p < end && idc(*p)) p++; return std::string(s, p);
  }
  void skipBalanced() { char o = *p, c = o == '(' ? ')' : o == '{' ? '}' : o == '[' ? ']' : '>'; int d = 0; while (p < end) { if (*p == '"') { p++; while (*p != '"') p++; } else if (*p == o) d++; else if (*p == c) { if (--d == 0) { p++; return; } } p++; } }
  std::string number() { ws(); const char *s = p; if (*p == '-') p++; while (p < end && (isalnum((unsigned char)*p) || *p == '.' || *p == '+' || (*p == '-' && (p[-1] == 'e' || p[-1] == 'E')))) p++; return std::string(s, p); }
};
static u128 parseDec(const std::string &s) { bool neg = s[0] == '-'; u128 v = 0; for (size_t i = neg; i < s.size(); i++) v = v * 10 + (s[i] - '0'); return neg ? -v : v; }
static Type *mkType(Type::K k, unsigned bits, u64 count, std::vector<Type *> el, bool packed, const std::string &key) {
  auto it = typeCache.find(key); if (it != typeCache.end()) return it->second;
  Type *t = new Type(); t->k = k; t->bits = bits; t->count = count; t->el = std::move(el); t->packed = packed; layout(t); typeCache[key] = t; return t;
}
static std::string tkey(Type *t) { char b[32]; snprintf(b, 32, "T%p", (void *)t); return b; }
static Type *parseType(Lex &L) {
  char c = L.peek(); Type *t = nullptr;
  if (c == 'i' && isdigit((unsigned char)L.p[1])) { L.p++; unsigned n = 0; while (isdigit((unsigned char)*L.p)) n = n * 10 + (*L.p++ - '0'); t = mkType(Type::Int, n, 0, {}, false, "i" + std::to_string(n)); }
  else if (c == '<' || c == '[' || c == '{') {
    if (c == '<' && L.p[1] == '{') { L.p += 2; std::vector<Type *> el; std::string k = "<{"; if (L.peek() != '}') do { el.push_back(parseType(L)); k += tkey(el.back()); } while (L.acc(',')); L.exp('}'); L.exp('>'); t = mkType(Type::Struct, 0, 0, el, true, k); }
    else if (c == '{') { L.p++; std::vector<Type *> el; std::string k = "{"; if (L.peek() != '}') do { el.push_back(parseType(L)); k += tkey(el.back()); } while (L.acc(',')); L.exp('}'); t = mkType(Type::Struct, 0, 0, el, false, k); }
    else { L.p++; u64 n = strtoull(L.number().c_str(), 0, 10); if (!L.accWord("x")) fatal("type: %.60s", L.p); Type *e = parseType(L); L.exp(c == '<' ? '>' : ']'); t = mkType(c == '<' ? Type::Vec : Type::Arr, 0, n, {e}, false, std::string(1, c) + std::to_string(n) + tkey(e)); }
  } else if (c == '%') { L.p++; std::string nm = L.name(); auto it = namedResolved.find(nm); if (it != namedResolved.end()) t = it->second; else { auto d = namedTypes.find(nm); if (d == namedTypes.end()) fatal("unknown type %%%s", nm.c_str()); Lex M{d->second.data(), d->second.data() + d->second.size()}; if (M.accWord("opaque")) t = mkType(Type::Opaque, 0, 0, {}, false, "opaque"); else t = parseType(M); namedResolved[nm] = t; } }
  else {
    std::string w = L.word();
    if (w == "ptr") { t = mkType(Type::Ptr, 64, 0, {}, false, "ptr"); if (L.peekWord() == "addrspace") { L.word(); L.ws(); L.skipBalanced(); } }
    else if (w == "void") t = mkType(Type::Void, 0, 0, {}, false, "void");
    else if (w == "float") t = mkType(Type::FP, 32, 0, {}, false, "float");
    else if (w == "double") t = mkType(Type::FP, 64, 0, {}, false, "double");
    else if (w == "half" || w == "bfloat") t = mkType(Type::FP, 16, 0, {}, false, "half");
    else if (w == "fp128" || w == "x86_fp80") t = mkType(Type::FP, 128, 0, {}, false, "fp128");
    else if (w == "metadata") t = mkType(Type::Meta, 0, 0, {}, false, "metadata");
    else if (w == "label" || w == "token") t = mkType(Type::Label, 0, 0, {}, false, "label");
    else fatal("IR parse: type expected, got '%s' near %.80s", w.c_str(), L.p);
  }
  return t;
}
static bool isTypeStart(Lex &L) {
  char c = L.peek(); if (c == '<' || c == '[' || c == '{' || c == '%') return true;
  std::string w = L.peekWord();
  if (w.size() > 1 && w[0] == 'i') { bool d = true; for (size_t i = 1; i < w.size(); i++) d &= !!isdigit((unsigned char)w[i]); if (d) return true; }
  return w == "ptr" || w == "void" || w == "float" || w == "double" || w == "half" || w == "metadata" || w == "label" || w == "token" || w == "bfloat" || w == "fp128" || w == "x86_fp80";
}
static void skipAttrsToType(Lex &L) { while (!isTypeStart(L)) { if (L.peek() == '"') { L.p++; while (*L.p != '"') L.p++; L.p++; if (L.peek() == '=') { L.p++; L.ws(); L.p++; while (*L.p != '"') L.p++; L.p++; } continue; } if (L.peek() == '#') { L.p++; L.word(); continue; } std::string w = L.word(); if (w.empty()) fatal("attrs: %.100s", L.p); L.wsl(); if (*L.p == '(') L.skipBalanced(); else if (w == "align") L.number(); } }
static bool isConstExprWord(const std::string &w) { return w == "getelementptr" || w == "ptrtoint" || w == "inttoptr" || w == "trunc" || w == "add" || w == "sub" || w == "xor" || w == "splat" || w == "bitcast" || w == "ptrtoaddr" || w == "mul" || w == "shl"; }
static bool isValueStart(Lex &L) {
  char c = L.peek(); if (c == '%' || c == '@' || c == '-' || isdigit((unsigned char)c) || c == '{' || c == '[' || c == '<' || c == '!') return true;
  if (c == 'c' && L.p[1] == '"') return true;
  std::string w = L.peekWord();
  if (w.size() > 2 && w[1] == '0' && w[2] == 'x') return true;
  return w == "true" || w == "false" || w == "null" || w == "undef" || w == "poison" || w == "zeroinitializer" || w == "none" || w == "asm" || isConstExprWord(w);
}
static void skipAttrsToValue(Lex &L) { while (!isValueStart(L)) { if (L.peek() == '"') { L.p++; while (*L.p != '"') L.p++; L.p++; if (L.peek() == '=') { L.p++; L.ws(); L.p++; while (*L.p != '"') L.p++; L.p++; } continue; } std::string w = L.word(); if (w.empty()) fatal("param attrs: %.100s", L.p); L.wsl(); if (*L.p == '(') L.skipBalanced(); else if (w == "align") L.number(); } }

static Module *M;
static u64 symAddr(const std::string &n) {
  auto g = M->globals.find(n); if (g != M->globals.end()) return g->second->addr;
  auto f = M->funcs.find(n); if (f != M->funcs.end()) return f->second->weak && !f->second->hasBody ? 0 : f->second->addr;
  auto a = M->aliases.find(n); if (a != M->aliases.end()) return a->second;
  fatal("unknown symbol @%s", n.c_str());
}
static u64 gepConst(Lex &L, Type *&resT);
// parse a constant of type t into flattened scalars
static void parseConst(Lex &L, Type *t, std::vector<SV> &out) {
  char c = L.peek();
  auto push = [&](u128 v) { out.push_back({v & maskw(t->slots[0].w), nullptr}); };
  if (c == '@') { L.p++; push(symAddr(L.name())); return; }
  if (c == 'c' && L.p[1] == '"') { L.p += 2; while (*L.p != '"') { u8 b; if (*L.p == '\\') { if (L.p[1] == '\\') { b = '\\'; L.p += 2; } else { b = (u8)strtol(std::string(L.p + 1, L.p + 3).c_str(), 0, 16); L.p += 3; } } else b = (u8)*L.p++; out.push_back({b, nullptr}); } L.p++; return; }
  if (c == '{' || c == '[' || c == '<') { bool pk = c == '<' && L.p[1] == '{'; L.p += pk ? 2 : 1; char cl = pk ? '}' : c == '{' ? '}' : c == '[' ? ']' : '>'; if (L.peek() != cl) do { Type *et = parseType(L); parseConst(L, et, out); } while (L.acc(',')); L.exp(cl); if (pk) L.exp('>'); return; }
  if (t->k == Type::FP && (c == '+' || c == '-') && (L.p[1] == 'i' || L.p[1] == 'q' || L.p[1] == 's' || L.p[1] == 'n')) { // +inf, -inf, +qnan, +nan(0x1)
    bool neg = c == '-', nan = L.p[1] != 'i', quiet = L.p[1] == 'q'; L.p++; L.word(); u64 pay = 0; if (nan && *L.p == '(') { pay = strtoull(L.p + 1, 0, 16); L.skipBalanced(); }
    if (t->bits == 32) push(((u64)neg << 31) | 0x7f800000u | (quiet || (nan && !pay) ? 0x400000u : 0) | pay); else push(((u64)neg << 63) | 0x7ff0000000000000ull | (quiet || (nan && !pay) ? 0x8000000000000ull : 0) | pay); return; }
  if (c == '-' || isdigit((unsigned char)c)) {
    std::string n = L.number();
    if (t->k == Type::FP) { if (n.size() > 2 && n[1] == 'x') { u64 b = strtoull(n.c_str() + 2, 0, 16); if (t->bits == 32) { double d; memcpy(&d, &b, 8); float f = (float)d; u32 x; memcpy(&x, &f, 4); push(x); } else push(b); } else { double d = strtod(n.c_str(), 0); if (t->bits == 32) { float f = (float)d; u32 x; memcpy(&x, &f, 4); push(x); } else { u64 b; memcpy(&b, &d, 8); push(b); } } return; }
    push(parseDec(n)); return;
  }
  std::string w = L.word();
  if (w == "true") { push(1); return; }
  if (w == "false" || w == "null") { push(0); return; }
  if (w == "undef" || w == "poison" || w == "zeroinitializer" || w == "none") { for (size_t i = 0; i < t->slots.size(); i++) out.push_back({0, nullptr}); return; }
  if (w.size() > 3 && w[1] == '0' && w[2] == 'x') { push(strtoull(w.c_str() + 3, 0, 16)); return; } // f0x / d0x hex float bits
  if (w == "splat") { L.exp('('); Type *et = parseType(L); std::vector<SV> one; parseConst(L, et, one); L.exp(')'); for (u64 i = 0; i < t->count; i++) out.insert(out.end(), one.begin(), one.end()); return; }
  if (w == "getelementptr") { Type *r; push(gepConst(L, r)); return; }
  if (w == "ptrtoint" || w == "inttoptr" || w == "trunc" || w == "bitcast" || w == "ptrtoaddr") { while (L.peek() != '(') L.word(); L.exp('('); Type *st = parseType(L); std::vector<SV> one; parseConst(L, st, one); if (!L.accWord("to")) fatal("constexpr"); parseType(L); L.exp(')'); push(one[0].v); return; }
  if (w == "add" || w == "sub" || w == "xor" || w == "mul" || w == "shl") { while (L.peek() != '(') L.word(); L.exp('('); Type *st = parseType(L); std::vector<SV> x, y; parseConst(L, st, x); L.exp(','); st = parseType(L); parseConst(L, st, y); L.exp(')'); u128 a = x[0].v, b = y[0].v; push(w == "add" ? a + b : w == "sub" ? a - b : w == "xor" ? a ^ b : w == "mul" ? a * b : a << (unsigned)b); return; }
  fatal("constant '%s' near %.80s", w.c_str(), L.p);
}
static u64 gepConst(Lex &L, Type *&resT) {
  while (L.peek() != '(') { L.word(); L.wsl(); if (*L.p == '(' && (L.p[1] != 'i' || true)) { // inrange(..)
      const char *save = L.p; // decide: inrange has numbers
      if (save[1] == '-' || isdigit((unsigned char)save[1])) { L.skipBalanced(); continue; } break; } }
  L.exp('('); Type *t = parseType(L); L.exp(','); Type *pt = parseType(L); std::vector<SV> base; parseConst(L, pt, base); u64 addr = (u64)base[0].v; bool first = true; Type *cur = t;
  while (L.acc(',')) { L.ws(); if (L.accWord("inrange")) {} Type *it = parseType(L); std::vector<SV> iv; parseConst(L, it, iv); i128 idx = sext128(iv[0].v, it->bits);
    if (first) { addr += (u64)idx * t->size; first = false; } else if (cur->k == Type::Struct) { addr += cur->offs[(size_t)idx]; cur = cur->el[(size_t)idx]; } else { cur = cur->el[0]; addr += (u64)idx * cur->size; } }
  L.exp(')'); resT = pt; return addr;
}
void Module::load(const std::string &path) {
  M = this;
  // several files, separated by commas, are linked: a definition stands for the declarations of its name in the others
  size_t n = 0; for (size_t i = 0; i < path.size();) { size_t j = std::min(path.find(',', i), path.size()); std::string one = path.substr(i, j - i); i = j + 1; FILE *f = fopen(one.c_str(), "rb"); if (!f) fatal("cannot open %s", one.c_str()); fseek(f, 0, SEEK_END); size_t k = ftell(f); rewind(f); text.resize(n + k + 1); if (fread(&text[n], 1, k, f) != k) fatal("read"); fclose(f); text[n + k] = '\n'; n += k + 1; }
  const char *b = text.data(), *e = b + n; const char *p = b; u64 gaddr = GLOBAL_BASE; u64 faddr = FUNC_BASE;
  std::vector<std::pair<std::string, size_t>> aliasDefs;
  std::vector<Global *> pend;
  while (p < e) {
    const char *nl = (const char *)memchr(p, '\n', e - p); if (!nl) nl = e;
    if (*p == '%') { Lex L{p + 1, nl}; std::string nm = L.name(); L.exp('='); if (!L.accWord("type")) fatal("type def"); L.ws(); namedTypes[nm] = std::string(L.p, nl); }
    else if (*p == '@') {
      Lex L{p + 1, nl}; std::string nm = L.name(); L.exp('='); Global *g = new Global(); g->name = nm; bool alias = false;
      while (true) { std::string w = L.word(); if (w == "constant") { g->isConst = true; break; } if (w == "global") break; if (w == "alias") { alias = true; break; } if (w == "external" || w == "extern_weak" || w == "available_externally") g->isExtern = true; if (w.empty()) fatal("global: %.100s", L.p); L.wsl(); if (*L.p == '(') L.skipBalanced(); }
      if (alias) { aliasDefs.push_back({nm, (size_t)(L.p - b)}); delete g; }
      else { auto old = globals.find(nm); if (old != globals.end()) { if (g->isExtern) { p = nl + 1; continue; } if (!old->second->isExtern) fatal("two definitions of @%s", nm.c_str()); } g->init = L.p - b; globals[nm] = g; globalList.push_back(g); pend.push_back(g); }
    } else if (*p == 'd' && (!strncmp(p, "define ", 7) || !strncmp(p, "declare ", 8))) {
      bool def = p[2] == 'f'; Lex L{p + (def ? 7 : 8), nl};
      Func *fn = new Func(); fn->hdr = L.p - b; fn->hasBody = def;
      const char *at = L.p; // find @name outside of quotes/parens
      { int d = 0; for (; at < nl; at++) { if (*at == '"') { at++; while (*at != '"') at++; } else if (*at == '(') d++; else if (*at == ')') d--; else if (*at == '@' && d == 0) break; } }
      fn->weak = std::string(L.p, at).find("extern_weak") != std::string::npos;
      Lex N{at + 1, nl}; fn->name = N.name(); { auto old = funcs.find(fn->name); if (old != funcs.end()) { if (!def) { p = nl + 1; continue; } if (old->second->hasBody) fatal("two definitions of @%s", fn->name.c_str()); } } fn->addr = faddr; faddr += 16; funcs[fn->name] = fn; funcList.push_back(fn); funcByAddr[fn->addr] = fn;
      if (def) { fn->body = nl - b + 1; // skip to closing
        const char *q = nl; while (q < e) { if (q[0] == '\n' && q[1] == '}') break; q++; q = (const char *)memchr(q, '\n', e - q); if (!q) { q = e; break; } } nl = q + 2 < e ? q + 2 : e; }
    }
    p = nl + 1;
  }
  for (Global *g : pend) { Lex L{b + g->init, e}; g->ty = parseType(L); g->size = g->ty->size; if (!g->isExtern) { g->hasInit = true; g->init = L.p - b; } g->addr = gaddr; u64 pages = (g->size >> PAGE_SHIFT) + 1; gaddr += pages << PAGE_SHIFT; }
  for (auto &a : aliasDefs) { Lex L{b + a.second, e}; parseType(L); L.exp(','); Type *pt = parseType(L); std::vector<SV> v; parseConst(L, pt, v); aliases[a.first] = (u64)v[0].v; }
}
void Module::initGlobal(Global *g, std::vector<u8> &bytes) {
  bytes.assign(g->size, 0); if (!g->hasInit) return;
  Lex L{text.data() + g->init, text.data() + text.size()};
  if (L.peek() == 'z') return; // zeroinitializer
  Type *t = g->ty;
  if (t->k == Type::Arr && t->slots.empty()) { // large array: parse elementwise
    std::vector<SV> v; parseConst(L, t, v); size_t per = t->el[0]->slots.size(); for (u64 i = 0; i < t->count; i++) for (size_t j = 0; j < per; j++) { auto &s = t->el[0]->slots[j]; u128 x = v[i * per + j].v; for (unsigned k = 0; k < (s.w + 7u) / 8; k++) bytes[i * t->el[0]->size + s.off + k] = (u8)(x >> (8 * k)); } return; }
  // structs may contain huge arrays: handle generically by recursive descent
  struct R { static void go(Lex &L, Type *t, u64 off, std::vector<u8> &o) {
    char c = L.peek();
    if ((t->k == Type::Struct || t->k == Type::Arr) && (c == '{' || c == '[' || c == '<')) { bool pk = c == '<'; L.p += pk ? 2 : 1; char cl = (pk || c == '{') ? '}' : ']'; u64 i = 0; if (L.peek() != cl) do { Type *et = parseType(L); u64 eo = t->k == Type::Struct ? t->offs[i] : i * t->el[0]->size; go(L, et, off + eo, o); i++; } while (L.acc(',')); L.exp(cl); if (pk) L.exp('>'); return; }
    std::vector<SV> v;
    if (c == 'c' && L.p[1] == '"') { parseConst(L, t, v); for (size_t i = 0; i < v.size(); i++) o[off + i] = (u8)v[i].v; return; }
    if (c == 'z' || c == 'u' || c == 'p') { std::string w = L.peekWord(); if (w == "zeroinitializer" || w == "undef" || w == "poison") { L.word(); return; } }
    parseConst(L, t, v); for (size_t i = 0; i < v.size(); i++) { auto &s = t->slots[i]; for (unsigned k = 0; k < (s.w + 7u) / 8; k++) o[off + s.off + k] = (u8)(v[i].v >> (8 * k)); }
  } };
  R::go(L, t, 0, bytes);
}
// ------------------------------------------------------------------ function bodies
struct FP { // function parser state
  Func *f; std::unordered_map<std::string, int> regs; std::unordered_map<std::string, int> labels; int reg(const std::string &n, Type *t) { auto it = regs.find(n); if (it != regs.end()) return it->second; int s = f->nslots; f->nslots += t->slots.size(); regs[n] = s; return s; }
  int label(const std::string &n) { auto it = labels.find(n); if (it != labels.end()) return it->second; int b = f->blocks.size(); f->blocks.emplace_back(); f->blocks.back().name = n; labels[n] = b; return b; }
  int constBase(const std::vector<SV> &v) { int b = f->consts.size(); for (auto &x : v) f->consts.push_back(x); return ~b; }
  int operand(Lex &L, Type *t) { if (L.peek() == '%') { L.p++; return reg(L.name(), t); } std::vector<SV> v; parseConst(L, t, v); return constBase(v); }
  int typed(Lex &L, Type **tp = nullptr) { Type *t = parseType(L); if (tp) *tp = t; return operand(L, t); }
  int lbl(Lex &L) { if (!L.accWord("label")) fatal("label: %.60s", L.p); L.exp('%'); return label(L.name()); }
};
static int opslot(int base, u32 i) { return base >= 0 ? base + (int)i : ~(~base + (int)i); }
static const char *PREDS[] = {"eq","ne","ugt","uge","ult","ule","sgt","sge","slt","sle"};
static void parseInst(FP &P, Lex &L, Block &B);
void Module::parseBody(Func *f) {
  if (f->parsed) return; f->parsed = true; M = this;
  FP P; P.f = f;
  // header
  Lex H{text.data() + f->hdr, text.data() + text.size()};
  auto skipLinkage = [&]() { skipAttrsToType(H); };
  skipLinkage(); f->ret = parseType(H); H.ws(); if (*H.p != '@') fatal("header of %s: %.80s", f->name.c_str(), H.p); H.p++; H.name(); H.exp('(');
  unsigned unnamed = 0;
  if (H.peek() != ')') do { if (H.peek() == '.') { H.p += 3; continue; } Type *t = parseType(H); while (true) { char c = H.peek(); if (c == '%' || c == ',' || c == ')') break; if (c == '"') { H.p++; while (*H.p != '"') H.p++; H.p++; continue; } std::string w = H.word(); H.wsl(); if (*H.p == '(') H.skipBalanced(); else if (w == "align") H.number(); else if (w.empty()) fatal("param: %.60s", H.p); }
    std::string nm; if (H.peek() == '%') { H.p++; nm = H.name(); if (isdigit((unsigned char)nm[0])) unnamed++; } else nm = std::to_string(unnamed++); P.reg(nm, t); f->paramSlots.push_back(t->slots.size()); } while (H.acc(','));
  if (!f->hasBody) return;
  // body lines
  const char *p = text.data() + f->body, *e = text.data() + text.size();
  std::vector<std::pair<const char *, const char *>> lines;
  while (p < e) { const char *nl = (const char *)memchr(p, '\n', e - p); if (!nl) nl = e; if (*p == '}') break; lines.push_back({p, nl}); p = nl + 1; }
  int cur = -1; size_t i = 0;
  while (i < lines.size() && (lines[i].first == lines[i].second)) i++;
  if (i < lines.size() && lines[i].first[0] == ' ') cur = P.label(std::to_string(unnamed)); // unlabelled entry
  for (; i < lines.size(); i++) {
    const char *s = lines[i].first, *t = lines[i].second; if (s == t || *s == ';') continue;
    if (*s != ' ') { Lex L{s, t}; std::string nm = L.name(); cur = P.label(nm); continue; }
    Lex L{s, t}; L.ws(); if (L.p >= t || *L.p == ';' || *L.p == '#') continue;
    // multi-line instructions: switch [...] and invoke/landingpad continuation
    std::string sw = std::string(L.p, std::min<size_t>(7, t - L.p));
    if (sw == "switch ") { size_t j = i; while (j < lines.size()) { const char *q = lines[j].second - 1; (void)q; std::string ln(lines[j].first, lines[j].second); size_t k = ln.find_first_not_of(' '); if ((j > i && k != std::string::npos && ln[k] == ']') || (j == i && ln.find("]") != std::string::npos && ln.find("[") != std::string::npos && ln.find("]") > ln.find("["))) break; j++; } L.end = lines[j].second; i = j; }
    else { std::string ln(L.p, t); if (ln.find("invoke ") != std::string::npos && i + 1 < lines.size()) { std::string nx(lines[i + 1].first, lines[i + 1].second); if (nx.find("to label") != std::string::npos) { i++; L.end = lines[i].second; } }
      else if (ln.find("landingpad") != std::string::npos) { while (i + 1 < lines.size()) { std::string nx(lines[i + 1].first, lines[i + 1].second); size_t k = nx.find_first_not_of(' '); if (k != std::string::npos && (nx.compare(k, 7, "cleanup") == 0 || nx.compare(k, 5, "catch") == 0 || nx.compare(k, 6, "filter") == 0)) { i++; L.end = lines[i].second; } else break; } } }
    // parse with access to the block by index (label() may reallocate)
    Block tmp; parseInst(P, L, tmp); Block &B = f->blocks[cur]; for (auto &x : tmp.phis) B.phis.push_back(std::move(x)); for (auto &x : tmp.insts) B.insts.push_back(std::move(x));
  }
}
static void skipWords(Lex &L, std::initializer_list<const char *> ws) { bool again = true; while (again) { again = false; for (auto w : ws) if (L.accWord(w)) again = true; } }
static void parseInst(FP &P, Lex &L, Block &B) {
  std::string res; const char *start = L.p; bool has = false;
  if (L.peek() == '%') { L.p++; res = L.name(); L.exp('='); has = true; }
  std::string op = L.word(); Inst I; Func *f = P.f;
  auto done = [&]() { B.insts.push_back(std::move(I)); };
  auto result = [&](Type *t) { I.dst = has ? P.reg(res, t) : -1; };
  if (op == "tail" || op == "musttail" || op == "notail") op = L.word();
  static const std::unordered_map<std::string, EK> bins = {{"add", E_ADD}, {"mul", E_MUL}, {"udiv", E_UDIV}, {"sdiv", E_SDIV}, {"urem", E_UREM}, {"srem", E_SREM}, {"shl", E_SHL}, {"lshr", E_LSHR}, {"ashr", E_ASHR}, {"and", E_AND}, {"or", E_OR}, {"xor", E_XOR}};
  auto bi = bins.find(op);
  if (bi != bins.end() || op == "sub") {
    skipWords(L, {"nuw", "nsw", "exact", "disjoint"}); Type *t = parseType(L); I.op = I_BIN; I.sub = op == "sub" ? 255 : bi->second; I.n = t->slots.size(); I.w = t->slots[0].w; I.a = P.operand(L, t); L.exp(','); I.b = P.operand(L, t); result(t); done(); return;
  }
  if (op == "icmp") { skipWords(L, {"samesign"}); std::string pr = L.word(); int pi = -1; for (int i = 0; i < 10; i++) if (pr == PREDS[i]) pi = i; if (pi < 0) fatal("icmp %s", pr.c_str()); Type *t = parseType(L); I.op = I_ICMP; I.sub = pi; I.n = t->slots.size(); I.w = t->slots[0].w; I.a = P.operand(L, t); L.exp(','); I.b = P.operand(L, t);
    Type *rt; { Lex T{"i1", "i1" + 2}; rt = parseType(T); } if (t->k == Type::Vec) { std::string s = "<" + std::to_string(t->count) + " x i1>"; Lex T{s.data(), s.data() + s.size()}; rt = parseType(T); } result(rt); done(); return; }
  if (op == "select") { skipWords(L, {"nsz", "nnan", "ninf", "fast", "arcp", "contract", "afn", "reassoc"}); Type *ct, *t; I.op = I_SELECT; I.a = P.typed(L, &ct); L.exp(','); I.b = P.typed(L, &t); L.exp(','); I.c = P.typed(L); I.n = t->slots.size(); I.sub = ct->slots.size() > 1; I.ty = t; result(t); done(); return; }
  if (op == "zext" || op == "sext" || op == "trunc" || op == "ptrtoint" || op == "inttoptr" || op == "ptrtoaddr") { skipWords(L, {"nneg", "nuw", "nsw"}); Type *st; I.a = P.typed(L, &st); if (!L.accWord("to")) fatal("cast"); Type *t = parseType(L); I.n = t->slots.size(); I.w = st->slots[0].w; I.w2 = t->slots[0].w; I.op = op == "sext" ? I_SEXT : I.w2 < I.w ? I_TRUNC : I_ZEXT; result(t); done(); return; }
  if (op == "bitcast") { Type *st; I.a = P.typed(L, &st); if (!L.accWord("to")) fatal("cast"); Type *t = parseType(L); I.op = I_BITCAST; I.w = st->slots[0].w; I.w2 = t->slots[0].w; I.nums = {st->slots.size(), t->slots.size()}; result(t); done(); return; }
  if (op == "addrspacecast" || op == "freeze") { Type *t; I.a = P.typed(L, &t); I.op = I_COPY; I.n = t->slots.size(); result(t); done(); return; }
  if (op == "fadd" || op == "fsub" || op == "fmul" || op == "fdiv" || op == "frem") { skipWords(L, {"nsz", "nnan", "ninf", "fast", "arcp", "contract", "afn", "reassoc"}); Type *t = parseType(L); I.op = I_FBIN; I.sub = op[1]; if (op == "frem") I.sub = 'r'; I.w = t->slots[0].w; I.n = t->slots.size(); I.a = P.operand(L, t); L.exp(','); I.b = P.operand(L, t); result(t); done(); return; }
  if (op == "fneg") { skipWords(L, {"nsz", "nnan", "ninf", "fast", "arcp", "contract", "afn", "reassoc"}); Type *t; I.a = P.typed(L, &t); I.op = I_FNEG; I.w = t->slots[0].w; I.n = t->slots.size(); result(t); done(); return; }
  if (op == "fcmp") { skipWords(L, {"nsz", "nnan", "ninf", "fast", "arcp", "contract", "afn", "reassoc"}); std::string pr = L.word(); Type *t = parseType(L); I.op = I_FCMP; I.text = pr; I.w = t->slots[0].w; I.n = t->slots.size(); I.a = P.operand(L, t); L.exp(','); I.b = P.operand(L, t); Lex T{"i1", "i1" + 2}; result(parseType(T)); done(); return; }
  if (op == "fptoui" || op == "fptosi" || op == "uitofp" || op == "sitofp" || op == "fptrunc" || op == "fpext") { skipWords(L, {"nneg", "nsz", "nnan", "ninf", "fast"}); Type *st; I.a = P.typed(L, &st); if (!L.accWord("to")) fatal("cast"); Type *t = parseType(L); I.op = I_FPCAST; I.text = op; I.w = st->slots[0].w; I.w2 = t->slots[0].w; I.n = t->slots.size(); result(t); done(); return; }
  if (op == "getelementptr") {
    skipWords(L, {"inbounds", "nuw", "nusw"}); L.wsl(); if (L.peekWord() == "inrange") { L.word(); L.skipBalanced(); }
    Type *t = parseType(L); L.exp(','); Type *pt; I.op = I_GEP; I.a = P.typed(L, &pt); if (pt->k == Type::Vec) { I.op = I_UNSUPPORTED; I.text = std::string(start, L.end); done(); return; }
    u64 cst = 0; bool first = true; Type *cur = t;
    while (L.acc(',')) { if (L.peek() == '!') break; Type *it; int o = P.typed(L, &it); u64 scale; 
      if (first) { scale = t->size; first = false; } else if (cur->k == Type::Struct) { u64 ix = (u64)f->consts[~o].v; cst += cur->offs[ix]; cur = cur->el[ix]; continue; } else { cur = cur->el[0]; scale = cur->size; }
      if (o < 0) cst += (u64)sext128(f->consts[~o].v, it->bits) * scale; else { I.ops.push_back(o); I.nums.push_back(scale); I.nums.push_back(it->bits); } }
    I.wide.push_back(cst); result(pt); done(); return;
  }
  if (op == "load") { L.ws(); I.sub = !strncmp(L.p, "atomic", 6); skipWords(L, {"atomic", "volatile"}); Type *t = parseType(L); L.exp(','); I.op = I_LOAD; I.a = P.typed(L); I.ty = t; I.n = t->slots.size(); result(t); done(); return; }
  if (op == "store") { L.ws(); I.sub = !strncmp(L.p, "atomic", 6); skipWords(L, {"atomic", "volatile"}); Type *t; I.op = I_STORE; I.b = P.typed(L, &t); L.exp(','); I.a = P.typed(L); I.ty = t; I.n = t->slots.size(); done(); return; }
  if (op == "alloca") { skipWords(L, {"inalloca"}); Type *t = parseType(L); u64 sz = t->size; u64 al = 16; while (L.acc(',')) { if (L.accWord("align")) al = strtoull(L.number().c_str(), 0, 10); else if (isTypeStart(L)) { Type *ct = parseType(L); std::vector<SV> v; if (L.peek() == '%') fatal("dynamic alloca"); parseConst(L, ct, v); sz *= (u64)v[0].v; } else break; }
    f->frameSize = (f->frameSize + al - 1) / al * al; I.op = I_ALLOCA; I.wide.push_back(f->frameSize); f->frameSize += sz + 16; Lex T{"ptr", "ptr" + 3}; result(parseType(T)); done(); return; }
  if (op == "extractvalue") { Type *t; int o = P.typed(L, &t); u32 s = 0; Type *cur = t; while (L.acc(',')) { if (L.peek() == '!') break; u64 ix = strtoull(L.number().c_str(), 0, 10); s += cur->slotStart[ix]; cur = cur->k == Type::Struct ? cur->el[ix] : cur->el[0]; } I.op = I_COPY; I.a = opslot(o, s); I.n = cur->slots.size(); result(cur); done(); return; }
  if (op == "insertvalue") { Type *t, *vt; int o = P.typed(L, &t); L.exp(','); int v = P.typed(L, &vt); u32 s = 0; Type *cur = t; while (L.acc(',')) { if (L.peek() == '!') break; u64 ix = strtoull(L.number().c_str(), 0, 10); s += cur->slotStart[ix]; cur = cur->k == Type::Struct ? cur->el[ix] : cur->el[0]; } I.op = I_INSERTV; I.a = o; I.b = v; I.n = t->slots.size(); I.nums = {s, vt->slots.size()}; result(t); done(); return; }
  if (op == "extractelement") { Type *t; I.a = P.typed(L, &t); L.exp(','); I.b = P.typed(L); I.op = I_EXTRACTE; I.n = t->count; result(t->el[0]); done(); return; }
  if (op == "insertelement") { Type *t; I.a = P.typed(L, &t); L.exp(','); I.b = P.typed(L); L.exp(','); I.c = P.typed(L); I.op = I_INSERTE; I.n = t->count; result(t); done(); return; }
  if (op == "shufflevector") { Type *t, *mt; I.a = P.typed(L, &t); L.exp(','); I.b = P.typed(L); L.exp(','); int m = P.typed(L, &mt); I.op = I_SHUFFLE; I.n = mt->count; for (u64 i = 0; i < mt->count; i++) I.nums.push_back((u64)f->consts[~opslot(m, i)].v); I.wide.push_back(t->count); std::string tn; Type *rt = new Type(); rt->k = Type::Vec; rt->count = mt->count; rt->el = {t->el[0]}; layout(rt); result(rt); done(); return; }
  if (op == "br") { if (L.peekWord() == "label") { I.op = I_BR; I.nums = {(u64)P.lbl(L)}; } else { I.op = I_CBR; I.a = P.typed(L); L.exp(','); u64 t = P.lbl(L); L.exp(','); u64 e = P.lbl(L); I.nums = {t, e}; } done(); return; }
  if (op == "switch") { Type *t; I.op = I_SWITCH; I.a = P.typed(L, &t); I.w = t->slots[0].w; L.exp(','); I.nums.push_back(P.lbl(L)); L.exp('['); while (L.peek() != ']') { Type *ct = parseType(L); std::vector<SV> v; parseConst(L, ct, v); L.exp(','); I.wide.push_back(v[0].v); I.nums.push_back(P.lbl(L)); } done(); return; }
  if (op == "ret") { I.op = I_RET; Type *t = parseType(L); if (t->k != Type::Void) { I.a = P.operand(L, t); I.n = t->slots.size(); } else I.n = 0; done(); return; }
  if (op == "unreachable") { I.op = I_UNREACHABLE; done(); return; }
  if (op == "resume") { I.op = I_UNSUPPORTED; I.text = "resume"; done(); return; }
  if (op == "landingpad" || op == "cleanuppad" || op == "catchpad" || op == "catchswitch" || op == "cleanupret" || op == "catchret") { I.op = I_UNSUPPORTED; I.text = op; if (has) { Type *t = parseType(L); result(t); } done(); return; }
  if (op == "phi") { skipWords(L, {"nsz", "nnan", "ninf", "fast"}); Type *t = parseType(L); Phi ph; ph.n = t->slots.size(); ph.dst = P.reg(res, t); do { if (L.peek() != '[') break; L.exp('['); int o = P.operand(L, t); L.exp(','); L.exp('%'); int b = P.label(L.name()); L.exp(']'); ph.in.push_back({b, o}); } while (L.acc(',')); B.phis.push_back(std::move(ph)); return; }
  if (op == "call" || op == "invoke") {
    skipWords(L, {"fastcc", "coldcc", "ccc", "nsz", "nnan", "ninf", "fast", "preserve_mostcc", "preserve_allcc"}); while (L.peekWord() == "cc" ) { L.word(); L.number(); }
    skipAttrsToType(L); Type *rt = parseType(L); L.ws(); if (*L.p == '(') L.skipBalanced(); L.ws();
    if (L.peekWord() == "addrspace") { L.word(); L.skipBalanced(); L.ws(); }
    I.op = I_CALL; I.ty = rt;
    std::string asmText;
    if (*L.p == '@') { L.p++; std::string n = L.name(); auto it = M->funcs.find(n); if (it != M->funcs.end()) I.callee = it->second; else { auto al = M->aliases.find(n); if (al == M->aliases.end()) fatal("call to unknown @%s", n.c_str()); I.callee = M->funcByAddr[al->second]; } }
    else if (*L.p == '%') { L.p++; Lex T{"ptr", "ptr" + 3}; I.a = P.reg(L.name(), parseType(T)); }
    else if (L.peekWord() == "asm") { I.text = "asm " + std::string(L.p, std::min<size_t>(200, L.end - L.p)); L.word(); skipWords(L, {"sideeffect", "alignstack", "inteldialect", "unwind"}); L.ws(); while (*L.p != '"') L.p++; L.p++; while (*L.p != '"') L.p++; L.p++; L.exp(','); L.ws(); L.p++; while (*L.p != '"') L.p++; L.p++; }
    else if (isConstExprWord(L.peekWord()) || L.peekWord() == "null" || L.peekWord() == "poison" || L.peekWord() == "undef") { Lex T{"ptr", "ptr" + 3}; I.a = P.operand(L, parseType(T)); }
    else fatal("call target: %.100s", L.p);
    L.exp('('); 
    if (L.peek() != ')') do { if (L.peekWord() == "metadata") { int d = 0; while (L.p < L.end) { if (*L.p == '"') { L.p++; while (*L.p != '"') L.p++; } else if (*L.p == '(' || *L.p == '{' || *L.p == '[') d++; else if (*L.p == ')' || *L.p == '}' || *L.p == ']') { if (d == 0) break; d--; } else if (*L.p == ',' && d == 0) break; L.p++; } continue; }
      Type *t = parseType(L); skipAttrsToValue(L); int o = P.operand(L, t); for (u32 i = 0; i < t->slots.size(); i++) { I.ops.push_back(opslot(o, i)); I.nums.push_back(t->slots[i].w); } I.wide.push_back(t->slots.size()); } while (L.acc(','));
    L.exp(')'); I.n = rt->slots.size(); if (has) result(rt);
    bool inv = op == "invoke"; if (inv) { while (!L.accWord("to")) { if (L.p >= L.end) fatal("invoke"); L.ws(); if (*L.p == '#') L.p++; else if (*L.p == '[' || *L.p == '(') L.skipBalanced(); else { L.word(); } } }
    int to = inv ? P.lbl(L) : -1; done(); if (inv) { Inst J; J.op = I_BR; J.nums = {(u64)to}; B.insts.push_back(std::move(J)); } return;
  }
  if (op == "cmpxchg") { skipWords(L, {"weak", "volatile"}); Type *t; I.op = I_CMPXCHG; I.a = P.typed(L); L.exp(','); I.b = P.typed(L, &t); L.exp(','); I.c = P.typed(L); I.ty = t; std::string k = "{" + tkey(t) + "x"; Lex T{"i1", "i1" + 2}; Type *i1 = parseType(T); Type *rt = mkType(Type::Struct, 0, 0, {t, i1}, false, "{" + tkey(t) + tkey(i1)); result(rt); done(); return; }
  if (op == "atomicrmw") { skipWords(L, {"volatile"}); std::string k = L.word(); Type *t; I.op = I_ARMW; I.text = k; I.a = P.typed(L); L.exp(','); I.b = P.typed(L, &t); I.ty = t; I.w = t->slots[0].w; result(t); done(); return; }
  if (op == "fence") return;
  I.op = I_UNSUPPORTED; I.text = std::string(start, L.end); fatal("unsupported instruction: %s", I.text.substr(0, 200).c_str());
}
