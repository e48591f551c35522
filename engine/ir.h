// LLVM IR (textual) loader: types, constants, functions (bodies parsed lazily).
#pragma once
#include "expr.h"
#include <memory>
struct Slot { u32 off; u8 w; bool fp; };           // flattened scalar: byte offset in memory, bit width
struct Type { enum K { Void, Int, Ptr, FP, Vec, Arr, Struct, Label, Meta, Opaque } k; unsigned bits = 0; u64 count = 0; std::vector<Type *> el; std::vector<u64> offs; bool packed = false; u64 size = 0, align = 1; std::vector<Slot> slots; std::vector<u32> slotStart; };
struct SV { u128 v; Expr *e; };                      // a scalar: concrete (e==0) or symbolic
enum Op : u8 { I_BIN, I_ICMP, I_FBIN, I_FCMP, I_FNEG, I_SELECT, I_ZEXT, I_SEXT, I_TRUNC, I_BITCAST, I_FPCAST, I_COPY, I_GEP, I_LOAD, I_STORE, I_ALLOCA, I_EXTRACTV, I_INSERTV, I_EXTRACTE, I_INSERTE, I_SHUFFLE,
  I_BR, I_CBR, I_SWITCH, I_RET, I_UNREACHABLE, I_CALL, I_CMPXCHG, I_ARMW, I_NOP, I_UNSUPPORTED };
struct Func;
struct Inst {
  Op op; u8 sub = 0; u8 w = 0; u8 w2 = 0; u32 n = 1;   // sub: kind/predicate; w: operand width; w2: result width; n: lanes / slots
  int dst = -1; int a = -1, b = -1, c = -1;           // operand refs: >=0 register slot, <0 constant ~x
  std::vector<int> ops; std::vector<u64> nums; std::vector<u128> wide; Type *ty = nullptr; Func *callee = nullptr; std::string text;
};
struct Phi { int dst; u32 n; std::vector<std::pair<int, int>> in; };  // (block, operand base)
struct Block { std::vector<Phi> phis; std::vector<Inst> insts; std::string name; };
struct Func { std::string name; bool hasBody = false, parsed = false, noret = false, weak = false; u64 addr = 0; size_t hdr = 0, body = 0; int intrinsic = -1; Type *ret = nullptr;
  std::vector<u32> paramSlots; std::vector<Block> blocks; u32 nslots = 0; std::vector<SV> consts; u64 frameSize = 0; u64 execCount = 0; bool mark = false; };
struct Global { std::string name; Type *ty = nullptr; u64 addr = 0; size_t init = 0; bool hasInit = false, isConst = false, isExtern = false; u64 size = 0, align = 1; };
struct Module {
  std::string text; std::unordered_map<std::string, Func *> funcs; std::unordered_map<std::string, Global *> globals; std::vector<Func *> funcList; std::vector<Global *> globalList;
  std::unordered_map<std::string, u64> aliases; std::unordered_map<u64, Func *> funcByAddr;
  void load(const std::string &path);
  void parseBody(Func *f);
  // fills bytes of a global's initial value
  void initGlobal(Global *g, std::vector<u8> &bytes);
};
static const u64 PAGE_SHIFT = 20;
static const u64 FUNC_BASE = 0x7000000000ull;
static const u64 GLOBAL_BASE = 0x100000000ull;      // objects start every 1 MiB
static const u64 STACK_BASE = 0x2000000000ull;
static const u64 HEAP_BASE = 0x3000000000ull;
