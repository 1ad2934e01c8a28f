// Decoded form of the LLVM IR (read through the LLVM C API).
#pragma once
#include "expr.hpp"
#include <map>
#include <string>
#include <vector>

struct Func;
struct Opnd { int reg = -1; u64 c = 0; u8 w = 64; };   // reg >= 0: register, else constant c

enum IK : u8 {
  I_BIN, I_FBIN, I_FNEG, I_ICMP, I_FCMP, I_SELECT, I_ZEXT, I_SEXT, I_TRUNC, I_MOV, I_SITOFP, I_UITOFP, I_FPTOSI, I_FPEXT, I_FPTRUNC,
  I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_CALLIND, I_UNREACHABLE, I_ATOMICRMW, I_CMPXCHG, I_FENCE,
  I_EXTRACTVALUE, I_INSERTVALUE, I_UNSUPPORTED
};
struct Inst {
  IK k; u8 w = 0; u8 sub = 0;        // sub: Op / predicate / rmw op
  bool vol = false, atomic = false;
  u8 lock = 0;                       // 1: acquires a lock, 2: releases one, 3: one-time initialisation
  bool visible = false;              // scheduling point (set by the race-directed refinement)
  int dst = -1, nslots = 1, slot = 0;
  std::vector<Opnd> ops;
  i64 off = 0; std::vector<i64> scale; // GEP: ops[0] + off + sum ops[i+1]*scale[i]
  int t0 = -1, t1 = -1;
  std::vector<std::pair<u64, int>> cases;
  Func *callee = nullptr; int ext = -1;
  u64 size = 0;
  u32 line = 0; const char *file = nullptr; const Func *fn = nullptr; u32 uid = 0;
};
struct Phi { int dst; int nslots; std::vector<std::pair<int, Opnd>> in; };
struct Block { bool hit = false; std::vector<Phi> phis; std::vector<Inst> insts; };
struct Func {
  std::string name; int nargs = 0, nregs = 0; std::vector<Block> blocks; u64 addr = 0; bool decl = true; int retSlots = 0; u8 retW = 0;
  bool executed = false;
};
struct Reloc { u64 off; u64 val; };
struct Global { std::string name; u64 size; std::vector<u8> init; u64 addr; bool isConst; bool external; };
struct Module {
  std::vector<Func *> funcs; std::map<std::string, Func *> byName; std::map<u64, Func *> byAddr;
  std::vector<Global> globals; std::vector<Func *> ctors; std::vector<std::string> exts;
};
// objects live at (id << 32) + OBJ_BASE
static const u64 OBJ_BASE = 0x40000000ULL;
static inline u64 objAddr(u32 id) { return ((u64)id << 32) + OBJ_BASE; }
static const u64 FUNC_BASE = 0x7f00000000000000ULL;
bool loadModule(const char *path, Module &M, std::string &err);
