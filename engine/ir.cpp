#include "ir.hpp"
#include <llvm-c/Core.h>
#include <llvm-c/IRReader.h>
#include <llvm-c/Target.h>
#include <llvm-c/DebugInfo.h>
#include <cstring>
#include <set>
#include <unordered_map>

static LLVMTargetDataRef TD;
static std::unordered_map<LLVMValueRef, u64> gAddr;    // globals + functions
static Module *MM;

static int tyW(LLVMTypeRef t) {
  switch (LLVMGetTypeKind(t)) {
  case LLVMIntegerTypeKind: return LLVMGetIntTypeWidth(t);
  case LLVMPointerTypeKind: return 64;
  case LLVMDoubleTypeKind: return 64;
  case LLVMFloatTypeKind: return 32;
  case LLVMVoidTypeKind: return 0;
  default: return -1;
  }
}
static bool supportedScalar(LLVMTypeRef t) { int w = tyW(t); return w >= 1 && w <= 64; }
static int nslotsOf(LLVMTypeRef t) {
  switch (LLVMGetTypeKind(t)) {
  case LLVMStructTypeKind: { int n = 0; for (unsigned i = 0; i < LLVMCountStructElementTypes(t); i++) { int k = nslotsOf(LLVMStructGetTypeAtIndex(t, i)); if (k < 0) return -1; n += k; } return n; }
  case LLVMArrayTypeKind: { int k = nslotsOf(LLVMGetElementType(t)); return k < 0 ? -1 : k * (int)LLVMGetArrayLength(t); }
  case LLVMVoidTypeKind: return 0;
  default: return supportedScalar(t) ? 1 : -1;
  }
}
static u64 constVal(LLVMValueRef v, bool &ok);
static i64 gepConst(LLVMValueRef v, bool &ok) {
  LLVMTypeRef t = LLVMGetGEPSourceElementType(v); i64 off = 0; unsigned n = LLVMGetNumOperands(v);
  for (unsigned i = 1; i < n; i++) {
    LLVMValueRef ix = LLVMGetOperand(v, i); bool o2 = true; i64 x = sextw(constVal(ix, o2), tyW(LLVMTypeOf(ix))); if (!o2) ok = false;
    if (i == 1) off += x * (i64)LLVMABISizeOfType(TD, t);
    else if (LLVMGetTypeKind(t) == LLVMStructTypeKind) { off += LLVMOffsetOfElement(TD, t, x); t = LLVMStructGetTypeAtIndex(t, x); }
    else { t = LLVMGetElementType(t); off += x * (i64)LLVMABISizeOfType(TD, t); }
  }
  return off;
}
static u64 constVal(LLVMValueRef v, bool &ok) {
  if (LLVMIsAConstantInt(v)) { if (LLVMGetIntTypeWidth(LLVMTypeOf(v)) > 64) { ok = false; return 0; } return LLVMConstIntGetZExtValue(v); }
  if (LLVMIsAConstantFP(v)) { LLVMBool l; double d = LLVMConstRealGetDouble(v, &l); if (LLVMGetTypeKind(LLVMTypeOf(v)) == LLVMFloatTypeKind) { float f = (float)d; u32 b; memcpy(&b, &f, 4); return b; } u64 b; memcpy(&b, &d, 8); return b; }
  if (LLVMIsAConstantPointerNull(v) || LLVMIsUndef(v) || LLVMIsPoison(v)) return 0;
  if (LLVMIsAGlobalAlias(v)) return constVal(LLVMAliasGetAliasee(v), ok);
  auto it = gAddr.find(v); if (it != gAddr.end()) return it->second;
  if (LLVMIsAConstantExpr(v)) {
    switch (LLVMGetConstOpcode(v)) {
    case LLVMGetElementPtr: return constVal(LLVMGetOperand(v, 0), ok) + gepConst(v, ok);
    case LLVMBitCast: case LLVMPtrToInt: case LLVMIntToPtr: case LLVMZExt: case LLVMAddrSpaceCast: return constVal(LLVMGetOperand(v, 0), ok);
    case LLVMTrunc: return constVal(LLVMGetOperand(v, 0), ok) & maskw(tyW(LLVMTypeOf(v)));
    case LLVMAdd: return constVal(LLVMGetOperand(v, 0), ok) + constVal(LLVMGetOperand(v, 1), ok);
    case LLVMSub: return constVal(LLVMGetOperand(v, 0), ok) - constVal(LLVMGetOperand(v, 1), ok);
    default: break;
    }
  }
  if (LLVMIsAConstantAggregateZero(v)) return 0;
  ok = false; return 0;
}
static void initBytes(LLVMValueRef v, u8 *p, bool &ok) {
  LLVMTypeRef t = LLVMTypeOf(v); u64 sz = LLVMABISizeOfType(TD, t);
  if (LLVMIsAConstantAggregateZero(v) || LLVMIsUndef(v) || LLVMIsPoison(v)) { memset(p, 0, sz); return; }
  LLVMTypeKind k = LLVMGetTypeKind(t);
  if (LLVMIsAConstantDataSequential(v)) {
    LLVMTypeRef et = LLVMGetElementType(t); u64 es = LLVMABISizeOfType(TD, et); unsigned n = k == LLVMArrayTypeKind ? LLVMGetArrayLength(t) : LLVMGetVectorSize(t);
    for (unsigned i = 0; i < n; i++) { LLVMValueRef e = LLVMGetAggregateElement(v, i); u64 x = constVal(e, ok); memcpy(p + i * es, &x, es); }
    return;
  }
  if (k == LLVMStructTypeKind) { for (unsigned i = 0; i < LLVMCountStructElementTypes(t); i++) initBytes(LLVMGetAggregateElement(v, i), p + LLVMOffsetOfElement(TD, t, i), ok); return; }
  if (k == LLVMArrayTypeKind) { u64 es = LLVMABISizeOfType(TD, LLVMGetElementType(t)); for (unsigned i = 0; i < LLVMGetArrayLength(t); i++) initBytes(LLVMGetAggregateElement(v, i), p + i * es, ok); return; }
  u64 x = constVal(v, ok); memcpy(p, &x, sz > 8 ? 8 : sz);
}

// what streams print is not modelled
static bool isStream(const std::string &n) { return n.compare(0, 21, "_ZStlsISt11char_trait") == 0 || n.compare(0, 5, "_ZNSo") == 0 || n.compare(0, 21, "_ZSt16__ostream_inser") == 0 || n.compare(0, 17, "_ZSt4endlIcSt11ch") == 0 || n.compare(0, 18, "_ZSt5flushIcSt11ch") == 0 || n.compare(0, 20, "_ZNSt8ios_base4InitC") == 0 || n.compare(0, 20, "_ZNSt8ios_base4InitD") == 0; }
struct FnCtx { std::unordered_map<LLVMValueRef, int> reg; std::unordered_map<LLVMBasicBlockRef, int> bb; };
static bool opnd(FnCtx &c, LLVMValueRef v, Opnd &o) {
  int w = tyW(LLVMTypeOf(v)); o.w = w > 0 && w <= 64 ? w : 64;
  auto it = c.reg.find(v);
  if (it != c.reg.end()) { o.reg = it->second; return true; }
  bool ok = true; o.reg = -1; o.c = constVal(v, ok) & maskw(o.w); return ok;
}
static u32 gUid = 1;
static std::set<std::string> strpool;

static void decodeInst(FnCtx &c, LLVMValueRef v, Inst &I) {
  LLVMOpcode op = LLVMGetInstructionOpcode(v); LLVMTypeRef ty = LLVMTypeOf(v);
  I.k = I_UNSUPPORTED; I.sub = (u8)op; I.uid = gUid++;
  I.line = LLVMGetDebugLocLine(v);
  unsigned fl = 0; const char *fnm = LLVMGetDebugLocFilename(v, &fl);
  if (fnm && fl) I.file = strpool.insert(std::string(fnm, fl)).first->c_str();
  I.nslots = nslotsOf(ty); int w = tyW(ty); I.w = w > 0 && w <= 64 ? w : 0;
  if (I.nslots > 0) I.dst = c.reg[v];
  unsigned n = LLVMGetNumOperands(v);
  auto allOps = [&](unsigned from, unsigned to) { for (unsigned i = from; i < to; i++) { Opnd o; if (!opnd(c, LLVMGetOperand(v, i), o)) return false; I.ops.push_back(o); } return true; };
  if (I.nslots < 0) return;
  switch (op) {
  case LLVMAdd: case LLVMSub: case LLVMMul: case LLVMUDiv: case LLVMSDiv: case LLVMURem: case LLVMSRem: case LLVMAnd: case LLVMOr: case LLVMXor: case LLVMShl: case LLVMLShr: case LLVMAShr:
    if (!I.w || !allOps(0, 2)) return;
    I.k = I_BIN;
    switch (op) { case LLVMAdd: I.sub = O_ADD; break; case LLVMSub: I.sub = 255; break; case LLVMMul: I.sub = O_MUL; break; case LLVMUDiv: I.sub = O_UDIV; break; case LLVMSDiv: I.sub = O_SDIV; break; case LLVMURem: I.sub = O_UREM; break; case LLVMSRem: I.sub = O_SREM; break; case LLVMAnd: I.sub = O_AND; break; case LLVMOr: I.sub = O_OR; break; case LLVMXor: I.sub = O_XOR; break; case LLVMShl: I.sub = O_SHL; break; case LLVMLShr: I.sub = O_LSHR; break; default: I.sub = O_ASHR; }
    return;
  case LLVMFAdd: case LLVMFSub: case LLVMFMul: case LLVMFDiv:
    if ((LLVMGetTypeKind(ty) != LLVMDoubleTypeKind && LLVMGetTypeKind(ty) != LLVMFloatTypeKind) || !allOps(0, 2)) return;
    I.k = I_FBIN; I.sub = op == LLVMFAdd ? O_FADD : op == LLVMFSub ? O_FSUB : op == LLVMFMul ? O_FMUL : O_FDIV; return;
  case LLVMFNeg: if ((LLVMGetTypeKind(ty) != LLVMDoubleTypeKind && LLVMGetTypeKind(ty) != LLVMFloatTypeKind) || !allOps(0, 1)) return; I.k = I_FNEG; return;
  case LLVMICmp: if (!allOps(0, 2) || I.w != 1) return; I.k = I_ICMP; I.sub = (u8)LLVMGetICmpPredicate(v); return;
  case LLVMFCmp: { if (!allOps(0, 2)) return; LLVMTypeKind fk = LLVMGetTypeKind(LLVMTypeOf(LLVMGetOperand(v, 0))); if (fk != LLVMDoubleTypeKind && fk != LLVMFloatTypeKind) return; } I.k = I_FCMP; I.sub = (u8)LLVMGetFCmpPredicate(v); return;
  case LLVMSelect: if (!I.w || !allOps(0, 3)) return; I.k = I_SELECT; return;
  case LLVMZExt: if (!I.w || !allOps(0, 1)) return; I.k = I_ZEXT; return;
  case LLVMSExt: if (!I.w || !allOps(0, 1)) return; I.k = I_SEXT; return;
  case LLVMTrunc: if (!I.w || !allOps(0, 1)) return; I.k = I_TRUNC; return;
  case LLVMBitCast: case LLVMPtrToInt: case LLVMIntToPtr: case LLVMFreeze: case LLVMAddrSpaceCast:
    if (!I.w || !allOps(0, 1)) return;
    if (I.ops[0].w > I.w) I.k = I_TRUNC; else if (I.ops[0].w < I.w) I.k = I_ZEXT; else I.k = I_MOV;
    return;
  case LLVMSIToFP: if ((LLVMGetTypeKind(ty) != LLVMDoubleTypeKind && LLVMGetTypeKind(ty) != LLVMFloatTypeKind) || !allOps(0, 1)) return; I.k = I_SITOFP; return;
  case LLVMUIToFP: if ((LLVMGetTypeKind(ty) != LLVMDoubleTypeKind && LLVMGetTypeKind(ty) != LLVMFloatTypeKind) || !allOps(0, 1)) return; I.k = I_UITOFP; return;
  case LLVMFPToSI: case LLVMFPToUI: if (!allOps(0, 1)) return; I.k = I_FPTOSI; return;
  case LLVMFPExt: if (!allOps(0, 1)) return; I.k = I_FPEXT; return;
  case LLVMFPTrunc: if (!allOps(0, 1)) return; I.k = I_FPTRUNC; return;
  case LLVMLoad: if (!I.w || !allOps(0, 1)) return; I.k = I_LOAD; I.vol = LLVMGetVolatile(v); I.atomic = LLVMGetOrdering(v) != LLVMAtomicOrderingNotAtomic; I.size = LLVMStoreSizeOfType(TD, ty); return;
  case LLVMStore: { LLVMTypeRef st = LLVMTypeOf(LLVMGetOperand(v, 0)); if (!supportedScalar(st) || !allOps(0, 2)) return; I.k = I_STORE; I.vol = LLVMGetVolatile(v); I.atomic = LLVMGetOrdering(v) != LLVMAtomicOrderingNotAtomic; I.size = LLVMStoreSizeOfType(TD, st); return; }
  case LLVMGetElementPtr: {
    if (!I.w) return;
    Opnd b; if (!opnd(c, LLVMGetOperand(v, 0), b)) return; I.ops.push_back(b);
    LLVMTypeRef t = LLVMGetGEPSourceElementType(v);
    for (unsigned i = 1; i < n; i++) {
      LLVMValueRef ix = LLVMGetOperand(v, i); i64 sc;
      if (i > 1 && LLVMGetTypeKind(t) == LLVMStructTypeKind) { u64 x = LLVMConstIntGetZExtValue(ix); I.off += LLVMOffsetOfElement(TD, t, x); t = LLVMStructGetTypeAtIndex(t, x); continue; }
      if (i > 1) t = LLVMGetElementType(t);
      sc = (i64)LLVMABISizeOfType(TD, t);
      Opnd o; if (!opnd(c, ix, o)) return;
      if (o.reg < 0) I.off += sextw(o.c, o.w) * sc; else { I.ops.push_back(o); I.scale.push_back(sc); }
    }
    I.k = I_GEP; return; }
  case LLVMAlloca: { if (!allOps(0, 1)) return; I.k = I_ALLOCA; I.size = LLVMABISizeOfType(TD, LLVMGetAllocatedType(v)); return; }
  case LLVMBr:
    if (LLVMIsConditional(v)) { if (!allOps(0, 1)) return; I.k = I_CBR; I.t0 = c.bb[LLVMGetSuccessor(v, 0)]; I.t1 = c.bb[LLVMGetSuccessor(v, 1)]; }
    else { I.k = I_BR; I.t0 = c.bb[LLVMGetSuccessor(v, 0)]; }
    return;
  case LLVMSwitch: {
    if (!allOps(0, 1)) return; I.k = I_SWITCH; I.t0 = c.bb[LLVMGetSwitchDefaultDest(v)];
    for (unsigned i = 2; i + 1 < n; i += 2) I.cases.push_back({LLVMConstIntGetZExtValue(LLVMGetOperand(v, i)), c.bb[LLVMValueAsBasicBlock(LLVMGetOperand(v, i + 1))]});
    return; }
  case LLVMRet:
    I.k = I_RET;
    if (n) {
      LLVMValueRef r = LLVMGetOperand(v, 0); int ns = nslotsOf(LLVMTypeOf(r)); I.nslots = ns; I.dst = -1;
      if (ns == 1) { if (!allOps(0, 1)) I.k = I_UNSUPPORTED; }
      else { auto it = c.reg.find(r); if (it == c.reg.end()) { if (LLVMIsUndef(r) || LLVMIsPoison(r) || LLVMIsAConstantAggregateZero(r)) for (int i = 0; i < ns; i++) I.ops.push_back(Opnd()); else I.k = I_UNSUPPORTED; } else for (int i = 0; i < ns; i++) { Opnd o; o.reg = it->second + i; I.ops.push_back(o); } }
    }
    return;
  case LLVMCall: case LLVMInvoke: {
    LLVMValueRef cal = LLVMGetCalledValue(v); unsigned na = LLVMGetNumArgOperands(v);
    while (LLVMIsAGlobalAlias(cal)) cal = LLVMAliasGetAliasee(cal);
    bool isFn = LLVMIsAFunction(cal) != nullptr; std::string nm;
    if (isFn) { size_t l; nm = LLVMGetValueName2(cal, &l); }
    if (nm.compare(0, 8, "llvm.dbg") == 0 || nm.compare(0, 13, "llvm.lifetime") == 0 || nm == "llvm.assume" || nm.compare(0, 17, "llvm.experimental") == 0) { I.k = I_CALL; I.ext = -2; I.dst = -1; return; }
    for (unsigned i = 0; i < na; i++) {
      LLVMValueRef a = LLVMGetOperand(v, i); int ns = nslotsOf(LLVMTypeOf(a));
      if (ns == 1) { Opnd o; if (!opnd(c, a, o)) { if (LLVMGetTypeKind(LLVMTypeOf(a)) == LLVMMetadataTypeKind) continue; return; } I.ops.push_back(o); }
      else { auto it = c.reg.find(a); if (ns < 0 || it == c.reg.end()) return; for (int j = 0; j < ns; j++) { Opnd o; o.reg = it->second + j; I.ops.push_back(o); } }
    }
    if (op == LLVMInvoke) I.t0 = c.bb[LLVMGetNormalDest(v)];
    if (isFn) {
      Func *f = MM->byName[nm];
      I.k = I_CALL; I.callee = f;
      if (LLVMCountBasicBlocks(cal) == 0 || isStream(nm)) { I.callee = nullptr; int e = -1; for (size_t i = 0; i < MM->exts.size(); i++) if (MM->exts[i] == nm) e = i; if (e < 0) { e = MM->exts.size(); MM->exts.push_back(nm); } I.ext = e; if (nm == "__kmpc_critical" || nm == "__kmpc_critical_with_hint" || nm == "omp_set_lock" || nm == "pthread_mutex_lock") I.lock = 1; if (nm == "__cxa_guard_acquire") I.lock = 3; if (I.lock) I.size = 8; }
    } else { Opnd o; if (!opnd(c, cal, o)) { I.k = I_UNSUPPORTED; return; } I.ops.insert(I.ops.begin(), o); I.k = I_CALLIND; }
    return; }
  case LLVMUnreachable: I.k = I_UNREACHABLE; return;
  case LLVMAtomicRMW: if (!I.w || !allOps(0, 2)) return; I.k = I_ATOMICRMW; I.atomic = true; I.sub = (u8)LLVMGetAtomicRMWBinOp(v); I.size = LLVMStoreSizeOfType(TD, ty); return;
  case LLVMAtomicCmpXchg: { if (!allOps(0, 3)) return; I.k = I_CMPXCHG; I.atomic = true; LLVMTypeRef vt = LLVMTypeOf(LLVMGetOperand(v, 1)); I.w = tyW(vt); I.size = LLVMStoreSizeOfType(TD, vt); return; }
  case LLVMFence: I.k = I_FENCE; I.dst = -1; return;
  case LLVMExtractValue: {
    LLVMValueRef a = LLVMGetOperand(v, 0); auto it = c.reg.find(a); if (it == c.reg.end()) return;
    LLVMTypeRef t = LLVMTypeOf(a); const unsigned *ix = LLVMGetIndices(v); int slot = 0;
    for (unsigned i = 0; i < LLVMGetNumIndices(v); i++) { if (LLVMGetTypeKind(t) == LLVMStructTypeKind) { for (unsigned j = 0; j < ix[i]; j++) slot += nslotsOf(LLVMStructGetTypeAtIndex(t, j)); t = LLVMStructGetTypeAtIndex(t, ix[i]); } else { t = LLVMGetElementType(t); slot += ix[i] * nslotsOf(t); } }
    I.k = I_EXTRACTVALUE; Opnd o; o.reg = it->second; I.ops.push_back(o); I.slot = slot; return; }
  case LLVMInsertValue: {
    LLVMValueRef a = LLVMGetOperand(v, 0), b = LLVMGetOperand(v, 1); auto it = c.reg.find(a); Opnd oa; oa.reg = it == c.reg.end() ? -1 : it->second;
    if (nslotsOf(LLVMTypeOf(b)) != 1) return; Opnd ob; if (!opnd(c, b, ob)) return;
    LLVMTypeRef t = ty; const unsigned *ix = LLVMGetIndices(v); int slot = 0;
    for (unsigned i = 0; i < LLVMGetNumIndices(v); i++) { if (LLVMGetTypeKind(t) == LLVMStructTypeKind) { for (unsigned j = 0; j < ix[i]; j++) slot += nslotsOf(LLVMStructGetTypeAtIndex(t, j)); t = LLVMStructGetTypeAtIndex(t, ix[i]); } else { t = LLVMGetElementType(t); slot += ix[i] * nslotsOf(t); } }
    I.k = I_INSERTVALUE; I.ops.push_back(oa); I.ops.push_back(ob); I.slot = slot; return; }
  default: return;
  }
}

bool loadModule(const char *path, Module &M, std::string &err) {
  LLVMContextRef ctx = LLVMContextCreate(); LLVMMemoryBufferRef mb; char *msg = nullptr; LLVMModuleRef mod;
  if (LLVMCreateMemoryBufferWithContentsOfFile(path, &mb, &msg)) { err = msg; return false; }
  if (LLVMParseIRInContext(ctx, mb, &mod, &msg)) { err = msg; return false; }
  TD = LLVMGetModuleDataLayout(mod); MM = &M;
  u64 fa = FUNC_BASE;
  for (LLVMValueRef f = LLVMGetFirstFunction(mod); f; f = LLVMGetNextFunction(f)) {
    Func *F = new Func; size_t l; F->name = LLVMGetValueName2(f, &l); F->addr = fa; fa += 16; gAddr[f] = F->addr; M.byAddr[F->addr] = F; M.funcs.push_back(F); M.byName[F->name] = F; F->decl = LLVMCountBasicBlocks(f) == 0 || isStream(F->name);
  }
  std::vector<LLVMValueRef> gs;
  for (LLVMValueRef g = LLVMGetFirstGlobal(mod); g; g = LLVMGetNextGlobal(g)) {
    Global G; size_t l; G.name = LLVMGetValueName2(g, &l);
    if (G.name.compare(0, 5, "llvm.") == 0) continue;
    LLVMTypeRef t = LLVMGlobalGetValueType(g); G.external = LLVMGetInitializer(g) == nullptr; G.size = LLVMTypeIsSized(t) ? LLVMABISizeOfType(TD, t) : 8; if (G.external && G.size < 256) G.size = 256; G.isConst = LLVMIsGlobalConstant(g); G.addr = objAddr(M.globals.size() + 1);
    gAddr[g] = G.addr; M.globals.push_back(G); gs.push_back(g);
  }
  for (size_t i = 0; i < gs.size(); i++) { bool ok = true; M.globals[i].init.assign(M.globals[i].size, 0); if (LLVMValueRef in = LLVMGetInitializer(gs[i])) initBytes(in, M.globals[i].init.data(), ok); if (!ok) fprintf(stderr, "note: initializer of %s not fully decoded\n", M.globals[i].name.c_str()); }
  for (LLVMValueRef f = LLVMGetFirstFunction(mod); f; f = LLVMGetNextFunction(f)) {
    size_t l; Func *F = M.byName[LLVMGetValueName2(f, &l)]; if (F->decl) continue;
    FnCtx c; int r = 0;
    F->nargs = LLVMCountParams(f);
    for (unsigned i = 0; i < LLVMCountParams(f); i++) c.reg[LLVMGetParam(f, i)] = r++;
    int bi = 0; for (LLVMBasicBlockRef b = LLVMGetFirstBasicBlock(f); b; b = LLVMGetNextBasicBlock(b)) {
      c.bb[b] = bi++;
      for (LLVMValueRef v = LLVMGetFirstInstruction(b); v; v = LLVMGetNextInstruction(v)) { int n = nslotsOf(LLVMTypeOf(v)); if (n > 0) { c.reg[v] = r; r += n; } else if (n < 0) { c.reg[v] = r; r += 1; } }
    }
    F->nregs = r; F->blocks.resize(bi);
    bi = 0; for (LLVMBasicBlockRef b = LLVMGetFirstBasicBlock(f); b; b = LLVMGetNextBasicBlock(b)) {
      Block &B = F->blocks[bi++];
      for (LLVMValueRef v = LLVMGetFirstInstruction(b); v; v = LLVMGetNextInstruction(v)) {
        if (LLVMGetInstructionOpcode(v) == LLVMPHI) {
          Phi p; p.dst = c.reg[v]; p.nslots = nslotsOf(LLVMTypeOf(v));
          for (unsigned i = 0; i < LLVMCountIncoming(v); i++) { Opnd o; bool ok = opnd(c, LLVMGetIncomingValue(v, i), o); if (!ok) { Inst I; I.k = I_UNSUPPORTED; I.sub = LLVMPHI; B.insts.push_back(I); } p.in.push_back({c.bb[LLVMGetIncomingBlock(v, i)], o}); }
          B.phis.push_back(p); continue;
        }
        if (LLVMGetInstructionOpcode(v) == LLVMCall) { LLVMValueRef cal = LLVMGetCalledValue(v); if (cal && LLVMIsAFunction(cal)) { size_t ll; const char *nm = LLVMGetValueName2(cal, &ll); if (!strncmp(nm, "llvm.dbg", 8) || !strncmp(nm, "llvm.lifetime", 13) || !strcmp(nm, "llvm.assume") || !strncmp(nm, "llvm.experimental.noalias", 25)) continue; } }
        Inst I; decodeInst(c, v, I); I.fn = F; B.insts.push_back(std::move(I));
      }
    }
  }
  if (LLVMValueRef gc = LLVMGetNamedGlobal(mod, "llvm.global_ctors")) if (LLVMValueRef in = LLVMGetInitializer(gc)) {
    unsigned n = LLVMGetArrayLength(LLVMTypeOf(in));
    for (unsigned i = 0; i < n; i++) { LLVMValueRef e = LLVMGetAggregateElement(in, i); LLVMValueRef f = e ? LLVMGetAggregateElement(e, 1) : nullptr; if (f && LLVMIsAFunction(f)) { size_t l; M.ctors.push_back(M.byName[LLVMGetValueName2(f, &l)]); } }
  }
  return true;
}
