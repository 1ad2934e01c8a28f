#pragma once
#include "ir.hpp"
#include <memory>
#include <unordered_map>
#include <unordered_set>
#include <set>

struct Val { u64 c; Expr *e; Val(u64 c_ = 0) : c(c_), e(nullptr) {} bool isC() const { return !e; } };
static inline Val mkVal(Expr *e) { Val v; if (e->op == O_CONST) { v.c = e->k; } else { v.e = e; v.c = 0; } return v; }
static inline Expr *toE(const Val &v, int w) { return v.e ? v.e : mkConst(v.c, w); }

enum ObjKind : u8 { K_GLOBAL, K_STACK, K_HEAP };
struct SymByte { Expr *e; u8 idx; };
// byte tags: 0 concrete, 1 symbolic, 2 uninitialised
struct Obj {
  u32 refs = 1; u32 version = 0; u64 size = 0; ObjKind kind = K_HEAP; u8 owner = 0; bool alive = true, ro = false; u8 defTag = 2; u32 allocUid = 0; u64 sig = 0; u32 sigVer = ~0u;
  std::vector<u8> data, tag; std::vector<SymByte> sym;
  void need() { if (data.empty() && size) { data.assign(size, 0); tag.assign(size, defTag); } }
};
struct ObjRef {
  Obj *p = nullptr;
  ObjRef() {} explicit ObjRef(Obj *o) : p(o) {} ObjRef(const ObjRef &r) : p(r.p) { if (p) p->refs++; }
  ObjRef(ObjRef &&r) noexcept : p(r.p) { r.p = nullptr; }
  ObjRef &operator=(const ObjRef &r) { if (r.p) r.p->refs++; drop(); p = r.p; return *this; }
  ObjRef &operator=(ObjRef &&r) noexcept { std::swap(p, r.p); return *this; }
  ~ObjRef() { drop(); }
  void drop() { if (p && --p->refs == 0) delete p; p = nullptr; }
  Obj *w() { if (p->refs > 1) { Obj *n = new Obj(*p); n->refs = 1; p->refs--; p = n; } return p; }
};

struct Frame { Func *f = nullptr; int bb = 0, ip = 0; std::vector<Val> regs; std::vector<u32> allocas; const Inst *call = nullptr; u8 onRet = 0; /*1: thread end, 2: pop serial*/ };
typedef std::vector<u32> VC;
struct Access { u32 obj; u32 size; u64 off; Expr *offE; const Inst *I; bool wr, sync; u32 crit; u32 clk; std::shared_ptr<VC> vc; Val oldv, newv; bool haveVals; };
struct SpinRec { u32 uid; u32 obj; u32 version; u64 local; };
struct Thread {
  std::vector<Frame> stack; enum St : u8 { RUN, BARRIER, DONE, JOIN } st = RUN; int tid = 0; int serial = 0; int singles = 0; u32 crit = 0; u32 gtidObj = 0;
  std::vector<Access> log; std::unordered_set<u64> logSeen; std::vector<SpinRec> spin; SpinRec tried = {0, 0, 0, 0}; u64 triedOff = 0; bool blocked = false; VC vc; std::shared_ptr<VC> vcSnap;
  int barrierKind = 0; u32 nvis = 0; std::unordered_map<u32, int> dispIdx;
};
struct Tok { int kind; /*0 text, 1 int, 2 double*/ std::string s; Val v; u8 w = 32; bool nl = false; int prec = 17; };
struct VFile { bool exists = false; bool binary = false; std::vector<Tok> toks; std::vector<Val> bytes; };
struct VFd { int file = -1; size_t pos = 0; bool open = false, wr = false; u64 addr = 0; };
struct InputRec { std::string name; u8 kind; Val v; u8 w; }; // value as the native harness must see it
struct ObsRec { std::string name; u8 kind; Val v; };
struct MemRec { u32 obj; Expr *off, *n; u32 sobj; Expr *soff; Expr *c; };  // one bulk write to (a copy between) huge regions
struct HugeObj { u32 id; u64 size; };
struct SchedStep { u16 tid; u32 uid; };

struct State {
  std::vector<ObjRef> mem; std::vector<Thread> th; int cur = 0; int team = 0; int teamBase = 0; int singleTaken = 0; int nextNum = 0;
  std::vector<Expr *> pc; Model model; u32 nsyms = 0; std::vector<InputRec> inputs; std::vector<ObsRec> obs;
  std::unordered_map<Expr *, u64> known; u64 steps = 0; int T = 1; 
  std::vector<VFile> files; std::map<std::string, int> fname; std::vector<VFd> fds; int curFile = -1; std::vector<Tok> lineToks;
  std::vector<MemRec> memrec; std::vector<HugeObj> huge; std::set<std::string> reached; std::map<u64, int> locks; std::map<std::pair<u64, int>, u64> tls;
  std::vector<SchedStep> sched; std::map<std::pair<u32, u64>, VC> syncVC; int preempt = 0; int delays = 0; std::vector<u8> prio; bool stepping = false;
  struct SleepEnt { int t; u32 obj; u64 off; bool symoff; bool wr; u32 size; }; std::vector<SleepEnt> sleep;
  u32 undefs = 0; bool exited = false; u32 heapLive = 0; u64 clock = 0; bool interleave = false; bool ilvSaved = false; u64 regionKey = 0; u32 barNo = 0; std::shared_ptr<std::vector<u32>> liveObjs; u32 liveEnd = 0; std::vector<std::pair<u64, int>> trail; /* states passed in this interval, with the thread that went on */
};
