// Bit-vector expression DAG (hash-consed) with interval analysis, and the SMT interface.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <unordered_map>
#include <vector>

typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint8_t u8;
typedef uint16_t u16;

enum Op : u8 {
  O_CONST, O_SYM, O_ADD, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR,
  O_SHL, O_LSHR, O_ASHR, O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE, O_ZEXT, O_SEXT,
  O_EXTRACT /* k = low bit */, O_CONCAT /* a0 high, a1 low */,
  // doubles.  O_FPI: the IEEE-754 bits of the double (int)a0 * 2^-k (a0 is 32 bits wide, exact)
  O_FPI, O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FNEG, O_FABS, O_FEQ, O_FLT, O_FLE, O_FUNO, O_FTOSI, O_SITOF, O_UITOF,
  O_FDOUBLE_OF_FLOAT, O_FLOAT_OF_DOUBLE, O_CTLZ, O_CTTZ, O_CTPOP
};

struct Expr {
  Op op; u8 w; u8 tz; u8 flag;
  u32 id;
  u64 k;
  Expr *a[3];
  u64 ulo, uhi;
  i64 slo, shi;
  u64 symmask;        // hashed set of symbols (id % 64)
  u32 evalEpoch;
  u64 evalVal;
  void *z3;           // cached Z3 ast
  u64 sh;             // structural hash, the same in every process
};

static inline u64 maskw(int w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline i64 sextw(u64 v, int w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }

Expr *mkConst(u64 v, int w);
Expr *mkSym(u32 ordinal, int w);
Expr *mkSymB(u32 ordinal, int w, u64 maxv);
Expr *mkBin(Op op, Expr *a, Expr *b);
Expr *mkCmp(Op op, Expr *a, Expr *b);
Expr *mkIte(Expr *c, Expr *a, Expr *b);
Expr *mkZext(Expr *a, int w);
Expr *mkSext(Expr *a, int w);
Expr *mkExtract(Expr *a, int lo, int w);
Expr *mkConcat(Expr *hi, Expr *lo);
Expr *mkNot(Expr *a);            // width 1
Expr *mkNeg(Expr *a);
Expr *mkSub(Expr *a, Expr *b);
Expr *mkFp2(Op op, Expr *a, Expr *b);
Expr *mkFp1(Op op, Expr *a);
Expr *mkFpi(Expr *a32, int scale);
Expr *mkFcmp(Op op, Expr *a, Expr *b);
Expr *mkSiToF(Expr *a, bool isSigned);
Expr *mkFToSi(Expr *a, int w);
Expr *mkCt(Op op, Expr *a);
size_t exprCount();
std::string exprStr(Expr *e, int depth = 6);

// value of an expression under an assignment of the symbols (missing = 0)
struct Model {
  std::vector<u64> v; // by symbol ordinal
  u32 epoch;
};
u32 newEpoch();
u64 evalExpr(Expr *e, const Model &m);

struct SolverStats {
  u64 queries = 0, z3 = 0, cacheHits = 0, sat = 0, unsat = 0, unknown = 0, modelHits = 0;
  double time = 0;
};
extern SolverStats gStats;

enum SatResult { R_SAT, R_UNSAT, R_UNKNOWN };
// Is (and pc) && q satisfiable?  pc itself is known to be satisfiable (model is one of its models).
// On SAT, if 'out' is given it receives a model of pc && q.
SatResult solve(const std::vector<Expr *> &pc, Expr *q, const Model &model, Model *out);
void solverInit(int timeoutMs);
bool satSupported(Expr *e);
SatResult satSolve(const std::vector<Expr *> &as, const std::vector<Expr *> &syms, std::vector<std::pair<u32, u64>> &vals, int timeoutMs);
