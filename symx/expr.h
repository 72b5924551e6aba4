// Hash-consed bit-vector expressions and the Z3 back end of the symbolic executor.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>

typedef unsigned __int128 u128;

enum class EK : uint8_t {
  Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
  Eq, Ult, Ule, Slt, Sle, Ite, Concat, Extract, ZExt, SExt
};

typedef std::vector<uint32_t> VarSet; // sorted, interned

struct Expr {
  EK k;
  uint16_t w;
  uint32_t id;
  uint64_t hash;
  const Expr* a;
  const Expr* b;
  const Expr* c;
  u128 v;            // Const: value, Var: variable index, Extract: low bit
  const VarSet* vars;
  bool isConst() const { return k == EK::Const; }
};
typedef const Expr* Ex;

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }

struct VarInfo { std::string name; unsigned w; };
extern std::vector<VarInfo> g_vars;

Ex mkConst(u128 v, unsigned w);
Ex mkVar(const std::string& name, unsigned w);
Ex mkBin(EK k, Ex a, Ex b);
Ex mkCmp(EK k, Ex a, Ex b);
Ex mkIte(Ex c, Ex a, Ex b);
Ex mkConcat(Ex hi, Ex lo);
Ex mkExtract(Ex a, unsigned lo, unsigned w);
Ex mkZExt(Ex a, unsigned w);
Ex mkSExt(Ex a, unsigned w);
Ex mkNot(Ex a);          // width 1
static inline Ex mkAnd(Ex a, Ex b) { return mkBin(EK::And, a, b); }
static inline Ex mkOr(Ex a, Ex b) { return mkBin(EK::Or, a, b); }
static inline Ex mkEq(Ex a, Ex b) { return mkCmp(EK::Eq, a, b); }
std::string exprStr(Ex e, int depth = 6);

typedef std::vector<uint64_t> Model;   // value per variable index (missing = 0)
u128 evalExpr(Ex e, const Model& m);

struct SolverStats { uint64_t queries = 0, cacheHits = 0, z3 = 0, modelHits = 0, byteDom = 0; double z3_s = 0; uint64_t unknown = 0; };
extern SolverStats g_ss;
extern unsigned g_query_timeout_ms;

enum class SatRes { Sat, Unsat, Unknown };
// Is conj satisfiable?  On Sat, model's entries for the variables in conj are set.
SatRes solveConj(const std::vector<Ex>& conj, Model& model, bool force = false);
extern bool g_xcheck;
void solverReset();
