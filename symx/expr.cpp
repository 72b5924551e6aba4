#include "expr.h"
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
#include <map>
#include <set>

std::vector<VarInfo> g_vars;
SolverStats g_ss;
unsigned g_query_timeout_ms = 60000;

// ---------------------------------------------------------------- interning
static std::unordered_multimap<uint64_t, Ex> g_tab;
static uint32_t g_next_id = 1;
static std::set<VarSet> g_varsets;
static const VarSet* g_emptyset = &*g_varsets.insert(VarSet()).first;
static std::map<std::pair<const VarSet*, const VarSet*>, const VarSet*> g_unions;

static const VarSet* vunion(const VarSet* a, const VarSet* b)
{
  if (a == b || b->empty()) return a;
  if (a->empty()) return b;
  if (a > b) std::swap(a, b);
  auto it = g_unions.find({a, b});
  if (it != g_unions.end()) return it->second;
  VarSet r;
  std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
  const VarSet* p = &*g_varsets.insert(r).first;
  g_unions[{a, b}] = p;
  return p;
}

static inline uint64_t mix(uint64_t h, uint64_t x)
{
  h ^= x + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdULL;
  return h ^ (h >> 33);
}

static Ex intern(EK k, unsigned w, Ex a, Ex b, Ex c, u128 v)
{
  uint64_t h = mix((uint64_t)k * 131 + w, (uint64_t)v);
  h = mix(h, (uint64_t)(v >> 64));
  h = mix(h, a ? a->id : 0);
  h = mix(h, b ? b->id : 0);
  h = mix(h, c ? c->id : 0);
  auto r = g_tab.equal_range(h);
  for (auto it = r.first; it != r.second; ++it)
  {
    Ex e = it->second;
    if (e->k == k && e->w == w && e->a == a && e->b == b && e->c == c && e->v == v) return e;
  }
  Expr* e = new Expr;
  e->k = k; e->w = w; e->id = g_next_id++; e->hash = h; e->a = a; e->b = b; e->c = c; e->v = v;
  const VarSet* s = g_emptyset;
  if (k == EK::Var) s = &*g_varsets.insert(VarSet{(uint32_t)v}).first;
  if (a) s = vunion(s, a->vars);
  if (b) s = vunion(s, b->vars);
  if (c) s = vunion(s, c->vars);
  e->vars = s;
  g_tab.emplace(h, e);
  return e;
}

Ex mkConst(u128 v, unsigned w) { return intern(EK::Const, w, nullptr, nullptr, nullptr, v & maskw(w)); }
Ex mkVar(const std::string& name, unsigned w)
{
  g_vars.push_back({name, w});
  return intern(EK::Var, w, nullptr, nullptr, nullptr, g_vars.size() - 1);
}

static inline __int128 sx(u128 v, unsigned w)
{
  if (w >= 128) return (__int128)v;
  u128 s = (u128)1 << (w - 1);
  return (__int128)((v ^ s) - s);
}

static u128 foldBin(EK k, u128 a, u128 b, unsigned w)
{
  u128 m = maskw(w), r = 0;
  switch (k)
  {
    case EK::Add: r = a + b; break;
    case EK::Sub: r = a - b; break;
    case EK::Mul: r = a * b; break;
    case EK::UDiv: r = b ? a / b : m; break;
    case EK::URem: r = b ? a % b : a; break;
    case EK::SDiv:
    { __int128 x = sx(a, w), y = sx(b, w); r = y == 0 ? (x < 0 ? 1 : m) : (y == -1 ? (u128)0 - (u128)x : (u128)(x / y)); break; }
    case EK::SRem:
    { __int128 x = sx(a, w), y = sx(b, w); r = y == 0 ? (u128)x : (y == -1 ? 0 : (u128)(x % y)); break; }
    case EK::And: r = a & b; break;
    case EK::Or: r = a | b; break;
    case EK::Xor: r = a ^ b; break;
    case EK::Shl: r = b >= w ? 0 : a << (unsigned)b; break;
    case EK::LShr: r = b >= w ? 0 : a >> (unsigned)b; break;
    case EK::AShr: r = b >= w ? (sx(a, w) < 0 ? m : 0) : (u128)(sx(a, w) >> (unsigned)b); break;
    default: abort();
  }
  return r & m;
}

static bool foldCmp(EK k, u128 a, u128 b, unsigned w)
{
  switch (k)
  {
    case EK::Eq: return a == b;
    case EK::Ult: return a < b;
    case EK::Ule: return a <= b;
    case EK::Slt: return sx(a, w) < sx(b, w);
    case EK::Sle: return sx(a, w) <= sx(b, w);
    default: abort();
  }
}

Ex mkNot(Ex a)
{
  if (a->isConst()) return mkConst(a->v ^ 1, 1);
  if (a->k == EK::Eq && a->b->isConst() && a->a->w == 1 && a->b->v == 0) return a->a;
  // Not x is Eq(x, 0).
  return intern(EK::Eq, 1, a, mkConst(0, 1), nullptr, 0);
}

static bool isComm(EK k) { return k == EK::Add || k == EK::Mul || k == EK::And || k == EK::Or || k == EK::Xor; }

Ex mkBin(EK k, Ex a, Ex b)
{
  unsigned w = a->w;
  if (a->w != b->w) { fprintf(stderr, "symx: width mismatch %d: %u %u\n", (int)k, a->w, b->w); abort(); }
  if (a->isConst() && b->isConst()) return mkConst(foldBin(k, a->v, b->v, w), w);
  if (isComm(k))
  {
    if (a->isConst()) std::swap(a, b);
    else if (!b->isConst() && a->id > b->id) std::swap(a, b);
  }
  u128 m = maskw(w);
  if (b->isConst())
  {
    u128 v = b->v;
    switch (k)
    {
      case EK::Add:
        if (v == 0) return a;
        if (a->k == EK::Add && a->b->isConst()) return mkBin(EK::Add, a->a, mkConst(a->b->v + v, w));
        break;
      case EK::Sub: return mkBin(EK::Add, a, mkConst((u128)0 - v, w));
      case EK::Mul:
        if (v == 0) return b;
        if (v == 1) return a;
        if ((v & (v - 1)) == 0) { unsigned s = 0; while (!((v >> s) & 1)) ++s; return mkBin(EK::Shl, a, mkConst(s, w)); }
        break;
      case EK::UDiv: if (v == 1) return a;
        if (v && (v & (v - 1)) == 0) { unsigned s = 0; while (!((v >> s) & 1)) ++s; return mkBin(EK::LShr, a, mkConst(s, w)); }
        break;
      case EK::SDiv: if (v == 1) return a; break;
      case EK::URem: if (v == 1) return mkConst(0, w);
        if (v && (v & (v - 1)) == 0) return mkBin(EK::And, a, mkConst(v - 1, w));
        break;
      case EK::And:
        if (v == 0) return b;
        if (v == m) return a;
        if (a->k == EK::And && a->b->isConst()) return mkBin(EK::And, a->a, mkConst(a->b->v & v, w));
        // Low mask of a zero extension that fits.
        if (a->k == EK::ZExt && (v & maskw(a->a->w)) == maskw(a->a->w)) return a;
        if ((v & (v + 1)) == 0) { unsigned n = 0; while ((v >> n) & 1) ++n; if (n < w) return mkZExt(mkExtract(a, 0, n), w); }
        break;
      case EK::Or:
        if (v == 0) return a;
        if (v == m) return b;
        break;
      case EK::Xor:
        if (v == 0) return a;
        if (w == 1) return mkNot(a);
        if (a->k == EK::Xor && a->b->isConst()) return mkBin(EK::Xor, a->a, mkConst(a->b->v ^ v, w));
        break;
      case EK::Shl:
        if (v == 0) return a;
        if (v >= w) return mkConst(0, w);
        // (x << n) as concat(extract, 0): keeps byte structure visible.
        return mkConcat(mkExtract(a, 0, w - (unsigned)v), mkConst(0, (unsigned)v));
      case EK::LShr:
        if (v == 0) return a;
        if (v >= w) return mkConst(0, w);
        return mkZExt(mkExtract(a, (unsigned)v, w - (unsigned)v), w);
      case EK::AShr:
        if (v == 0) return a;
        if (v >= w) v = w - 1;
        return mkSExt(mkExtract(a, (unsigned)v, w - (unsigned)v), w);
      default: break;
    }
  }
  if (a == b)
  {
    switch (k)
    {
      case EK::Sub: case EK::Xor: return mkConst(0, w);
      case EK::And: case EK::Or: return a;
      default: break;
    }
  }
  if (k == EK::Sub)
  {
    // (x + c) - x
    if (a->k == EK::Add && a->b->isConst() && a->a == b) return a->b;
    if (a->k == EK::Add && (a->a == b)) return a->b;
    if (a->k == EK::Add && (a->b == b)) return a->a;
    if (a->k == EK::Add && a->b->isConst() && b->k == EK::Add && b->b->isConst() && a->a == b->a)
      return mkConst(a->b->v - b->b->v, w);
    if (a->isConst() && b->k == EK::Add && b->b->isConst()) return mkBin(EK::Sub, mkConst(a->v - b->b->v, w), b->a);
  }
  if (k == EK::Add && a->k == EK::Add && a->b->isConst() && !b->isConst())
    return mkBin(EK::Add, mkBin(EK::Add, a->a, b), a->b);
  if (k == EK::Add && b->k == EK::Add && b->b->isConst() && !a->isConst())
    return mkBin(EK::Add, mkBin(EK::Add, a, b->a), b->b);
  if (w == 1)
  {
    if (k == EK::And && (mkNot(a) == b)) return mkConst(0, 1);
    if (k == EK::Or && (mkNot(a) == b)) return mkConst(1, 1);
    if (k == EK::Mul) return mkBin(EK::And, a, b);
    if (k == EK::Add || k == EK::Sub) return mkBin(EK::Xor, a, b);
  }
  if ((k == EK::Or || k == EK::Xor || k == EK::Add) && w > 1)
  {
    // Disjoint parts: zext(x) | (y . 0)  ->  y . x
    Ex hi = nullptr, lo = nullptr;
    if (a->k == EK::Concat && a->b->isConst() && a->b->v == 0 && b->k == EK::ZExt && b->a->w <= a->b->w) { hi = a; lo = b; }
    else if (b->k == EK::Concat && b->b->isConst() && b->b->v == 0 && a->k == EK::ZExt && a->a->w <= b->b->w) { hi = b; lo = a; }
    if (hi) return mkConcat(hi->a, mkZExt(lo->a, hi->b->w));
  }
  // Push through ite with constant leaves.
  if (b->isConst() && a->k == EK::Ite && (a->b->isConst() || a->c->isConst()))
    return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
  return intern(k, w, a, b, nullptr, 0);
}

Ex mkCmp(EK k, Ex a, Ex b)
{
  if (a->w != b->w) { fprintf(stderr, "symx: cmp width mismatch: %u %u\n", a->w, b->w); abort(); }
  unsigned w = a->w;
  if (a->isConst() && b->isConst()) return mkConst(foldCmp(k, a->v, b->v, w), 1);
  if (a == b) return mkConst(k == EK::Eq || k == EK::Ule || k == EK::Sle, 1);
  if (k == EK::Eq)
  {
    if (a->isConst()) std::swap(a, b);
    if (!b->isConst() && a->id > b->id) std::swap(a, b);
    if (w == 1 && b->isConst()) return b->v ? a : mkNot(a);
    if (b->isConst())
    {
      u128 v = b->v;
      if (a->k == EK::ZExt)
      {
        if (v >> a->a->w) return mkConst(0, 1);
        return mkCmp(EK::Eq, a->a, mkConst(v, a->a->w));
      }
      if (a->k == EK::SExt)
      {
        Ex n = mkConst(v, a->a->w);
        if ((u128)(sx(n->v, n->w)) % 1 == 0 && ((u128)sx(n->v, n->w) & maskw(w)) != v) return mkConst(0, 1);
        return mkCmp(EK::Eq, a->a, n);
      }
      if (a->k == EK::Concat)
      {
        Ex l = mkCmp(EK::Eq, a->b, mkConst(v, a->b->w));
        if (l->isConst() && !l->v) return l;
        Ex h = mkCmp(EK::Eq, a->a, mkConst(v >> a->b->w, a->a->w));
        return mkBin(EK::And, h, l);
      }
      if (a->k == EK::Add && a->b->isConst()) return mkCmp(EK::Eq, a->a, mkConst(v - a->b->v, w));
      if (a->k == EK::Xor && a->b->isConst()) return mkCmp(EK::Eq, a->a, mkConst(v ^ a->b->v, w));
      if (a->k == EK::Sub && a->a->isConst()) return mkCmp(EK::Eq, a->b, mkConst(a->a->v - v, w));
      if (a->k == EK::Sub && v == 0) return mkCmp(EK::Eq, a->a, a->b);
      if (a->k == EK::Ite && (a->b->isConst() || a->c->isConst()))
      {
        Ex x = mkCmp(EK::Eq, a->b, b), y = mkCmp(EK::Eq, a->c, b);
        return mkIte(a->a, x, y);
      }
    }
    if (a->k == EK::ZExt && b->k == EK::ZExt && a->a->w == b->a->w) return mkCmp(EK::Eq, a->a, b->a);
    if (a->k == EK::SExt && b->k == EK::SExt && a->a->w == b->a->w) return mkCmp(EK::Eq, a->a, b->a);
    return intern(k, 1, a, b, nullptr, 0);
  }
  if (k == EK::Ult)
  {
    if (b->isConst() && b->v == 0) return mkConst(0, 1);
    if (b->isConst() && b->v == 1) return mkCmp(EK::Eq, a, mkConst(0, w));
    if (a->isConst() && a->v == maskw(w)) return mkConst(0, 1);
    if (a->isConst() && a->v == 0) return mkNot(mkCmp(EK::Eq, b, a));
    if (w == 1) return mkAnd(mkNot(a), b);
  }
  if (k == EK::Ule)
  {
    if (b->isConst() && b->v == maskw(w)) return mkConst(1, 1);
    if (a->isConst() && a->v == 0) return mkConst(1, 1);
    if (b->isConst() && b->v == 0) return mkCmp(EK::Eq, a, b);
    // Ule(a,b) == !Ult(b,a): normalise.
    return mkNot(mkCmp(EK::Ult, b, a));
  }
  if (k == EK::Sle) return mkNot(mkCmp(EK::Slt, b, a));
  // zext comparisons narrow.
  bool uns = k == EK::Ult;
  if (a->k == EK::ZExt && b->k == EK::ZExt && a->a->w == b->a->w) return mkCmp(EK::Ult, a->a, b->a);
  if (a->k == EK::ZExt && b->isConst())
  {
    unsigned n = a->a->w;
    if (!uns && sx(b->v, w) < 0) return mkConst(0, 1);
    if (b->v >> n) return mkConst(1, 1);
    return mkCmp(EK::Ult, a->a, mkConst(b->v, n));
  }
  if (b->k == EK::ZExt && a->isConst())
  {
    unsigned n = b->a->w;
    if (!uns && sx(a->v, w) < 0) return mkConst(1, 1);
    if (a->v >> n) return mkConst(0, 1);
    return mkCmp(EK::Ult, mkConst(a->v, n), b->a);
  }
  if (!uns && a->k == EK::SExt && b->k == EK::SExt && a->a->w == b->a->w) return mkCmp(EK::Slt, a->a, b->a);
  if (!uns && a->k == EK::SExt && b->isConst())
  {
    unsigned n = a->a->w;
    __int128 v = sx(b->v, w), lo = sx((u128)1 << (n - 1), n), hi = -(lo + 1);
    if (v > hi) return mkConst(1, 1);
    if (v <= lo) return mkConst(0, 1);
    return mkCmp(EK::Slt, a->a, mkConst((u128)v, n));
  }
  if (!uns && b->k == EK::SExt && a->isConst())
  {
    unsigned n = b->a->w;
    __int128 v = sx(a->v, w), lo = sx((u128)1 << (n - 1), n), hi = -(lo + 1);
    if (v >= hi) return mkConst(0, 1);
    if (v < lo) return mkConst(1, 1);
    return mkCmp(EK::Slt, mkConst((u128)v, n), b->a);
  }
  if (a->k == EK::Ite && b->isConst() && (a->b->isConst() || a->c->isConst()))
    return mkIte(a->a, mkCmp(k, a->b, b), mkCmp(k, a->c, b));
  if (b->k == EK::Ite && a->isConst() && (b->b->isConst() || b->c->isConst()))
    return mkIte(b->a, mkCmp(k, a, b->b), mkCmp(k, a, b->c));
  return intern(k, 1, a, b, nullptr, 0);
}

Ex mkIte(Ex c, Ex a, Ex b)
{
  if (c->isConst()) return c->v ? a : b;
  if (a == b) return a;
  if (a->w == 1)
  {
    if (a->isConst() && b->isConst()) return a->v ? c : mkNot(c);
    if (a->isConst()) return a->v ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (b->isConst()) return b->v ? mkOr(mkNot(c), a) : mkAnd(c, a);
  }
  if (c->k == EK::Eq && c->a->w == 1 && c->b->isConst() && c->b->v == 0) return mkIte(c->a, b, a);
  if (a->k == EK::Ite && a->a == c) a = a->b;
  if (b->k == EK::Ite && b->a == c) b = b->c;
  if (a == b) return a;
  return intern(EK::Ite, a->w, c, a, b, 0);
}

Ex mkConcat(Ex hi, Ex lo)
{
  unsigned w = hi->w + lo->w;
  if (hi->isConst() && lo->isConst()) return mkConst((hi->v << lo->w) | lo->v, w);
  if (hi->isConst() && hi->v == 0) return mkZExt(lo, w);
  if (hi->k == EK::Extract && lo->k == EK::Extract && hi->a == lo->a && (unsigned)hi->v == (unsigned)lo->v + lo->w)
    return mkExtract(lo->a, (unsigned)lo->v, w);
  // hi.(x.y) with hi,x adjacent extracts
  if (lo->k == EK::Concat && hi->k == EK::Extract && lo->a->k == EK::Extract && hi->a == lo->a->a &&
      (unsigned)hi->v == (unsigned)lo->a->v + lo->a->w)
    return mkConcat(mkExtract(hi->a, (unsigned)lo->a->v, hi->w + lo->a->w), lo->b);
  if (hi->k == EK::ZExt) return mkZExt(mkConcat(hi->a, lo), w);
  if (hi->k == EK::Extract && lo == hi->a && false) return lo;
  if (hi->k == EK::Extract && (unsigned)hi->v == lo->w && lo->k != EK::Extract && hi->a->w > lo->w && mkExtract(hi->a, 0, lo->w) == lo)
    return mkExtract(hi->a, 0, w);
  // Normalise to right-leaning: (x.y).z -> x.(y.z)
  if (hi->k == EK::Concat) return mkConcat(hi->a, mkConcat(hi->b, lo));
  if (hi->k == EK::Ite && lo->k == EK::Ite && hi->a == lo->a)
    return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
  return intern(EK::Concat, w, hi, lo, nullptr, 0);
}

Ex mkExtract(Ex a, unsigned lo, unsigned w)
{
  if (lo == 0 && w == a->w) return a;
  if (a->isConst()) return mkConst(a->v >> lo, w);
  switch (a->k)
  {
    case EK::Extract: return mkExtract(a->a, (unsigned)a->v + lo, w);
    case EK::Concat:
      if (lo + w <= a->b->w) return mkExtract(a->b, lo, w);
      if (lo >= a->b->w) return mkExtract(a->a, lo - a->b->w, w);
      return mkConcat(mkExtract(a->a, 0, w - (a->b->w - lo)), mkExtract(a->b, lo, a->b->w - lo));
    case EK::ZExt:
      if (lo >= a->a->w) return mkConst(0, w);
      if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
      return mkZExt(mkExtract(a->a, lo, a->a->w - lo), w);
    case EK::SExt:
      if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
      if (lo == 0) return mkSExt(a->a, w);
      break;
    case EK::Ite:
      if (a->b->isConst() || a->c->isConst() || w == 8) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
      break;
    case EK::And: case EK::Or: case EK::Xor:
      return mkBin(a->k, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
    case EK::Add: case EK::Sub: case EK::Mul:
      if (lo == 0) return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
      break;
    default: break;
  }
  return intern(EK::Extract, w, a, nullptr, nullptr, lo);
}

Ex mkZExt(Ex a, unsigned w)
{
  if (a->w == w) return a;
  if (a->isConst()) return mkConst(a->v, w);
  if (a->k == EK::ZExt) return mkZExt(a->a, w);
  if (a->k == EK::Ite && (a->b->isConst() || a->c->isConst())) return mkIte(a->a, mkZExt(a->b, w), mkZExt(a->c, w));
  return intern(EK::ZExt, w, a, nullptr, nullptr, 0);
}

Ex mkSExt(Ex a, unsigned w)
{
  if (a->w == w) return a;
  if (a->isConst()) return mkConst((u128)sx(a->v, a->w), w);
  if (a->k == EK::SExt) return mkSExt(a->a, w);
  if (a->k == EK::ZExt) return mkZExt(a->a, w);
  if (a->k == EK::Ite && (a->b->isConst() || a->c->isConst())) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
  return intern(EK::SExt, w, a, nullptr, nullptr, 0);
}

std::string exprStr(Ex e, int d)
{
  static const char* names[] = {"const", "var", "+", "-", "*", "/u", "/s", "%u", "%s", "&", "|", "^", "<<", ">>u", ">>s",
                                "==", "<u", "<=u", "<s", "<=s", "ite", "cat", "ext", "zx", "sx"};
  if (e->isConst()) return std::to_string((unsigned long long)e->v);
  if (e->k == EK::Var) return g_vars[(size_t)e->v].name;
  if (d == 0) return "...";
  std::string s = "(";
  s += names[(int)e->k];
  if (e->k == EK::Extract) s += "[" + std::to_string((unsigned)e->v) + ":" + std::to_string(e->w) + "]";
  if (e->k == EK::ZExt || e->k == EK::SExt) s += std::to_string(e->w);
  for (Ex x : {e->a, e->b, e->c}) if (x) s += " " + exprStr(x, d - 1);
  return s + ")";
}

// ---------------------------------------------------------------- evaluation
static std::vector<std::pair<uint32_t, u128>> g_evmemo; // (epoch, value) by expr id
static uint32_t g_epoch = 0;

static u128 ev(Ex e, const Model& m)
{
  if (e->k == EK::Const) return e->v;
  if (e->k == EK::Var) { size_t i = (size_t)e->v; return i < m.size() ? (m[i] & maskw(e->w)) : 0; }
  if (g_evmemo[e->id].first == g_epoch) return g_evmemo[e->id].second;
  u128 r;
  switch (e->k)
  {
    case EK::Ite: r = ev(e->a, m) ? ev(e->b, m) : ev(e->c, m); break;
    case EK::Concat: r = (ev(e->a, m) << e->b->w) | ev(e->b, m); break;
    case EK::Extract: r = (ev(e->a, m) >> (unsigned)e->v) & maskw(e->w); break;
    case EK::ZExt: r = ev(e->a, m); break;
    case EK::SExt: r = (u128)sx(ev(e->a, m), e->a->w) & maskw(e->w); break;
    case EK::Eq: case EK::Ult: case EK::Ule: case EK::Slt: case EK::Sle: r = foldCmp(e->k, ev(e->a, m), ev(e->b, m), e->a->w); break;
    default: r = foldBin(e->k, ev(e->a, m), ev(e->b, m), e->w); break;
  }
  g_evmemo[e->id] = {g_epoch, r};
  return r;
}

u128 evalExpr(Ex e, const Model& m)
{
  if (g_evmemo.size() < g_next_id) g_evmemo.resize(g_next_id * 2 + 1024, {0, 0});
  if (++g_epoch == 0) { std::fill(g_evmemo.begin(), g_evmemo.end(), std::make_pair(0u, (u128)0)); g_epoch = 1; }
  return ev(e, m);
}

// ---------------------------------------------------------------- Z3
static Z3_context g_z = nullptr;
static Z3_solver g_s = nullptr;
static std::unordered_map<uint32_t, Z3_ast> g_bv, g_bool, g_lit;
static uint64_t g_litcount = 0;

static void errh(Z3_context c, Z3_error_code e)
{
  fprintf(stderr, "symx: z3 error: %s\n", Z3_get_error_msg(c, e));
  _exit(3);
}

static void newSolver()
{
  if (g_s) Z3_solver_dec_ref(g_z, g_s);
  g_s = getenv("SX_QFBV") ? Z3_mk_solver_for_logic(g_z, Z3_mk_string_symbol(g_z, "QF_BV")) : Z3_mk_solver_for_logic(g_z, Z3_mk_string_symbol(g_z, "QF_FD"));
  Z3_solver_inc_ref(g_z, g_s);
  Z3_params p = Z3_mk_params(g_z);
  Z3_params_inc_ref(g_z, p);
  Z3_params_set_uint(g_z, p, Z3_mk_string_symbol(g_z, "timeout"), g_query_timeout_ms);
  Z3_solver_set_params(g_z, g_s, p);
  Z3_params_dec_ref(g_z, p);
}

static void zinit()
{
  Z3_config cfg = Z3_mk_config();
  g_z = Z3_mk_context(cfg);
  Z3_del_config(cfg);
  Z3_set_error_handler(g_z, errh);
  newSolver();
}

void solverReset()
{
  if (g_z) { Z3_solver_dec_ref(g_z, g_s); Z3_del_context(g_z); g_z = nullptr; g_s = nullptr; }
  g_bv.clear(); g_bool.clear(); g_lit.clear(); g_litcount = 0;
}

static Z3_ast zbool(Ex e);
static Z3_ast zbv(Ex e);

static Z3_ast keep(std::unordered_map<uint32_t, Z3_ast>& m, Ex e, Z3_ast a)
{
  m[e->id] = a;
  return a;
}

static Z3_ast zconst(u128 v, unsigned w)
{
  Z3_sort s = Z3_mk_bv_sort(g_z, w);
  if (w <= 64) return Z3_mk_unsigned_int64(g_z, (uint64_t)v, s);
  Z3_sort s64 = Z3_mk_bv_sort(g_z, 64), sh = Z3_mk_bv_sort(g_z, w - 64);
  return Z3_mk_concat(g_z, Z3_mk_unsigned_int64(g_z, (uint64_t)(v >> 64), sh), Z3_mk_unsigned_int64(g_z, (uint64_t)v, s64));
}

static Z3_ast zbv(Ex e)
{
  auto it = g_bv.find(e->id);
  if (it != g_bv.end()) return it->second;
  Z3_ast r = nullptr;
  if (e->w == 1 && e->k != EK::Const)
  {
    r = Z3_mk_ite(g_z, zbool(e), zconst(1, 1), zconst(0, 1));
    return keep(g_bv, e, r);
  }
  switch (e->k)
  {
    case EK::Const: r = zconst(e->v, e->w); break;
    case EK::Var: r = Z3_mk_const(g_z, Z3_mk_int_symbol(g_z, (int)e->v), Z3_mk_bv_sort(g_z, e->w)); break;
    case EK::Add: r = Z3_mk_bvadd(g_z, zbv(e->a), zbv(e->b)); break;
    case EK::Sub: r = Z3_mk_bvsub(g_z, zbv(e->a), zbv(e->b)); break;
    case EK::Mul: r = Z3_mk_bvmul(g_z, zbv(e->a), zbv(e->b)); break;
    case EK::UDiv: r = Z3_mk_bvudiv(g_z, zbv(e->a), zbv(e->b)); break;
    case EK::SDiv: r = Z3_mk_bvsdiv(g_z, zbv(e->a), zbv(e->b)); break;
    case EK::URem: r = Z3_mk_bvurem(g_z, zbv(e->a), zbv(e->b)); break;
    case EK::SRem: r = Z3_mk_bvsrem(g_z, zbv(e->a), zbv(e->b)); break;
    case EK::And: r = Z3_mk_bvand(g_z, zbv(e->a), zbv(e->b)); break;
    case EK::Or: r = Z3_mk_bvor(g_z, zbv(e->a), zbv(e->b)); break;
    case EK::Xor: r = Z3_mk_bvxor(g_z, zbv(e->a), zbv(e->b)); break;
    case EK::Shl: r = Z3_mk_bvshl(g_z, zbv(e->a), zbv(e->b)); break;
    case EK::LShr: r = Z3_mk_bvlshr(g_z, zbv(e->a), zbv(e->b)); break;
    case EK::AShr: r = Z3_mk_bvashr(g_z, zbv(e->a), zbv(e->b)); break;
    case EK::Ite: r = Z3_mk_ite(g_z, zbool(e->a), zbv(e->b), zbv(e->c)); break;
    case EK::Concat: r = Z3_mk_concat(g_z, zbv(e->a), zbv(e->b)); break;
    case EK::Extract: r = Z3_mk_extract(g_z, (unsigned)e->v + e->w - 1, (unsigned)e->v, zbv(e->a)); break;
    case EK::ZExt: r = Z3_mk_zero_ext(g_z, e->w - e->a->w, zbv(e->a)); break;
    case EK::SExt: r = Z3_mk_sign_ext(g_z, e->w - e->a->w, zbv(e->a)); break;
    default: fprintf(stderr, "zbv kind\n"); abort();
  }
  return keep(g_bv, e, r);
}

static Z3_ast zbool(Ex e)
{
  auto it = g_bool.find(e->id);
  if (it != g_bool.end()) return it->second;
  Z3_ast r = nullptr;
  Z3_ast args[2];
  switch (e->k)
  {
    case EK::Const: r = e->v ? Z3_mk_true(g_z) : Z3_mk_false(g_z); break;
    case EK::Eq:
      if (e->a->w == 1)
      {
        if (e->b->isConst()) r = e->b->v ? zbool(e->a) : Z3_mk_not(g_z, zbool(e->a));
        else r = Z3_mk_iff(g_z, zbool(e->a), zbool(e->b));
      }
      else r = Z3_mk_eq(g_z, zbv(e->a), zbv(e->b));
      break;
    case EK::Ult: r = Z3_mk_bvult(g_z, zbv(e->a), zbv(e->b)); break;
    case EK::Ule: r = Z3_mk_bvule(g_z, zbv(e->a), zbv(e->b)); break;
    case EK::Slt: r = Z3_mk_bvslt(g_z, zbv(e->a), zbv(e->b)); break;
    case EK::Sle: r = Z3_mk_bvsle(g_z, zbv(e->a), zbv(e->b)); break;
    case EK::And: args[0] = zbool(e->a); args[1] = zbool(e->b); r = Z3_mk_and(g_z, 2, args); break;
    case EK::Or: args[0] = zbool(e->a); args[1] = zbool(e->b); r = Z3_mk_or(g_z, 2, args); break;
    case EK::Xor: r = Z3_mk_xor(g_z, zbool(e->a), zbool(e->b)); break;
    case EK::Ite: r = Z3_mk_ite(g_z, zbool(e->a), zbool(e->b), zbool(e->c)); break;
    case EK::Extract: r = Z3_mk_eq(g_z, Z3_mk_extract(g_z, (unsigned)e->v, (unsigned)e->v, zbv(e->a)), zconst(1, 1)); break;
    case EK::Var: r = Z3_mk_eq(g_z, Z3_mk_const(g_z, Z3_mk_int_symbol(g_z, (int)e->v), Z3_mk_bv_sort(g_z, 1)), zconst(1, 1)); break;
    case EK::SDiv: case EK::UDiv: r = zbool(e->a); break;
    default: fprintf(stderr, "zbool kind %d\n", (int)e->k); abort();
  }
  return keep(g_bool, e, r);
}

struct CacheEnt { SatRes r; std::vector<std::pair<uint32_t, uint64_t>> m; };
static std::map<std::vector<uint32_t>, CacheEnt> g_qcache;

struct Dom { uint64_t b[4]; };
// A flattened expression, for evaluation at many points (all widths <= 64).
struct Prog {
  struct N { EK k; uint8_t w, aw; int a, b, c; uint64_t v; };
  std::vector<N> n;
  std::vector<uint64_t> val;
  std::unordered_map<uint32_t, int> ix;
  bool ok = true;
  int add(Ex e)
  {
    auto it = ix.find(e->id);
    if (it != ix.end()) return it->second;
    if (e->w > 64 || n.size() > 4000) { ok = false; return 0; }
    N x; x.k = e->k; x.w = e->w; x.aw = e->a ? (e->a->w > 64 ? 0 : e->a->w) : 0; x.v = (uint64_t)e->v; x.a = x.b = x.c = -1;
    if (e->a) x.a = add(e->a);
    if (ok && e->b) x.b = add(e->b);
    if (ok && e->c) x.c = add(e->c);
    if (!ok) return 0;
    if (e->k == EK::Concat) x.v = e->b->w;
    n.push_back(x);
    return ix[e->id] = (int)n.size() - 1;
  }
  static int64_t sg(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }
  void run(const Model& m)
  {
    if (val.size() < n.size()) val.resize(n.size());
    for (size_t i = 0; i < n.size(); ++i)
    {
      const N& x = n[i];
      uint64_t mk = x.w >= 64 ? ~0ull : (1ull << x.w) - 1, r;
      uint64_t A = x.a >= 0 ? val[x.a] : 0, B = x.b >= 0 ? val[x.b] : 0;
      switch (x.k)
      {
        case EK::Const: r = x.v; break;
        case EK::Var: r = x.v < m.size() ? m[x.v] & mk : 0; break;
        case EK::Add: r = (A + B) & mk; break;
        case EK::Sub: r = (A - B) & mk; break;
        case EK::Mul: r = (A * B) & mk; break;
        case EK::And: r = A & B; break;
        case EK::Or: r = A | B; break;
        case EK::Xor: r = A ^ B; break;
        case EK::Ite: r = A ? B : val[x.c]; break;
        case EK::Concat: r = (A << x.v) | B; break;
        case EK::Extract: r = (A >> x.v) & mk; break;
        case EK::ZExt: r = A; break;
        case EK::SExt: r = (uint64_t)sg(A, x.aw) & mk; break;
        case EK::Eq: r = A == B; break;
        case EK::Ult: r = A < B; break;
        case EK::Ule: r = A <= B; break;
        case EK::Slt: r = sg(A, x.aw) < sg(B, x.aw); break;
        case EK::Sle: r = sg(A, x.aw) <= sg(B, x.aw); break;
        default: r = (uint64_t)foldBin(x.k, A, B, x.w);
      }
      val[i] = r;
    }
  }
};

// A constraint over two byte-wide variables as a relation whose rows are computed on demand.
struct Rel { uint32_t v0, v1; Prog pg; int root; Dom have; Dom row[256]; };
static std::unordered_map<uint32_t, Rel*> g_rel;
static Rel* relOf(Ex e)
{
  auto it = g_rel.find(e->id);
  if (it != g_rel.end()) return it->second;
  if (g_rel.size() > 12000) { for (auto& p : g_rel) delete p.second; g_rel.clear(); }
  Rel* r = new Rel;
  r->v0 = (*e->vars)[0]; r->v1 = (*e->vars)[1]; r->have = Dom{{0, 0, 0, 0}};
  r->root = r->pg.add(e);
  if (!r->pg.ok) { delete r; r = nullptr; }
  return g_rel[e->id] = r;
}
static const Dom& relRow(Rel* r, unsigned x)
{
  if (!(r->have.b[x >> 6] >> (x & 63) & 1))
  {
    static Model m;
    if (m.size() <= std::max(r->v0, r->v1)) m.resize(std::max(r->v0, r->v1) + 1, 0);
    Dom d{{0, 0, 0, 0}};
    m[r->v0] = x;
    unsigned n = 1u << g_vars[r->v1].w;
    for (unsigned y = 0; y < n; ++y)
    {
      m[r->v1] = y;
      r->pg.run(m);
      if (r->pg.val[r->root]) d.b[y >> 6] |= 1ull << (y & 63);
    }
    r->row[x] = d;
    r->have.b[x >> 6] |= 1ull << (x & 63);
  }
  return r->row[x];
}

// Conjunctions over one byte-wide variable are decided by its set of satisfying values (unless force is set).
static std::unordered_map<uint32_t, Dom> g_dom;
static const Dom& domOf(Ex e, uint32_t var)
{
  auto it = g_dom.find(e->id);
  if (it != g_dom.end()) return it->second;
  Dom d{{0, 0, 0, 0}};
  static Model m;
  if (m.size() <= var) m.resize(var + 1, 0);
  unsigned n = 1u << g_vars[var].w;
  for (unsigned v = 0; v < n; ++v)
  {
    m[var] = v;
    if (evalExpr(e, m)) d.b[v >> 6] |= 1ull << (v & 63);
  }
  return g_dom.emplace(e->id, d).first->second;
}
bool g_xcheck = false;
static uint64_t g_xn;   // every 97th decision of the byte domain is decided by Z3 as well

static SatRes solveConjZ3(const std::vector<Ex>& conj0, Model& model);

SatRes solveConj(const std::vector<Ex>& conj, Model& model, bool force)
{
  if (!force)
  {
    // Filter each variable's values by the unary constraints, then try the remaining combinations when they are few.
    struct V { uint32_t v; Dom d; std::vector<uint8_t> vals; };
    static std::vector<V> vs;
    static std::vector<Ex> rest;
    vs.clear(); rest.clear();
    bool ok = true;
    auto get = [&](uint32_t v) -> V& {
      for (V& x : vs) if (x.v == v) return x;
      V n; n.v = v; n.d = Dom{{~0ull, ~0ull, ~0ull, ~0ull}};
      if (g_vars[v].w < 8) { unsigned k = 1u << g_vars[v].w; n.d = Dom{{0, 0, 0, 0}}; for (unsigned i = 0; i < k; ++i) n.d.b[i >> 6] |= 1ull << (i & 63); }
      vs.push_back(n);
      return vs.back();
    };
    for (Ex e : conj)
    {
      if (e->isConst()) { if (!e->v) { ++g_ss.queries; return SatRes::Unsat; } continue; }
      for (uint32_t v : *e->vars) if (g_vars[v].w > 8) ok = false;
      if (!ok || (e->vars->size() > 1 && vs.size() > 8)) { ok = false; break; }
      if (e->vars->size() == 1)
      {
        V& x = get((*e->vars)[0]);
        const Dom& d = domOf(e, x.v);
        for (int i = 0; i < 4; ++i) x.d.b[i] &= d.b[i];
      }
      else { for (uint32_t v : *e->vars) get(v); rest.push_back(e); }
    }
    if (ok && !vs.empty())
    {
      uint64_t prod = 1;
      SatRes r = SatRes::Unknown;
      for (V& x : vs)
      {
        unsigned c = 0;
        for (int i = 0; i < 4; ++i) c += __builtin_popcountll(x.d.b[i]);
        if (!c) { r = SatRes::Unsat; break; }
        prod = prod > 1000000 ? prod : prod * c;
      }
      if (r == SatRes::Unknown && vs.size() == 2 && !rest.empty())
      {
        static std::vector<Rel*> rels;
        rels.clear();
        for (Ex e : rest) { Rel* q = relOf(e); if (!q) { rels.clear(); break; } rels.push_back(q); }
        if (!rels.empty())
        {
          V& x = vs[0].v == rels[0]->v0 ? vs[0] : vs[1];
          V& y = vs[0].v == rels[0]->v0 ? vs[1] : vs[0];
          r = SatRes::Unsat;
          for (int i = 0; i < 4 && r == SatRes::Unsat; ++i)
            for (uint64_t b = x.d.b[i]; b && r == SatRes::Unsat; b &= b - 1)
            {
              unsigned xv = i * 64 + __builtin_ctzll(b);
              Dom d = y.d;
              for (Rel* q : rels)
              {
                const Dom& w = relRow(q, xv);
                for (int k = 0; k < 4; ++k) d.b[k] &= w.b[k];
                if (!(d.b[0] | d.b[1] | d.b[2] | d.b[3])) break;
              }
              for (int k = 0; k < 4; ++k)
                if (d.b[k])
                {
                  if (model.size() <= std::max(x.v, y.v)) model.resize(std::max(x.v, y.v) + 1, 0);
                  model[x.v] = xv;
                  model[y.v] = k * 64 + __builtin_ctzll(d.b[k]);
                  r = SatRes::Sat;
                  break;
                }
            }
          ++g_ss.queries; ++g_ss.byteDom;
          if (g_xcheck || ++g_xn % 97 == 0)
          {
            Model m2 = model;
            if (solveConjZ3(conj, m2) != r) { fprintf(stderr, "symx: byte relation and Z3 disagree\n"); _exit(3); }
          }
          return r;
        }
      }
      Prog pg;
      std::vector<int> roots;
      if (r == SatRes::Unknown && !rest.empty() && prod <= 100000)
      {
        for (Ex e : rest) roots.push_back(pg.add(e));
        if (!pg.ok || prod * pg.n.size() > 600000) pg.ok = false;
      }
      if (r == SatRes::Unknown && (rest.empty() || (prod <= 100000 && pg.ok)))
      {
        Model m = model;
        for (V& x : vs)
        {
          if (m.size() <= x.v) m.resize(x.v + 1, 0);
          for (int i = 0; i < 4; ++i) for (uint64_t b = x.d.b[i]; b; b &= b - 1) x.vals.push_back(i * 64 + __builtin_ctzll(b));
          m[x.v] = x.vals[0];
        }
        if (rest.empty()) r = SatRes::Sat;
        else
        {
          std::vector<unsigned> ix(vs.size(), 0);
          r = SatRes::Unsat;
          for (;;)
          {
            bool all = true;
            pg.run(m);
            for (int q : roots) if (!pg.val[q]) { all = false; break; }
            if (all) { r = SatRes::Sat; break; }
            size_t k = 0;
            for (; k < vs.size(); ++k)
            {
              if (++ix[k] < vs[k].vals.size()) { m[vs[k].v] = vs[k].vals[ix[k]]; break; }
              ix[k] = 0; m[vs[k].v] = vs[k].vals[0];
            }
            if (k == vs.size()) break;
          }
        }
        if (r == SatRes::Sat) model = m;
      }
      if (r != SatRes::Unknown)
      {
        ++g_ss.queries; ++g_ss.byteDom;
        if (g_xcheck || ++g_xn % 97 == 0)
        {
          Model m2 = model;
          if (solveConjZ3(conj, m2) != r) { fprintf(stderr, "symx: byte domain and Z3 disagree\n"); _exit(3); }
        }
        return r;
      }
    }
  }
  return solveConjZ3(conj, model);
}

static SatRes solveConjZ3(const std::vector<Ex>& conj0, Model& model)
{
  ++g_ss.queries;
  std::vector<Ex> conj;
  for (Ex e : conj0)
  {
    if (e->isConst()) { if (!e->v) return SatRes::Unsat; continue; }
    conj.push_back(e);
  }
  std::sort(conj.begin(), conj.end(), [](Ex a, Ex b) { return a->id < b->id; });
  conj.erase(std::unique(conj.begin(), conj.end()), conj.end());
  if (conj.empty()) return SatRes::Sat;
  std::vector<uint32_t> key;
  for (Ex e : conj) key.push_back(e->id);
  auto setmodel = [&](const CacheEnt& ce) {
    for (auto& p : ce.m) { if (model.size() <= p.first) model.resize(p.first + 1, 0); model[p.first] = p.second; }
  };
  auto it = g_qcache.find(key);
  if (it != g_qcache.end())
  {
    ++g_ss.cacheHits;
    if (it->second.r == SatRes::Sat) setmodel(it->second);
    return it->second.r;
  }
  if (g_litcount > 20000) solverReset();
  if (!g_z) zinit();
  else newSolver();
  auto t0 = std::chrono::steady_clock::now();
  const VarSet* vs = g_emptyset;
  for (Ex e : conj)
  {
    vs = vunion(vs, e->vars);
    Z3_solver_assert(g_z, g_s, zbool(e));
    ++g_litcount;
  }
  ++g_ss.z3;
  Z3_lbool r = Z3_solver_check(g_z, g_s);
  CacheEnt ce;
  ce.r = r == Z3_L_TRUE ? SatRes::Sat : r == Z3_L_FALSE ? SatRes::Unsat : SatRes::Unknown;
  if (r == Z3_L_TRUE)
  {
    Z3_model m = Z3_solver_get_model(g_z, g_s);
    Z3_model_inc_ref(g_z, m);
    for (uint32_t v : *vs)
    {
      Z3_ast var = Z3_mk_const(g_z, Z3_mk_int_symbol(g_z, (int)v), Z3_mk_bv_sort(g_z, g_vars[v].w));
      Z3_ast out = nullptr;
      uint64_t val = 0;
      if (Z3_model_eval(g_z, m, var, true, &out))
      {
        Z3_get_numeral_uint64(g_z, out, &val);
      }
      ce.m.emplace_back(v, val);
    }
    Z3_model_dec_ref(g_z, m);
    setmodel(ce);
    // Validate the model by evaluating the original expressions: guards the translation to Z3.
    for (Ex e : conj)
      if (!evalExpr(e, model))
      { fprintf(stderr, "symx: Z3 model does not satisfy %s\n", exprStr(e).c_str()); _exit(3); }
  }
  else if (r == Z3_L_UNDEF)
    ++g_ss.unknown;
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  g_ss.z3_s += dt;
  if (getenv("SX_SLOW") && dt > 0.004) { fprintf(stderr, "SLOW %.4f r=%d n=%zu vars=%zu\n", dt, (int)ce.r, conj.size(), vs->size()); for (Ex e : conj) fprintf(stderr, "   %s\n", exprStr(e, 5).c_str()); }
  if (ce.r != SatRes::Unknown)
  {
    if (g_qcache.size() > 400000) g_qcache.clear();
    g_qcache[key] = ce;
  }
  return ce.r;
}
