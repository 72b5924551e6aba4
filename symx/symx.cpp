// symx: a path-forking symbolic executor for LLVM 18 IR (bit-vector SMT through Z3).
// See /verif/DESIGN.md for what is modelled.
#include "expr.h"
#include <llvm/ADT/APInt.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>

using namespace llvm;

// ------------------------------------------------------------------ options
static std::string o_entry = "harness", o_out = ".";
static double o_time = 300;
static uint64_t o_max_instr = 50000000;
static int o_jobs = 1;
static unsigned o_max_conc = 300;
static bool o_stop_first = false;
static bool o_uninit = true;
static bool o_verbose = false;
static bool o_trace = false;
static uint64_t o_max_paths = 0;
static unsigned o_max_depth = 2000;   // call depth

static double nowS()
{
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static double g_t0;

struct Shared { std::atomic<int> active; std::atomic<int> stop; std::atomic<uint64_t> errors; std::atomic<uint64_t> paths; std::atomic<uint64_t> total_procs; };
static Shared* g_sh;

// ------------------------------------------------------------------ values
struct Val;
typedef std::vector<Val> Agg;
struct Val {
  Ex e = nullptr;
  uint64_t c = 0;
  std::shared_ptr<Agg> agg;
  Val() { }
  Val(uint64_t x) : c(x) { }
  Val(Ex x) { if (x->isConst() && x->w <= 64) c = (uint64_t)x->v; else e = x; }
  bool conc() const { return !e; }
};
static inline Ex toEx(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

// ------------------------------------------------------------------ memory
enum class OK_ : uint8_t { Global, Heap, Stack, Extern };
static Ex const UNINIT = (Ex)(uintptr_t)1;

struct MemObj {
  int refs = 1;
  uint32_t id = 0;
  uint64_t size = 0;
  OK_ kind = OK_::Global;
  bool ro = false;
  uint8_t fam = 0;              // 1 malloc, 2 new, 3 new[]
  std::string name;
  std::vector<uint8_t> d;
  std::vector<Ex> s;            // empty or size entries (null: concrete byte)
};
struct ObjRef {
  MemObj* p = nullptr;
  ObjRef() { }
  explicit ObjRef(MemObj* q) : p(q) { }
  ObjRef(const ObjRef& o) : p(o.p) { if (p) ++p->refs; }
  ObjRef(ObjRef&& o) : p(o.p) { o.p = nullptr; }
  ObjRef& operator=(ObjRef o) { std::swap(p, o.p); return *this; }
  ~ObjRef() { if (p && --p->refs == 0) delete p; }
};
static const unsigned CH = 128;
struct Chunk { ObjRef o[CH]; };

static const uint64_t OFF0 = 0x10000;      // an object's first byte within its 4 GB slot
static inline uint64_t objAddr(uint32_t id) { return ((uint64_t)id << 32) | OFF0; }

struct Mem {
  std::vector<std::shared_ptr<Chunk>> t;
  uint32_t next = 16;
  MemObj* get(uint32_t id) const { uint32_t c = id / CH; if (c >= t.size() || !t[c]) return nullptr; return t[c]->o[id % CH].p; }
  ObjRef& slot(uint32_t id)
  {
    uint32_t c = id / CH;
    if (c >= t.size()) t.resize(c + 1);
    if (!t[c]) t[c] = std::make_shared<Chunk>();
    else if (t[c].use_count() > 1) t[c] = std::make_shared<Chunk>(*t[c]);
    return t[c]->o[id % CH];
  }
  MemObj* wr(uint32_t id)
  {
    ObjRef& r = slot(id);
    if (r.p->refs > 1) { MemObj* n = new MemObj(*r.p); n->refs = 1; r = ObjRef(n); }
    return r.p;
  }
  MemObj* add(uint64_t size, OK_ k, const std::string& name)
  {
    MemObj* o = new MemObj;
    o->id = next++; o->size = size; o->kind = k; o->name = name; o->d.resize(size);
    slot(o->id) = ObjRef(o);
    return o;
  }
  void del(uint32_t id) { slot(id) = ObjRef(); }
};

// ------------------------------------------------------------------ translated code
struct Opnd { int reg = -1; Val c; GlobalVariable* tls = nullptr; };
struct Fn;
enum Op : uint16_t {
  OpNop, OpAlloca, OpLoad, OpStore, OpGep, OpBin, OpFBin, OpICmp, OpFCmp, OpCast, OpFCast, OpSelect, OpPhi, OpBr, OpCondBr, OpSwitch,
  OpCall, OpRet, OpUnreachable, OpExtractVal, OpInsertVal, OpLandingPad, OpResume, OpCopy, OpRMW, OpCmpXchg, OpFence, OpIntr, OpFNeg, OpUnsupported
};
struct PInst {
  Op op = OpNop;
  int dst = -1;
  unsigned w = 0, w2 = 0;        // result width, operand width
  unsigned sub = 0;              // sub opcode / predicate
  uint8_t atom = 0;              // 1: atomic, 2: acquires, 4: releases, 8: read-modify-write
  std::vector<Opnd> o;
  Type* ty = nullptr;
  Instruction* I = nullptr;
  std::vector<int> bbs;                      // branch targets
  std::vector<std::pair<u128, int>> cases;   // switch
  std::vector<std::pair<unsigned, int64_t>> scale; // GEP: (operand idx, scale)
  std::vector<unsigned> srcw;
  int64_t off = 0;
  std::vector<unsigned> idx;                 // extractvalue
  Fn* callee = nullptr;                      // direct call
  int normal = -1, unwind = -1;
  std::vector<int> phibb;
};
struct PBlock { std::vector<PInst> in; bool covered = false; };
struct State;
struct Exec;
typedef std::function<void(Exec&, State&, PInst&, std::vector<Val>&, Val&)> Handler;
struct Fn {
  Function* F = nullptr;
  std::string name;
  bool ready = false;
  int nregs = 0;
  std::vector<PBlock> bb;
  Handler* h = nullptr;
  Fn* stub = nullptr;      // a harness replacement (stub_<name>), used by callers that are not stubs themselves
  bool looked = false, called = false;
  uint64_t addr = 0;
};

struct Frame {
  Fn* f;
  int bb = 0, ip = 0, prev = -1;
  std::vector<Val> r;
  std::vector<uint32_t> allocas;
  std::vector<Val> va;           // variadic arguments
  std::vector<unsigned> vaw;
  bool fromCall = false;         // entered by a call instruction of the frame below
};
// Happens-before data race detection: vector clocks, and per byte the last write and the last read of every thread.
static const int MAXT = 4;
struct VC { uint32_t c[MAXT] = {}; void join(const VC& o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
struct ShByte { uint8_t wt = 0; uint32_t wc = 0; uint32_t rc[MAXT] = {}; };
struct ShPage { ShByte b[32]; };
struct Thread {
  std::vector<Frame> st;
  VC vc;
  std::map<GlobalVariable*, uint32_t> tls;
  bool done = false;
  uint64_t waitMutex = 0;        // address it is blocked on
  int waitRW = -1;               // operation on the read/write lock it is blocked on
  int waitJoin = -1;
  uint64_t exc = 0, exctype = 0; // in-flight exception
  std::vector<uint64_t> caught;
  std::vector<std::pair<uint64_t, uint64_t>> atexit;
  bool fresh = true;
  // Partial order reduction with sleep sets: pend is the mutex the next segment of this thread starts with (0: none,
  // ~0: depends on everything); asleep: running this thread next leads to an already explored equivalent schedule.
  uint64_t pend = 0;
  bool pendRead = false;         // pend is an atomic object that is only read
  bool asleep = false;
  VC acq, rel;                   // what an acquire fence makes visible; what a relaxed store publishes since a release fence
};
struct SymInput { std::string name; std::vector<Ex> bytes; };
typedef SymInput Obs;
struct Sample { std::string inputs, obs; };

struct State {
  std::vector<Thread> th;
  int cur = 0;
  Mem mem;
  std::vector<Ex> cons;
  Model model;
  std::vector<SymInput> inputs;
  uint64_t instrs = 0;
  int preempt = 0;
  unsigned varc = 0;             // per-state variable counter
  std::vector<std::string> notes;
  std::vector<Obs> obs;          // sx_observe and sx_cover events
  std::unordered_map<uint64_t, std::shared_ptr<ShPage>> shadow;
  std::map<uint64_t, VC> syncs;
  std::map<uint64_t, uint64_t> excTypes; // exception object -> typeinfo
  Thread& T() { return th[cur]; }
  Frame& top() { return th[cur].st.back(); }
};

struct PathEnd { const char* kind; std::string msg; };   // kind: "done","assume","error:...","incomplete"

struct Err { std::string kind, msg, where; std::vector<std::string> stack; std::string inputs; int count; std::string notes; };

// ------------------------------------------------------------------ executor
struct Exec {
  Module* M = nullptr;
  const DataLayout* DL = nullptr;
  std::map<Function*, Fn*> fns;
  std::unordered_map<uint64_t, Fn*> fnByAddr;
  std::map<const GlobalVariable*, uint64_t> gaddr;
  std::map<std::string, Handler> builtins;
  Mem gmem;
  std::vector<State*> work;
  std::map<std::string, Err> errs;
  std::map<std::string, uint64_t> covers, incompleteWhy, ends;
  std::set<std::string> asserts;
  std::vector<Sample> samples;
  std::set<std::string> sampleSigs;
  void sample(State& s);
  uint64_t npaths = 0, ninstr = 0, nforks = 0, nincomplete = 0, nassume = 0, nassert = 0;
  uint64_t nextFnId = 4;
  std::vector<pid_t> kids;
  double deadline = 0;

  // ---- setup
  Fn* getFn(Function* F);
  void prep(Fn* f);
  void initGlobals();
  Val constVal(const Constant* c);
  void storeConst(MemObj* o, uint64_t off, const Constant* c);
  unsigned bw(Type* t);

  // ---- running
  void run(State* s0);
  void runState(State* s);
  void step(State& s, PInst& in);
  void finishPath(State& s, const PathEnd& e);
  void reportErr(State& s, const std::string& kind, const std::string& msg, const Model& m);
  [[noreturn]] void fail(State& s, const std::string& kind, const std::string& msg);
  std::string where(State& s, std::vector<std::string>* stack);

  Val op(State& s, const Opnd& o) { return o.reg >= 0 ? s.top().r[o.reg] : o.tls ? Val(tlsAddr(s, o.tls)) : o.c; }
  void setr(State& s, PInst& in, Val v) { if (in.dst >= 0) s.top().r[in.dst] = std::move(v); }

  // ---- solver
  bool slice(State& s, Ex c, std::vector<Ex>& out);
  SatRes check(State& s, Ex c, Model& m, bool force = false);   // constraints && c
  void addCon(State& s, Ex c);
  bool mustOrFork(State& s, Ex cond, bool& val);  // decide cond, forking re-execution when both feasible
  uint64_t concretize(State& s, const Val& v, unsigned w, const char* why);
  State* fork(State& s);

  // ---- memory
  MemObj* resolve(State& s, const Val& p, uint64_t n, Ex& symoff, uint64_t& off, bool write, const char* what)
  {
    MemObj* o = resolve0(s, p, n, symoff, off, write, what);
    if (s.th.size() > 1 && !symoff) raceCheck(s, o, off, n, write);
    return o;
  }
  MemObj* resolve0(State& s, const Val& p, uint64_t n, Ex& symoff, uint64_t& off, bool write, const char* what);
  void raceCheck(State& s, MemObj* o, uint64_t off, uint64_t n, bool write);
  void acquire(State& s, uint64_t a) { auto i = s.syncs.find(a); if (i != s.syncs.end()) s.T().vc.join(i->second); }
  void release(State& s, uint64_t a) { s.syncs[a].join(s.T().vc); ++s.T().vc.c[s.cur]; }
  // An atomic access. Release sequences: a read-modify-write continues the one it reads from, a store starts another one.
  void atomic(State& s, uint64_t a, bool write)
  {
    Thread& T = s.T();
    if (!write) { auto i = s.syncs.find(a); if (i != s.syncs.end()) (atom & 2 ? T.vc : T.acq).join(i->second); return; }
    VC& v = s.syncs[a];
    if (!(atom & 8)) v = VC();
    v.join(atom & 4 ? T.vc : T.rel);
    if (atom & 4) ++T.vc.c[s.cur];
  }
  uint8_t atom = 0;
  Val load(State& s, const Val& p, unsigned w, Type* t);
  Val readObj(State& s, MemObj* o, uint64_t off, unsigned nb);
  void store(State& s, const Val& p, const Val& v, unsigned w, Type* t);
  void writeObj(State& s, MemObj* o, uint64_t off, const Val& v, unsigned nb);
  Ex byteAt(State& s, uint32_t id, uint64_t off);
  Val loadTy(State& s, uint64_t addr, Type* t);
  void storeTy(State& s, uint64_t addr, const Val& v, Type* t);
  void memcopy(State& s, const Val& d, const Val& src, uint64_t n);
  void memsetv(State& s, const Val& d, const Val& v, uint64_t n);
  std::string cstr(State& s, const Val& p, const char* why);
  uint64_t alloc(State& s, uint64_t n, OK_ k, const std::string& name, uint8_t fam, bool zero);
  void dealloc(State& s, const Val& p, uint8_t fam);
  Ex freshVar(State& s, const std::string& name, unsigned w);

  // ---- calls
  void call(State& s, PInst& in);
  void pushFrame(State& s, Fn* f, std::vector<Val>&& args, PInst* site);
  void doRet(State& s, const Val& v, bool has);
  void unwind(State& s);
  void intrinsic(State& s, PInst& in);
  void jump(State& s, int bb);
  void schedule(State& s, bool mayStay, bool atCurrentInstr);
  bool unlockPoints = false;                    // The harness defines sx_unlock_points.
  void registerBuiltins();
  uint64_t tlsAddr(State& s, GlobalVariable* g);
  bool typeMatch(State& s, uint64_t thrown, uint64_t want);
  void popFrameMem(State& s);
  bool runnable(State& s, int t);

  void maybeSplit();
  void writeResults();
};

unsigned Exec::bw(Type* t)
{
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  if (t->isX86_FP80Ty()) return 80;
  return 0;
}

Fn* Exec::getFn(Function* F)
{
  auto it = fns.find(F);
  if (it != fns.end()) return it->second;
  Fn* f = new Fn;
  f->F = F; f->name = F->getName().str();
  f->addr = ((uint64_t)1 << 56) | (nextFnId++ << 4);
  fns[F] = f;
  fnByAddr[f->addr] = f;
  return f;
}

Val Exec::constVal(const Constant* c)
{
  if (auto* ci = dyn_cast<ConstantInt>(c))
  {
    if (ci->getBitWidth() <= 64) return Val(ci->getZExtValue());
    const APInt& a = ci->getValue();
    u128 v = a.getRawData()[0];
    if (a.getNumWords() > 1) v |= (u128)a.getRawData()[1] << 64;
    return Val(mkConst(v, ci->getBitWidth()));
  }
  if (isa<ConstantPointerNull>(c)) return Val((uint64_t)0);
  if (auto* f = dyn_cast<Function>(c)) return Val(getFn(const_cast<Function*>(f))->addr);
  if (auto* a = dyn_cast<GlobalAlias>(c)) return constVal(a->getAliasee());
  if (auto* g = dyn_cast<GlobalVariable>(c))
  {
    if (g->isThreadLocal()) { fprintf(stderr, "symx: direct TLS reference to %s\n", g->getName().str().c_str()); _exit(3); }
    return Val(gaddr.at(g));
  }
  if (auto* f = dyn_cast<ConstantFP>(c))
  {
    APInt a = f->getValueAPF().bitcastToAPInt();
    if (a.getBitWidth() <= 64) return Val(a.getZExtValue());
    u128 v = a.getRawData()[0];
    if (a.getNumWords() > 1) v |= (u128)a.getRawData()[1] << 64;
    return Val(mkConst(v, a.getBitWidth()));
  }
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c))
  {
    Type* t = c->getType();
    if (t->isStructTy() || t->isArrayTy() || t->isVectorTy())
    {
      Val r; r.agg = std::make_shared<Agg>();
      unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? (unsigned)t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
      for (unsigned i = 0; i < n; ++i)
        r.agg->push_back(constVal(const_cast<Constant*>(c)->getAggregateElement(i)));
      return r;
    }
    unsigned w = bw(t);
    if (w > 64) return Val(mkConst(0, w));
    return Val((uint64_t)0);
  }
  if (isa<ConstantStruct>(c) || isa<ConstantArray>(c) || isa<ConstantDataSequential>(c) || isa<ConstantVector>(c))
  {
    Val r; r.agg = std::make_shared<Agg>();
    for (unsigned i = 0;; ++i)
    {
      Constant* e = c->getAggregateElement(i);
      if (!e) break;
      r.agg->push_back(constVal(e));
    }
    return r;
  }
  if (auto* ce = dyn_cast<ConstantExpr>(c))
  {
    switch (ce->getOpcode())
    {
      case Instruction::GetElementPtr:
      {
        auto* gep = cast<GEPOperator>(ce);
        APInt off(64, 0);
        if (!gep->accumulateConstantOffset(*DL, off)) break;
        return Val(constVal(ce->getOperand(0)).c + off.getSExtValue());
      }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
      {
        Val v = constVal(ce->getOperand(0));
        unsigned w = bw(ce->getType());
        if (v.conc() && w < 64) v.c &= (uint64_t)maskw(w);
        return v;
      }
      case Instruction::Trunc: { Val v = constVal(ce->getOperand(0)); v.c &= (uint64_t)maskw(bw(ce->getType())); return v; }
      case Instruction::Sub: { Val a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1)); return Val((uint64_t)((a.c - b.c) & (uint64_t)maskw(bw(ce->getType())))); }
      case Instruction::Add: { Val a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1)); return Val((uint64_t)((a.c + b.c) & (uint64_t)maskw(bw(ce->getType())))); }
      case Instruction::ICmp:
      {
        Val a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1));
        if (ce->getPredicate() == CmpInst::ICMP_EQ) return Val((uint64_t)(a.c == b.c));
        if (ce->getPredicate() == CmpInst::ICMP_NE) return Val((uint64_t)(a.c != b.c));
        break;
      }
      default: break;
    }
  }
  std::string str;
  raw_string_ostream os(str);
  c->print(os);
  fprintf(stderr, "symx: unsupported constant %s\n", os.str().c_str());
  _exit(3);
}

static void putBytes(MemObj* o, uint64_t off, u128 v, unsigned nb)
{
  for (unsigned i = 0; i < nb; ++i) { o->d[off + i] = (uint8_t)(v >> (8 * i)); if (!o->s.empty()) o->s[off + i] = nullptr; }
}

void Exec::storeConst(MemObj* o, uint64_t off, const Constant* c)
{
  Type* t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto* cs = dyn_cast<ConstantStruct>(c))
  {
    const StructLayout* sl = DL->getStructLayout(cs->getType());
    for (unsigned i = 0; i < cs->getNumOperands(); ++i) storeConst(o, off + sl->getElementOffset(i), cs->getOperand(i));
    return;
  }
  if (auto* ca = dyn_cast<ConstantArray>(c))
  {
    uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType());
    for (unsigned i = 0; i < ca->getNumOperands(); ++i) storeConst(o, off + i * es, ca->getOperand(i));
    return;
  }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c))
  {
    uint64_t es = DL->getTypeAllocSize(cd->getElementType());
    for (unsigned i = 0; i < cd->getNumElements(); ++i) storeConst(o, off + i * es, cd->getElementAsConstant(i));
    return;
  }
  Val v = constVal(c);
  putBytes(o, off, v.e ? v.e->v : v.c, (bw(t) + 7) / 8);
}

void Exec::initGlobals()
{
  for (GlobalVariable& g : M->globals())
  {
    if (g.isThreadLocal()) continue;
    uint64_t sz = g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 0;
    if (g.isDeclaration()) sz = std::max<uint64_t>(sz, 256);
    MemObj* o = gmem.add(sz, g.isDeclaration() ? OK_::Extern : OK_::Global, g.getName().str());
    o->ro = g.isConstant();
    gaddr[&g] = objAddr(o->id);
  }
  for (GlobalVariable& g : M->globals())
    if (!g.isThreadLocal() && g.hasInitializer())
    {
      MemObj* o = gmem.get((uint32_t)(gaddr[&g] >> 32));
      storeConst(o, 0, g.getInitializer());
    }
}

// ------------------------------------------------------------------ translation
static std::map<unsigned, int> g_unsup;

void Exec::prep(Fn* f)
{
  f->ready = true;
  Function* F = f->F;
  std::map<const Value*, int> reg;
  std::map<const BasicBlock*, int> bbn;
  int n = 0;
  for (Argument& a : F->args()) reg[&a] = n++;
  int bi = 0;
  for (BasicBlock& b : *F)
  {
    bbn[&b] = bi++;
    for (Instruction& I : b) if (!I.getType()->isVoidTy()) reg[&I] = n++;
  }
  f->nregs = n;
  f->bb.resize(bi);
  auto mk = [&](Value* v) {
    Opnd o;
    auto it = reg.find(v);
    if (it != reg.end()) { o.reg = it->second; return o; }
    if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v) || isa<BasicBlock>(v)) return o;
    if (auto* g = dyn_cast<GlobalVariable>(v)) if (g->isThreadLocal()) { o.reg = -2; o.tls = g; return o; }
    o.c = constVal(cast<Constant>(v));
    return o;
  };
  for (BasicBlock& b : *F)
    for (Instruction& I : b)
    {
      PInst p;
      p.I = &I;
      p.ty = I.getType();
      p.w = bw(I.getType());
      if (!I.getType()->isVoidTy()) p.dst = reg[&I];
      if (I.getNumOperands()) p.w2 = bw(I.getOperand(0)->getType());
      auto order = [](AtomicOrdering o) -> uint8_t { return 1 | (isAcquireOrStronger(o) ? 2 : 0) | (isReleaseOrStronger(o) ? 4 : 0) | 8; };
      auto addAll = [&]() { for (Use& u : I.operands()) p.o.push_back(mk(u.get())); };
      bool vec = I.getType()->isVectorTy();
      for (Use& u : I.operands()) if (u->getType()->isVectorTy()) vec = true;
      if (vec && !isa<LoadInst>(I) && !isa<StoreInst>(I) && !isa<CallInst>(I)) { p.op = OpUnsupported; f->bb[bbn[&b]].in.push_back(p); continue; }
      switch (I.getOpcode())
      {
        case Instruction::Alloca:
        {
          auto& A = cast<AllocaInst>(I);
          p.op = OpAlloca; p.off = DL->getTypeAllocSize(A.getAllocatedType());
          p.o.push_back(mk(A.getArraySize()));
          p.w2 = bw(A.getArraySize()->getType());
          break;
        }
        case Instruction::Load:
        {
          p.op = OpLoad; addAll();
          auto o = cast<LoadInst>(I).getOrdering();
          if (o != AtomicOrdering::NotAtomic) p.atom = 1 | (isAcquireOrStronger(o) ? 2 : 0);
          break;
        }
        case Instruction::Store:
        {
          p.op = OpStore; addAll(); p.ty = I.getOperand(0)->getType();
          auto o = cast<StoreInst>(I).getOrdering();
          if (o != AtomicOrdering::NotAtomic) p.atom = 1 | (isReleaseOrStronger(o) ? 4 : 0);
          break;
        }
        case Instruction::GetElementPtr:
        {
          p.op = OpGep;
          addAll();
          auto& G = cast<GetElementPtrInst>(I);
          unsigned k = 1;
          for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi, ++k)
          {
            Value* idx = gi.getOperand();
            if (StructType* st = gi.getStructTypeOrNull())
              p.off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
            else
            {
              int64_t es = DL->getTypeAllocSize(gi.getIndexedType());
              if (auto* ci = dyn_cast<ConstantInt>(idx)) p.off += es * ci->getSExtValue();
              else { p.scale.push_back({k, es}); p.srcw.push_back(bw(idx->getType())); }
            }
          }
          break;
        }
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
        case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor:
        case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
        {
          p.op = OpBin; addAll();
          switch (I.getOpcode())
          {
            case Instruction::Add: p.sub = (unsigned)EK::Add; break;
            case Instruction::Sub: p.sub = (unsigned)EK::Sub; break;
            case Instruction::Mul: p.sub = (unsigned)EK::Mul; break;
            case Instruction::UDiv: p.sub = (unsigned)EK::UDiv; break;
            case Instruction::SDiv: p.sub = (unsigned)EK::SDiv; break;
            case Instruction::URem: p.sub = (unsigned)EK::URem; break;
            case Instruction::SRem: p.sub = (unsigned)EK::SRem; break;
            case Instruction::And: p.sub = (unsigned)EK::And; break;
            case Instruction::Or: p.sub = (unsigned)EK::Or; break;
            case Instruction::Xor: p.sub = (unsigned)EK::Xor; break;
            case Instruction::Shl: p.sub = (unsigned)EK::Shl; break;
            case Instruction::LShr: p.sub = (unsigned)EK::LShr; break;
            default: p.sub = (unsigned)EK::AShr; break;
          }
          break;
        }
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
          p.op = OpFBin; p.sub = I.getOpcode(); addAll(); break;
        case Instruction::FNeg: p.op = OpFNeg; addAll(); break;
        case Instruction::ICmp: p.op = OpICmp; p.sub = cast<ICmpInst>(I).getPredicate(); addAll(); break;
        case Instruction::FCmp: p.op = OpFCmp; p.sub = cast<FCmpInst>(I).getPredicate(); addAll(); break;
        case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr:
        case Instruction::BitCast: case Instruction::AddrSpaceCast:
          p.op = OpCast; p.sub = I.getOpcode(); addAll(); break;
        case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPTrunc:
        case Instruction::FPExt:
          p.op = OpFCast; p.sub = I.getOpcode(); addAll(); break;
        case Instruction::Select: p.op = OpSelect; addAll(); p.w2 = 1; break;
        case Instruction::PHI:
        {
          p.op = OpPhi;
          auto& P = cast<PHINode>(I);
          for (unsigned k = 0; k < P.getNumIncomingValues(); ++k) { p.o.push_back(mk(P.getIncomingValue(k))); p.phibb.push_back(bbn[P.getIncomingBlock(k)]); }
          break;
        }
        case Instruction::Br:
        {
          auto& B = cast<BranchInst>(I);
          if (B.isConditional()) { p.op = OpCondBr; p.o.push_back(mk(B.getCondition())); p.bbs = {bbn[B.getSuccessor(0)], bbn[B.getSuccessor(1)]}; }
          else { p.op = OpBr; p.bbs = {bbn[B.getSuccessor(0)]}; }
          break;
        }
        case Instruction::Switch:
        {
          auto& S = cast<SwitchInst>(I);
          p.op = OpSwitch; p.o.push_back(mk(S.getCondition())); p.w2 = bw(S.getCondition()->getType());
          p.bbs = {bbn[S.getDefaultDest()]};
          for (auto& c : S.cases()) { Val v = constVal(c.getCaseValue()); p.cases.push_back({v.e ? v.e->v : v.c, bbn[c.getCaseSuccessor()]}); }
          break;
        }
        case Instruction::Call: case Instruction::Invoke:
        {
          auto& C = cast<CallBase>(I);
          p.op = OpCall;
          for (Use& u : C.args()) p.o.push_back(mk(u.get()));
          Value* cv = C.getCalledOperand()->stripPointerCasts();
          if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliasee()->stripPointerCasts();
          if (auto* cf = dyn_cast<Function>(cv))
          {
            if (cf->isIntrinsic()) { p.op = OpIntr; p.sub = cf->getIntrinsicID(); }
            else p.callee = getFn(cf);
          }
          else if (C.isInlineAsm())
          {
            auto* ia = cast<InlineAsm>(cv);
            p.op = I.getType()->isVoidTy() ? OpNop : OpUnsupported;
            (void)ia;
          }
          else p.o.push_back(mk(cv));   // indirect: last operand
          if (auto* inv = dyn_cast<InvokeInst>(&I)) { p.normal = bbn[inv->getNormalDest()]; p.unwind = bbn[inv->getUnwindDest()]; }
          break;
        }
        case Instruction::Ret: p.op = OpRet; addAll(); break;
        case Instruction::Unreachable: p.op = OpUnreachable; break;
        case Instruction::ExtractValue:
          p.op = OpExtractVal; addAll(); for (unsigned k : cast<ExtractValueInst>(I).indices()) p.idx.push_back(k); break;
        case Instruction::InsertValue:
          p.op = OpInsertVal; addAll(); for (unsigned k : cast<InsertValueInst>(I).indices()) p.idx.push_back(k); break;
        case Instruction::LandingPad: p.op = OpLandingPad; addAll(); break;
        case Instruction::Resume: p.op = OpResume; addAll(); break;
        case Instruction::Freeze: p.op = OpCopy; addAll(); break;
        case Instruction::AtomicRMW: p.op = OpRMW; p.sub = cast<AtomicRMWInst>(I).getOperation(); p.atom = order(cast<AtomicRMWInst>(I).getOrdering()); addAll(); break;
        case Instruction::AtomicCmpXchg: p.op = OpCmpXchg; p.atom = order(cast<AtomicCmpXchgInst>(I).getSuccessOrdering()); p.sub = order(cast<AtomicCmpXchgInst>(I).getFailureOrdering()); addAll(); p.w2 = bw(I.getOperand(1)->getType()); p.ty = I.getOperand(1)->getType(); break;
        case Instruction::Fence: p.op = OpFence; p.atom = order(cast<FenceInst>(I).getOrdering()); break;
        default: p.op = OpUnsupported; break;
      }
      f->bb[bbn[&b]].in.push_back(std::move(p));
    }
}

// ------------------------------------------------------------------ errors
std::string Exec::where(State& s, std::vector<std::string>* stack)
{
  std::string best;
  for (int i = (int)s.T().st.size() - 1; i >= 0; --i)
  {
    Frame& fr = s.T().st[i];
    if (!fr.f->F || fr.bb >= (int)fr.f->bb.size()) continue;
    auto& ins = fr.f->bb[fr.bb].in;
    std::string loc;
    if (fr.ip < (int)ins.size())
      if (const DILocation* dl = ins[fr.ip].I->getDebugLoc().get())
      {
        // Innermost inlined location first.
        for (const DILocation* l = dl; l; l = l->getInlinedAt())
        {
          std::string fn = l->getScope()->getSubprogram() ? l->getScope()->getSubprogram()->getLinkageName().str() : "";
          if (fn.empty() && l->getScope()->getSubprogram()) fn = l->getScope()->getSubprogram()->getName().str();
          std::string file = l->getFilename().str();
          std::string one = demangle(fn).substr(0, 120) + " " + file + ":" + std::to_string(l->getLine());
          if (stack) stack->push_back(one);
          if (best.empty() && (file.find("/repo/") != std::string::npos || file.find("src/") == 0)) best = demangle(fn).substr(0, 120) + " " + file + ":" + std::to_string(l->getLine());
        }
        continue;
      }
    if (stack) stack->push_back(demangle(fr.f->name).substr(0, 120));
  }
  if (best.empty() && stack && !stack->empty()) best = stack->front();
  return best;
}

static std::string jesc(const std::string& s)
{
  std::string r;
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += (char)c;
  }
  return r;
}

static std::string evalSyms(std::vector<SymInput>& v, const Model& m)
{
  std::string in;
  for (auto& i : v)
  {
    in += i.name + " ";
    for (Ex b : i.bytes) { char t[4]; snprintf(t, 4, "%02x", (unsigned)(uint8_t)evalExpr(b, m)); in += t; }
    in += "\n";
  }
  return in;
}

// Keep a few completed paths (inputs and observations under the path's model) for the comparison with native runs.
void Exec::sample(State& s)
{
  std::string sig;
  for (auto& o : s.obs) if (o.bytes.empty()) sig += o.name + ";";
  bool fresh = sampleSigs.insert(sig).second;
  if (!(fresh && samples.size() < 12) && !(samples.size() < 16 && (npaths & (npaths - 1)) == 0)) return;
  samples.push_back({evalSyms(s.inputs, s.model), evalSyms(s.obs, s.model)});
}

void Exec::reportErr(State& s, const std::string& kind, const std::string& msg, const Model& m)
{
  std::vector<std::string> st;
  std::string w = where(s, &st);
  std::string key = kind + "|" + msg + "|" + w;
  std::string in = evalSyms(s.inputs, m);
  auto it = errs.find(key);
  if (it != errs.end())
  {
    ++it->second.count;
    // Don't spend the rest of the time on the same violations.
    if (++g_sh->errors > 300000) g_sh->stop = 1;
    return;
  }
  Err e; e.kind = kind; e.msg = msg; e.where = w; e.stack = st; e.inputs = in; e.count = 1;
  for (auto& n : s.notes) e.notes += n + "\n";
  errs[key] = e;
  if (o_verbose)
  {
    fprintf(stderr, "ERROR %s: %s\n", kind.c_str(), msg.c_str());
    for (auto& x : st) fprintf(stderr, "    at %s\n", x.c_str());
    fprintf(stderr, "%s", in.c_str());
  }
  if (o_stop_first) g_sh->stop = 1;
}

void Exec::fail(State& s, const std::string& kind, const std::string& msg)
{
  throw PathEnd{"error", kind + "\x01" + msg};
}

// ------------------------------------------------------------------ solver front end
bool Exec::slice(State& s, Ex c, std::vector<Ex>& out)
{
  out.push_back(c);
  std::vector<char> used(s.cons.size(), 0);
  std::unordered_set<uint32_t> vs(c->vars->begin(), c->vars->end());
  bool ch = true;
  while (ch)
  {
    ch = false;
    for (size_t i = 0; i < s.cons.size(); ++i)
      if (!used[i])
      {
        bool hit = false;
        for (uint32_t v : *s.cons[i]->vars) if (vs.count(v)) { hit = true; break; }
        if (hit)
        {
          used[i] = 1; ch = true; out.push_back(s.cons[i]);
          for (uint32_t v : *s.cons[i]->vars) vs.insert(v);
        }
      }
  }
  return true;
}

SatRes Exec::check(State& s, Ex c, Model& m, bool force)
{
  if (c->isConst()) { m = s.model; return c->v ? SatRes::Sat : SatRes::Unsat; }
  if (evalExpr(c, s.model)) { m = s.model; ++g_ss.modelHits; return SatRes::Sat; }
  std::vector<Ex> q;
  slice(s, c, q);
  m = s.model;
  SatRes r = solveConj(q, m, force);
  if (r == SatRes::Unknown) throw PathEnd{"incomplete", "solver timeout"};
  return r;
}

void Exec::addCon(State& s, Ex c)
{
  if (c->isConst()) return;
  if (c->k == EK::And) { addCon(s, c->a); addCon(s, c->b); return; }
  for (Ex x : s.cons) if (x == c) return;
  s.cons.push_back(c);
}

State* Exec::fork(State& s)
{
  ++nforks;
  State* n = new State(s);
  return n;
}

// Decide a condition.  When both values are feasible, a clone that re-executes the current instruction under the
// negated condition is queued and this state continues with cond == (its model's value).
bool Exec::mustOrFork(State& s, Ex cond, bool& val)
{
  if (cond->isConst()) { val = cond->v != 0; return true; }
  bool v = evalExpr(cond, s.model) != 0;
  Ex other = v ? mkNot(cond) : cond;
  Ex mine = v ? cond : mkNot(cond);
  Model m;
  if (check(s, other, m) == SatRes::Sat)
  {
    State* n = fork(s);
    n->model = m;
    addCon(*n, other);
    work.push_back(n);
    addCon(s, mine);
  }
  val = v;
  return true;
}

uint64_t Exec::concretize(State& s, const Val& v, unsigned w, const char* why)
{
  if (v.conc()) return v.c;
  uint64_t x = (uint64_t)evalExpr(v.e, s.model);
  Ex eq = mkEq(v.e, mkConst(x, v.e->w));
  bool b;
  mustOrFork(s, eq, b);
  return x;
}

Ex Exec::freshVar(State& s, const std::string& name, unsigned w)
{
  // Variables are shared between paths that create the same name, width and ordinal, so that query results are
  // shared as well.
  static std::map<std::tuple<std::string, unsigned, unsigned>, Ex> tab;
  auto key = std::make_tuple(name, w, s.varc++);
  auto it = tab.find(key);
  if (it != tab.end()) return it->second;
  Ex e = mkVar(name, w);
  tab[key] = e;
  return e;
}

// ------------------------------------------------------------------ memory
uint64_t Exec::alloc(State& s, uint64_t n, OK_ k, const std::string& name, uint8_t fam, bool zero)
{
  if (n > (64u << 20)) throw PathEnd{"incomplete", "allocation too large"};
  MemObj* o = s.mem.add(n, k, name);
  o->fam = fam;
  if (!zero) o->s.assign(n, UNINIT);
  return objAddr(o->id);
}

void Exec::dealloc(State& s, const Val& p, uint8_t fam)
{
  uint64_t a = concretize(s, p, 64, "free");
  if (a == 0) return;
  MemObj* o = s.mem.get((uint32_t)(a >> 32));
  if ((a >> 56) == 1 || !o) fail(s, "memory", (uint32_t)(a >> 32) >= 16 && (uint32_t)(a >> 32) < s.mem.next ? "double free or free of a dead object" : "free of an invalid pointer");
  if (a != objAddr(o->id)) fail(s, "memory", "free of a pointer inside an object");
  if (o->kind != OK_::Heap) fail(s, "memory", "free of a non-heap object");
  if (o->fam != fam) fail(s, "memory", "mismatched allocation and deallocation functions");
  s.mem.del(o->id);
}

MemObj* Exec::resolve0(State& s, const Val& p, uint64_t n, Ex& symoff, uint64_t& off, bool write, const char* what)
{
  symoff = nullptr;
  uint64_t a;
  if (p.conc()) a = p.c;
  else a = (uint64_t)evalExpr(p.e, s.model);
  uint32_t id = (uint32_t)(a >> 32);
  MemObj* o = (a >> 56) == 1 ? nullptr : s.mem.get(id);
  bool ok = o && a >= objAddr(id) && a - objAddr(id) <= o->size && n <= o->size - (a - objAddr(id));
  if (p.conc())
  {
    if (!ok)
    {
      if (a < 4096) fail(s, "memory", std::string("null pointer dereference (") + what + ")");
      if (o) fail(s, "memory", std::string("out of bounds ") + what);
      if ((a >> 56) == 1) fail(s, "memory", std::string("data access to code (") + what + ")");
      if (id >= 16 && id < s.mem.next) fail(s, "memory", std::string("use of a dead object (") + what + ")");
      fail(s, "memory", std::string("wild pointer (") + what + ")");
    }
    if (write && o->ro) fail(s, "memory", "write to constant memory");
    off = a - objAddr(id);
    return o;
  }
  if (!ok)
  {
    // The model's value is out of bounds: this path reports; a clone continues where it is in some object.
    // First look for another value within bounds of the nearest object.
    if (o)
    {
      Ex inb = mkAnd(mkCmp(EK::Ule, mkConst(objAddr(id), 64), p.e),
                     n <= o->size ? mkCmp(EK::Ule, p.e, mkConst(objAddr(id) + o->size - n, 64)) : mkConst(0, 1));
      bool b;
      mustOrFork(s, inb, b);   // b is false here
      fail(s, "memory", std::string("out of bounds ") + what);
    }
    uint64_t x;
    x = concretize(s, p, 64, "pointer");
    if (x < 4096) fail(s, "memory", std::string("null pointer dereference (") + what + ")");
    fail(s, "memory", std::string("wild pointer (") + what + ")");
  }
  Ex inb = mkAnd(mkCmp(EK::Ule, mkConst(objAddr(id), 64), p.e), mkCmp(EK::Ule, p.e, mkConst(objAddr(id) + o->size - n, 64)));
  bool b;
  mustOrFork(s, inb, b);
  o = s.mem.get(id);
  if (write && o->ro) fail(s, "memory", "write to constant memory");
  // Unique value?
  uint64_t v = a;
  Model m;
  if (check(s, mkNot(mkEq(p.e, mkConst(v, 64))), m) == SatRes::Unsat) { off = v - objAddr(id); return o; }
  symoff = mkBin(EK::Sub, p.e, mkConst(objAddr(id), 64));
  off = v - objAddr(id);
  return o;
}

void Exec::raceCheck(State& s, MemObj* o, uint64_t off, uint64_t n, bool write)
{
  if (o->kind == OK_::Stack || o->ro || !n) return;
  if (atom)
  {
    uint64_t a = objAddr(o->id) + off;
    atomic(s, a, write);
    return;
  }
  // The guard of a static local variable (compiled without thread safe statics) stands for __cxa_guard_acquire/release.
  if (o->name.compare(0, 4, "_ZGV") == 0)
  {
    if (write) release(s, objAddr(o->id)); else acquire(s, objAddr(o->id));
    return;
  }
  int me = s.cur;
  if (s.th.size() > (size_t)MAXT) fail(s, "unsupported", "more threads than MAXT");
  VC& vc = s.th[me].vc;
  uint64_t a = objAddr(o->id) + off;
  for (uint64_t i = 0; i < n; ++i, ++a)
  {
    auto& pg = s.shadow[a >> 5];
    if (!pg) pg = std::make_shared<ShPage>();
    ShByte& b = pg->b[a & 31];
    if (write ? (b.wt == me && b.wc == vc.c[me]) : b.rc[me] == vc.c[me]) { if (!write || vc.c[me]) continue; }
    int other = -1;
    if (b.wc && b.wt != me && b.wc > vc.c[b.wt]) other = b.wt;
    if (write && other < 0) for (int t = 0; t < (int)s.th.size(); ++t) if (t != me && b.rc[t] > vc.c[t]) other = t;
    if (other >= 0)
      fail(s, "race", std::string(write ? "write to " : "read of ") + o->name + " is not ordered with an access of another thread");
    if (pg.use_count() > 1) pg = std::make_shared<ShPage>(*pg);
    ShByte& w = pg->b[a & 31];
    if (write) { w.wt = me; w.wc = vc.c[me]; } else w.rc[me] = vc.c[me];
  }
}

Ex Exec::byteAt(State& s, uint32_t id, uint64_t off)
{
  MemObj* o = s.mem.get(id);
  if (!o->s.empty() && o->s[off])
  {
    if (o->s[off] == UNINIT)
    {
      Ex e = freshVar(s, "uninit", 8);
      o = s.mem.wr(id);
      o->s[off] = e;
      return e;
    }
    return o->s[off];
  }
  return mkConst(o->d[off], 8);
}

Val Exec::readObj(State& s, MemObj* o, uint64_t off, unsigned nb)
{
  bool sym = false;
  if (!o->s.empty())
    for (unsigned i = 0; i < nb; ++i) if (o->s[off + i]) { sym = true; break; }
  if (!sym)
  {
    if (nb <= 8)
    {
      uint64_t v = 0;
      memcpy(&v, &o->d[off], nb);
      return Val(v);
    }
    u128 v = 0;
    memcpy(&v, &o->d[off], std::min(nb, 16u));
    return Val(mkConst(v, nb * 8));
  }
  uint32_t id = o->id;
  Ex r = nullptr;
  for (unsigned i = 0; i < nb; ++i)
  {
    Ex b = byteAt(s, id, off + i);
    r = r ? mkConcat(b, r) : b;
  }
  return Val(r);
}

void Exec::writeObj(State& s, MemObj* o0, uint64_t off, const Val& v, unsigned nb)
{
  MemObj* o = s.mem.wr(o0->id);
  if (v.conc() || v.e->isConst())
  {
    u128 x = v.conc() ? v.c : v.e->v;
    for (unsigned i = 0; i < nb; ++i) o->d[off + i] = (uint8_t)(x >> (8 * i));
    if (!o->s.empty()) for (unsigned i = 0; i < nb; ++i) o->s[off + i] = nullptr;
    return;
  }
  if (o->s.empty()) o->s.assign(o->size, nullptr);
  Ex e = v.e;
  if (e->w < nb * 8) e = mkZExt(e, nb * 8);
  for (unsigned i = 0; i < nb; ++i)
  {
    Ex b = mkExtract(e, 8 * i, 8);
    if (b->isConst()) { o->d[off + i] = (uint8_t)b->v; o->s[off + i] = nullptr; }
    else o->s[off + i] = b;
  }
}

Val Exec::load(State& s, const Val& p, unsigned w, Type* t)
{
  unsigned nb = (w + 7) / 8;
  Ex so; uint64_t off;
  MemObj* o = resolve(s, p, nb, so, off, false, "read");
  Val v;
  if (!so) v = readObj(s, o, off, nb);
  else
  {
    // Feasible offsets: enumerate through a mux over the object when small, else fork.
    uint64_t cnt = o->size - nb + 1;
    if (cnt > 4096) { concretize(s, p, 64, "large object read"); return load(s, p, w, t); }
    // Determine element alignment: step of feasible offsets (common for tables of 4/8 byte entries).
    uint64_t step = 1;
    for (uint64_t st : {8, 4, 2})
      if (nb >= st || nb == st)
      {
        Ex al = mkEq(mkExtract(so, 0, st == 8 ? 3 : st == 4 ? 2 : 1), mkConst(0, st == 8 ? 3 : st == 4 ? 2 : 1));
        Model m;
        if (check(s, mkNot(al), m) == SatRes::Unsat) { step = st; break; }
      }
    uint32_t id = o->id;
    // Range of feasible offsets by bisection on bounds.
    uint64_t lo = 0, hi = cnt - 1;
    if (cnt > 16)
    {
      Model m;
      uint64_t a = 0, b = off;   // minimal feasible in [a,b]
      while (a < b) { uint64_t mid = (a + b) / 2; if (check(s, mkCmp(EK::Ule, so, mkConst(mid, 64)), m) == SatRes::Sat) b = std::min(mid, (uint64_t)evalExpr(so, m)); else a = mid + 1; }
      lo = a;
      a = off; b = cnt - 1;
      while (a < b) { uint64_t mid = (a + b + 1) / 2; if (check(s, mkCmp(EK::Ule, mkConst(mid, 64), so), m) == SatRes::Sat) a = std::max(mid, (uint64_t)evalExpr(so, m)); else b = mid - 1; }
      hi = a;
    }
    lo = (lo / step) * step;
    Ex r = nullptr;
    // Group equal values to keep the expression small.
    std::vector<std::pair<Ex, std::vector<uint64_t>>> groups;
    std::unordered_map<uint32_t, size_t> gi;
    for (uint64_t k = lo; k <= hi; k += step)
    {
      Val x = readObj(s, s.mem.get(id), k, nb);
      Ex e = toEx(x, nb * 8);
      auto it = gi.find(e->id);
      if (it == gi.end()) { gi[e->id] = groups.size(); groups.push_back({e, {k}}); }
      else groups[it->second].second.push_back(k);
    }
    // Largest group is the default.
    size_t big = 0;
    for (size_t i = 0; i < groups.size(); ++i) if (groups[i].second.size() > groups[big].second.size()) big = i;
    r = groups[big].first;
    for (size_t i = 0; i < groups.size(); ++i)
      if (i != big)
      {
        // contiguous runs as range tests
        auto& ks = groups[i].second;
        Ex c = mkConst(0, 1);
        for (size_t q = 0; q < ks.size();)
        {
          size_t z = q;
          while (z + 1 < ks.size() && ks[z + 1] == ks[z] + step) ++z;
          if (z == q) c = mkOr(c, mkEq(so, mkConst(ks[q], 64)));
          else c = mkOr(c, mkAnd(mkCmp(EK::Ule, mkConst(ks[q], 64), so), mkCmp(EK::Ule, so, mkConst(ks[z], 64))));
          q = z + 1;
        }
        r = mkIte(c, groups[i].first, r);
      }
    v = Val(r);
  }
  if (w < nb * 8)
  {
    if (v.conc()) v.c &= (uint64_t)maskw(w);
    else v = Val(mkExtract(v.e, 0, w));
  }
  return v;
}

void Exec::store(State& s, const Val& p, const Val& v, unsigned w, Type* t)
{
  unsigned nb = (w + 7) / 8;
  Ex so; uint64_t off;
  MemObj* o = resolve(s, p, nb, so, off, true, "write");
  if (so)
  {
    if (o->size <= 64)
    {
      uint32_t id = o->id;
      Ex e = toEx(v, w);
      if (e->w < nb * 8) e = mkZExt(e, nb * 8);
      std::vector<Ex> nv(o->size, nullptr);
      for (uint64_t k = 0; k + nb <= o->size; ++k)
        for (unsigned i = 0; i < nb; ++i)
        {
          Ex old = nv[k + i] ? nv[k + i] : byteAt(s, id, k + i);
          nv[k + i] = mkIte(mkEq(so, mkConst(k, 64)), mkExtract(e, 8 * i, 8), old);
        }
      o = s.mem.wr(id);
      if (o->s.empty()) o->s.assign(o->size, nullptr);
      for (uint64_t k = 0; k < o->size; ++k)
        if (nv[k]) { if (nv[k]->isConst()) { o->d[k] = (uint8_t)nv[k]->v; o->s[k] = nullptr; } else o->s[k] = nv[k]; }
      return;
    }
    off = concretize(s, Val(so), 64, "write offset");
  }
  writeObj(s, o, off, v, nb);
}

Val Exec::loadTy(State& s, uint64_t addr, Type* t)
{
  if (auto* st = dyn_cast<StructType>(t))
  {
    Val r; r.agg = std::make_shared<Agg>();
    const StructLayout* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); ++i) r.agg->push_back(loadTy(s, addr + sl->getElementOffset(i), st->getElementType(i)));
    return r;
  }
  if (t->isArrayTy() || t->isVectorTy())
  {
    Val r; r.agg = std::make_shared<Agg>();
    Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
    unsigned n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    uint64_t es = DL->getTypeAllocSize(et);
    for (unsigned i = 0; i < n; ++i) r.agg->push_back(loadTy(s, addr + i * es, et));
    return r;
  }
  return load(s, Val(addr), bw(t), t);
}

void Exec::storeTy(State& s, uint64_t addr, const Val& v, Type* t)
{
  if (auto* st = dyn_cast<StructType>(t))
  {
    const StructLayout* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); ++i) storeTy(s, addr + sl->getElementOffset(i), (*v.agg)[i], st->getElementType(i));
    return;
  }
  if (t->isArrayTy() || t->isVectorTy())
  {
    Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
    uint64_t es = DL->getTypeAllocSize(et);
    for (unsigned i = 0; i < v.agg->size(); ++i) storeTy(s, addr + i * es, (*v.agg)[i], et);
    return;
  }
  store(s, Val(addr), v, bw(t), t);
}

void Exec::memcopy(State& s, const Val& d, const Val& src, uint64_t n)
{
  if (n == 0) return;
  Ex so; uint64_t so_, do_;
  MemObj* a = resolve(s, src, n, so, so_, false, "read (block copy)");
  if (so) so_ = concretize(s, Val(so), 64, "memcpy src");
  Ex dx;
  MemObj* b = resolve(s, d, n, dx, do_, true, "write (block copy)");
  if (dx) do_ = concretize(s, Val(dx), 64, "memcpy dst");
  uint32_t aid = a->id;
  b = s.mem.wr(b->id);
  a = s.mem.get(aid);
  if (a == b)
  {
    memmove(&b->d[do_], &b->d[so_], n);
    if (!b->s.empty()) memmove((void*)&b->s[do_], (void*)&b->s[so_], n * sizeof(Ex));
    return;
  }
  memcpy(&b->d[do_], &a->d[so_], n);
  if (!a->s.empty())
  {
    if (b->s.empty()) b->s.assign(b->size, nullptr);
    memcpy((void*)&b->s[do_], (void*)&a->s[so_], n * sizeof(Ex));
  }
  else if (!b->s.empty())
    std::fill(b->s.begin() + do_, b->s.begin() + do_ + n, nullptr);
}

void Exec::memsetv(State& s, const Val& d, const Val& v, uint64_t n)
{
  if (n == 0) return;
  Ex dx; uint64_t off;
  MemObj* b = resolve(s, d, n, dx, off, true, "write (block fill)");
  if (dx) off = concretize(s, Val(dx), 64, "memset dst");
  b = s.mem.wr(b->id);
  if (v.conc())
  {
    memset(&b->d[off], (int)v.c & 255, n);
    if (!b->s.empty()) std::fill(b->s.begin() + off, b->s.begin() + off + n, nullptr);
  }
  else
  {
    if (b->s.empty()) b->s.assign(b->size, nullptr);
    Ex e = mkExtract(v.e, 0, 8);
    std::fill(b->s.begin() + off, b->s.begin() + off + n, e);
  }
}

std::string Exec::cstr(State& s, const Val& p, const char* why)
{
  std::string r;
  uint64_t a = concretize(s, p, 64, why);
  for (;; ++a)
  {
    Val v = load(s, Val(a), 8, nullptr);
    char c = (char)concretize(s, v, 8, why);
    if (!c) break;
    r += c;
  }
  return r;
}

uint64_t Exec::tlsAddr(State& s, GlobalVariable* g)
{
  auto& m = s.T().tls;
  auto it = m.find(g);
  if (it != m.end()) return objAddr(it->second);
  MemObj* o = s.mem.add(DL->getTypeAllocSize(g->getValueType()), OK_::Global, g->getName().str());
  if (g->hasInitializer()) storeConst(o, 0, g->getInitializer());
  m[g] = o->id;
  return objAddr(o->id);
}

// ------------------------------------------------------------------ control
void Exec::jump(State& s, int bb)
{
  Frame& f = s.top();
  f.prev = f.bb;
  f.bb = bb;
  f.ip = 0;
  PBlock& B = f.f->bb[bb];
  B.covered = true;
  // Evaluate the phis in parallel.
  int n = 0;
  while (n < (int)B.in.size() && B.in[n].op == OpPhi) ++n;
  if (n == 1)
  {
    PInst& p = B.in[0];
    for (size_t k = 0; k < p.phibb.size(); ++k) if (p.phibb[k] == f.prev) { Val v = op(s, p.o[k]); f.r[p.dst] = std::move(v); break; }
  }
  else if (n > 1)
  {
    std::vector<Val> tmp(n);
    for (int i = 0; i < n; ++i)
    {
      PInst& p = B.in[i];
      for (size_t k = 0; k < p.phibb.size(); ++k) if (p.phibb[k] == f.prev) { tmp[i] = op(s, p.o[k]); break; }
    }
    for (int i = 0; i < n; ++i) f.r[B.in[i].dst] = std::move(tmp[i]);
  }
  f.ip = n;
}

void Exec::pushFrame(State& s, Fn* f, std::vector<Val>&& args, PInst* site)
{
  if (!f->ready) prep(f);
  f->called = true;
  if (s.T().st.size() > o_max_depth) fail(s, "nontermination", "call stack deeper than " + std::to_string(o_max_depth));
  Frame fr;
  fr.f = f;
  fr.fromCall = site != nullptr;
  fr.r.resize(f->nregs);
  size_t np = f->F->arg_size();
  for (size_t i = 0; i < np && i < args.size(); ++i) fr.r[i] = std::move(args[i]);
  if (site && f->F->isVarArg())
    for (size_t i = np; i < args.size(); ++i) fr.va.push_back(args[i]);
  // byval arguments: copy.
  for (size_t i = 0; i < np; ++i)
    if (f->F->hasParamAttribute(i, Attribute::ByVal))
    {
      Type* t = f->F->getParamByValType(i);
      uint64_t n = DL->getTypeAllocSize(t);
      uint64_t a = alloc(s, n, OK_::Stack, "byval", 0, false);
      memcopy(s, Val(a), fr.r[i], n);
      fr.allocas.push_back((uint32_t)(a >> 32));
      fr.r[i] = Val(a);
    }
  f->bb[0].covered = true;
  s.T().st.push_back(std::move(fr));
}

void Exec::popFrameMem(State& s)
{
  for (uint32_t id : s.top().allocas) s.mem.del(id);
  s.T().st.pop_back();
}

void Exec::doRet(State& s, const Val& v, bool has)
{
  bool fromCall = s.top().fromCall;
  popFrameMem(s);
  if (s.T().st.empty())
  {
    if (s.cur != 0 && !s.T().atexit.empty())
    {
      auto p = s.T().atexit.back();
      s.T().atexit.pop_back();
      auto it = fnByAddr.find(p.first);
      pushFrame(s, it->second, {Val(p.second)}, nullptr);
      return;
    }
    s.T().done = true;
    if (s.cur == 0) throw PathEnd{"done", ""};
    schedule(s, false, false);
    return;
  }
  if (!fromCall) return;                       // entry sequence
  Frame& f = s.top();
  PInst& in = f.f->bb[f.bb].in[f.ip];
  if (has && in.dst >= 0) f.r[in.dst] = v;
  if (in.normal >= 0) jump(s, in.normal);
  else ++f.ip;
}

bool Exec::typeMatch(State& s, uint64_t thrown, uint64_t want)
{
  if (want == 0) return true;         // catch (...)
  std::vector<uint64_t> todo{thrown};
  while (!todo.empty())
  {
    uint64_t t = todo.back(); todo.pop_back();
    if (t == want) return true;
    MemObj* o = s.mem.get((uint32_t)(t >> 32));
    if (!o) continue;
    uint64_t vt = 0;
    if (o->size < 16) continue;
    memcpy(&vt, &o->d[0], 8);
    MemObj* vo = s.mem.get((uint32_t)(vt >> 32));
    std::string vn = vo ? vo->name : "";
    if (vn == "_ZTVN10__cxxabiv120__si_class_type_infoE") { uint64_t b; memcpy(&b, &o->d[16], 8); todo.push_back(b); }
    else if (vn == "_ZTVN10__cxxabiv121__vmi_class_type_infoE")
    {
      uint32_t n; memcpy(&n, &o->d[20], 4);
      for (uint32_t i = 0; i < n; ++i) { uint64_t b; memcpy(&b, &o->d[24 + 16 * i], 8); todo.push_back(b); }
    }
  }
  return false;
}

// Transfer control to the innermost handler or cleanup for the thread's in-flight exception.
void Exec::unwind(State& s)
{
  Thread& T = s.T();
  // Phase 1: is there a handler at all?
  bool found = false;
  for (int i = (int)T.st.size() - 1; i >= 0 && !found; --i)
  {
    Frame& f = T.st[i];
    PInst& in = f.f->bb[f.bb].in[f.ip];
    if (in.op == OpCall && in.unwind >= 0)
    {
      for (PInst& lp : f.f->bb[in.unwind].in)
        if (lp.op == OpLandingPad)
        {
          auto* L = cast<LandingPadInst>(lp.I);
          for (unsigned k = 0; k < L->getNumClauses(); ++k)
            if (L->isFilter(k)) found = true;
            else if (typeMatch(s, T.exctype, constVal(L->getClause(k)).c)) found = true;
        }
    }
  }
  if (!found)
  {
    MemObj* o = s.mem.get((uint32_t)(T.exctype >> 32));
    fail(s, "exception", "uncaught exception of type " + (o ? o->name : std::string("?")));
  }
  bool first = true;
  while (!T.st.empty())
  {
    Frame& f = s.top();
    PInst& in = f.f->bb[f.bb].in[f.ip];
    if ((!first || true) && in.op == OpCall && in.unwind >= 0)
    {
      jump(s, in.unwind);
      return;
    }
    first = false;
    popFrameMem(s);
  }
}

bool Exec::runnable(State& s, int t)
{
  Thread& T = s.th[t];
  if (T.done) return false;
  if (T.waitMutex)
  {
    MemObj* o = s.mem.get((uint32_t)(T.waitMutex >> 32));
    if (!o) return true;
    uint32_t l; memcpy(&l, &o->d[T.waitMutex - objAddr(o->id)], 4);
    if (T.waitRW < 0 && l) return false;
    if (T.waitRW >= 0)
    {
      uint32_t w; memcpy(&w, &o->d[T.waitMutex - objAddr(o->id) + 4], 4);
      if (T.waitRW == 0 ? w != 0 : T.waitRW == 2 ? (w || l) : (w || l != 1)) return false;
    }
  }
  if (T.waitJoin >= 0 && !s.th[T.waitJoin].done) return false;
  return true;
}

// Choose the next thread.  The choice is a symbolic variable; every runnable thread is explored.
void Exec::schedule(State& s, bool mayStay, bool)
{
  std::vector<int> r;
  for (int t = 0; t < (int)s.th.size(); ++t) if (runnable(s, t)) r.push_back(t);
  if (r.empty())
  {
    fail(s, "deadlock", "no runnable thread");
  }
  auto wake = [](State& st, int chosen) {
    Thread& C = st.th[chosen];
    for (auto& U : st.th)
      if (U.asleep && C.pend && U.pend && (C.pend == ~0ull || U.pend == ~0ull || (C.pend == U.pend && !(C.pendRead && U.pendRead)))) U.asleep = false;
    st.cur = chosen;
  };
  std::vector<int> aw;
  for (int t : r) if (!s.th[t].asleep) aw.push_back(t);
  if (aw.empty()) throw PathEnd{"redundant", ""};
  if (r.size() == 1) { wake(s, r[0]); return; }
  Ex v = freshVar(s, "sched", 8);
  s.inputs.push_back({"sched", {v}});
  // Clones continue with the other choices.
  auto pick = [&](State& st, size_t i) {
    for (size_t j = 0; j < i; ++j) st.th[aw[j]].asleep = true;
    Ex c = mkEq(v, mkConst(aw[i], 8));
    Model m;
    if (check(st, c, m) != SatRes::Sat) throw PathEnd{"incomplete", "schedule"};
    st.model = m;
    addCon(st, c);
    wake(st, aw[i]);
  };
  for (size_t i = 1; i < aw.size(); ++i)
  {
    State* n = fork(s);
    pick(*n, i);
    work.push_back(n);
  }
  pick(s, 0);
}

// ------------------------------------------------------------------ floating point helpers (concrete only)
static double asD(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static uint64_t fromD(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
static float asF(uint64_t v) { uint32_t x = (uint32_t)v; float f; memcpy(&f, &x, 4); return f; }
static uint64_t fromF(float f) { uint32_t x; memcpy(&x, &f, 4); return x; }
static long double asL(u128 v) { long double l = 0; memcpy(&l, &v, 10); return l; }
static u128 fromL(long double l) { u128 v = 0; memcpy(&v, &l, 10); return v; }
static long double fpGet(Exec& X, State& s, const Val& v, unsigned w)
{
  if (w == 80) { if (v.e && !v.e->isConst()) throw PathEnd{"incomplete", "symbolic floating point"}; return asL(v.e ? v.e->v : v.c); }
  uint64_t x = X.concretize(s, v, w, "floating point");
  return w == 64 ? (long double)asD(x) : (long double)asF(x);
}
static Val fpPut(long double r, unsigned w)
{
  if (w == 80) return Val(mkConst(fromL(r), 80));
  return w == 64 ? Val(fromD((double)r)) : Val(fromF((float)r));
}

static Val binop(EK k, const Val& a, const Val& b, unsigned w)
{
  if (a.conc() && b.conc() && w <= 64)
  {
    uint64_t m = (uint64_t)maskw(w), x = a.c, y = b.c;
    switch (k)
    {
      case EK::Add: return Val((x + y) & m);
      case EK::Sub: return Val((x - y) & m);
      case EK::Mul: return Val((x * y) & m);
      case EK::And: return Val(x & y);
      case EK::Or: return Val(x | y);
      case EK::Xor: return Val(x ^ y);
      case EK::Shl: return Val(y >= w ? 0 : (x << y) & m);
      case EK::LShr: return Val(y >= w ? 0 : x >> y);
      default: break;
    }
  }
  return Val(mkBin(k, toEx(a, w), toEx(b, w)));
}

static Ex icmpEx(unsigned pred, Ex a, Ex b)
{
  switch (pred)
  {
    case CmpInst::ICMP_EQ: return mkEq(a, b);
    case CmpInst::ICMP_NE: return mkNot(mkEq(a, b));
    case CmpInst::ICMP_ULT: return mkCmp(EK::Ult, a, b);
    case CmpInst::ICMP_ULE: return mkCmp(EK::Ule, a, b);
    case CmpInst::ICMP_UGT: return mkCmp(EK::Ult, b, a);
    case CmpInst::ICMP_UGE: return mkCmp(EK::Ule, b, a);
    case CmpInst::ICMP_SLT: return mkCmp(EK::Slt, a, b);
    case CmpInst::ICMP_SLE: return mkCmp(EK::Sle, a, b);
    case CmpInst::ICMP_SGT: return mkCmp(EK::Slt, b, a);
    case CmpInst::ICMP_SGE: return mkCmp(EK::Sle, b, a);
  }
  abort();
}

static bool mentionsUninit(Ex e)
{
  for (uint32_t v : *e->vars) if (g_vars[v].name == "uninit") return true;
  return false;
}

// ------------------------------------------------------------------ one instruction
void Exec::step(State& s, PInst& in)
{
  switch (in.op)
  {
    case OpNop: ++s.top().ip; return;
    case OpCopy: setr(s, in, op(s, in.o[0])); ++s.top().ip; return;
    case OpAlloca:
    {
      uint64_t n = concretize(s, op(s, in.o[0]), in.w2, "alloca");
      uint64_t a = alloc(s, n * in.off, OK_::Stack, in.I->getName().str(), 0, false);
      s.top().allocas.push_back((uint32_t)(a >> 32));
      setr(s, in, Val(a));
      ++s.top().ip;
      return;
    }
    case OpLoad:
    {
      Val p = op(s, in.o[0]);
      Val v;
      atom = in.atom;
      if (in.w) v = load(s, p, in.w, in.ty);
      else v = loadTy(s, concretize(s, p, 64, "aggregate load"), in.ty);
      atom = 0;
      setr(s, in, std::move(v));
      ++s.top().ip;
      return;
    }
    case OpStore:
    {
      Val v = op(s, in.o[0]), p = op(s, in.o[1]);
      atom = in.atom;
      if (in.w2) store(s, p, v, in.w2, in.ty);
      else storeTy(s, concretize(s, p, 64, "aggregate store"), v, in.ty);
      atom = 0;
      ++s.top().ip;
      return;
    }
    case OpGep:
    {
      Val b = op(s, in.o[0]);
      Val r = binop(EK::Add, b, Val((uint64_t)in.off), 64);
      for (size_t i = 0; i < in.scale.size(); ++i)
      {
        Val x = op(s, in.o[in.scale[i].first]);
        unsigned w = in.srcw[i];
        if (x.conc())
        {
          int64_t sv = w < 64 ? (int64_t)(x.c << (64 - w)) >> (64 - w) : (int64_t)x.c;
          r = binop(EK::Add, r, Val((uint64_t)(sv * in.scale[i].second)), 64);
        }
        else
        {
          Ex e = mkSExt(x.e, 64);
          r = Val(mkBin(EK::Add, toEx(r, 64), mkBin(EK::Mul, e, mkConst((u128)in.scale[i].second, 64))));
        }
      }
      setr(s, in, r);
      ++s.top().ip;
      return;
    }
    case OpBin:
    {
      Val a = op(s, in.o[0]), b = op(s, in.o[1]);
      EK k = (EK)in.sub;
      if (k == EK::UDiv || k == EK::SDiv || k == EK::URem || k == EK::SRem)
      {
        bool z;
        mustOrFork(s, mkEq(toEx(b, in.w), mkConst(0, in.w)), z);
        if (z) fail(s, "ub", "division by zero");
      }
      setr(s, in, binop(k, a, b, in.w));
      ++s.top().ip;
      return;
    }
    case OpICmp:
    {
      Val a = op(s, in.o[0]), b = op(s, in.o[1]);
      unsigned w = in.w2;
      if (a.conc() && b.conc())
      {
        uint64_t x = a.c, y = b.c;
        int64_t sx = w < 64 ? (int64_t)(x << (64 - w)) >> (64 - w) : (int64_t)x, sy = w < 64 ? (int64_t)(y << (64 - w)) >> (64 - w) : (int64_t)y;
        bool r;
        switch (in.sub)
        {
          case CmpInst::ICMP_EQ: r = x == y; break;
          case CmpInst::ICMP_NE: r = x != y; break;
          case CmpInst::ICMP_ULT: r = x < y; break;
          case CmpInst::ICMP_ULE: r = x <= y; break;
          case CmpInst::ICMP_UGT: r = x > y; break;
          case CmpInst::ICMP_UGE: r = x >= y; break;
          case CmpInst::ICMP_SLT: r = sx < sy; break;
          case CmpInst::ICMP_SLE: r = sx <= sy; break;
          case CmpInst::ICMP_SGT: r = sx > sy; break;
          default: r = sx >= sy; break;
        }
        setr(s, in, Val((uint64_t)r));
      }
      else
        setr(s, in, Val(icmpEx(in.sub, toEx(a, w), toEx(b, w))));
      ++s.top().ip;
      return;
    }
    case OpFBin:
    {
      long double a = fpGet(*this, s, op(s, in.o[0]), in.w), b = fpGet(*this, s, op(s, in.o[1]), in.w), r = 0;
      if (in.w == 64)
      {
        double x = (double)a, y = (double)b, z = 0;
        switch (in.sub) { case Instruction::FAdd: z = x + y; break; case Instruction::FSub: z = x - y; break; case Instruction::FMul: z = x * y; break;
          case Instruction::FDiv: z = x / y; break; default: z = fmod(x, y); }
        r = z;
      }
      else if (in.w == 32)
      {
        float x = (float)a, y = (float)b, z = 0;
        switch (in.sub) { case Instruction::FAdd: z = x + y; break; case Instruction::FSub: z = x - y; break; case Instruction::FMul: z = x * y; break;
          case Instruction::FDiv: z = x / y; break; default: z = fmodf(x, y); }
        r = z;
      }
      else
        switch (in.sub) { case Instruction::FAdd: r = a + b; break; case Instruction::FSub: r = a - b; break; case Instruction::FMul: r = a * b; break;
          case Instruction::FDiv: r = a / b; break; default: r = fmodl(a, b); }
      setr(s, in, fpPut(r, in.w));
      ++s.top().ip;
      return;
    }
    case OpFNeg: setr(s, in, fpPut(-fpGet(*this, s, op(s, in.o[0]), in.w), in.w)); ++s.top().ip; return;
    case OpFCmp:
    {
      long double a = fpGet(*this, s, op(s, in.o[0]), in.w2), b = fpGet(*this, s, op(s, in.o[1]), in.w2);
      bool un = std::isnan(a) || std::isnan(b), r = false;
      switch (in.sub)
      {
        case CmpInst::FCMP_FALSE: r = false; break;
        case CmpInst::FCMP_OEQ: r = !un && a == b; break;
        case CmpInst::FCMP_OGT: r = !un && a > b; break;
        case CmpInst::FCMP_OGE: r = !un && a >= b; break;
        case CmpInst::FCMP_OLT: r = !un && a < b; break;
        case CmpInst::FCMP_OLE: r = !un && a <= b; break;
        case CmpInst::FCMP_ONE: r = !un && a != b; break;
        case CmpInst::FCMP_ORD: r = !un; break;
        case CmpInst::FCMP_UNO: r = un; break;
        case CmpInst::FCMP_UEQ: r = un || a == b; break;
        case CmpInst::FCMP_UGT: r = un || a > b; break;
        case CmpInst::FCMP_UGE: r = un || a >= b; break;
        case CmpInst::FCMP_ULT: r = un || a < b; break;
        case CmpInst::FCMP_ULE: r = un || a <= b; break;
        case CmpInst::FCMP_UNE: r = un || a != b; break;
        default: r = true;
      }
      setr(s, in, Val((uint64_t)r));
      ++s.top().ip;
      return;
    }
    case OpCast:
    {
      Val a = op(s, in.o[0]);
      unsigned w = in.w, w2 = in.w2;
      Val r = a;
      switch (in.sub)
      {
        case Instruction::Trunc:
          if (a.conc()) r = Val(a.c & (uint64_t)maskw(w)); else r = Val(mkExtract(a.e, 0, w));
          break;
        case Instruction::ZExt:
          if (!a.conc() || w > 64) r = Val(mkZExt(toEx(a, w2), w));
          break;
        case Instruction::SExt:
          if (a.conc() && w <= 64) r = Val((uint64_t)((int64_t)(a.c << (64 - w2)) >> (64 - w2)) & (uint64_t)maskw(w));
          else r = Val(mkSExt(toEx(a, w2), w));
          break;
        case Instruction::PtrToInt: case Instruction::IntToPtr:
          if (w < w2) { if (a.conc()) r = Val(a.c & (uint64_t)maskw(w)); else r = Val(mkExtract(a.e, 0, w)); }
          else if (w > w2) r = Val(mkZExt(toEx(a, w2), w));
          break;
        default: break;
      }
      setr(s, in, r);
      ++s.top().ip;
      return;
    }
    case OpFCast:
    {
      Val a = op(s, in.o[0]);
      Val r;
      unsigned w = in.w, w2 = in.w2;
      switch (in.sub)
      {
        case Instruction::FPToUI: r = Val((uint64_t)fpGet(*this, s, a, w2) & (uint64_t)maskw(w)); break;
        case Instruction::FPToSI: r = Val((uint64_t)(int64_t)fpGet(*this, s, a, w2) & (uint64_t)maskw(w)); break;
        case Instruction::UIToFP: r = fpPut((long double)concretize(s, a, w2, "uitofp"), w); break;
        case Instruction::SIToFP:
        {
          uint64_t x = concretize(s, a, w2, "sitofp");
          r = fpPut((long double)((int64_t)(x << (64 - w2)) >> (64 - w2)), w);
          break;
        }
        default: r = fpPut(fpGet(*this, s, a, w2), w);
      }
      setr(s, in, r);
      ++s.top().ip;
      return;
    }
    case OpSelect:
    {
      Val c = op(s, in.o[0]);
      if (c.conc()) { setr(s, in, op(s, in.o[c.c ? 1 : 2])); ++s.top().ip; return; }
      Val a = op(s, in.o[1]), b = op(s, in.o[2]);
      if (!in.w)
      {
        bool v;
        mustOrFork(s, c.e, v);
        setr(s, in, v ? a : b);
      }
      else setr(s, in, Val(mkIte(c.e, toEx(a, in.w), toEx(b, in.w))));
      ++s.top().ip;
      return;
    }
    case OpBr: jump(s, in.bbs[0]); return;
    case OpCondBr:
    {
      Val c = op(s, in.o[0]);
      if (c.conc()) { jump(s, in.bbs[c.c ? 0 : 1]); return; }
      bool v = evalExpr(c.e, s.model) != 0;
      Ex mine = v ? c.e : mkNot(c.e), other = v ? mkNot(c.e) : c.e;
      Model m;
      if (check(s, other, m) == SatRes::Sat)
      {
        if (o_uninit && mentionsUninit(c.e)) fail(s, "uninit", "branch depends on an uninitialised value");
        State* n = fork(s);
        n->model = m;
        addCon(*n, other);
        jump(*n, in.bbs[v ? 1 : 0]);
        work.push_back(n);
        addCon(s, mine);
      }
      jump(s, in.bbs[v ? 0 : 1]);
      return;
    }
    case OpSwitch:
    {
      Val c = op(s, in.o[0]);
      if (c.conc())
      {
        for (auto& k : in.cases) if ((uint64_t)k.first == c.c) { jump(s, k.second); return; }
        jump(s, in.bbs[0]);
        return;
      }
      if (o_uninit && mentionsUninit(c.e)) fail(s, "uninit", "switch on an uninitialised value");
      std::map<int, Ex> dest;
      Ex none = mkConst(1, 1);
      for (auto& k : in.cases)
      {
        Ex q = mkEq(c.e, mkConst(k.first, in.w2));
        auto it = dest.find(k.second);
        if (it == dest.end()) dest[k.second] = q; else it->second = mkOr(it->second, q);
        none = mkAnd(none, mkNot(q));
      }
      auto it = dest.find(in.bbs[0]);
      if (it == dest.end()) dest[in.bbs[0]] = none; else it->second = mkOr(it->second, none);
      int mine = -1;
      Ex mineC = nullptr;
      for (auto& d : dest)
      {
        if (d.second->isConst() && !d.second->v) continue;
        if (evalExpr(d.second, s.model)) { mine = d.first; mineC = d.second; continue; }
        Model m;
        if (check(s, d.second, m) == SatRes::Sat)
        {
          State* n = fork(s);
          n->model = m;
          addCon(*n, d.second);
          jump(*n, d.first);
          work.push_back(n);
        }
      }
      addCon(s, mineC);
      jump(s, mine);
      return;
    }
    case OpRet:
    {
      Val v;
      bool has = !in.o.empty();
      if (has) v = op(s, in.o[0]);
      doRet(s, v, has);
      return;
    }
    case OpUnreachable: fail(s, "ub", "unreachable code reached");
    case OpExtractVal:
    {
      Val v = op(s, in.o[0]);
      for (unsigned k : in.idx) { Val t = (*v.agg)[k]; v = t; }
      setr(s, in, v);
      ++s.top().ip;
      return;
    }
    case OpInsertVal:
    {
      Val v = op(s, in.o[0]), x = op(s, in.o[1]);
      std::function<Val(const Val&, size_t)> ins = [&](const Val& a, size_t d) -> Val {
        if (d == in.idx.size()) return x;
        Val r; r.agg = std::make_shared<Agg>(*a.agg);
        (*r.agg)[in.idx[d]] = ins((*a.agg)[in.idx[d]], d + 1);
        return r;
      };
      setr(s, in, ins(v, 0));
      ++s.top().ip;
      return;
    }
    case OpLandingPad:
    {
      auto* L = cast<LandingPadInst>(in.I);
      uint64_t sel = 0;
      Thread& T = s.T();
      for (unsigned k = 0; k < L->getNumClauses() && !sel; ++k)
      {
        if (L->isFilter(k)) { sel = (uint64_t)(uint32_t)-1; break; }
        uint64_t ti = constVal(L->getClause(k)).c;
        if (typeMatch(s, T.exctype, ti)) sel = ti ? (ti >> 32) : 1;
      }
      Val r; r.agg = std::make_shared<Agg>();
      r.agg->push_back(Val(T.exc));
      r.agg->push_back(Val(sel));
      setr(s, in, r);
      ++s.top().ip;
      return;
    }
    case OpResume: unwind(s); return;
    case OpRMW:
    {
      Val p = op(s, in.o[0]), v = op(s, in.o[1]);
      atom = in.atom;
      Val old = load(s, p, in.w, in.ty);
      Val n;
      switch ((AtomicRMWInst::BinOp)in.sub)
      {
        case AtomicRMWInst::Xchg: n = v; break;
        case AtomicRMWInst::Add: n = binop(EK::Add, old, v, in.w); break;
        case AtomicRMWInst::Sub: n = binop(EK::Sub, old, v, in.w); break;
        case AtomicRMWInst::And: n = binop(EK::And, old, v, in.w); break;
        case AtomicRMWInst::Or: n = binop(EK::Or, old, v, in.w); break;
        case AtomicRMWInst::Xor: n = binop(EK::Xor, old, v, in.w); break;
        default: fail(s, "unsupported", "atomicrmw");
      }
      store(s, p, n, in.w, in.ty);
      atom = 0;
      setr(s, in, old);
      ++s.top().ip;
      return;
    }
    case OpCmpXchg:
    {
      Val p = op(s, in.o[0]), c = op(s, in.o[1]), n = op(s, in.o[2]);
      // Acquires nothing before it is decided which ordering applies.
      atom = 1;
      Val old = load(s, p, in.w2, in.ty);
      atom = 0;
      bool eq;
      mustOrFork(s, mkEq(toEx(old, in.w2), toEx(c, in.w2)), eq);
      atom = eq ? in.atom : in.sub;
      load(s, p, in.w2, in.ty);
      if (eq) store(s, p, n, in.w2, in.ty);
      atom = 0;
      Val r; r.agg = std::make_shared<Agg>();
      r.agg->push_back(old); r.agg->push_back(Val((uint64_t)eq));
      setr(s, in, r);
      ++s.top().ip;
      return;
    }
    case OpFence:
    {
      Thread& T = s.T();
      if (in.atom & 2) T.vc.join(T.acq);
      if ((in.atom & 4) && s.th.size() > 1) { T.rel = T.vc; ++T.vc.c[s.cur]; }
      ++s.top().ip;
      return;
    }
    case OpIntr: intrinsic(s, in); return;
    case OpCall: call(s, in); return;
    case OpPhi: ++s.top().ip; return;
    default:
    {
      std::string str;
      raw_string_ostream os(str);
      in.I->print(os);
      fail(s, "unsupported", os.str());
    }
  }
}

void Exec::intrinsic(State& s, PInst& in)
{
  auto adv = [&]() { if (in.normal >= 0) jump(s, in.normal); else ++s.top().ip; };
  auto A = [&](int i) { return op(s, in.o[i]); };
  switch (in.sub)
  {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
    {
      uint64_t n = concretize(s, A(2), 64, "memcpy size");
      memcopy(s, A(0), A(1), n);
      adv();
      return;
    }
    case Intrinsic::memset: { uint64_t n = concretize(s, A(2), 64, "memset size"); memsetv(s, A(0), A(1), n); adv(); return; }
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
    case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::invariant_end:
    case Intrinsic::stackrestore: case Intrinsic::prefetch: case Intrinsic::var_annotation:
      adv(); return;
    case Intrinsic::invariant_start: case Intrinsic::stacksave: setr(s, in, Val((uint64_t)0)); adv(); return;
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation:
      setr(s, in, A(0)); adv(); return;
    case Intrinsic::is_constant: setr(s, in, Val((uint64_t)0)); adv(); return;
    case Intrinsic::objectsize: setr(s, in, Val((uint64_t)maskw(in.w))); adv(); return;
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap:
      fail(s, "ub", "undefined behaviour check failed (code " + std::to_string(in.o.empty() ? 0 : A(0).c) + ")");
    case Intrinsic::threadlocal_address:
    {
      auto* g = cast<GlobalVariable>(cast<CallBase>(in.I)->getArgOperand(0)->stripPointerCasts());
      setr(s, in, Val(tlsAddr(s, g))); adv(); return;
    }
    case Intrinsic::eh_typeid_for:
    {
      Val v = A(0);
      setr(s, in, Val((uint64_t)(v.c ? v.c >> 32 : 1))); adv(); return;
    }
    case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow:
    case Intrinsic::smul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow:
    {
      unsigned w = in.w2;
      bool sg = in.sub == Intrinsic::smul_with_overflow || in.sub == Intrinsic::sadd_with_overflow || in.sub == Intrinsic::ssub_with_overflow;
      EK k = (in.sub == Intrinsic::umul_with_overflow || in.sub == Intrinsic::smul_with_overflow) ? EK::Mul :
             (in.sub == Intrinsic::uadd_with_overflow || in.sub == Intrinsic::sadd_with_overflow) ? EK::Add : EK::Sub;
      Ex a = toEx(A(0), w), b = toEx(A(1), w);
      unsigned W = k == EK::Mul ? 2 * w : w + 1;
      Ex wide = mkBin(k, sg ? mkSExt(a, W) : mkZExt(a, W), sg ? mkSExt(b, W) : mkZExt(b, W));
      Ex r = mkBin(k, a, b);
      Ex ov = mkNot(mkEq(wide, sg ? mkSExt(r, W) : mkZExt(r, W)));
      Val v; v.agg = std::make_shared<Agg>();
      v.agg->push_back(Val(r)); v.agg->push_back(Val(ov));
      setr(s, in, v); adv(); return;
    }
    case Intrinsic::usub_sat:
    {
      Ex a = toEx(A(0), in.w), b = toEx(A(1), in.w);
      setr(s, in, Val(mkIte(mkCmp(EK::Ult, a, b), mkConst(0, in.w), mkBin(EK::Sub, a, b)))); adv(); return;
    }
    case Intrinsic::uadd_sat:
    {
      Ex a = toEx(A(0), in.w), b = toEx(A(1), in.w), r = mkBin(EK::Add, a, b);
      setr(s, in, Val(mkIte(mkCmp(EK::Ult, r, a), mkConst(maskw(in.w), in.w), r))); adv(); return;
    }
    case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax:
    {
      Ex a = toEx(A(0), in.w), b = toEx(A(1), in.w);
      bool sg = in.sub == Intrinsic::smin || in.sub == Intrinsic::smax;
      Ex lt = mkCmp(sg ? EK::Slt : EK::Ult, a, b);
      bool mn = in.sub == Intrinsic::umin || in.sub == Intrinsic::smin;
      setr(s, in, Val(mn ? mkIte(lt, a, b) : mkIte(lt, b, a))); adv(); return;
    }
    case Intrinsic::abs:
    {
      Ex a = toEx(A(0), in.w);
      setr(s, in, Val(mkIte(mkCmp(EK::Slt, a, mkConst(0, in.w)), mkBin(EK::Sub, mkConst(0, in.w), a), a))); adv(); return;
    }
    case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::bswap:
    {
      unsigned w = in.w;
      Val a = A(0);
      if (in.sub == Intrinsic::bswap)
      {
        Ex e = toEx(a, w), r = nullptr;
        for (unsigned i = 0; i < w / 8; ++i) { Ex b = mkExtract(e, 8 * i, 8); r = r ? mkConcat(r, b) : b; }
        setr(s, in, Val(r)); adv(); return;
      }
      Ex e = toEx(a, w);
      Ex r;
      if (in.sub == Intrinsic::ctpop)
      {
        r = mkConst(0, w);
        for (unsigned i = 0; i < w; ++i) r = mkBin(EK::Add, r, mkZExt(mkExtract(e, i, 1), w));
      }
      else if (in.sub == Intrinsic::ctlz)
      {
        r = mkConst(w, w);
        for (unsigned i = 0; i < w; ++i) r = mkIte(mkExtract(e, i, 1), mkConst(w - 1 - i, w), r);
      }
      else
      {
        r = mkConst(w, w);
        for (int i = w - 1; i >= 0; --i) r = mkIte(mkExtract(e, i, 1), mkConst(i, w), r);
      }
      setr(s, in, Val(r)); adv(); return;
    }
    case Intrinsic::fshl: case Intrinsic::fshr:
    {
      unsigned w = in.w;
      uint64_t sh = concretize(s, A(2), w, "funnel shift") % w;
      Ex a = toEx(A(0), w), b = toEx(A(1), w);
      if (in.sub == Intrinsic::fshr) sh = sh ? w - sh : 0;
      if (in.sub == Intrinsic::fshr && sh == 0) { setr(s, in, Val(b)); adv(); return; }
      if (sh == 0) { setr(s, in, Val(a)); adv(); return; }
      setr(s, in, Val(mkBin(EK::Or, mkBin(EK::Shl, a, mkConst(sh, w)), mkBin(EK::LShr, b, mkConst(w - sh, w))))); adv(); return;
    }
    case Intrinsic::fabs: setr(s, in, fpPut(fabsl(fpGet(*this, s, A(0), in.w)), in.w)); adv(); return;
    case Intrinsic::returnaddress:      // Level 0: an address in the caller.
    {
      auto& st = s.th[s.cur].st;
      setr(s, in, Val(!A(0).e && A(0).c == 0 && st.size() > 1 ? st[st.size() - 2].f->addr + 1 : (uint64_t)0)); adv(); return;
    }
    case Intrinsic::frameaddress: setr(s, in, Val((uint64_t)0)); adv(); return;
    default: fail(s, "unsupported", "intrinsic " + Intrinsic::getBaseName(in.sub).str());
  }
}

void Exec::call(State& s, PInst& in)
{
  Fn* f = in.callee;
  size_t na = in.o.size();
  if (!f)
  {
    --na;
    uint64_t a = concretize(s, op(s, in.o[na]), 64, "indirect call");
    auto it = fnByAddr.find(a);
    if (it == fnByAddr.end())
      fail(s, "memory", a < 4096 ? "call through a null function pointer" : "call through an invalid function pointer");
    f = it->second;
  }
  std::vector<Val> args;
  args.reserve(na);
  for (size_t i = 0; i < na; ++i) args.push_back(op(s, in.o[i]));
  if (!f->looked)
  {
    f->looked = true;
    Function* stub = M->getFunction("stub_" + f->name);
    if (stub && !stub->isDeclaration()) f->stub = getFn(stub);
    if (f->F->isDeclaration())
    {
      auto it = builtins.find(f->name);
      if (it != builtins.end()) f->h = &it->second;
    }
  }
  if (f->stub && s.top().f->name.compare(0, 5, "stub_")) { pushFrame(s, f->stub, std::move(args), &in); return; }
  if (f->h)
  {
    Val r;
    size_t depth = s.T().st.size();
    int cur = s.cur;
    (void)depth; (void)cur;
    // Advance first for handlers that transfer control themselves; they set ctl.
    (*f->h)(*this, s, in, args, r);
    return;
  }
  if (f->F->isDeclaration()) fail(s, "unsupported", "call of undefined function " + f->name);
  pushFrame(s, f, std::move(args), &in);
}

#include "builtins.inc"

// ------------------------------------------------------------------ driver
void Exec::finishPath(State& s, const PathEnd& e)
{
  std::string k = e.kind;
  if (k == "error")
  {
    size_t p = e.msg.find('\x01');
    std::string kind = e.msg.substr(0, p), msg = e.msg.substr(p + 1);
    if (kind == "unsupported") { ++nincomplete; ++incompleteWhy[msg + " at " + where(s, nullptr)]; reportErr(s, kind, msg, s.model); }
    else reportErr(s, kind, msg, s.model);
    ++npaths;
  }
  else if (k == "child") return;
  else if (k == "assume" || k == "redundant") ++nassume;
  else if (k == "incomplete") { ++nincomplete; ++incompleteWhy[e.msg + " at " + where(s, nullptr)]; }
  else { ++npaths; if (s.th.size() == 1 || true) sample(s); }
  ++ends[k + (k == "done" && !e.msg.empty() ? ":" + e.msg : "")];
}

void Exec::runState(State* s)
{
  uint64_t start = s->instrs;
  atom = 0;
  try
  {
    for (;;)
    {
      Frame& f = s->top();
      PInst& in = f.f->bb[f.bb].in[f.ip];
      if (o_trace)
      {
        std::string str; raw_string_ostream os(str); in.I->print(os);
        fprintf(stderr, "[%d] %s:%d.%d %s\n", s->cur, f.f->name.c_str(), f.bb, f.ip, os.str().c_str());
      }
      ++s->instrs;
      if (s->instrs > o_max_instr) fail(*s, "nontermination", "path exceeds the instruction bound");
      if ((s->instrs & 0xfff) == 0)
      {
        if (nowS() > deadline || g_sh->stop) throw PathEnd{"incomplete", g_sh->stop ? "stopped" : "time limit"};
        if (o_jobs > 1) maybeSplit();
      }
      step(*s, in);
    }
  }
  catch (PathEnd& e) { finishPath(*s, e); }
  ninstr += s->instrs - start;
  delete s;
}

void Exec::maybeSplit()
{
  if (work.size() < 2) return;
  int a = g_sh->active.load();
  while (a < o_jobs)
  {
    if (g_sh->active.compare_exchange_weak(a, a + 1))
    {
      fflush(stdout); fflush(stderr);
      pid_t p = ::fork();
      if (p < 0) { g_sh->active--; return; }
      std::vector<State*> mine;
      if (p == 0)
      {
        // The child takes the older half.
        g_sh->total_procs++;
        kids.clear();
        errs.clear(); covers.clear(); samples.clear(); sampleSigs.clear(); incompleteWhy.clear(); ends.clear();
        npaths = ninstr = nforks = nincomplete = nassume = nassert = 0;
        g_ss = SolverStats();
        for (size_t i = 0; i < work.size(); ++i) if (i % 2 == 0) mine.push_back(work[i]); else delete work[i];
        work = mine;
        // The state being run belongs to the parent: restart the child's loop.
        throw PathEnd{"child", ""};
      }
      kids.push_back(p);
      for (size_t i = 0; i < work.size(); ++i) if (i % 2 == 1) mine.push_back(work[i]); else delete work[i];
      work = mine;
      return;
    }
  }
}

void Exec::run(State* s0)
{
  work.push_back(s0);
  while (!work.empty())
  {
    State* s = work.back();
    work.pop_back();
    if (nowS() > deadline || g_sh->stop) { ++nincomplete; ++incompleteWhy[g_sh->stop ? "stopped" : "time limit"]; delete s; continue; }
    if (o_jobs > 1 && work.size() >= 2 && (npaths & 3) == 0)
    {
      work.push_back(s);
      try { maybeSplit(); } catch (PathEnd&) { }
      s = work.back();
      work.pop_back();
    }
    runState(s);
  }
}

void Exec::writeResults()
{
  std::string fn = o_out + "/r" + std::to_string(getpid()) + ".json";
  FILE* f = fopen(fn.c_str(), "w");
  if (!f) { perror(fn.c_str()); _exit(3); }
  fprintf(f, "{\"paths\":%lu,\"instructions\":%lu,\"forks\":%lu,\"incomplete\":%lu,\"assume_killed\":%lu,\"asserts\":%lu,", npaths, ninstr, nforks, nincomplete, nassume, nassert);
  fprintf(f, "\"queries\":%lu,\"cache_hits\":%lu,\"z3_calls\":%lu,\"byte_domain\":%lu,\"model_hits\":%lu,\"solver_s\":%.3f,\"unknown\":%lu,\"wall_s\":%.2f,", g_ss.queries, g_ss.cacheHits, g_ss.z3, g_ss.byteDom, g_ss.modelHits, g_ss.z3_s, g_ss.unknown, nowS() - g_t0);
  auto mp = [&](const char* name, std::map<std::string, uint64_t>& m) {
    fprintf(f, "\"%s\":{", name);
    bool first = true;
    for (auto& p : m) { fprintf(f, "%s\"%s\":%lu", first ? "" : ",", jesc(p.first).c_str(), p.second); first = false; }
    fprintf(f, "},");
  };
  mp("covers", covers); mp("incomplete_why", incompleteWhy); mp("ends", ends);
  fprintf(f, "\"functions\":{");
  bool first = true;
  for (auto& p : fns)
    if (p.second->called)
    {
      unsigned cov = 0;
      for (auto& b : p.second->bb) cov += b.covered;
      std::string file;
      if (auto* sp = p.second->F->getSubprogram()) file = sp->getFilename().str();
      fprintf(f, "%s\"%s\":[\"%s\",%u,%zu]", first ? "" : ",", jesc(p.second->name).c_str(), jesc(file).c_str(), cov, p.second->bb.size());
      first = false;
    }
  fprintf(f, "},\"errors\":[");
  first = true;
  for (auto& p : errs)
  {
    Err& e = p.second;
    fprintf(f, "%s{\"kind\":\"%s\",\"msg\":\"%s\",\"where\":\"%s\",\"count\":%d,\"inputs\":\"%s\",\"notes\":\"%s\",\"stack\":[", first ? "" : ",",
            jesc(e.kind).c_str(), jesc(e.msg).c_str(), jesc(e.where).c_str(), e.count, jesc(e.inputs).c_str(), jesc(e.notes).c_str());
    for (size_t i = 0; i < e.stack.size(); ++i) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(e.stack[i]).c_str());
    fprintf(f, "]}");
    first = false;
  }
  fprintf(f, "],\"samples\":[");
  first = true;
  for (auto& p : samples)
  {
    fprintf(f, "%s{\"inputs\":\"%s\",\"obs\":\"%s\"}", first ? "" : ",", jesc(p.inputs).c_str(), jesc(p.obs).c_str());
    first = false;
  }
  fprintf(f, "]}\n");
  fclose(f);
}

int main(int argc, char** argv)
{
  std::string file;
  for (int i = 1; i < argc; ++i)
  {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") o_entry = nx();
    else if (a == "--out") o_out = nx();
    else if (a == "--time") o_time = atof(nx().c_str());
    else if (a == "--max-instr") o_max_instr = strtoull(nx().c_str(), 0, 10);
    else if (a == "--jobs") o_jobs = atoi(nx().c_str());
    else if (a == "--stop-first") o_stop_first = true;
    else if (a == "--no-uninit") o_uninit = false;
    else if (a == "--max-depth") o_max_depth = atoi(nx().c_str());
    else if (a == "-v") o_verbose = true;
    else if (a == "--xcheck") g_xcheck = true;
    else if (a == "--trace") o_trace = true;
    else if (a == "--query-timeout") g_query_timeout_ms = atoi(nx().c_str());
    else file = a;
  }
  g_t0 = nowS();
  g_sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  new (g_sh) Shared;
  g_sh->active = 1; g_sh->stop = 0; g_sh->paths = 0; g_sh->errors = 0; g_sh->total_procs = 1;
  LLVMContext ctx;
  SMDiagnostic d;
  auto M = parseIRFile(file, d, ctx);
  if (!M) { d.print("symx", errs()); return 3; }
  Exec X;
  X.M = M.get();
  X.DL = &M->getDataLayout();
  X.deadline = g_t0 + o_time;
  X.registerBuiltins();
  X.initGlobals();
  X.unlockPoints = M->getNamedGlobal("sx_unlock_points") != nullptr;
  Function* E = M->getFunction(o_entry);
  if (!E || E->isDeclaration()) { fprintf(stderr, "symx: no entry %s\n", o_entry.c_str()); return 3; }
  State* s = new State;
  s->mem = X.gmem;
  s->th.resize(1);
  // Frames: the entry below, the static constructors on top (the first one topmost).
  std::vector<Function*> ctors;
  if (auto* g = M->getNamedGlobal("llvm.global_ctors"))
    if (g->hasInitializer())
      if (auto* ca = dyn_cast<ConstantArray>(g->getInitializer()))
      {
        std::vector<std::pair<uint64_t, Function*>> v;
        for (auto& o : ca->operands())
        {
          auto* cs = cast<ConstantStruct>(o);
          if (auto* F = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), F});
        }
        std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
        for (auto& p : v) ctors.push_back(p.second);
      }
  X.pushFrame(*s, X.getFn(E), {}, nullptr);
  for (auto it = ctors.rbegin(); it != ctors.rend(); ++it) X.pushFrame(*s, X.getFn(*it), {}, nullptr);
  X.run(s);
  g_sh->active--;
  X.writeResults();
  for (pid_t k : X.kids) { int st; waitpid(k, &st, 0); if (st != 0) { fprintf(stderr, "symx: worker failed (%d)\n", st); FILE* f = fopen((o_out + "/worker_failed").c_str(), "w"); if (f) fclose(f); } }
  fflush(stdout);
  _exit(0);
}
