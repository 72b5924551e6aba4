// Pass plugin: marks every atomic access of the code under test with a call of sx_atomic(address, kind), where kind is 0 for a
// load and 1 for anything that may write. Applied to the IR that is executed symbolically and to the native replay build, so
// that both have the same scheduling points. The reference counts inside libstdc++ are not marked.
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
using namespace llvm;

struct SxAtomic : PassInfoMixin<SxAtomic>
{
  static bool isRequired() { return true; }
  PreservedAnalyses run(Module& M, ModuleAnalysisManager&)
  {
    LLVMContext& C = M.getContext();
    FunctionCallee F;
    for (Function& f : M)
    {
      StringRef n = f.getName();
      if (n.contains("__exchange_and_add") || n.contains("__atomic_add") || n.contains("_Sp_counted_base")) continue;
      std::vector<Instruction*> v;
      for (BasicBlock& b : f)
        for (Instruction& i : b)
          if (i.isAtomic() && !isa<FenceInst>(i)) v.push_back(&i);
      for (Instruction* i : v)
      {
        Value* p = isa<LoadInst>(i) ? cast<LoadInst>(i)->getPointerOperand() : isa<StoreInst>(i) ? cast<StoreInst>(i)->getPointerOperand() :
                   isa<AtomicRMWInst>(i) ? cast<AtomicRMWInst>(i)->getPointerOperand() : cast<AtomicCmpXchgInst>(i)->getPointerOperand();
        if (p->stripInBoundsOffsets()->getName().starts_with("_ZGV")) continue;
        if (!F) F = M.getOrInsertFunction("sx_atomic", Type::getVoidTy(C), PointerType::getUnqual(C), Type::getInt32Ty(C));
        CallInst* c = CallInst::Create(F, {p, ConstantInt::get(Type::getInt32Ty(C), isa<LoadInst>(i) ? 0 : 1)}, "", i);
        c->setDebugLoc(i->getDebugLoc());
        c->setDoesNotThrow();
      }
    }
    return PreservedAnalyses::none();
  }
};

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo()
{
  return {LLVM_PLUGIN_API_VERSION, "sxatomic", "1", [](PassBuilder& PB) {
            PB.registerPipelineStartEPCallback([](ModulePassManager& P, OptimizationLevel) { P.addPass(SxAtomic()); });
            PB.registerPipelineParsingCallback([](StringRef n, ModulePassManager& P, ArrayRef<PassBuilder::PipelineElement>) {
              if (n != "sx-atomic") return false;
              P.addPass(SxAtomic());
              return true;
            });
          }};
}
