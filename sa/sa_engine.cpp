// sa_engine: static obligation discharger over LLVM IR.
//
// Input : one linked LLVM bitcode module holding "probe" functions (entry points in the sense of an
//         analysis harness) plus the code of the library under analysis, both unoptimised.
// Output: JSON, one record per obligation (claims written in the probes, and obligations the engine
//         itself generates: memory accesses to declared buffers, undefined behaviour traps,
//         library precondition failures, aborts, uncaught exceptions), saying whether dataflow analysis
//         over the IR discharged it.
//
// Nothing is executed and no solver is called: the deciding steps are SSA dataflow analyses
// (sparse conditional constant propagation, value numbering, known bits, value ranges and dominating
// conditions from LLVM, plus the passes below: exception-edge lowering, bit provenance, buffer bounds,
// and a difference-bound (zone) fixpoint for loops).
#include "llvm/ADT/DenseMap.h"
#include "llvm/ADT/SmallPtrSet.h"
#include "llvm/ADT/StringExtras.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/CFG.h"
#include "llvm/Analysis/ConstantFolding.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/Utils/Local.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/ScalarEvolutionExpressions.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/Analysis/InstructionSimplify.h"
#include "llvm/Bitcode/BitcodeReader.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PatternMatch.h"
#include "llvm/IR/ReplaceConstant.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Target/TargetMachine.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/IPO/GlobalDCE.h"
#include "llvm/Transforms/IPO/Internalize.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/LoopPeel.h"
#include "llvm/Transforms/Utils/LoopSimplify.h"
#include "llvm/Transforms/Utils/LoopUtils.h"
#include <functional>
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/CallPromotionUtils.h"
#include "llvm/ADT/SetVector.h"
#include <deque>
#include <bitset>
#include <deque>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <vector>

using namespace llvm;

static cl::list<std::string> Inputs(cl::Positional, cl::OneOrMore, cl::desc("bitcode files"));
static cl::opt<std::string> Out("o", cl::desc("JSON output"), cl::init("-"));
static cl::opt<std::string> DumpDir("dump", cl::desc("dump final IR of the module to this file"), cl::init(""));
static cl::opt<int> Peels("sa-peels", cl::init(8));
static cl::opt<unsigned> PeelLimit("sa-peel-limit", cl::init(3000));
static cl::opt<bool> ByteSet("sa-byte-sets", cl::desc("tests of single bytes as sets"), cl::init(false));
static cl::opt<unsigned> Paths("sa-paths", cl::ZeroOrMore, cl::desc("rounds of path splitting"), cl::init(0)), PathBlocks("sa-path-blocks", cl::init(600));
static cl::opt<bool> PathLoops("sa-path-loops", cl::desc("also in probes with loops"), cl::init(false));
static cl::opt<bool> Bits("sa-bits", cl::desc("value numbering of single bits"), cl::init(true));
static cl::opt<unsigned> Shards("sa-shards", cl::init(1)), Shard("sa-shard", cl::desc("every n-th probe only"), cl::init(0));
static cl::opt<std::string> Only("only", cl::desc("only this probe"), cl::init(""));

static bool isProbe(const Function &F) { return F.getName().starts_with("probe_") || F.getName().starts_with("sa_lock_"); }
static cl::opt<bool> HeapLocal("sa-heap-local", cl::init(false));
static cl::opt<bool> Streams("sa-streams", cl::desc("the streams are a model of the probe: look into them"), cl::init(false));
static cl::opt<unsigned> RecLevels("sa-recursion", cl::ZeroOrMore, cl::desc("inline recursive calls this deep; that they go no deeper is an obligation"), cl::init(0));
static cl::opt<bool> DynEHMode("sa-dyn-eh", cl::desc("exceptions of which the type is known only from where they were thrown"), cl::init(false));
static cl::opt<std::string> Mode("mode", cl::init(""));

// ------------------------------------------------------------------------------------------------
// Type hierarchy for exception matching (RTTI of the Itanium ABI; the standard library's classes are
// declared but not defined in the module, so their hierarchy is a table).
static const std::map<std::string, std::string> StdBases = {
    {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
    {"_ZTISt12length_error", "_ZTISt11logic_error"},     {"_ZTISt12out_of_range", "_ZTISt11logic_error"},
    {"_ZTISt11logic_error", "_ZTISt9exception"},         {"_ZTISt13runtime_error", "_ZTISt9exception"},
    {"_ZTISt11range_error", "_ZTISt13runtime_error"},    {"_ZTISt14overflow_error", "_ZTISt13runtime_error"},
    {"_ZTISt15underflow_error", "_ZTISt13runtime_error"},{"_ZTISt8bad_cast", "_ZTISt9exception"},
    {"_ZTISt9bad_alloc", "_ZTISt9exception"},            {"_ZTISt10bad_typeid", "_ZTISt9exception"},
    {"_ZTISt12bad_weak_ptr", "_ZTISt9exception"},        {"_ZTISt17bad_function_call", "_ZTISt9exception"},
    {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"},{"_ZTISt12system_error", "_ZTISt13runtime_error"},
};

static bool derivesFrom(const GlobalVariable *T, const std::string &base, std::string tname = "", int depth = 0) {
  if (depth > 16) return false;
  if (T) tname = T->getName().str();
  if (tname == base) return true;
  auto it = StdBases.find(tname);
  if (it != StdBases.end() && derivesFrom(nullptr, base, it->second, depth + 1)) return true;
  if (T && T->hasInitializer()) {
    if (auto *CS = dyn_cast<ConstantStruct>(T->getInitializer()))
      for (unsigned i = 2; i < CS->getNumOperands(); ++i)
        if (auto *G = dyn_cast<GlobalVariable>(CS->getOperand(i)->stripPointerCasts()))
          if (derivesFrom(G, base, "", depth + 1)) return true;
  }
  return false;
}

// functions of the standard library that always throw, with the type they throw
static std::string alwaysThrows(StringRef n) {
  if (n.starts_with("_ZSt20__throw_out_of_range") || n.starts_with("_ZSt24__throw_out_of_range_fmt")) return "_ZTISt12out_of_range";
  if (n.starts_with("_ZSt20__throw_length_error")) return "_ZTISt12length_error";
  if (n.starts_with("_ZSt24__throw_invalid_argument")) return "_ZTISt16invalid_argument";
  if (n.starts_with("_ZSt19__throw_logic_error")) return "_ZTISt11logic_error";
  if (n.starts_with("_ZSt21__throw_runtime_error")) return "_ZTISt13runtime_error";
  if (n.starts_with("_ZSt17__throw_bad_alloc")) return "_ZTISt9bad_alloc";
  if (n.starts_with("_ZSt28__throw_bad_array_new_length")) return "_ZTISt20bad_array_new_length";
  if (n.starts_with("_ZSt16__throw_bad_cast")) return "_ZTISt8bad_cast";
  if (n == "__cxa_bad_cast") return "_ZTISt8bad_cast";
  if (n == "__cxa_bad_typeid") return "_ZTISt10bad_typeid";
  if (n.starts_with("_ZSt25__throw_bad_function_call")) return "_ZTISt17bad_function_call";
  if (n.starts_with("_ZSt20__throw_bad_weak_ptr")) return "_ZTISt12bad_weak_ptr";
  if (n.starts_with("_ZSt19__throw_range_error")) return "_ZTISt11range_error";
  if (n.starts_with("_ZSt22__throw_overflow_error")) return "_ZTISt14overflow_error";
  if (n.starts_with("_ZSt23__throw_underflow_error")) return "_ZTISt15underflow_error";
  if (n.starts_with("_ZSt20__throw_domain_error")) return "_ZTISt12domain_error";
  if (n.starts_with("_ZSt18__throw_bad_typeid")) return "_ZTISt10bad_typeid";
  if (n.starts_with("_ZSt20__throw_system_error")) return "_ZTISt12system_error";
  return "";
}

static StringRef calleeName(const CallBase &CB) {
  auto *F = dyn_cast<Function>(CB.getCalledOperand()->stripPointerCasts());
  return F ? F->getName() : StringRef();
}

// a call which ends the program, or from which nothing is known to come back
static bool endsProgram(const CallBase &CB) {
  StringRef n = calleeName(CB);
  if (n == "abort" || n == "_ZSt9terminatev" || n == "__clang_call_terminate" || n == "__cxa_pure_virtual" || n == "__assert_fail" || n.contains("glibcxx_assert_fail")) return true;
  auto *F = dyn_cast<Function>(CB.getCalledOperand()->stripPointerCasts());
  return F && F->isDeclaration() && !F->isIntrinsic() && CB.doesNotReturn() && !n.starts_with("sa_");
}

static bool inStdHeader(const DebugLoc &DL) {
  return DL && DL->getFilename().contains("/include/c++/");
}
static std::string demangleLoc(const DebugLoc &DL) {
  if (!DL) return "?";
  std::string s;
  const DILocation *L = DL.get();
  while (L) {
    std::string file = L->getFilename().str();
    s += file + ":" + std::to_string(L->getLine());
    if (auto *SP = L->getScope()->getSubprogram()) s += " (" + SP->getName().str() + ")";
    L = L->getInlinedAt();
    if (L) s += " <- ";
  }
  return s;
}

// ------------------------------------------------------------------------------------------------
// Pass: lower exceptional control flow to ordinary control flow.
namespace {
struct EHLower {
  Module &M;
  std::map<std::string, int> typeIds;
  int idFor(const Value *V) {
    std::string n = "null";
    if (auto *G = dyn_cast<GlobalValue>(V->stripPointerCasts())) n = G->getName().str();
    auto it = typeIds.find(n);
    if (it == typeIds.end()) it = typeIds.emplace(n, (int)typeIds.size() + 1).first;
    return it->second;
  }
  explicit EHLower(Module &M) : M(M) {}

  // returns true with the selector in `sel` when the landing pad receives exceptions of this type
  bool match(LandingPadInst *LP, const GlobalVariable *T, const std::string &tname, int &sel) {
    for (unsigned i = 0; i < LP->getNumClauses(); ++i) {
      if (!LP->isCatch(i)) continue;
      Constant *C = LP->getClause(i);
      if (isa<ConstantPointerNull>(C)) { sel = idFor(C); return true; }
      auto *G = cast<GlobalValue>(C->stripPointerCasts());
      if (derivesFrom(T, G->getName().str(), tname)) { sel = idFor(C); return true; }
    }
    if (LP->isCleanup()) { sel = 0; return true; }
    return false;
  }

  void run(Function &F) {
    LLVMContext &Ctx = F.getContext();
    FunctionCallee Uncaught = M.getOrInsertFunction("sa_uncaught", Type::getVoidTy(Ctx), PointerType::get(Ctx, 0));
    FunctionCallee Nondet = M.getOrInsertFunction("sa_nondet_bool", Type::getInt1Ty(Ctx));
    cast<Function>(Nondet.getCallee())->addFnAttr(Attribute::NoUnwind);

    struct Edge { BasicBlock *pred; Value *exc; int sel; };
    std::map<BasicBlock *, std::vector<Edge>> edges; // landing block -> incoming edges after lowering
    std::vector<InvokeInst *> invokes;
    std::vector<CallInst *> throwsNoHandler;
    for (auto &BB : F) {
      if (auto *II = dyn_cast<InvokeInst>(BB.getTerminator())) invokes.push_back(II);
      for (auto &I : BB)
        if (auto *CI = dyn_cast<CallInst>(&I)) {
          StringRef n = calleeName(*CI);
          if (n == "__cxa_throw" || !alwaysThrows(n).empty() || n == "__cxa_rethrow") throwsNoHandler.push_back(CI);
        }
    }
    // landing blocks that carry their own phis/instructions before: all landingpads are first non-phi
    for (auto *II : invokes) {
      BasicBlock *BB = II->getParent();
      BasicBlock *Norm = II->getNormalDest(), *Unw = II->getUnwindDest();
      LandingPadInst *LP = Unw->getLandingPadInst();
      StringRef n = calleeName(*II);
      std::string thrown = alwaysThrows(n);
      const GlobalVariable *TI = nullptr;
      bool definite = !thrown.empty();
      bool maybe = false;
      Value *Exc = ConstantPointerNull::get(PointerType::get(Ctx, 0));
      if (n == "__cxa_throw") {
        definite = true;
        TI = dyn_cast<GlobalVariable>(II->getArgOperand(1)->stripPointerCasts());
        thrown = TI ? TI->getName().str() : "?";
        Exc = II->getArgOperand(0);
      } else if (n == "__cxa_rethrow") {
        definite = true;
        thrown = "_ZTI_rethrown_unknown";
      } else if (n.starts_with("sa_user_")) {
        maybe = true;
        thrown = "_ZTI11sa_user_exc";
        TI = M.getGlobalVariable("_ZTI11sa_user_exc", true);
      } else if (II->isIndirectCall()) {
        maybe = true;
        thrown = "_ZTI11sa_user_exc";
      }
      IRBuilder<> B(II);
      if (definite) {
        int sel = 0;
        bool ok = match(LP, TI, thrown, sel);
        Norm->removePredecessor(BB);
        if (ok) {
          edges[Unw].push_back({BB, Exc, sel});
          auto *Br = BranchInst::Create(Unw, BB);
          Br->setDebugLoc(II->getDebugLoc());
        } else {
          Unw->removePredecessor(BB);
          auto *c = B.CreateCall(Uncaught, {TI ? (Value *)const_cast<GlobalVariable *>(TI) : Exc});
          c->setDebugLoc(II->getDebugLoc());
          new UnreachableInst(Ctx, BB);
        }
        II->eraseFromParent();
      } else {
        std::vector<Value *> args(II->arg_begin(), II->arg_end());
        SmallVector<OperandBundleDef, 1> bundles;
        II->getOperandBundlesAsDefs(bundles);
        CallInst *C = CallInst::Create(II->getFunctionType(), II->getCalledOperand(), args, bundles, "", II);
        C->setCallingConv(II->getCallingConv());
        C->setAttributes(II->getAttributes());
        C->setDebugLoc(II->getDebugLoc());
        C->takeName(II);
        II->replaceAllUsesWith(C);
        int sel = 0;
        bool ok = maybe && match(LP, TI, thrown, sel);
        if (ok) {
          // the call may or may not complete normally
          Value *nd = B.CreateCall(Nondet);
          BasicBlock *Edge = SplitBlock(BB, II->getIterator());
          // Edge holds the invoke; rewrite BB's terminator
          BB->getTerminator()->eraseFromParent();
          BasicBlock *ThrowBB = BasicBlock::Create(Ctx, "user.throw", &F);
          BranchInst::Create(Edge, ThrowBB, nd, BB)->setDebugLoc(II->getDebugLoc());
          BranchInst::Create(Unw, ThrowBB);
          // phis in Unw: replace Edge by ThrowBB (SplitBlock updated successors' phis to Edge)
          for (auto &P : Unw->phis()) P.replaceIncomingBlockWith(Edge, ThrowBB);
          edges[Unw].push_back({ThrowBB, Exc, sel});
          BranchInst::Create(Norm, Edge)->setDebugLoc(II->getDebugLoc());
          II->eraseFromParent();
        } else {
          Unw->removePredecessor(BB);
          BranchInst::Create(Norm, BB)->setDebugLoc(II->getDebugLoc());
          II->eraseFromParent();
          if (maybe) C->addFnAttr(Attribute::get(Ctx, "sa-escapes"));
        }
      }
    }
    // rewrite landing pads
    for (auto &BB : F) {
      LandingPadInst *LP = BB.getLandingPadInst();
      if (!LP) continue;
      auto it = edges.find(&BB);
      if (it == edges.end() || pred_empty(&BB)) continue;
      PHINode *P0 = PHINode::Create(PointerType::get(Ctx, 0), it->second.size(), "exc", &BB.front());
      PHINode *P1 = PHINode::Create(Type::getInt32Ty(Ctx), it->second.size(), "sel", &BB.front());
      for (auto &e : it->second) {
        P0->addIncoming(e.exc, e.pred);
        P1->addIncoming(ConstantInt::get(Type::getInt32Ty(Ctx), e.sel), e.pred);
      }
      IRBuilder<> B(LP);
      Value *agg = PoisonValue::get(LP->getType());
      agg = B.CreateInsertValue(agg, P0, 0);
      agg = B.CreateInsertValue(agg, P1, 1);
      LP->replaceAllUsesWith(agg);
      LP->eraseFromParent();
    }
    for (auto *CI : throwsNoHandler) {
      IRBuilder<> B(CI);
      Value *ti = ConstantPointerNull::get(PointerType::get(Ctx, 0));
      if (calleeName(*CI) == "__cxa_throw") ti = CI->getArgOperand(1);
      auto *c = B.CreateCall(Uncaught, {ti});
      c->setDebugLoc(CI->getDebugLoc());
      changeToUnreachable(CI);
    }
    removeUnreachableBlocks(F);
    for (auto I = inst_begin(F), E = inst_end(F); I != E;) {
      Instruction *In = &*I++;
      if (auto *R = dyn_cast<ResumeInst>(In)) {
        IRBuilder<> B(R);
        auto *c = B.CreateCall(Uncaught, {ConstantPointerNull::get(PointerType::get(Ctx, 0))});
        c->setDebugLoc(R->getDebugLoc());
        new UnreachableInst(Ctx, R);
        R->eraseFromParent();
      } else if (auto *CB = dyn_cast<CallInst>(In)) {
        StringRef n = calleeName(*CB);
        if (auto *II = dyn_cast<IntrinsicInst>(CB)) {
          if (II->getIntrinsicID() == Intrinsic::eh_typeid_for) {
            II->replaceAllUsesWith(ConstantInt::get(II->getType(), idFor(II->getArgOperand(0))));
            II->eraseFromParent();
          }
        } else if (n == "__cxa_begin_catch") {
          CB->replaceAllUsesWith(CB->getArgOperand(0));
          CB->eraseFromParent();
        } else if (n == "__cxa_end_catch" || n == "__cxa_free_exception") {
          CB->eraseFromParent();
        }
      }
    }
    // joins of (exception, selector) pairs become joins of the components
    std::vector<PHINode *> pairs;
    for (auto &BB : F) for (auto &P : BB.phis()) if (auto *ST = dyn_cast<StructType>(P.getType()); ST && ST->getNumElements() == 2) pairs.push_back(&P);
    std::map<PHINode *, std::array<PHINode *, 2>> parts;
    for (auto *P : pairs) for (unsigned i = 0; i < 2; ++i) parts[P][i] = PHINode::Create(P->getType()->getStructElementType(i), P->getNumIncomingValues(), "part", P);
    for (auto *P : pairs)
      for (unsigned i = 0; i < 2; ++i)
        for (unsigned k = 0; k < P->getNumIncomingValues(); ++k) {
          Value *V = P->getIncomingValue(k);
          auto *Q = dyn_cast<PHINode>(V);
          if (Q && parts.count(Q)) parts[P][i]->addIncoming(parts[Q][i], P->getIncomingBlock(k));
          else {
            // several edges from one block must carry the same value
            Value *old = nullptr;
            for (unsigned m = 0; m < k; ++m) if (P->getIncomingBlock(m) == P->getIncomingBlock(k)) old = parts[P][i]->getIncomingValue(m);
            parts[P][i]->addIncoming(old ? old : ExtractValueInst::Create(V, {i}, "", P->getIncomingBlock(k)->getTerminator()), P->getIncomingBlock(k));
          }
        }
    for (auto *P : pairs) {
      IRBuilder<> B(&*P->getParent()->getFirstInsertionPt());
      Value *agg = B.CreateInsertValue(PoisonValue::get(P->getType()), parts[P][0], 0);
      agg = B.CreateInsertValue(agg, parts[P][1], 1);
      P->replaceAllUsesWith(agg);
      P->eraseFromParent();
    }
    bool anyLP = false;
    for (auto &BB : F) anyLP |= BB.isLandingPad();
    if (!anyLP && F.hasPersonalityFn()) F.setPersonalityFn(nullptr);
  }
};
} // namespace

// ------------------------------------------------------------------------------------------------
// Attributes for functions declared outside the module. Documented assumptions: they do not unwind
// (allocation failure is out of scope; throwing ones are in the tables above), and the marker functions
// of the harness touch no memory of the program.
static bool isStreamFunction(StringRef n) {
  for (const char *p : {"basic_stringstream", "basic_ostringstream", "basic_istringstream", "basic_stringbuf", "basic_iostream"})
    if (n.contains(p)) return true;
  for (const char *p : {"_ZNSo", "_ZNSi", "_ZNSt8ios_base", "_ZNSt9basic_ios", "_ZNKSt9basic_ios", "_ZNSt15basic_streambuf", "_ZNKSt15basic_streambuf", "_ZStls", "_ZNSolsE", "_ZNSt13basic_ostream", "_ZSt16__ostream_insert"})
    if (n.starts_with(p)) return true;
  return false;
}
static void annotateDeclarations(Module &M) {
  for (auto &F : M) {
    if (!F.isDeclaration() || F.isIntrinsic()) continue;
    StringRef n = F.getName();
    if (n.starts_with("sa_user_")) continue;
    if (n == "__cxa_throw" || n == "__cxa_rethrow" || n == "sa_rethrow" || n.starts_with("_ZSt17rethrow_exception") || !alwaysThrows(n).empty()) {
      F.removeFnAttr(Attribute::NoUnwind);
      F.setMemoryEffects(MemoryEffects::inaccessibleMemOnly());
      continue;
    }
    F.addFnAttr(Attribute::NoUnwind);
    if (n == "sa_buffer" || n == "sa_cstring" || n == "_Znwm" || n == "_Znam" || n == "__cxa_allocate_exception") {
      F.addRetAttr(Attribute::NonNull);
      F.addRetAttr(Attribute::NoAlias);
    }
    if (isStreamFunction(n)) {
      F.setMemoryEffects(MemoryEffects::inaccessibleOrArgMemOnly());
      F.addFnAttr(Attribute::WillReturn);
      for (unsigned i = 0; i < F.arg_size(); ++i)
        if (F.getArg(i)->getType()->isPointerTy()) F.addParamAttr(i, Attribute::NoCapture);
      continue;
    }
    if (n == "__dynamic_cast") {
      // the dynamic type of an object does not change while a probe looks at it
      F.setMemoryEffects(MemoryEffects::none());
      F.addFnAttr(Attribute::WillReturn);
    } else if (n == "sa_claim" || n == "sa_reach" || n.starts_with("sa_any_")) {
      F.setMemoryEffects(MemoryEffects::inaccessibleMemOnly());
      F.addFnAttr(Attribute::WillReturn);
    } else if (n == "__cxa_begin_catch" || n == "__cxa_end_catch" || n == "__cxa_free_exception") {
      F.setMemoryEffects(MemoryEffects::inaccessibleMemOnly()); // removed when exceptions are lowered
    } else if (n == "sa_buffer" || n == "sa_cstring" || n == "sa_stop" || n == "sa_uncaught" || n == "__cxa_allocate_exception" ||
               n == "abort" || n == "_ZSt9terminatev") {
      F.setMemoryEffects(MemoryEffects::inaccessibleMemOnly());
      F.addFnAttr(n == "sa_buffer" || n == "sa_cstring" || n == "__cxa_allocate_exception" ? Attribute::WillReturn : Attribute::NoReturn);
    } else if (n.starts_with("_ZNSt16invalid_argument") || n.starts_with("_ZNSt12out_of_range") ||
               n.starts_with("_ZNSt11logic_error") || n.starts_with("_ZNSt13runtime_error") ||
               n.starts_with("_ZNSt12length_error")) {
      F.setMemoryEffects(MemoryEffects::inaccessibleOrArgMemOnly());
      F.addFnAttr(Attribute::WillReturn);
    }
  }
}

// ------------------------------------------------------------------------------------------------
// Pass: bit provenance. Each integer SSA value gets, per bit, a constant or a (value, bit) origin;
// equality of provenance vectors decides comparisons that algebraic simplification leaves open.
namespace {
struct Bit {
  // kind 0: const 0, 1: const 1, 2: bit `idx` of `v` (v == null: formula number idx), 3: complement of that, 4: unknown
  int kind = 4;
  const Value *v = nullptr;
  unsigned idx = 0;
  bool operator==(const Bit &o) const { return kind == o.kind && (kind < 2 || (v == o.v && idx == o.idx)); }
  bool isC() const { return kind < 2; }
};
using BV = std::vector<Bit>;

struct BitProv {
  Function &F;
  DominatorTree DT;
  AssumptionCache AC;
  const DataLayout &DL;
  DenseMap<const Value *, BV> memo;
  SmallPtrSet<const Value *, 32> busy;
  LoopInfo LI;
  // facts that hold in the block of the comparison being decided, about values with a single dynamic instance
  const BasicBlock *ctx = nullptr;
  DenseMap<const Value *, KnownBits> facts;
  unsigned folded = 0;
  // hash-consed two-operand formulas over bits (value numbering at the level of bits)
  struct Node { int op; Bit a, b; }; // op 0: and, 1: xor; operands ordered; xor operands are not complements
  std::vector<Node> nodes;
  using BK = std::tuple<int, const Value *, unsigned>;
  static BK key(const Bit &b) { return BK(b.kind, b.v, b.idx); }
  std::map<std::tuple<int, BK, BK>, unsigned> nodeIds;
  static Bit neg(Bit b) { if (b.kind < 2) b.kind = 1 - b.kind; else if (b.kind < 4) b.kind = 5 - b.kind; return b; }
  static bool opposite(const Bit &x, const Bit &y) { return x.kind + y.kind == 5 && x.kind >= 2 && x.kind <= 3 && x.v == y.v && x.idx == y.idx; }
  Bit mk(int op, Bit a, Bit b) {
    if (a.kind == 4 || b.kind == 4 || nodes.size() > 200000) return Bit{};
    if (key(b) < key(a)) std::swap(a, b);
    auto k = std::make_tuple(op, key(a), key(b));
    auto it = nodeIds.find(k);
    if (it == nodeIds.end()) { it = nodeIds.emplace(k, nodes.size()).first; nodes.push_back({op, a, b}); }
    return Bit{2, nullptr, it->second};
  }
  // is y among the conjuncts of x
  bool conjunct(const Bit &x, const Bit &y, int depth = 0) {
    if (x == y) return true;
    if (x.kind != 2 || x.v || depth > 40) return false;
    Node n = nodes[x.idx];
    return n.op == 0 && (conjunct(n.a, y, depth + 1) || conjunct(n.b, y, depth + 1));
  }
  Bit andB(Bit a, Bit b) {
    if (a.kind == 0 || b.kind == 0) return Bit{0, nullptr, 0};
    if (a.kind == 1) return b;
    if (b.kind == 1) return a;
    if (a.kind == 4 || b.kind == 4) return Bit{};
    if (a == b) return a;
    if (opposite(a, b)) return Bit{0, nullptr, 0};
    if (conjunct(a, b)) return a;
    if (conjunct(b, a)) return b;
    if (conjunct(a, neg(b)) || conjunct(b, neg(a))) return Bit{0, nullptr, 0};
    for (int s = 0; s < 2; ++s, std::swap(a, b))
      if (a.kind == 3 && !a.v) { // !(x & y) & b
        Node n = nodes[a.idx];
        if (n.op == 0) {
          if (conjunct(b, neg(n.a)) || conjunct(b, neg(n.b))) return b;
          if (conjunct(b, n.a)) return andB(b, neg(n.b));
          if (conjunct(b, n.b)) return andB(b, neg(n.a));
        }
      }
    // conjunctions are kept as sorted chains, so that the order of the conjuncts does not matter
    std::map<BK, Bit> cs;
    unsigned budget = 64;
    collect(a, cs, budget);
    collect(b, cs, budget);
    if (!budget) return mk(0, a, b);
    Bit r{1, nullptr, 0};
    for (auto &c : cs) {
      if (cs.count(key(neg(c.second)))) return Bit{0, nullptr, 0};
      r = r.kind == 1 ? c.second : mk0(r, c.second);
    }
    return r;
  }
  Bit mk0(Bit a, Bit b) {
    if (a.kind == 4 || b.kind == 4 || nodes.size() > 200000) return Bit{};
    auto k = std::make_tuple(0, key(a), key(b));
    auto it = nodeIds.find(k);
    if (it == nodeIds.end()) { it = nodeIds.emplace(k, nodes.size()).first; nodes.push_back({0, a, b}); }
    return Bit{2, nullptr, it->second};
  }
  void collect(const Bit &x, std::map<BK, Bit> &cs, unsigned &budget) {
    if (!budget) return;
    if (x.kind == 2 && !x.v && nodes[x.idx].op == 0) {
      Node n = nodes[x.idx];
      collect(n.a, cs, budget);
      collect(n.b, cs, budget);
      return;
    }
    --budget;
    cs.emplace(key(x), x);
  }
  Bit orB(const Bit &a, const Bit &b) { return neg(andB(neg(a), neg(b))); }
  Bit xorB(Bit a, Bit b) {
    if (a.kind == 0) return b;
    if (b.kind == 0) return a;
    if (a.kind == 1) return neg(b);
    if (b.kind == 1) return neg(a);
    if (a.kind == 4 || b.kind == 4) return Bit{};
    bool flip = (a.kind == 3) != (b.kind == 3);
    a.kind = b.kind = 2;
    if (a == b) return Bit{flip ? 1 : 0, nullptr, 0};
    // cancel inside of xor formulas
    for (int s = 0; s < 2; ++s, std::swap(a, b))
      if (!a.v) {
        Node n = nodes[a.idx];
        if (n.op == 1 && n.a == b) return flip ? neg(n.b) : n.b;
        if (n.op == 1 && n.b == b) return flip ? neg(n.a) : n.a;
      }
    Bit r = mk(1, a, b);
    return flip ? neg(r) : r;
  }
  Bit muxB(const Bit &c, const Bit &t, const Bit &f) {
    if (t == f && t.kind != 4) return t;
    if (c.kind == 1) return t;
    if (c.kind == 0) return f;
    if (t.kind == 4 || f.kind == 4 || c.kind == 4) return Bit{};
    if (opposite(t, f)) return neg(xorB(c, t));
    if (t.kind == 1) return orB(c, f);
    if (f.kind == 0) return andB(c, t);
    if (t.kind == 0) return andB(neg(c), f);
    if (f.kind == 1) return orB(neg(c), t);
    return orB(andB(c, t), andB(neg(c), f));
  }
  // every value a bit refers to is available before I
  bool availableAt(const Bit &b, const Instruction *I, int depth = 0) {
    if (b.kind < 2) return true;
    if (b.kind == 4) return false;
    if (b.v) { auto *S = dyn_cast<Instruction>(b.v); return !S || S == I || DT.dominates(S, I); }
    if (depth > 20) return false;
    Node n = nodes[b.idx];
    return availableAt(n.a, I, depth + 1) && availableAt(n.b, I, depth + 1);
  }
  explicit BitProv(Function &F) : F(F), DT(F), AC(F), DL(F.getParent()->getDataLayout()), LI(DT) {}

  void addFact(const Value *V, const KnownBits &K) {
    if (auto *I = dyn_cast<Instruction>(V)) { if (LI.getLoopFor(I->getParent())) return; }
    else if (!isa<Argument>(V)) return;
    if (K.hasConflict() || K.isUnknown()) return;
    auto it = facts.find(V);
    if (it == facts.end()) facts.insert({V, K});
    else { KnownBits N = it->second.unionWith(K); if (!N.hasConflict()) it->second = N; }
  }
  void learn(Value *C, bool truth, int depth = 0) {
    using namespace PatternMatch;
    if (depth > 6) return;
    Value *a, *b;
    if (match(C, m_Not(m_Value(a)))) return learn(a, !truth, depth + 1);
    if (truth && match(C, m_LogicalAnd(m_Value(a), m_Value(b)))) { learn(a, true, depth + 1); learn(b, true, depth + 1); return; }
    if (!truth && match(C, m_LogicalOr(m_Value(a), m_Value(b)))) { learn(a, false, depth + 1); learn(b, false, depth + 1); return; }
    ICmpInst::Predicate p;
    const APInt *k, *m;
    Value *x;
    if (!match(C, m_ICmp(p, m_Value(x), m_APInt(k)))) return;
    if (!truth) p = ICmpInst::getInversePredicate(p);
    ConstantRange R = ConstantRange::makeExactICmpRegion(p, *k);
    addFact(x, R.toKnownBits());
    Value *y;
    if (match(x, m_Add(m_Value(y), m_APInt(m)))) addFact(y, R.sub(ConstantRange(*m)).toKnownBits());
    if (p == ICmpInst::ICMP_EQ && match(x, m_And(m_Value(y), m_APInt(m)))) {
      KnownBits K(k->getBitWidth());
      K.One = *k & *m;
      K.Zero = ~*k & *m;
      addFact(y, K);
    }
    if (match(x, m_ZExt(m_Value(y)))) {
      KnownBits K = R.toKnownBits().trunc(y->getType()->getIntegerBitWidth());
      addFact(y, K);
    }
  }
  // formulas that hold in the block under consideration (conditions of dominating branches), split into conjuncts
  std::map<BK, Bit> truths;
  std::map<BK, Bit> simpMemo;
  void addTruth(const Bit &b) {
    if (b.isC() || b.kind == 4) return;
    unsigned budget = 64;
    std::map<BK, Bit> cs;
    collect(b, cs, budget);
    if (budget) for (auto &c : cs) truths.insert(c);
  }
  // value of a formula given the truths
  Bit simp(const Bit &b, int depth = 0) {
    if (b.isC() || b.kind == 4 || truths.empty()) return b;
    if (truths.count(key(b))) return Bit{1, nullptr, 0};
    if (truths.count(key(neg(b)))) return Bit{0, nullptr, 0};
    if (b.v || depth > 60) return b;
    Bit pos = b;
    pos.kind = 2;
    auto it = simpMemo.find(key(pos));
    Bit r;
    if (it != simpMemo.end()) r = it->second;
    else {
      Node n = nodes[b.idx];
      Bit x = simp(n.a, depth + 1), y = simp(n.b, depth + 1);
      r = n.op == 0 ? andB(x, y) : xorB(x, y);
      if (r.kind == 4) r = pos;
      if (truths.count(key(r))) r = Bit{1, nullptr, 0};
      else if (truths.count(key(neg(r)))) r = Bit{0, nullptr, 0};
      else if (r.kind == 2 && !r.v && nodes[r.idx].op == 0) {
        // a conjunction that contains all the conjuncts of one known to be false
        std::map<BK, Bit> cs;
        unsigned budget = 64;
        collect(r, cs, budget);
        if (budget)
          for (auto &t : truths) {
            if (t.second.kind != 3 || t.second.v || nodes[t.second.idx].op != 0) continue;
            std::map<BK, Bit> ts;
            unsigned tb = 64;
            Bit p = t.second;
            p.kind = 2;
            collect(p, ts, tb);
            bool sub = tb > 0;
            for (auto &q : ts) if (!cs.count(q.first)) { sub = false; break; }
            if (sub) { r = Bit{0, nullptr, 0}; break; }
          }
      }
      simpMemo[key(pos)] = r;
    }
    return b.kind == 3 ? neg(r) : r;
  }
  void setContext(const BasicBlock *BB) {
    if (BB == ctx) return;
    ctx = BB;
    memo.clear();
    facts.clear();
    truths.clear();
    simpMemo.clear();
    std::vector<std::pair<Value *, bool>> conds;
    for (auto *N = DT.getNode(BB); N && N->getIDom(); N = N->getIDom()) {
      BasicBlock *D = N->getIDom()->getBlock();
      auto *Br = dyn_cast<BranchInst>(D->getTerminator());
      if (!Br || !Br->isConditional() || Br->getSuccessor(0) == Br->getSuccessor(1)) continue;
      for (int s = 0; s < 2; ++s)
        if (DT.dominates(BasicBlockEdge(D, Br->getSuccessor(s)), BB)) {
          learn(Br->getCondition(), s == 0);
          conds.push_back({Br->getCondition(), s == 0});
        }
    }
    for (auto &c : conds) {
      Bit b = get(c.first)[0];
      addTruth(c.second ? b : neg(b));
    }
  }

  static BV self(const Value *V, unsigned w) {
    BV r(w);
    for (unsigned i = 0; i < w; ++i) r[i] = Bit{2, V, i};
    return r;
  }
  BV get(const Value *V) {
    unsigned w = V->getType()->getIntegerBitWidth();
    if (auto *C = dyn_cast<ConstantInt>(V)) {
      BV r(w);
      for (unsigned i = 0; i < w; ++i) r[i].kind = C->getValue()[i] ? 1 : 0;
      return r;
    }
    auto it = memo.find(V);
    if (it != memo.end()) return it->second;
    if (!busy.insert(V).second) return self(V, w);
    BV r = compute(V, w);
    busy.erase(V);
    // refine unknown / self bits with LLVM's known bits
    KnownBits KB = computeKnownBits(V, DL, 0, &AC, dyn_cast<Instruction>(V), &DT);
    auto f = facts.find(V);
    if (f != facts.end()) { KnownBits N = KB.unionWith(f->second); if (!N.hasConflict()) KB = N; }
    for (unsigned i = 0; i < w; ++i) {
      if (KB.Zero[i]) r[i] = Bit{0, nullptr, 0};
      else if (KB.One[i]) r[i] = Bit{1, nullptr, 0};
      else if (r[i].kind == 4) r[i] = Bit{2, V, i};
    }
    memo[V] = r;
    return r;
  }
  // Values which are a function of one narrow value (at most 8 unknown bits): constant propagation per case,
  // through loads from constant tables.
  static const GlobalVariable *tableOf(const Value *P, const Value *&Idx, APInt &scale, APInt &off, const DataLayout &DL) {
    scale = APInt(64, 0);
    off = APInt(64, 0);
    Idx = nullptr;
    while (auto *G = dyn_cast<GEPOperator>(P)) {
      MapVector<Value *, APInt> vars;
      if (!G->collectOffset(DL, 64, vars, off)) return nullptr;
      for (auto &v : vars) {
        if (Idx && Idx != v.first) return nullptr;
        Idx = v.first;
        scale += v.second;
      }
      P = G->getPointerOperand();
    }
    auto *GV = dyn_cast<GlobalVariable>(P);
    return GV && GV->isConstant() && GV->hasDefinitiveInitializer() ? GV : nullptr;
  }
  bool support(const Value *V, std::set<const Value *> &leaves, unsigned &budget) {
    if (isa<ConstantInt>(V)) return true;
    if (!V->getType()->isIntegerTy()) return false;
    if (!budget) return false;
    --budget;
    bool ok = false;
    auto before = leaves;
    if (auto *I = dyn_cast<Instruction>(V)) {
      if (isa<BinaryOperator>(I) || isa<SelectInst>(I) || isa<ICmpInst>(I) || isa<ZExtInst>(I) || isa<SExtInst>(I) || isa<TruncInst>(I)) {
        ok = true;
        for (auto &O : I->operands()) ok = ok && support(O, leaves, budget);
      } else if (auto *L = dyn_cast<LoadInst>(I); L && !L->isVolatile()) {
        const Value *idx;
        APInt sc, of;
        if (tableOf(L->getPointerOperand(), idx, sc, of, DL) && idx) ok = support(idx, leaves, budget);
      }
    }
    if (ok && leaves.size() <= 1) return true;
    leaves = before;
    unsigned w = V->getType()->getIntegerBitWidth();
    if (w > 64) return false;
    KnownBits K = known(V);
    if (w - K.Zero.popcount() - K.One.popcount() > 8) return false;
    leaves.insert(V);
    return leaves.size() <= 1;
  }
  KnownBits known(const Value *V) {
    KnownBits K = computeKnownBits(V, DL, 0, &AC, dyn_cast<Instruction>(V), &DT);
    auto f = facts.find(V);
    if (f != facts.end()) { KnownBits N = K.unionWith(f->second); if (!N.hasConflict()) K = N; }
    return K;
  }
  std::optional<APInt> evalAt(const Value *V, std::map<const Value *, std::optional<APInt>> &env) {
    if (auto *C = dyn_cast<ConstantInt>(V)) return C->getValue();
    auto it = env.find(V);
    if (it != env.end()) return it->second;
    auto *I = dyn_cast<Instruction>(V);
    std::optional<APInt> r;
    if (!I) return r;
    if (auto *L = dyn_cast<LoadInst>(I)) {
      const Value *idx;
      APInt sc, of;
      auto *G = tableOf(L->getPointerOperand(), idx, sc, of, DL);
      if (G && idx) {
        auto k = evalAt(idx, env);
        if (k) {
          APInt o = k->sextOrTrunc(64) * sc + of;
          if (auto *C = dyn_cast_or_null<ConstantInt>(ConstantFoldLoadFromConst(const_cast<Constant *>(G->getInitializer()), L->getType(), o, DL))) r = C->getValue();
        }
      }
    } else {
      SmallVector<Constant *, 4> ops;
      bool ok = true;
      for (auto &O : I->operands()) {
        auto k = evalAt(O, env);
        if (!k) { ok = false; break; }
        ops.push_back(ConstantInt::get(I->getContext(), *k));
      }
      Constant *C = nullptr;
      if (ok) {
        if (auto *IC = dyn_cast<ICmpInst>(I)) C = ConstantFoldCompareInstOperands(IC->getPredicate(), ops[0], ops[1], DL);
        else C = ConstantFoldInstOperands(const_cast<Instruction *>(I), ops, DL);
      }
      if (auto *CI = dyn_cast_or_null<ConstantInt>(C)) r = CI->getValue();
    }
    env[V] = r;
    return r;
  }
  bool tabulate(const Value *V, unsigned w, BV &out) {
    std::set<const Value *> leaves;
    unsigned budget = 40;
    if (!support(V, leaves, budget) || leaves.size() != 1) return false;
    const Value *L = *leaves.begin();
    if (L == V) return false;
    unsigned lw = L->getType()->getIntegerBitWidth();
    KnownBits K = known(L);
    std::vector<unsigned> free;
    for (unsigned i = 0; i < lw; ++i) if (!K.Zero[i] && !K.One[i]) free.push_back(i);
    std::vector<APInt> vals;
    for (unsigned c = 0; c < (1u << free.size()); ++c) {
      APInt x = K.One;
      for (unsigned i = 0; i < free.size(); ++i) if (c >> i & 1) x.setBit(free[i]);
      std::map<const Value *, std::optional<APInt>> env;
      env[L] = x;
      auto r = evalAt(V, env);
      if (!r) return false;
      vals.push_back(*r);
    }
    BV lb = get(L);
    out.assign(w, Bit{});
    for (unsigned b = 0; b < w; ++b) {
      bool z = true, o = true;
      for (auto &v : vals) { if (v[b]) z = false; else o = false; }
      if (z) { out[b] = Bit{0, nullptr, 0}; continue; }
      if (o) { out[b] = Bit{1, nullptr, 0}; continue; }
      for (unsigned i = 0; i < free.size() && out[b].kind == 4; ++i) {
        bool p = true, n = true;
        for (unsigned c = 0; c < vals.size(); ++c) { bool x = c >> i & 1; if (vals[c][b] != x) p = false; else n = false; }
        if (p) out[b] = lb[free[i]];
        else if (n) out[b] = neg(lb[free[i]]);
      }
      if (out[b].kind == 4) out[b] = Bit{2, V, b};
    }
    return true;
  }
  bool hasTable(const Value *V, int depth = 0) {
    auto *I = dyn_cast<Instruction>(V);
    if (!I || depth > 8) return false;
    if (auto *L = dyn_cast<LoadInst>(I)) { const Value *x; APInt a, b; return tableOf(L->getPointerOperand(), x, a, b, DL) != nullptr; }
    if (isa<BinaryOperator>(I) || isa<SelectInst>(I) || isa<ICmpInst>(I) || isa<CastInst>(I))
      for (auto &O : I->operands()) if (hasTable(O, depth + 1)) return true;
    return false;
  }
  BV compute(const Value *V, unsigned w) {
    auto *I = dyn_cast<Instruction>(V);
    if (!I) return self(V, w);
    if (BV t; (isa<LoadInst>(I) || isa<ICmpInst>(I) || isa<SelectInst>(I)) && hasTable(I) && tabulate(V, w, t)) return t;
    auto constShift = [&](unsigned &k) {
      auto *C = dyn_cast<ConstantInt>(I->getOperand(1));
      if (!C || C->getValue().uge(w)) return false;
      k = C->getZExtValue();
      return true;
    };
    switch (I->getOpcode()) {
    case Instruction::ZExt: {
      BV a = get(I->getOperand(0));
      BV r(w);
      for (unsigned i = 0; i < w; ++i) r[i] = i < a.size() ? a[i] : Bit{0, nullptr, 0};
      return r;
    }
    case Instruction::SExt: {
      BV a = get(I->getOperand(0));
      BV r(w);
      for (unsigned i = 0; i < w; ++i) r[i] = i < a.size() ? a[i] : a.back();
      return r;
    }
    case Instruction::Trunc: {
      BV a = get(I->getOperand(0));
      a.resize(w);
      return a;
    }
    case Instruction::And:
    case Instruction::Or:
    case Instruction::Xor: {
      BV a = get(I->getOperand(0)), b = get(I->getOperand(1));
      BV r(w);
      for (unsigned i = 0; i < w; ++i) {
        Bit x = a[i], y = b[i];
        r[i] = I->getOpcode() == Instruction::Xor ? xorB(x, y) : I->getOpcode() == Instruction::And ? andB(x, y) : orB(x, y);
      }
      return r;
    }
    case Instruction::Add: {
      // no-carry addition behaves as or
      BV a = get(I->getOperand(0)), b = get(I->getOperand(1));
      BV r(w);
      unsigned i = 0;
      for (; i < w; ++i) {
        if (a[i].kind == 0) r[i] = b[i];
        else if (b[i].kind == 0) r[i] = a[i];
        else break;
      }
      return i == w ? r : self(V, w);
    }
    case Instruction::Mul: {
      // copies of a value next to each other
      auto *C = dyn_cast<ConstantInt>(I->getOperand(1));
      if (!C || w > 64) return self(V, w);
      BV a = get(I->getOperand(0)), r(w, Bit{0, nullptr, 0});
      for (unsigned k = 0; k < w; ++k)
        if (C->getValue()[k])
          for (unsigned i = 0; i + k < w; ++i)
            if (a[i].kind != 0) {
              if (r[i + k].kind != 0) return self(V, w);
              r[i + k] = a[i];
            }
      return r;
    }
    case Instruction::Shl: {
      unsigned k;
      if (!constShift(k)) return self(V, w);
      BV a = get(I->getOperand(0));
      BV r(w);
      for (unsigned i = 0; i < w; ++i) r[i] = i < k ? Bit{0, nullptr, 0} : a[i - k];
      return r;
    }
    case Instruction::LShr: {
      unsigned k;
      if (!constShift(k)) return self(V, w);
      BV a = get(I->getOperand(0));
      BV r(w);
      for (unsigned i = 0; i < w; ++i) r[i] = i + k < w ? a[i + k] : Bit{0, nullptr, 0};
      return r;
    }
    case Instruction::AShr: {
      unsigned k;
      if (!constShift(k)) return self(V, w);
      BV a = get(I->getOperand(0));
      BV r(w);
      for (unsigned i = 0; i < w; ++i) r[i] = i + k < w ? a[i + k] : a[w - 1];
      return r;
    }
    case Instruction::Call: {
      auto *II = dyn_cast<IntrinsicInst>(I);
      if (!II) return self(V, w);
      if (II->getIntrinsicID() == Intrinsic::bswap) {
        BV a = get(II->getArgOperand(0));
        BV r(w);
        for (unsigned i = 0; i < w; ++i) r[i] = a[(w / 8 - 1 - i / 8) * 8 + i % 8];
        return r;
      }
      if (II->getIntrinsicID() == Intrinsic::fshl || II->getIntrinsicID() == Intrinsic::fshr) {
        auto *C = dyn_cast<ConstantInt>(II->getArgOperand(2));
        if (!C) return self(V, w);
        unsigned k = C->getValue().urem(w);
        BV hi = get(II->getArgOperand(0)), lo = get(II->getArgOperand(1));
        BV cat(lo);
        cat.insert(cat.end(), hi.begin(), hi.end());
        BV r(w);
        unsigned base = II->getIntrinsicID() == Intrinsic::fshl ? w - k : k;
        if (II->getIntrinsicID() == Intrinsic::fshr && k == 0) return lo;
        for (unsigned i = 0; i < w; ++i) r[i] = cat[base + i];
        return r;
      }
      return self(V, w);
    }
    case Instruction::Freeze:
      if (isGuaranteedNotToBeUndefOrPoison(I->getOperand(0), &AC, I, &DT)) return get(I->getOperand(0));
      return self(V, w);
    case Instruction::Select: {
      BV a = get(I->getOperand(1)), b = get(I->getOperand(2));
      BV r(w);
      BV c = get(I->getOperand(0));
      for (unsigned i = 0; i < w; ++i) r[i] = muxB(c[0], a[i], b[i]);
      return r;
    }
    case Instruction::ICmp: {
      auto *IC = cast<ICmpInst>(I);
      if (!IC->getOperand(0)->getType()->isIntegerTy()) return self(V, w);
      if (auto *C = dyn_cast<ConstantInt>(IC->getOperand(1)); C && !IC->isEquality()) {
        // comparisons that only ask about the topmost bits
        BV a = get(IC->getOperand(0));
        const APInt &k = C->getValue();
        switch (IC->getPredicate()) {
        case ICmpInst::ICMP_SLT: if (k.isZero()) return BV{a.back()}; break;
        case ICmpInst::ICMP_SGT: if (k.isAllOnes()) return BV{neg(a.back())}; break;
        case ICmpInst::ICMP_SLE: if (k.isAllOnes()) return BV{a.back()}; break;
        case ICmpInst::ICMP_SGE: if (k.isZero()) return BV{neg(a.back())}; break;
        case ICmpInst::ICMP_ULT: case ICmpInst::ICMP_UGE: case ICmpInst::ICMP_UGT: case ICmpInst::ICMP_ULE: {
          bool strict = IC->getPredicate() == ICmpInst::ICMP_ULT || IC->getPredicate() == ICmpInst::ICMP_UGE;
          APInt b = strict ? k : k + 1; // x < b
          if (!b.isPowerOf2()) break;
          Bit low{1, nullptr, 0};
          unsigned n = 0;
          for (unsigned i = b.logBase2(); i < a.size(); ++i) {
            if (a[i].kind == 0) continue;
            if (a[i].kind == 4 || ++n > 8) return self(V, w);
            low = andB(low, neg(a[i]));
          }
          bool isLow = IC->getPredicate() == ICmpInst::ICMP_ULT || IC->getPredicate() == ICmpInst::ICMP_ULE;
          return BV{isLow ? low : neg(low)};
        }
        default: break;
        }
        return self(V, w);
      }
      if (!IC->isEquality()) return self(V, w);
      BV a = get(IC->getOperand(0)), b = get(IC->getOperand(1));
      Bit eq{1, nullptr, 0};
      unsigned n = 0;
      for (unsigned i = 0; i < a.size(); ++i) {
        Bit d = xorB(a[i], b[i]);
        if (d.kind == 0) continue;
        if (d.kind == 4 || ++n > (isa<ConstantInt>(IC->getOperand(1)) ? 60 : 8)) return self(V, w);
        eq = andB(eq, neg(d));
      }
      return BV{IC->getPredicate() == ICmpInst::ICMP_EQ ? eq : neg(eq)};
    }
    case Instruction::PHI: {
      auto *P = cast<PHINode>(I);
      BV r;
      bool first = true;
      // the join of a branch on a condition: a choice between the two incoming values
      if (P->getNumIncomingValues() == 2 && !LI.isLoopHeader(const_cast<BasicBlock *>(P->getParent())))
        if (auto *N = DT.getNode(P->getParent()); N && N->getIDom()) {
          BasicBlock *D = N->getIDom()->getBlock();
          auto *Br = dyn_cast<BranchInst>(D->getTerminator());
          if (Br && Br->isConditional() && Br->getSuccessor(0) != Br->getSuccessor(1)) {
            auto from = [&](unsigned s, unsigned in) {
              BasicBlockEdge E(D, Br->getSuccessor(s));
              BasicBlock *IB = P->getIncomingBlock(in);
              return Br->getSuccessor(s) == P->getParent() ? IB == D : DT.dominates(E, IB);
            };
            for (unsigned t = 0; t < 2; ++t)
              if (from(0, t) && from(1, 1 - t) && !isa<UndefValue>(P->getIncomingValue(0)) && !isa<UndefValue>(P->getIncomingValue(1))) {
                BV c = get(Br->getCondition()), x = get(P->getIncomingValue(t)), y = get(P->getIncomingValue(1 - t));
                BV m(w);
                for (unsigned i = 0; i < w; ++i) {
                  m[i] = muxB(c[0], x[i], y[i]);
                  if (!availableAt(m[i], P)) m[i] = Bit{2, V, i};
                }
                return m;
              }
          }
        }
      for (auto &In : P->incoming_values()) {
        if (In == P) continue;
        if (isa<UndefValue>(In)) return self(V, w);
        BV a = get(In);
        if (first) { r = a; first = false; continue; }
        for (unsigned i = 0; i < w; ++i)
          if (!(r[i] == a[i])) r[i] = Bit{2, V, i};
      }
      if (first) return self(V, w);
      // provenance of a value defined inside a loop this phi heads would refer to the previous iteration
      for (unsigned i = 0; i < w; ++i)
        if (!availableAt(r[i], P)) r[i] = Bit{2, V, i};
      return r;
    }
    default:
      return self(V, w);
    }
  }

  // bits [from, to) of a are exactly the bits of one value (which is then returned), zero extended
  Value *field(const BV &a, unsigned from, unsigned to, const Instruction *I) {
    if (from >= to || a[from].kind != 2 || !a[from].v || a[from].idx != 0) return nullptr;
    const Value *v = a[from].v;
    unsigned w = v->getType()->getIntegerBitWidth();
    if (w > to - from) return nullptr;
    for (unsigned i = from; i < to; ++i)
      if (i - from < w ? !(a[i].kind == 2 && a[i].v == v && a[i].idx == i - from) : a[i].kind != 0) return nullptr;
    if (auto *D = dyn_cast<Instruction>(v); D && !DT.dominates(D, I)) return nullptr;
    return const_cast<Value *>(v);
  }
  // comparison of two numbers put together from two fields each: lexicographic
  Value *splitCompare(ICmpInst *IC) {
    if (IC->isSigned()) return nullptr;
    BV a = get(IC->getOperand(0)), b = get(IC->getOperand(1));
    unsigned w = a.size();
    for (unsigned p = 1; p < w; ++p) {
      Value *ah = field(a, p, w, IC), *bh = field(b, p, w, IC), *al = field(a, 0, p, IC), *bl = field(b, 0, p, IC);
      if (!ah || !bh || !al || !bl) continue;
      IRBuilder<> B(IC);
      Type *T = IC->getOperand(0)->getType();
      bool same = ah->getType() == bh->getType() && al->getType() == bl->getType();
      auto z = [&](Value *v) { return same ? v : B.CreateZExt(v, T); };
      if (IC->isEquality()) {
        Value *e = B.CreateAnd(B.CreateICmpEQ(z(ah), z(bh)), B.CreateICmpEQ(z(al), z(bl)));
        return IC->getPredicate() == ICmpInst::ICMP_EQ ? e : B.CreateNot(e);
      }
      return B.CreateOr(B.CreateICmp(ICmpInst::getStrictPredicate(IC->getPredicate()), z(ah), z(bh)),
                        B.CreateAnd(B.CreateICmpEQ(z(ah), z(bh)), B.CreateICmp(IC->getPredicate(), z(al), z(bl))));
    }
    return nullptr;
  }
  bool run() {
    bool changed = false;
    std::vector<Instruction *> work;
    for (auto &I : instructions(F)) work.push_back(&I);
    for (auto *I : work) {
      setContext(I->getParent());
      if (auto *IC = dyn_cast<ICmpInst>(I)) {
        if (!IC->getOperand(0)->getType()->isIntegerTy()) continue;
        BV a = get(IC->getOperand(0)), b = get(IC->getOperand(1));
        bool same = true, differ = false;
        for (unsigned i = 0; i < a.size(); ++i) {
          if (!(a[i] == b[i]) || a[i].kind == 4) same = false;
          if (a[i].isC() && b[i].isC() && a[i].kind != b[i].kind) differ = true;
          if (opposite(a[i], b[i])) differ = true;
        }
        // differing bits in phi cycles are sound: constants come from known bits or constants only
        Value *R = nullptr;
        if (same) R = ConstantInt::getBool(F.getContext(), IC->isTrueWhenEqual());
        else if (differ && IC->getPredicate() == ICmpInst::ICMP_EQ) R = ConstantInt::getFalse(F.getContext());
        else if (differ && IC->getPredicate() == ICmpInst::ICMP_NE) R = ConstantInt::getTrue(F.getContext());
        else {
          BV e = get(IC);
          e[0] = simp(e[0]);
          if (e[0].isC()) R = ConstantInt::getBool(F.getContext(), e[0].kind == 1);
        }
        if (!R && !IC->use_empty()) R = splitCompare(IC);
        if (R) {
          IC->replaceAllUsesWith(R);
          changed = true;
          ++folded;
        }
        continue;
      }
      if (!I->getType()->isIntegerTy() || isa<PHINode>(I) && false) continue;
      if (I->use_empty()) continue;
      unsigned w = I->getType()->getIntegerBitWidth();
      BV a = get(I);
      if (w == 1) a[0] = simp(a[0]);
      bool allC = true, allOne = true;
      const Value *src = a[0].v;
      for (unsigned i = 0; i < w; ++i) {
        if (!a[i].isC()) allC = false;
        if (!(a[i].kind == 2 && a[i].v == src && a[i].idx == i)) allOne = false;
      }
      if (allC) {
        APInt v(w, 0);
        for (unsigned i = 0; i < w; ++i)
          if (a[i].kind == 1) v.setBit(i);
        I->replaceAllUsesWith(ConstantInt::get(I->getType(), v));
        changed = true;
        ++folded;
      } else if (allOne && src && src != I && src->getType() == I->getType()) {
        auto *SI = dyn_cast<Instruction>(const_cast<Value *>(src));
        if (!SI || DT.dominates(SI, I)) {
          I->replaceAllUsesWith(const_cast<Value *>(src));
          changed = true;
          ++folded;
        }
      }
    }
    return changed;
  }
};
} // namespace
#include "zone.inc"
#include "buffers.inc"
#include "cases.inc"
#include "bytesets.inc"
#include "equal.inc"
#include "poly.inc"
#include "varargs.inc"
#include "paths.inc"
#include "lock.inc"
#include "dyneh.inc"
#include "driver.inc"
