// ------------------------------------------------------------------------------------------------
namespace {
struct ClaimInfo {
  std::string probe, prop, text;
  unsigned line;
};
std::vector<ClaimInfo> Claims;
std::map<unsigned, std::string> ReachNames;

std::string strArg(Value *V) {
  StringRef s;
  if (getConstantStringInfo(V, s)) return s.str();
  return "?";
}

std::set<const Function *> Settled; // nothing more to be gained from optimising these
void runPipe(Module &M, StringRef text0) {
  std::string text = text0.str();
  for (size_t p = 0; (p = text.find("instcombine", p)) != std::string::npos; p += 11) text.insert(p + 11, "<no-verify-fixpoint;max-iterations=10>");
  LoopAnalysisManager LAM;
  FunctionAnalysisManager FAM;
  CGSCCAnalysisManager CGAM;
  ModuleAnalysisManager MAM;
  PipelineTuningOptions PTO;
  PTO.LoopVectorization = false;
  PTO.SLPVectorization = false;
  PassInstrumentationCallbacks PIC;
  PIC.registerShouldRunOptionalPassCallback([](StringRef, Any IR) {
    const Function *F = nullptr;
    if (auto **f = llvm::any_cast<const Function *>(&IR)) F = *f;
    else if (auto **l = llvm::any_cast<const Loop *>(&IR)) F = (*l)->getHeader()->getParent();
    return !F || !Settled.count(F);
  });
  if (const char *w = getenv("SA_WATCH")) {
    PIC.registerAfterPassCallback([w, &M](StringRef P, Any, const PreservedAnalyses &) {
      unsigned n = 0;
      for (auto &F : M) for (auto &I : instructions(F))
        if (auto *CB = dyn_cast<CallInst>(&I); CB && calleeName(*CB) == "sa_claim_id" && cast<ConstantInt>(CB->getArgOperand(1))->getZExtValue() == (unsigned)atoi(w))
          if (auto *c = dyn_cast<ConstantInt>(CB->getArgOperand(0)); c && c->isZero()) ++n;
      static unsigned last = 0;
      if (n != last) { errs() << "false claims " << n << " after " << P << "\n"; if (n > last) { std::error_code EC; raw_fd_ostream os("/tmp/o/watch.ll", EC); M.print(os, nullptr); } last = n; }
    });
  }
  PassBuilder PB(nullptr, PTO, std::nullopt, &PIC);
  PB.registerModuleAnalyses(MAM);
  PB.registerCGSCCAnalyses(CGAM);
  PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  ModulePassManager MPM;
  if (auto E = PB.parsePassPipeline(MPM, text)) {
    errs() << "pipeline: " << toString(std::move(E)) << "\n";
    exit(2);
  }
  MPM.run(M, MAM);
}

// a load from one of two known places of a local object: both are loaded and one is chosen
static bool splitChosenLoads(Function &F) {
  const DataLayout &DL = F.getParent()->getDataLayout();
  bool any = false;
  for (int rounds = 0; rounds < 8; ++rounds) {
    LoadInst *L = nullptr;
    GetElementPtrInst *G = nullptr;
    SelectInst *S = nullptr;
    for (auto &I : instructions(F)) {
      auto *l = dyn_cast<LoadInst>(&I);
      auto *g = l && l->isSimple() ? dyn_cast<GetElementPtrInst>(l->getPointerOperand()) : nullptr;
      if (!g || !g->getSourceElementType()->isIntegerTy(8) || g->getNumIndices() != 1 || l->getType()->isVectorTy()) continue;
      auto *A = dyn_cast<AllocaInst>(g->getPointerOperand());
      auto *s = dyn_cast<SelectInst>(g->getOperand(1));
      if (!A || !s || !A->getAllocationSize(DL)) continue;
      uint64_t size = A->getAllocationSize(DL)->getFixedValue(), w = DL.getTypeStoreSize(l->getType()).getFixedValue();
      std::function<bool(Value *)> fits = [&](Value *V) {
        if (auto *C = dyn_cast<ConstantInt>(V)) return C->getValue().ule(size) && C->getZExtValue() + w <= size;
        auto *t = dyn_cast<SelectInst>(V);
        return t && fits(t->getTrueValue()) && fits(t->getFalseValue());
      };
      if (!fits(s)) continue;
      L = l; G = g; S = s;
      break;
    }
    if (!L) return any;
    IRBuilder<> B(L);
    auto ld = [&](Value *off) { return B.CreateAlignedLoad(L->getType(), B.CreateGEP(B.getInt8Ty(), G->getPointerOperand(), off), Align(1)); };
    auto *t = ld(S->getTrueValue());
    auto *f = ld(S->getFalseValue());
    L->replaceAllUsesWith(B.CreateSelect(S->getCondition(), t, f));
    L->eraseFromParent();
    any = true;
  }
  return any;
}
// strlen of a string that is not known: the loop it stands for, whose reads are then obligations like any other
static void spellOutStrlen(Module &M) {
  auto *S = M.getFunction("strlen");
  if (!S || !S->isDeclaration() || S->use_empty()) return;
  auto &C = M.getContext();
  auto *I64 = Type::getInt64Ty(C), *I8 = Type::getInt8Ty(C);
  auto *F = Function::Create(S->getFunctionType(), GlobalValue::InternalLinkage, "sa_spelled_strlen", M);
  F->addFnAttr(Attribute::AlwaysInline);
  F->addFnAttr(Attribute::NoUnwind);
  auto *E = BasicBlock::Create(C, "entry", F), *L = BasicBlock::Create(C, "loop", F), *X = BasicBlock::Create(C, "exit", F);
  IRBuilder<> B(E);
  B.CreateBr(L);
  B.SetInsertPoint(L);
  auto *P = B.CreatePHI(I64, 2);
  auto *V = B.CreateLoad(I8, B.CreateInBoundsGEP(I8, F->getArg(0), P));
  auto *N = B.CreateAdd(P, ConstantInt::get(I64, 1), "", true, true);
  P->addIncoming(ConstantInt::get(I64, 0), E);
  P->addIncoming(N, L);
  B.CreateCondBr(B.CreateICmpEQ(V, ConstantInt::get(I8, 0)), X, L);
  B.SetInsertPoint(X);
  B.CreateRet(P);
  for (auto I = S->user_begin(), UE = S->user_end(); I != UE;)
    if (auto *CB = dyn_cast<CallInst>(*I++); CB && CB->getCalledOperand() == S) {
      CB->setCalledFunction(F);
      CB->setAttributes(AttributeList());
    }
}

// the same for memchr
static void spellOutMemchr(Module &M) {
  auto *S = M.getFunction("memchr");
  if (!S || !S->isDeclaration() || S->use_empty()) return;
  auto &C = M.getContext();
  auto *I64 = Type::getInt64Ty(C), *I8 = Type::getInt8Ty(C);
  auto *F = Function::Create(S->getFunctionType(), GlobalValue::InternalLinkage, "sa_spelled_memchr", M);
  F->addFnAttr(Attribute::AlwaysInline);
  F->addFnAttr(Attribute::NoUnwind);
  auto *E = BasicBlock::Create(C, "entry", F), *H = BasicBlock::Create(C, "head", F), *L = BasicBlock::Create(C, "loop", F), *N = BasicBlock::Create(C, "next", F), *X = BasicBlock::Create(C, "exit", F);
  IRBuilder<> B(E);
  auto *K = B.CreateTrunc(F->getArg(1), I8);
  B.CreateBr(H);
  B.SetInsertPoint(H);
  auto *P = B.CreatePHI(I64, 2);
  P->addIncoming(ConstantInt::get(I64, 0), E);
  B.CreateCondBr(B.CreateICmpEQ(P, F->getArg(2)), X, L);
  B.SetInsertPoint(L);
  auto *A = B.CreateInBoundsGEP(I8, F->getArg(0), P);
  B.CreateCondBr(B.CreateICmpEQ(B.CreateLoad(I8, A), K), X, N);
  B.SetInsertPoint(N);
  P->addIncoming(B.CreateAdd(P, ConstantInt::get(I64, 1), "", true, false), N);
  B.CreateBr(H);
  B.SetInsertPoint(X);
  auto *R = B.CreatePHI(S->getReturnType(), 2);
  R->addIncoming(Constant::getNullValue(S->getReturnType()), H);
  R->addIncoming(A, L);
  B.CreateRet(R);
  for (auto I = S->user_begin(), UE = S->user_end(); I != UE;)
    if (auto *CB = dyn_cast<CallInst>(*I++); CB && CB->getCalledOperand() == S) {
      CB->setCalledFunction(F);
      CB->setAttributes(AttributeList());
    }
}

// functions on a call cycle are not inlined
void computeRecursive(Module &M, std::set<Function *> &rec) {
  std::map<Function *, std::set<Function *>> callees;
  for (auto &F : M)
    for (auto &I : instructions(F))
      if (auto *CB = dyn_cast<CallBase>(&I))
        if (auto *C = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts()))
          if (!C->isDeclaration()) callees[&F].insert(C);
  // Tarjan
  std::map<Function *, int> idx, low;
  std::vector<Function *> st;
  std::set<Function *> on;
  int n = 0;
  std::function<void(Function *)> dfs = [&](Function *f) {
    idx[f] = low[f] = n++;
    st.push_back(f);
    on.insert(f);
    for (auto *c : callees[f]) {
      if (!idx.count(c)) { dfs(c); low[f] = std::min(low[f], low[c]); }
      else if (on.count(c)) low[f] = std::min(low[f], idx[c]);
    }
    if (low[f] == idx[f]) {
      std::vector<Function *> comp;
      Function *g;
      do { g = st.back(); st.pop_back(); on.erase(g); comp.push_back(g); } while (g != f);
      if (comp.size() > 1 || callees[f].count(f))
        for (auto *c : comp) rec.insert(c);
    }
  };
  for (auto &F : M) if (!F.isDeclaration() && !idx.count(&F)) dfs(&F);
}

// A call through a pointer which can only be one of a few functions (or null, which it must not be) becomes a
// choice between direct calls.
static bool calleeSet(Value *V, SmallPtrSetImpl<Value *> &seen, SetVector<Function *> &fs) {
  V = V->stripPointerCasts();
  if (!seen.insert(V).second) return true;
  if (auto *F = dyn_cast<Function>(V)) { fs.insert(F); return true; }
  if (isa<ConstantPointerNull>(V) || isa<UndefValue>(V)) return true;
  if (auto *P = dyn_cast<PHINode>(V)) { for (auto &O : P->incoming_values()) if (!calleeSet(O, seen, fs)) return false; return true; }
  if (auto *S = dyn_cast<SelectInst>(V)) return calleeSet(S->getTrueValue(), seen, fs) && calleeSet(S->getFalseValue(), seen, fs);
  return false;
}
static bool promoteIndirect(Function &F) {
  std::vector<CallBase *> cs;
  for (auto &I : instructions(F))
    if (auto *CB = dyn_cast<CallBase>(&I); CB && CB->isIndirectCall()) cs.push_back(CB);
  bool any = false;
  for (auto *CB : cs) {
    SmallPtrSet<Value *, 8> seen;
    SetVector<Function *> fs;
    if (!calleeSet(CB->getCalledOperand(), seen, fs) || fs.empty() || fs.size() > 8) continue;
    bool ok = true;
    for (auto *G : fs) ok &= isLegalToPromote(*CB, G);
    if (!ok) continue;
    for (auto *G : fs) promoteCallWithIfThenElse(*CB, G);
    // none of them: the pointer is null
    auto *T = Intrinsic::getDeclaration(F.getParent(), Intrinsic::ubsantrap);
    IRBuilder<> B(CB);
    B.CreateCall(T, {B.getInt8(24)})->setDebugLoc(CB->getDebugLoc());
    changeToUnreachable(CB);
    any = true;
  }
  return any;
}
// Objects on the heap of constant size, made at a point that is executed at most once, are treated like locals (which
// the scalar analyses see through); giving them back is then no event.
static void heapToLocal(Function &F) {
  DominatorTree DT(F);
  LoopInfo LI(DT);
  std::vector<CallInst *> news;
  for (auto &I : instructions(F))
    if (auto *C = dyn_cast<CallInst>(&I))
      if (calleeName(*C) == "_Znwm" && isa<ConstantInt>(C->getArgOperand(0)) && cast<ConstantInt>(C->getArgOperand(0))->getZExtValue() <= 4096 && !LI.getLoopFor(C->getParent())) news.push_back(C);

  std::set<const Value *> local;
  for (auto *C : news) {
    uint64_t n = cast<ConstantInt>(C->getArgOperand(0))->getZExtValue();
    auto *A = new AllocaInst(ArrayType::get(Type::getInt8Ty(F.getContext()), n), 0, nullptr, Align(16), "heap", &*F.getEntryBlock().begin());
    C->replaceAllUsesWith(A);
    C->eraseFromParent();
    local.insert(A);
  }
  std::vector<CallInst *> dels;
  for (auto &I : instructions(F))
    if (auto *C = dyn_cast<CallInst>(&I); C && calleeName(*C).starts_with("_ZdlPv")) {
      SmallVector<const Value *, 4> us;
      getUnderlyingObjects(C->getArgOperand(0), us, &LI, 0);
      bool all = true;
      for (auto *U : us) all &= local.count(U) || isa<ConstantPointerNull>(U) || (isa<AllocaInst>(U) && U->getName().starts_with("heap"));
      if (all) dels.push_back(C);
    }
  for (auto *C : dels) C->eraseFromParent();
}
// A short string points into itself. Once nothing reads that pointer any more it must not keep the string in memory: stores of
// an object's own address into a part of it that is never read are dropped.
static bool dropSelfPointers(Function &F) {
  const DataLayout &DL = F.getParent()->getDataLayout();
  std::vector<AllocaInst *> as;
  for (auto &I : instructions(F)) if (auto *A = dyn_cast<AllocaInst>(&I)) as.push_back(A);
  bool any = false;
  for (auto *A : as) {
    std::vector<std::pair<Value *, int64_t>> work{{A, 0}};
    std::vector<std::pair<StoreInst *, int64_t>> self; // stores of the object's own address, and where they go when that is in the object
    std::map<StoreInst *, int64_t> into;               // stores into the object
    std::vector<std::pair<int64_t, int64_t>> reads;
    std::set<StoreInst *> of;
    bool ok = true;
    for (unsigned n = 0; ok && n < work.size() && n < 2000; ++n) {
      auto [V, off] = work[n];
      for (auto &U : V->uses()) {
        auto *I = dyn_cast<Instruction>(U.getUser());
        if (!I) { ok = false; break; }
        if (auto *G = dyn_cast<GetElementPtrInst>(I)) {
          APInt o(64, 0);
          if (!G->accumulateConstantOffset(DL, o)) { ok = false; break; }
          work.push_back({G, off + o.getSExtValue()});
        } else if (auto *L = dyn_cast<LoadInst>(I)) {
          if (L->isVolatile()) { ok = false; break; }
          reads.push_back({off, off + (int64_t)DL.getTypeStoreSize(L->getType()).getFixedValue()});
        } else if (auto *S = dyn_cast<StoreInst>(I)) {
          if (U.getOperandNo() == 0) of.insert(S);
          else into[S] = off;
        } else if (auto *M = dyn_cast<MemTransferInst>(I)) {
          auto *len = dyn_cast<ConstantInt>(M->getLength());
          if (!len) { ok = false; break; }
          if (U.getOperandNo() == 1) reads.push_back({off, off + (int64_t)len->getZExtValue()});
        } else if (auto *II = dyn_cast<IntrinsicInst>(I); II && II->isLifetimeStartOrEnd()) {
        } else if (isa<MemSetInst>(I) || isa<ICmpInst>(I)) {
        } else { ok = false; break; }
      }
    }
    for (auto *S : of) ok &= into.count(S) > 0; // anywhere else the address leads to reads which are not seen here
    if (!ok || of.empty() || work.size() >= 2000) continue;
    for (auto *S : of)
      for (auto &[a, b] : reads) ok &= !(into[S] < b && a < into[S] + 8); // nor may any be read: it could lead to the others
    if (!ok) continue;
    for (auto *S : of) S->eraseFromParent();
    any = true;
  }
  return any;
}
// libstdc++ reads its two 32-bit reference counts with one 64-bit load: read them one by one instead
static void splitWideLoads(Function &F) {
  const DataLayout &DL = F.getParent()->getDataLayout();
  auto key = [&](Value *P) {
    APInt off(64, 0);
    Value *b = P->stripAndAccumulateConstantOffsets(DL, off, true);
    return std::make_pair(b, off.getSExtValue());
  };
  std::set<std::pair<Value *, int64_t>> narrow;
  std::vector<LoadInst *> wide;
  for (auto &I : instructions(F)) {
    if (auto *S = dyn_cast<StoreInst>(&I); S && S->getValueOperand()->getType()->isIntegerTy(32)) narrow.insert(key(S->getPointerOperand()));
    if (auto *L = dyn_cast<LoadInst>(&I); L && L->getType()->isIntegerTy(64) && !L->isVolatile()) wide.push_back(L);
  }
  for (auto *L : wide) {
    auto k = key(L->getPointerOperand());
    if (!narrow.count(k) || !narrow.count({k.first, k.second + 4})) continue;
    IRBuilder<> B(L);
    Type *I32 = B.getInt32Ty();
    Value *lo = B.CreateLoad(I32, L->getPointerOperand());
    Value *hi = B.CreateLoad(I32, B.CreateConstInBoundsGEP1_64(B.getInt8Ty(), L->getPointerOperand(), 4));
    Value *v = B.CreateOr(B.CreateZExt(lo, B.getInt64Ty()), B.CreateShl(B.CreateZExt(hi, B.getInt64Ty()), 32));
    L->replaceAllUsesWith(v);
    L->eraseFromParent();
  }
}
const char *Light = "function(sroa<modify-cfg>,early-cse<memssa>,instcombine,simplifycfg),function(sroa<modify-cfg>,gvn,instcombine,simplifycfg),globaldce";
const char *Heavy =
    "function(sroa<modify-cfg>,early-cse<memssa>,simplifycfg,instcombine,"
    "jump-threading,correlated-propagation,simplifycfg,instcombine,tailcallelim,reassociate,"
    "loop-mssa(loop-instsimplify,loop-simplifycfg,licm<no-allowspeculation>,loop-rotate,licm<allowspeculation>,simple-loop-unswitch<nontrivial;trivial>),"
    "simplifycfg,instcombine,loop(loop-idiom,indvars,loop-deletion,loop-unroll-full),"
    "sroa<modify-cfg>,mldst-motion,gvn,sccp,bdce,instcombine,jump-threading,correlated-propagation,"
    "constraint-elimination,adce,dse,simplifycfg,instcombine,loop-unroll<O3;peeling;no-partial;no-runtime>,gvn,instcombine,"
    "constraint-elimination,correlated-propagation,simplifycfg,instcombine)";

// number of obligations of a probe that are still open
unsigned residualCount(Function &F) {
  unsigned n = 0;
  for (auto &I : instructions(F)) {
    auto *CB = dyn_cast<CallBase>(&I);
    if (!CB) continue;
    if (auto *II = dyn_cast<IntrinsicInst>(CB)) {
      if (II->getIntrinsicID() == Intrinsic::trap) ++n;
      if (II->getIntrinsicID() == Intrinsic::ubsantrap && !(inStdHeader(CB->getDebugLoc()) && cast<ConstantInt>(II->getArgOperand(0))->getZExtValue() == 1)) ++n;
      continue;
    }
    StringRef f = calleeName(*CB);
    if (f == "sa_claim_id" || f == "sa_bound") {
      auto *c = dyn_cast<ConstantInt>(CB->getArgOperand(0));
      if (!c || !c->isOne()) ++n;
    } else if (f == "sa_uncaught" || endsProgram(*CB)) ++n;
  }
  return n;
}

// peel one iteration off every innermost loop
bool peelAll(Function &F, bool outer = false, unsigned times = 1) {
  bool done = false;
  DominatorTree DT(F);
  LoopInfo LI(DT);
  AssumptionCache AC(F);
  TargetLibraryInfoImpl TLII(Triple(F.getParent()->getTargetTriple()));
  TargetLibraryInfo TLI(TLII);
  ScalarEvolution SE(F, TLI, AC, DT, LI);
  for (auto *L : LI.getLoopsInPreorder()) simplifyLoop(L, &DT, &LI, &SE, &AC, nullptr, false);
  SmallVector<Loop *, 8> loops = LI.getLoopsInPreorder();
  for (auto *L : loops) {
    if (outer ? !L->isOutermost() : !L->isInnermost()) continue;
    formLCSSARecursively(*L, DT, &LI, &SE);
    if (!L->isLoopSimplifyForm() || !canPeel(L)) continue;
    ValueToValueMapTy VM;
    done |= peelLoop(L, times, &LI, &SE, DT, &AC, true, VM);
  }
  return done;
}
} // namespace

int main(int argc, char **argv) {
  std::vector<const char *> av(argv, argv + argc);
  for (const char *o : {"-jump-threading-threshold=60", "-unroll-threshold=4000", "-unroll-full-max-count=300", "-unroll-max-iteration-count-to-analyze=300",
                        "-simplifycfg-branch-fold-threshold=8", "-available-load-scan-limit=200", "-memssa-check-limit=1000",
                        "-max-dependences=1000", "-memdep-block-scan-limit=5000", "-memdep-block-number-limit=2000",
                        "-enable-load-in-loop-pre=true", "-constraint-elimination-max-rows=2000", "-gvn-max-num-deps=1000", "-gvn-max-num-insns=1000000",
                        "-capture-tracking-max-uses-to-explore=1000"})
    av.push_back(o);
  cl::ParseCommandLineOptions(av.size(), av.data(), "static obligation discharger\n");
  LLVMContext Ctx;
  std::unique_ptr<Module> M;
  for (auto &in : Inputs) {
    SMDiagnostic Err;
    auto N = parseIRFile(in, Err, Ctx);
    if (!N) { Err.print(argv[0], errs()); return 2; }
    if (!M) M = std::move(N);
    else if (Linker::linkModules(*M, std::move(N))) { errs() << "link failed\n"; return 2; }
  }
  // number claims and reach markers
  Type *I1 = Type::getInt1Ty(Ctx), *I32 = Type::getInt32Ty(Ctx);
  FunctionCallee ClaimId = M->getOrInsertFunction("sa_claim_id", Type::getVoidTy(Ctx), I1, I32);
  FunctionCallee ReachId = M->getOrInsertFunction("sa_reach_id", Type::getVoidTy(Ctx), I32);
  for (auto C : {ClaimId, ReachId}) {
    auto *f = cast<Function>(C.getCallee());
    f->setMemoryEffects(MemoryEffects::inaccessibleMemOnly());
    f->addFnAttr(Attribute::NoUnwind);
    f->addFnAttr(Attribute::WillReturn);
  }
  std::vector<std::string> probes;
  unsigned seen = 0;
  std::vector<std::pair<std::string, std::string>> Reaches; // probe, text
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    if (isProbe(F) && (Only.empty() || F.getName() == Only) && seen++ % Shards == Shard) probes.push_back(F.getName().str());
    for (auto I = inst_begin(F), E = inst_end(F); I != E;) {
      auto *CB = dyn_cast<CallBase>(&*I++);
      if (!CB) continue;
      StringRef n = calleeName(*CB);
      if (n == "sa_claim") {
        IRBuilder<> B(CB);
        // sa_claim(bool cond, const char* text)
        Claims.push_back({F.getName().str(), "", strArg(CB->getArgOperand(1)), CB->getDebugLoc() ? CB->getDebugLoc().getLine() : 0});
        auto *c = B.CreateCall(ClaimId, {B.CreateTrunc(CB->getArgOperand(0), I1), ConstantInt::get(I32, Claims.size() - 1)});
        c->setDebugLoc(CB->getDebugLoc());
        CB->eraseFromParent();
      } else if (n == "sa_buffer" || n == "sa_cstring") {
        // no object is larger than the address space of any supported target (2^60 is generous)
        IRBuilder<> B(CB->getNextNode());
        B.CreateAssumption(B.CreateICmpULE(CB->getArgOperand(0), ConstantInt::get(CB->getArgOperand(0)->getType(), 1ull << 60)));
      } else if (n == "sa_reach") {
        IRBuilder<> B(CB);
        Reaches.push_back({F.getName().str(), strArg(CB->getArgOperand(0))});
        auto *c = B.CreateCall(ReachId, {ConstantInt::get(I32, Reaches.size() - 1)});
        c->setDebugLoc(CB->getDebugLoc());
        CB->eraseFromParent();
      }
    }
  }
  for (auto It = M->alias_begin(); It != M->alias_end();) {
    GlobalAlias *A = &*It++;
    if (auto *Fn = dyn_cast<Function>(A->getAliasee()->stripPointerCasts())) { A->replaceAllUsesWith(Fn); A->eraseFromParent(); }
  }
  if (probes.empty()) { errs() << "no probes\n"; return 2; }
  std::set<std::string> keep(probes.begin(), probes.end());
  internalizeModule(*M, [&](const GlobalValue &G) { return keep.count(G.getName().str()) > 0; });
  std::set<Function *> rec;
  std::map<std::string, unsigned> libFuncs; // analysed functions by source file (for evidence)
  std::set<std::string> analysed;
  auto prep = [&]() {
    rec.clear();
    computeRecursive(*M, rec);
    for (auto &F : *M) {
      if (F.isDeclaration()) continue;
      F.removeFnAttr(Attribute::NoInline);
      F.removeFnAttr(Attribute::OptimizeNone);
      F.removeFnAttr("target-cpu");
      F.removeFnAttr("target-features");
      F.removeFnAttr(Attribute::StackProtect);
      F.removeFnAttr(Attribute::StackProtectStrong);
      F.removeFnAttr(Attribute::AlwaysInline);
      if (!isProbe(F) && !rec.count(&F) && F.getName() != "__clang_call_terminate") F.addFnAttr(Attribute::AlwaysInline);
    }
  };
  if (verifyModule(*M, &errs())) return 2;
  lowerVarargs(*M);
  // stream machinery is opaque: it formats text and is not what any property is about
  for (auto &F : *M)
    if (!Streams && !F.isDeclaration() && isStreamFunction(F.getName())) {
      F.deleteBody();
      F.setLinkage(GlobalValue::ExternalLinkage);
      F.setComdat(nullptr);
    }
  // the probes describe one thread: atomics are plain accesses there, and the reference counts take the plain path
  if (Mode != "lock") {
    if (auto *G = M->getGlobalVariable("__libc_single_threaded")) {
      for (auto I = G->user_begin(), E = G->user_end(); I != E;)
        if (auto *L = dyn_cast<LoadInst>(*I++)) { L->replaceAllUsesWith(ConstantInt::get(L->getType(), 1)); L->eraseFromParent(); }
    }
    runPipe(*M, "function(loweratomic)");
  }
  runPipe(*M, "globaldce,function(lower-expect)");
  annotateDeclarations(*M);
  for (auto &F : *M)
    if (!F.isDeclaration())
      if (auto *SP = F.getSubprogram()) {
        StringRef fn = SP->getFilename();
        if (fn.contains("/repo/")) analysed.insert((fn + ":" + Twine(SP->getLine()) + " " + SP->getName()).str());
      }
  EHLower EH(*M);
  if (DynEHMode) {
    for (auto &F : *M) if (isProbe(F)) DynEH(F).begin();
    std::map<std::string, unsigned> peeled;
    for (int i = 0, n = getenv("SA_ROUNDS") ? atoi(getenv("SA_ROUNDS")) : 400; i < n; ++i) {
      prep();
      for (auto &F : *M) F.removeFnAttr(Attribute::AlwaysInline);
      runPipe(*M, Light);
      runPipe(*M, "function(loop-simplify,loop-rotate,loop(loop-unroll-full),sccp,jump-threading,gvn,dse,simplifycfg)");
      bool more = false;
      for (auto &F : *M) {
        if (!isProbe(F)) continue;
        heapToLocal(F);
        splitWideLoads(F);
        dropSelfPointers(F);
        { Buffers n(F); n.nullFold(); }
        DynEH d(F);
        d.Ids = &EH;
        bool ch = promoteIndirect(F);
        while (d.lower()) ch = true;
        if (!ch) ch = d.inlineCalls(rec, false);
        if (!ch && (ch = d.inlineCalls(rec, true))) peeled[F.getName().str()] = 0;
        if (!ch && any_of(instructions(F), [](Instruction &I) { auto *CI = dyn_cast<CallInst>(&I); return CI && calleeName(*CI) == "strlen"; })) { spellOutStrlen(*M); ch = true; }
        if (!ch && peeled[F.getName().str()]++ < 60 && F.getInstructionCount() < PeelLimit) ch = peelAll(F, false, 3);
        if (!ch) ch = d.lower(true);
        more |= ch;
      }
      if (getenv("SA_DEBUG")) for (auto &F : *M) if (isProbe(F)) errs() << i << " " << F.getName() << " " << F.getInstructionCount() << "\n";
      if (verifyModule(*M, &errs())) { if (!DumpDir.empty()) { std::error_code EC; raw_fd_ostream os(DumpDir, EC); M->print(os, nullptr); } return 2; }
      if (!more) break;
    }
    for (auto &F : *M) if (isProbe(F)) DynEH(F).end();
    if (!DumpDir.empty() && getenv("SA_DEBUG")) { std::error_code EC; raw_fd_ostream os(DumpDir + ".dyn", EC); M->print(os, nullptr); }
  }
  for (int i = 0; i < (HeapLocal ? 30 : 9); ++i) {
    prep();
    runPipe(*M, "always-inline,globaldce");
    runPipe(*M, Light);
    bool more = false;
    if (i) runPipe(*M, "function(jump-threading,correlated-propagation,simplifycfg,instcombine,gvn,simplifycfg)");
    if (HeapLocal) for (auto &F : *M) if (isProbe(F)) { heapToLocal(F); splitWideLoads(F); Buffers n(F); n.nullFold(); }
    for (auto &F : *M) if (isProbe(F)) more |= promoteIndirect(F);
    for (auto &F : *M) {
      if (!isProbe(F)) continue;
      for (auto &I : instructions(F))
        if (auto *CB = dyn_cast<CallBase>(&I))
          if (auto *C = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts()))
            if (!C->isDeclaration() && !rec.count(C) && C->getName() != "__clang_call_terminate") more = true;
    }
    if (HeapLocal && i >= 4)
      for (auto &F : *M) {
        if (!isProbe(F)) continue;
        bool open = false;
        for (auto &I : instructions(F))
          if (auto *CB = dyn_cast<CallBase>(&I)) {
            auto *C = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts());
            open |= CB->isIndirectCall() || (C && !C->isDeclaration() && !rec.count(C) && C->getName() != "__clang_call_terminate");
          }
        if (!open) Settled.insert(&F);
      }
    // calls through pointers kept in data structures: the loops over those are taken apart step by step
    if (HeapLocal && !more && i >= 2 && i < 24)
      for (auto &F : *M) {
        if (!isProbe(F) || F.getInstructionCount() > PeelLimit) continue;
        bool ind = false;
        for (auto &I : instructions(F))
          if (auto *CB = dyn_cast<CallBase>(&I)) ind |= CB->isIndirectCall();
        if (ind && peelAll(F)) more = true;
      }
    if (!more && i >= (HeapLocal ? 4 : 0)) break;
  }
  for (unsigned k = 0; RecLevels && k <= RecLevels; ++k) {
    prep();
    for (auto &F : *M) {
      if (!isProbe(F)) continue;
      std::vector<WeakVH> calls;
      for (auto &I : instructions(F))
        if (auto *CB = dyn_cast<CallBase>(&I))
          if (auto *C = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts()); C && rec.count(C) && !C->isDeclaration()) calls.push_back(CB);
      for (auto &V : calls) {
        auto *CB = dyn_cast_or_null<CallBase>(static_cast<Value *>(V));
        if (!CB) continue;
        if (k < RecLevels) {
          InlineFunctionInfo IFI;
          InlineFunction(*CB, IFI);
        } else {
          auto Deep = M->getOrInsertFunction("sa_recursion_goes_deeper", FunctionType::get(Type::getVoidTy(M->getContext()), false));
          cast<Function>(Deep.getCallee())->setDoesNotReturn();
          cast<Function>(Deep.getCallee())->setDoesNotThrow();
          IRBuilder<> B(CB);
          B.CreateCall(Deep)->setDebugLoc(CB->getDebugLoc());
          changeToUnreachable(CB);
        }
      }
    }
    for (int i = 0; i < 4; ++i) { prep(); runPipe(*M, "always-inline,globaldce"); runPipe(*M, Light); }
  }
  Settled.clear();
  if (!DumpDir.empty() && getenv("SA_DEBUG")) { std::error_code EC; raw_fd_ostream os(DumpDir + ".eh", EC); M->print(os, nullptr); }
  {
    for (auto &F : *M)
      if (!F.isDeclaration()) EH.run(F);
  }
  if (verifyModule(*M, &errs())) { if (!DumpDir.empty()) { std::error_code EC; raw_fd_ostream os(DumpDir, EC); M->print(os, nullptr); } return 2; }
  annotateDeclarations(*M);
  runPipe(*M, Light);
  if (Mode == "lock") {
    runPipe(*M, "function(simplifycfg,lowerswitch,instcombine,simplifycfg)");
    if (!DumpDir.empty()) { std::error_code EC; raw_fd_ostream os(DumpDir, EC); M->print(os, nullptr); }
    return LockRules(*M).run(Out);
  }
  spellOutStrlen(*M);
  spellOutMemchr(*M);
  runPipe(*M, "function(lower-constant-intrinsics)");
  for (int i = 0; i < 2; ++i) { prep(); runPipe(*M, "always-inline,globaldce"); runPipe(*M, Light); }
  unsigned acc = 0, cacc = 0, foreign = 0;
  std::set<std::string> foreignLocs;
  for (auto &F : *M)
    if (isProbe(F)) {
      { Buffers n(F); n.nullFold(); }
      Buffers b(F);
      b.run();
      acc += b.accesses;
      cacc += b.constAccesses;
      foreign += b.foreign;
      foreignLocs.insert(b.foreignLocs.begin(), b.foreignLocs.end());
    }
  if (verifyModule(*M, &errs())) { if (!DumpDir.empty()) { std::error_code EC; raw_fd_ostream os(DumpDir, EC); M->print(os, nullptr); } return 2; }
  auto round = [&]() {
    for (auto &F : *M) if (isProbe(F) && !residualCount(F)) Settled.insert(&F);
    if (HeapLocal) for (auto &F : *M) if (isProbe(F)) { heapToLocal(F); splitWideLoads(F); dropSelfPointers(F); }
    if (ByteSet)
      for (int i = 0; i < 3; ++i) {
        for (auto &F : *M) if (isProbe(F) && !Settled.count(&F)) { splitByteLoads(F); ByteSets b(F); b.run(); }
        runPipe(*M, "function(simplifycfg,instcombine,gvn,jump-threading,simplifycfg)");
      }
    runPipe(*M, Heavy);
    // drop what is discharged
    for (auto &F : *M)
      for (auto I = inst_begin(F), E = inst_end(F); I != E;) {
        auto *CB = dyn_cast<CallInst>(&*I++);
        if (!CB || !(calleeName(*CB) == "sa_bound" || calleeName(*CB) == "sa_claim_id")) continue;
        auto *c = dyn_cast<ConstantInt>(CB->getArgOperand(0));
        if (c && c->isOne()) CB->eraseFromParent();
      }
    for (auto &F : *M)
      if (isProbe(F) && !Settled.count(&F)) {
        Buffers n(F);
        n.nullFold();
      }
    for (auto &F : *M)
      if (isProbe(F) && !Settled.count(&F)) {
        expandCompare(F);
        splitChosenLoads(F);
        pruneSwitches(F);
        equalities(F);
        divisions(F);
        polynomials(F);
        popcounts(F);
        { OrderCases oc(F); oc.run(); }
        if (splitClaims(F, 32)) { OrderCases oc(F); oc.run(); }
        if (Bits) {
          BitProv bp(F);
          bp.run();
        }
      }
    for (auto &F : *M)
      if (isProbe(F) && residualCount(F)) {
        complements(F);
        Zone z(F);
        z.run();
      }
  };
  round();
  round();
  for (int p = 0; p < Peels; ++p) {
    unsigned left = 0;
    bool any = false;
    for (auto &F : *M)
      if (isProbe(F)) {
        unsigned c = residualCount(F);
        left += c;
        if (c && F.getInstructionCount() < PeelLimit) any |= peelAll(F, HeapLocal && p % 2 == 1);
      }
    if (!left) break;
    if (!any && p > 2) break;
    round();
  }
  for (unsigned p = 0, idle = 0; p < Paths; ++p) {
    bool left = false;
    for (auto &F : *M)
      if (isProbe(F)) {
        DominatorTree DT(F);
        LoopInfo LI(DT);
        if (!residualCount(F) || (!PathLoops && !LI.empty())) Settled.insert(&F);
        else { left = true; choicesToBranches(F); }
      }
    if (!left) break;
    runPipe(*M, "function(reg2mem)");
    bool any = false;
    for (auto &F : *M)
      if (isProbe(F) && !Settled.count(&F)) {
        any |= expandPaths(F, PathBlocks);
        EliminateUnreachableBlocks(F);
      }
    runPipe(*M, "function(sroa,mem2reg)");
    if (verifyModule(*M, &errs())) return 2;
    round();
    if (!any && ++idle > 2) break;
  }
  Settled.clear();
  runPipe(*M, Heavy);
  if (!DumpDir.empty()) { std::error_code EC; raw_fd_ostream os(DumpDir, EC); M->print(os, nullptr); }

  // collect residual obligations
  json::Array residual;
  std::vector<bool> claimBad(Claims.size(), false);
  std::vector<unsigned> claimLeft(Claims.size(), 0);
  std::vector<bool> reached(Reaches.size(), false);
  std::set<std::string> externs;
  json::Array probeInfo;
  for (auto &F : *M) {
    if (!isProbe(F)) continue;
    unsigned insts = 0, loops = 0;
    for (auto &I : instructions(F)) {
      ++insts;
      auto *CB = dyn_cast<CallBase>(&I);
      if (!CB) continue;
      StringRef n = calleeName(*CB);
      std::string kind, what, txt;
      if (auto *II = dyn_cast<IntrinsicInst>(CB)) {
        if (II->getIntrinsicID() == Intrinsic::ubsantrap) {
          unsigned k = cast<ConstantInt>(II->getArgOperand(0))->getZExtValue();
          if (k == 1 && inStdHeader(CB->getDebugLoc())) continue; // an invariant libstdc++ states about its own state
          static const std::map<unsigned, const char *> K = {{0, "signed addition overflow"}, {1, "unreachable code reached"}, {3, "division by zero or overflow"}, {12, "signed multiplication overflow"}, {13, "signed negation overflow"}, {24, "call through a null function pointer"}, {8, "missing return"}, {18, "array index out of bounds"}, {20, "shift exponent out of range"}, {21, "signed subtraction overflow"}};
          kind = "undefined-behaviour";
          auto it = K.find(k);
          what = it != K.end() ? it->second : ("ubsan check " + std::to_string(k));
        } else if (II->getIntrinsicID() == Intrinsic::trap) { kind = "undefined-behaviour"; what = "trap"; }
        else continue;
      } else if (n == "sa_claim_id") {
        unsigned id = cast<ConstantInt>(CB->getArgOperand(1))->getZExtValue();
        ++claimLeft[id];
        auto *c = dyn_cast<ConstantInt>(CB->getArgOperand(0));
        if (c && c->isOne()) continue;
        if (claimBad[id]) continue;
        claimBad[id] = true;
        residual.push_back(json::Object{{"kind", "claim"}, {"probe", F.getName().str()}, {"claim_probe", Claims[id].probe}, {"line", Claims[id].line}, {"text", Claims[id].text}, {"refuted", c && c->isZero()}, {"loc", demangleLoc(CB->getDebugLoc())}});
        continue;
      } else if (n == "sa_bound") {
        auto *c = dyn_cast<ConstantInt>(CB->getArgOperand(0));
        if (c && c->isOne()) continue;
        kind = "bounds"; what = "memory access not shown to lie inside its object";
      } else if (n == "sa_reach_id") { reached[cast<ConstantInt>(CB->getArgOperand(0))->getZExtValue()] = true; continue; }
      else if (n == "sa_uncaught") { kind = "uncaught"; what = "an exception can leave the probe: " + CB->getArgOperand(0)->getName().str(); }
      else if (endsProgram(*CB)) { kind = "abort"; what = n.str(); }
      else { if (!n.empty()) externs.insert(n.str()); else externs.insert("(indirect)"); continue; }
      residual.push_back(json::Object{{"kind", kind}, {"probe", F.getName().str()}, {"text", what}, {"loc", demangleLoc(CB->getDebugLoc())}});
    }
    DominatorTree DT(F);
    LoopInfo LI(DT);
    loops = LI.getLoopsInPreorder().size();
    probeInfo.push_back(json::Object{{"name", F.getName().str()}, {"instructions", insts}, {"loops", loops}});
  }
  json::Array unreached, claimsJ, extJ, anJ, flJ;
  for (auto &e : foreignLocs) flJ.push_back(e);
  for (unsigned i = 0; i < Reaches.size(); ++i)
    if (!reached[i] && (keep.count(Reaches[i].first) || Only.empty())) unreached.push_back(json::Object{{"probe", Reaches[i].first}, {"text", Reaches[i].second}});
  unsigned proved = 0;
  for (unsigned i = 0; i < Claims.size(); ++i) {
    if (!claimBad[i]) ++proved;
    claimsJ.push_back(json::Object{{"probe", Claims[i].probe}, {"line", Claims[i].line}, {"text", Claims[i].text}, {"proved", !claimBad[i]}});
  }
  for (auto &e : externs) extJ.push_back(e);
  for (auto &e : analysed) anJ.push_back(e);
  json::Object o{{"claims", std::move(claimsJ)}, {"residual", std::move(residual)}, {"unreached", std::move(unreached)}, {"reach_markers", (int64_t)Reaches.size()},
                 {"bounds_obligations", (int64_t)acc}, {"bounds_constant", (int64_t)cacc}, {"accesses_unknown_object", (int64_t)foreign}, {"unknown_object_locs", std::move(flJ)}, {"probes", std::move(probeInfo)},
                 {"externals", std::move(extJ)}, {"analysed_functions", std::move(anJ)}};
  std::error_code EC;
  raw_fd_ostream os(Out, EC);
  os << formatv("{0:2}", json::Value(std::move(o))) << "\n";
  return 0;
}
