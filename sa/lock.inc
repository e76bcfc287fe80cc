// ------------------------------------------------------------------------------------------------
// Mode "lock": typestate and memory-ordering analysis of a lock. The module holds sa_lock_init(ptr),
// sa_lock_lock(ptr) and sa_lock_unlock(ptr), with everything inlined. Rules:
//  init   : the lock word is left with the "free" constant;
//  lock   : every return is dominated by an atomic read-modify-write of the lock word which is known, at that
//           return, to have found it free and to have replaced it by a different constant, with acquire
//           semantics (its own ordering, or an acquire fence before the return); nothing else writes the word;
//  unlock : every path writes the "free" constant atomically with release semantics; nothing else is written.
namespace {
struct LockRules {
  Module &M;
  json::Array bad;
  unsigned sites = 0, rules = 0;
  std::optional<APInt> U, L;
  std::vector<APInt> states; // constants written to the lock word
  bool closed = true;        // nothing else is
  void collect(Function &F) {
    for (auto &I : instructions(F)) {
      if (!writes(&I) || !onWord(ptr(&I), F)) continue;
      const Value *v = nullptr;
      if (auto *S = dyn_cast<StoreInst>(&I)) v = S->getValueOperand();
      else if (auto *X = dyn_cast<AtomicRMWInst>(&I); X && X->getOperation() == AtomicRMWInst::Xchg) v = X->getValOperand();
      else if (auto *X = dyn_cast<AtomicCmpXchgInst>(&I)) v = X->getNewValOperand();
      auto *C = dyn_cast_or_null<ConstantInt>(v);
      if (C) states.push_back(C->getValue()); else closed = false;
    }
  }
  explicit LockRules(Module &M) : M(M) {}
  void report(const Function &F, const Instruction *I, const std::string &what) {
    bad.push_back(json::Object{{"kind", "lock"}, {"probe", F.getName().str()}, {"text", what}, {"loc", I ? demangleLoc(I->getDebugLoc()) : "?"}});
  }
  static bool onWord(const Value *P, const Function &F) { return P->stripInBoundsOffsets() == F.getArg(0); }
  static bool writes(const Instruction *I) {
    return isa<StoreInst>(I) || isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I) || isa<MemIntrinsic>(I);
  }
  static const Value *ptr(const Instruction *I) {
    if (auto *S = dyn_cast<StoreInst>(I)) return S->getPointerOperand();
    if (auto *S = dyn_cast<LoadInst>(I)) return S->getPointerOperand();
    if (auto *R = dyn_cast<AtomicRMWInst>(I)) return R->getPointerOperand();
    if (auto *C = dyn_cast<AtomicCmpXchgInst>(I)) return C->getPointerOperand();
    if (auto *C = dyn_cast<MemIntrinsic>(I)) return C->getRawDest();
    return nullptr;
  }
  // is `to` reachable from just after `from` without executing `avoid`
  static bool reaches(const Instruction *from, const Instruction *to, const Instruction *avoid) {
    std::set<const BasicBlock *> seen;
    std::vector<const Instruction *> work{from->getNextNode()};
    while (!work.empty()) {
      const Instruction *I = work.back();
      work.pop_back();
      bool stopped = false;
      for (; I; I = I->getNextNode()) {
        if (I == avoid) { stopped = true; break; }
        if (I == to) return true;
        if (I->isTerminator()) break;
      }
      if (stopped || !I) continue;
      for (auto *S : successors(I->getParent())) if (seen.insert(S).second) work.push_back(&S->front());
    }
    return false;
  }
  void init(Function &F) {
    ++rules;
    std::vector<Instruction *> ws;
    for (auto &I : instructions(F)) if (writes(&I) && onWord(ptr(&I), F)) ws.push_back(&I);
    if (ws.empty()) { report(F, nullptr, "the constructor does not initialise the lock word"); return; }
    for (auto *I : ws) {
      ++sites;
      ConstantInt *C = nullptr;
      if (auto *S = dyn_cast<StoreInst>(I)) C = dyn_cast<ConstantInt>(S->getValueOperand());
      if (auto *S = dyn_cast<MemSetInst>(I)) C = dyn_cast<ConstantInt>(S->getValue());
      if (!C) { report(F, I, "the lock word is initialised with something else than a constant"); continue; }
      U = C->getValue();
    }
  }
  void lock(Function &F) {
    ++rules;
    DominatorTree DT(F);
    BitProv BP(F);
    // the word only ever holds one of the constants written to it: finding it free is telling it from all of the others
    auto eqU = [&](Value *V, const APInt *mask) {
      BV b = BP.get(V);
      APInt u = U->zextOrTrunc(b.size());
      bool known = closed;
      for (auto &s : states) {
        APInt v = s.zextOrTrunc(b.size());
        if (v == u) continue;
        bool differs = false;
        for (unsigned i = 0; i < b.size(); ++i) differs |= v[i] != u[i] && BP.simp(b[i]).kind == (u[i] ? 1 : 0);
        known &= differs;
      }
      if (known) return true;
      for (unsigned i = 0; i < b.size(); ++i) {
        if (mask && !(*mask)[i]) continue;
        Bit x = BP.simp(b[i]);
        if (x.kind != (u[i] ? 1 : 0)) return false;
      }
      return true;
    };
    std::vector<Instruction *> ws;
    for (auto &I : instructions(F)) {
      if (const Value *P = ptr(&I); P && onWord(P, F)) {
        ++sites;
        if (!I.isAtomic()) report(F, &I, "the lock word is accessed non-atomically");
        if (writes(&I)) ws.push_back(&I);
      } else if (auto *CB = dyn_cast<CallBase>(&I); CB && !isa<IntrinsicInst>(CB)) {
        for (auto &A : CB->args()) if (A->getType()->isPointerTy() && onWord(A, F) && !CB->onlyReadsMemory(CB->getArgOperandNo(&A)) && !CB->getCalledFunction()) report(F, &I, "the lock word is passed to an unknown function");
      }
    }
    unsigned rets = 0;
    for (auto &BB : F) {
      auto *R = dyn_cast<ReturnInst>(BB.getTerminator());
      if (!R) continue;
      ++rets;
      ++rules;
      BP.setContext(&BB);
      Instruction *good = nullptr;
      std::string why = "no atomic read-modify-write that found the lock free precedes the return";
      const Instruction *at = R;
      for (auto *W : ws) {
        if (!DT.dominates(W, R)) continue;
        bool succ = false;
        AtomicOrdering o = AtomicOrdering::NotAtomic;
        std::optional<APInt> nv;
        if (auto *X = dyn_cast<AtomicRMWInst>(W)) {
          o = X->getOrdering();
          APInt mask;
          bool masked = false;
          if (auto *C = dyn_cast<ConstantInt>(X->getValOperand()); C && X->getOperation() == AtomicRMWInst::Or && !C->isZero()) {
            mask = C->getValue();
            masked = true;
          }
          succ = eqU(X, masked ? &mask : nullptr);
          if (auto *C = dyn_cast<ConstantInt>(X->getValOperand())) {
            APInt c = C->getValue(), u = U->zextOrTrunc(c.getBitWidth());
            if (X->getOperation() == AtomicRMWInst::Xchg) nv = c;
            else if (X->getOperation() == AtomicRMWInst::Or) nv = u | c;
          }
        } else if (auto *X = dyn_cast<AtomicCmpXchgInst>(W)) {
          o = X->getSuccessOrdering();
          auto *E = dyn_cast<ConstantInt>(X->getCompareOperand());
          auto *C = dyn_cast<ConstantInt>(X->getNewValOperand());
          for (auto *Us : X->users())
            if (auto *EV = dyn_cast<ExtractValueInst>(Us); EV && EV->getIndices()[0] == 1) succ |= BP.simp(BP.get(EV)[0]).kind == 1;
          if (!E || E->getValue() != U->zextOrTrunc(E->getBitWidth())) succ = false;
          if (C) nv = C->getValue();
        } else continue;
        if (!succ) continue;
        at = W;
        if (!nv || *nv == U->zextOrTrunc(nv->getBitWidth())) { why = "taking the lock does not mark it as taken"; continue; }
        bool acq = isAcquireOrStronger(o);
        if (!acq)
          for (auto &I : instructions(F))
            if (auto *Fe = dyn_cast<FenceInst>(&I); Fe && isAcquireOrStronger(Fe->getOrdering()) && DT.dominates(W, Fe) && DT.dominates(Fe, R)) acq = true;
        if (!acq) { why = "the lock is taken without acquire ordering: accesses of the critical section may move before it"; continue; }
        bool undone = false;
        for (auto *V : ws) if (V != W && reaches(W, V, W) && reaches(V, R, W)) undone = true;
        if (undone) { why = "the lock word is written again after the lock was taken"; continue; }
        good = W;
        L = nv;
        break;
      }
      if (!good) report(F, at, why);
    }
    // a write that does not take the lock must not free it either
    for (auto *W : ws) {
      ++rules;
      if (auto *S = dyn_cast<StoreInst>(W)) report(F, S, "lock() overwrites the lock word regardless of its value");
      else if (auto *X = dyn_cast<AtomicRMWInst>(W); X && L) {
        auto *C = dyn_cast<ConstantInt>(X->getValOperand());
        bool keeps = C && (X->getOperation() == AtomicRMWInst::Xchg && C->getValue() == L->zextOrTrunc(C->getBitWidth()) || X->getOperation() == AtomicRMWInst::Or);
        if (!keeps) report(F, X, "a failed attempt to take the lock changes the lock word");
      }
    }
    if (!rets) report(F, nullptr, "lock() never returns");
  }
  void unlock(Function &F) {
    ++rules;
    std::set<const BasicBlock *> freed;
    DominatorTree DT(F);
    for (auto &I : instructions(F)) {
      const Value *P = ptr(&I);
      if (!P || !onWord(P, F)) continue;
      ++sites;
      if (!I.isAtomic()) { report(F, &I, "the lock word is accessed non-atomically"); continue; }
      if (!writes(&I)) continue;
      ConstantInt *C = nullptr;
      AtomicOrdering o = AtomicOrdering::NotAtomic;
      bool ok = false;
      if (auto *S = dyn_cast<StoreInst>(&I)) { C = dyn_cast<ConstantInt>(S->getValueOperand()); o = S->getOrdering(); ok = C && C->getValue() == U->zextOrTrunc(C->getBitWidth()); }
      else if (auto *X = dyn_cast<AtomicRMWInst>(&I)) {
        C = dyn_cast<ConstantInt>(X->getValOperand());
        o = X->getOrdering();
        ok = C && (X->getOperation() == AtomicRMWInst::Xchg && C->getValue() == U->zextOrTrunc(C->getBitWidth()) || X->getOperation() == AtomicRMWInst::And && C->isZero() && U->isZero());
      }
      if (!ok) { report(F, &I, "unlock() writes something else than the free state"); continue; }
      bool rel = isReleaseOrStronger(o);
      if (!rel)
        for (auto &J : instructions(F))
          if (auto *Fe = dyn_cast<FenceInst>(&J); Fe && isReleaseOrStronger(Fe->getOrdering()) && DT.dominates(Fe, &I)) rel = true;
      if (!rel) report(F, &I, "the lock is released without release ordering: accesses of the critical section may move after it");
      freed.insert(I.getParent());
    }
    // a path around all of the releasing writes
    std::set<const BasicBlock *> seen;
    std::vector<const BasicBlock *> work;
    if (!freed.count(&F.getEntryBlock())) work.push_back(&F.getEntryBlock());
    while (!work.empty()) {
      const BasicBlock *B = work.back();
      work.pop_back();
      if (!seen.insert(B).second) continue;
      if (isa<ReturnInst>(B->getTerminator())) report(F, B->getTerminator(), "unlock() can return without releasing the lock");
      for (auto *S : successors(B)) if (!freed.count(S)) work.push_back(S);
    }
  }
  int run(StringRef out) {
    Function *I = M.getFunction("sa_lock_init"), *Lk = M.getFunction("sa_lock_lock"), *Un = M.getFunction("sa_lock_unlock");
    if (!I || !Lk || !Un) { errs() << "no lock functions\n"; return 2; }
    init(*I);
    for (auto *F : {I, Lk, Un}) collect(*F);
    if (U) { lock(*Lk); unlock(*Un); }
    json::Array an;
    for (auto *F : {I, Lk, Un}) an.push_back(F->getName().str() + ": " + std::to_string(F->getInstructionCount()) + " instructions");
    std::error_code EC;
    raw_fd_ostream os(out, EC);
    os << formatv("{0:2}", json::Value(json::Object{{"residual", std::move(bad)}, {"sites", (int64_t)sites}, {"rules", (int64_t)rules}, {"analysed", std::move(an)}})) << "\n";
    return 0;
  }
};
} // namespace
