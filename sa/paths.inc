// Path-sensitive analysis: merges of control flow are undone (the blocks behind them duplicated, one copy per way of
// getting there) within a budget, so that what holds on one way is not lost at the merge.
namespace {
// cases of a switch that the dominating comparisons exclude
static bool pruneSwitches(Function &F) {
  DominatorTree DT(F);
  bool changed = false;
  for (auto &BB : F) {
    auto *S = dyn_cast<SwitchInst>(BB.getTerminator());
    if (!S || !DT.isReachableFromEntry(&BB)) continue;
    std::vector<ConstantInt *> drop;
    for (auto &c : S->cases()) {
      auto *C = c.getCaseValue();
      bool no = false;
      for (auto *N = DT.getNode(&BB); N && N->getIDom() && !no; N = N->getIDom()) {
        BasicBlock *D = N->getIDom()->getBlock();
        if (auto *Br = dyn_cast<BranchInst>(D->getTerminator()); Br && Br->isConditional() && Br->getSuccessor(0) != Br->getSuccessor(1)) {
          auto *I = dyn_cast<ICmpInst>(Br->getCondition());
          if (!I || I->getOperand(0) != S->getCondition()) continue;
          auto *K = dyn_cast<ConstantInt>(I->getOperand(1));
          if (!K) continue;
          bool t = ICmpInst::compare(C->getValue(), K->getValue(), I->getPredicate());
          if (DT.dominates(BasicBlockEdge(D, Br->getSuccessor(t ? 1 : 0)), &BB)) no = true;
        } else if (auto *O = dyn_cast<SwitchInst>(D->getTerminator()); O && O->getCondition() == S->getCondition()) {
          // a dominating switch on the same value sends it elsewhere
          BasicBlock *to = O->findCaseValue(C)->getCaseSuccessor();
          for (auto *T : successors(D)) {
            if (T == to) continue;
            unsigned n = 0;
            for (auto *U : successors(D)) n += U == T;
            if (n == 1 && DT.dominates(BasicBlockEdge(D, T), &BB)) no = true;
          }
        }
      }
      if (no) drop.push_back(C);
    }
    for (auto *C : drop) {
      auto it = S->findCaseValue(C);
      it->getCaseSuccessor()->removePredecessor(&BB, true);
      S->removeCase(it);
      changed = true;
    }
  }
  return changed;
}
// choices become branches
static void choicesToBranches(Function &F) {
  using namespace PatternMatch;
  for (int n = 0; n < 400; ++n) {
    Instruction *Pick = nullptr;
    for (auto &I : instructions(F)) {
      if (auto *S = dyn_cast<SelectInst>(&I); S && !S->getType()->isVectorTy() && !S->getCondition()->getType()->isVectorTy()) {
        if (S->use_empty()) continue;
        Pick = S;
        break;
      }
      if (auto *Br = dyn_cast<BranchInst>(&I); Br && Br->isConditional() && Br->getSuccessor(0) != Br->getSuccessor(1)) {
        Value *a, *b;
        if (match(Br->getCondition(), m_Not(m_Value(a))) || match(Br->getCondition(), m_And(m_Value(a), m_Value(b))) || match(Br->getCondition(), m_Or(m_Value(a), m_Value(b)))) { Pick = Br; break; }
      }
    }
    if (!Pick) return;
    if (auto *S = dyn_cast<SelectInst>(Pick)) {
      BasicBlock *H = S->getParent();
      BasicBlock *T = SplitBlock(H, S);
      BasicBlock *A = BasicBlock::Create(F.getContext(), "", &F, T), *B = BasicBlock::Create(F.getContext(), "", &F, T);
      BranchInst::Create(T, A);
      BranchInst::Create(T, B);
      H->getTerminator()->eraseFromParent();
      BranchInst::Create(A, B, S->getCondition(), H);
      auto *P = PHINode::Create(S->getType(), 2, "", &*T->begin());
      P->addIncoming(S->getTrueValue(), A);
      P->addIncoming(S->getFalseValue(), B);
      S->replaceAllUsesWith(P);
      S->eraseFromParent();
    } else {
      auto *Br = cast<BranchInst>(Pick);
      Value *a = nullptr, *b = nullptr;
      if (match(Br->getCondition(), m_Not(m_Value(a)))) { Br->setCondition(a); Br->swapSuccessors(); continue; }
      bool isAnd = match(Br->getCondition(), m_And(m_Value(a), m_Value(b)));
      if (!isAnd) match(Br->getCondition(), m_Or(m_Value(a), m_Value(b)));
      BasicBlock *H = Br->getParent(), *T = Br->getSuccessor(0), *E = Br->getSuccessor(1);
      BasicBlock *N = BasicBlock::Create(F.getContext(), "", &F, H->getNextNode());
      BranchInst::Create(T, E, b, N);
      BasicBlock *both = isAnd ? E : T, *one = isAnd ? T : E;
      for (auto &P : one->phis()) P.setIncomingBlock(P.getBasicBlockIndex(H), N);
      for (auto &P : both->phis()) P.addIncoming(P.getIncomingValueForBlock(H), N);
      BranchInst::Create(isAnd ? N : T, isAnd ? E : N, a, H);
      Br->eraseFromParent();
    }
  }
}
static bool isObligation(const Instruction &I) {
  auto *CB = dyn_cast<CallBase>(&I);
  if (!CB) return false;
  if (auto *II = dyn_cast<IntrinsicInst>(CB)) return II->getIntrinsicID() == Intrinsic::trap || II->getIntrinsicID() == Intrinsic::ubsantrap;
  StringRef f = calleeName(*CB);
  return f == "sa_claim_id" || f == "sa_bound" || f == "sa_uncaught" || endsProgram(*CB) || f == "sa_reach_id";
}
// F has no phis and no values that live across blocks (reg2mem)
static bool expandPaths(Function &F, unsigned budget) {
  // blocks from which an obligation can still be met
  std::set<BasicBlock *> live;
  std::vector<BasicBlock *> work;
  for (auto &BB : F)
    for (auto &I : BB)
      if (isObligation(I)) { live.insert(&BB); work.push_back(&BB); break; }
  while (!work.empty()) {
    auto *B = work.back();
    work.pop_back();
    for (auto *P : predecessors(B)) if (live.insert(P).second) work.push_back(P);
  }
  unsigned made = 0;
  std::deque<BasicBlock *> q{&F.getEntryBlock()};
  std::set<BasicBlock *> owned{&F.getEntryBlock()}; // blocks of the tree
  while (!q.empty()) {
    BasicBlock *B = q.front();
    q.pop_front();
    auto *T = B->getTerminator();
    for (unsigned s = 0; s < T->getNumSuccessors(); ++s) {
      BasicBlock *S = T->getSuccessor(s);
      if (!live.count(S)) continue;
      if (pred_size(S) == 1 && !owned.count(S)) { owned.insert(S); q.push_back(S); continue; }
      if (made >= budget) return true;
      ValueToValueMapTy map;
      BasicBlock *N = CloneBasicBlock(S, map, "", &F);
      for (auto &I : *N) RemapInstruction(&I, map, RF_IgnoreMissingLocals | RF_NoModuleLevelChanges);
      T->setSuccessor(s, N);
      live.insert(N);
      owned.insert(N);
      q.push_back(N);
      ++made;
    }
  }
  return made > 0;
}
} // namespace
