// ------------------------------------------------------------------------------------------------
// Order relations. A claim which is a boolean combination of comparisons is decided from the relation of each pair
// of compared values (less, equal, greater): it is discharged when it is true for every combination of relations
// that the dominating branches allow. Pure truth tables over the three outcomes; values are never looked at.
namespace {
struct OrderCases {
  Function &F;
  DominatorTree DT;
  unsigned decided = 0;
  using Pair = std::pair<Value *, Value *>;
  std::vector<Pair> pairs;
  std::vector<Value *> bools; // opaque conditions
  // outcome of a pair: 0 equal, 1 u< s<, 2 u< s>, 3 u> s<, 4 u> s>
  std::vector<int> env;
  std::vector<int> benv;
  std::map<Pair, std::pair<bool, bool>> uses; // unsigned, signed order used
  explicit OrderCases(Function &F) : F(F), DT(F) {}
  static Pair norm(Value *a, Value *b, bool &swap) {
    swap = std::less<Value *>()(b, a);
    return swap ? Pair{b, a} : Pair{a, b};
  }
  bool small(Value *V) {
    auto *I = dyn_cast<Instruction>(V);
    return isa<ConstantInt>(V) || (I && (isa<ZExtInst>(I) || isa<SExtInst>(I)) && I->getOperand(0)->getType()->isIntegerTy(1)) || (I && isa<SelectInst>(I) && small(I->getOperand(1)) && small(I->getOperand(2)));
  }
  bool collect(Value *V, int depth = 0) {
    if (depth > 24) return false;
    if (isa<ConstantInt>(V)) return true;
    auto *I = dyn_cast<Instruction>(V);
    if (I && V->getType()->isIntegerTy(1)) {
      if (auto *IC = dyn_cast<ICmpInst>(I)) {
        Value *a = IC->getOperand(0), *b = IC->getOperand(1);
        if (a->getType()->isIntegerTy(1) || (small(a) && small(b))) return collect(a, depth + 1) && collect(b, depth + 1);
        if (!a->getType()->isIntegerTy() && !a->getType()->isPointerTy()) return false;
        bool sw;
        Pair p = norm(a, b, sw);
        if (std::find(pairs.begin(), pairs.end(), p) == pairs.end()) pairs.push_back(p);
        if (ICmpInst::isUnsigned(IC->getPredicate())) uses[p].first = true;
        if (IC->isSigned()) uses[p].second = true;
        return true;
      }
      if (isa<BinaryOperator>(I) && (I->getOpcode() == Instruction::And || I->getOpcode() == Instruction::Or || I->getOpcode() == Instruction::Xor)) return collect(I->getOperand(0), depth + 1) && collect(I->getOperand(1), depth + 1);
      if (isa<SelectInst>(I)) return collect(I->getOperand(0), depth + 1) && collect(I->getOperand(1), depth + 1) && collect(I->getOperand(2), depth + 1);
    } else if (I && small(V)) {
      if (isa<SelectInst>(I)) return collect(I->getOperand(0), depth + 1) && collect(I->getOperand(1), depth + 1) && collect(I->getOperand(2), depth + 1);
      return collect(I->getOperand(0), depth + 1);
    }
    if (V->getType()->isIntegerTy(1)) {
      if (std::find(bools.begin(), bools.end(), V) == bools.end()) bools.push_back(V);
      return true;
    }
    return false;
  }
  APInt eval(Value *V) {
    if (auto *C = dyn_cast<ConstantInt>(V)) return C->getValue();
    unsigned w = V->getType()->getIntegerBitWidth();
    if (auto it = std::find(bools.begin(), bools.end(), V); it != bools.end()) return APInt(1, benv[it - bools.begin()]);
    auto *I = cast<Instruction>(V);
    if (auto *IC = dyn_cast<ICmpInst>(I)) {
      Value *a = IC->getOperand(0), *b = IC->getOperand(1);
      if (a->getType()->isIntegerTy(1) || (small(a) && small(b))) return APInt(1, ICmpInst::compare(eval(a), eval(b), IC->getPredicate()));
      bool sw;
      Pair p = norm(a, b, sw);
      int o = env[std::find(pairs.begin(), pairs.end(), p) - pairs.begin()];
      auto pr = sw ? IC->getSwappedPredicate() : IC->getPredicate();
      bool ult = o == 1 || o == 2, slt = o == 1 || o == 3, eq = o == 0;
      bool r = false;
      switch (pr) {
      case CmpInst::ICMP_EQ: r = eq; break;
      case CmpInst::ICMP_NE: r = !eq; break;
      case CmpInst::ICMP_ULT: r = ult; break;
      case CmpInst::ICMP_ULE: r = ult || eq; break;
      case CmpInst::ICMP_UGT: r = !ult && !eq; break;
      case CmpInst::ICMP_UGE: r = !ult; break;
      case CmpInst::ICMP_SLT: r = slt; break;
      case CmpInst::ICMP_SLE: r = slt || eq; break;
      case CmpInst::ICMP_SGT: r = !slt && !eq; break;
      default: r = !slt; break;
      }
      return APInt(1, r);
    }
    if (isa<SelectInst>(I)) return eval(I->getOperand(0)).isOne() ? eval(I->getOperand(1)) : eval(I->getOperand(2));
    if (isa<ZExtInst>(I)) return eval(I->getOperand(0)).zext(w);
    if (isa<SExtInst>(I)) return eval(I->getOperand(0)).sext(w);
    APInt a = eval(I->getOperand(0)), b = eval(I->getOperand(1));
    return I->getOpcode() == Instruction::And ? a & b : I->getOpcode() == Instruction::Or ? a | b : a ^ b;
  }
  bool holds(Value *C, BasicBlock *BB) {
    pairs.clear();
    bools.clear();
    uses.clear();
    if (!collect(C)) return false;
    // conditions of dominating branches (each value has one instance per visit of the block: facts about values whose
    // definition dominates the branch stay true below it)
    std::vector<std::pair<Value *, bool>> facts;
    for (DomTreeNode *N = DT.getNode(BB); N && N->getIDom(); N = N->getIDom()) {
      BasicBlock *B = N->getBlock(), *P = N->getIDom()->getBlock();
      auto *Br = dyn_cast<BranchInst>(P->getTerminator());
      if (!Br || !Br->isConditional() || Br->getSuccessor(0) == Br->getSuccessor(1)) continue;
      BasicBlockEdge e0(P, Br->getSuccessor(0)), e1(P, Br->getSuccessor(1));
      if (DT.dominates(e0, B)) facts.push_back({Br->getCondition(), true});
      else if (DT.dominates(e1, B)) facts.push_back({Br->getCondition(), false});
      if (facts.size() >= 12) break;
    }
    std::vector<std::pair<Value *, bool>> used;
    for (auto &f : facts) {
      auto sp = pairs;
      auto sb = bools;
      auto su = uses;
      if (collect(f.first) && bools.size() <= sb.size() + 1 && pairs.size() <= 6 && bools.size() <= 5) used.push_back(f);
      else { pairs = sp; bools = sb; uses = su; }
    }
    if (pairs.size() > 6 || bools.size() > 6) return false;
    std::vector<std::vector<int>> dom(pairs.size());
    for (unsigned i = 0; i < pairs.size(); ++i) {
      auto u = uses[pairs[i]];
      dom[i] = u.first && u.second ? std::vector<int>{0, 1, 2, 3, 4} : std::vector<int>{0, 1, 4};
    }
    std::vector<unsigned> k(pairs.size(), 0);
    env.assign(pairs.size(), 0);
    benv.assign(bools.size(), 0);
    for (;;) {
      for (unsigned i = 0; i < pairs.size(); ++i) env[i] = dom[i][k[i]];
      for (unsigned m = 0; m < (1u << bools.size()); ++m) {
        for (unsigned i = 0; i < bools.size(); ++i) benv[i] = m >> i & 1;
        bool ok = true;
        for (auto &f : used) ok = ok && eval(f.first).isOne() == f.second;
        if (ok && !eval(C).isOne()) return false;
      }
      unsigned i = 0;
      while (i < k.size() && ++k[i] == dom[i].size()) k[i++] = 0;
      if (i == k.size()) break;
    }
    return true;
  }
  void run() {
    for (auto &I : instructions(F))
      if (auto *CB = dyn_cast<CallInst>(&I)) {
        StringRef n = calleeName(*CB);
        if ((n == "sa_claim_id" || n == "sa_bound") && !isa<Constant>(CB->getArgOperand(0)) && holds(CB->getArgOperand(0), CB->getParent())) {
          CB->setArgOperand(0, ConstantInt::getTrue(F.getContext()));
          ++decided;
        }
      }
  }
};
// comparisons of few bytes, asked only for equality, become comparisons of the words
static void expandCompare(Function &F) {
  std::vector<CallInst *> cs;
  for (auto &I : instructions(F))
    if (auto *C = dyn_cast<CallInst>(&I); C && (calleeName(*C) == "bcmp" || calleeName(*C) == "memcmp") && C->arg_size() == 3)
      if (auto *N = dyn_cast<ConstantInt>(C->getArgOperand(2)); N && N->getZExtValue() <= 64) {
        bool eqOnly = true;
        for (auto *U : C->users()) {
          auto *IC = dyn_cast<ICmpInst>(U);
          eqOnly &= IC && IC->isEquality() && (match(IC->getOperand(0), PatternMatch::m_Zero()) || match(IC->getOperand(1), PatternMatch::m_Zero()));
        }
        if (eqOnly) cs.push_back(C);
      }
  for (auto *C : cs) {
    uint64_t n = cast<ConstantInt>(C->getArgOperand(2))->getZExtValue();
    IRBuilder<> B(C);
    unsigned step = n % 4 ? 1 : 4;
    Value *diff = B.getFalse();
    for (uint64_t i = 0; i < n; i += step) {
      auto ld = [&](Value *P) { return B.CreateAlignedLoad(B.getIntNTy(step * 8), B.CreateConstInBoundsGEP1_64(B.getInt8Ty(), P, i), Align(1)); };
      diff = B.CreateOr(diff, B.CreateICmpNE(ld(C->getArgOperand(0)), ld(C->getArgOperand(1))));
    }
    C->replaceAllUsesWith(B.CreateZExt(diff, C->getType()));
    C->eraseFromParent();
  }
}
// A claim about a value that depends on the way its block was reached becomes one claim per way.
static bool splitClaims(Function &F, unsigned budget) {
  bool any = false;
  while (budget--) {
    DominatorTree DT(F);
    LoopInfo LI(DT);
    CallInst *Pick = nullptr;
    std::vector<Instruction *> expr; // in order of evaluation
    for (auto &BB : F) {
      if (!DT.isReachableFromEntry(&BB) || LI.isLoopHeader(&BB) || pred_size(&BB) < 2 || pred_size(&BB) > 8) continue;
      SmallPtrSet<BasicBlock *, 8> ps(pred_begin(&BB), pred_end(&BB));
      if (ps.size() != pred_size(&BB)) continue;
      bool bad = false;
      for (auto *P : ps) bad |= !isa<BranchInst>(P->getTerminator()) || !DT.isReachableFromEntry(P);
      if (bad) continue;
      for (auto &I : BB) {
        auto *CB = dyn_cast<CallInst>(&I);
        if (!CB || calleeName(*CB) != "sa_claim_id" || isa<Constant>(CB->getArgOperand(0))) continue;
        SmallPtrSet<Value *, 16> seen;
        expr.clear();
        bool phi = false, ok = true;
        std::function<void(Value *)> go = [&](Value *V) {
          auto *I = dyn_cast<Instruction>(V);
          if (!ok || !I || I->getParent() != &BB || !seen.insert(V).second) return;
          if (isa<PHINode>(I)) { phi = true; return; }
          if (expr.size() > 40 || !(isa<ICmpInst>(I) || isa<BinaryOperator>(I) || isa<SelectInst>(I) || isa<CastInst>(I) || isa<GetElementPtrInst>(I) || isa<FreezeInst>(I))) { ok = false; return; }
          for (auto &O : I->operands()) go(O.get());
          expr.push_back(I);
        };
        go(CB->getArgOperand(0));
        if (ok && phi) { Pick = CB; break; }
      }
      if (Pick) break;
    }
    if (!Pick) return any;
    auto *BB = Pick->getParent();
    std::vector<BasicBlock *> ps(pred_begin(BB), pred_end(BB));
    for (auto *P : ps) {
      auto *E = SplitEdge(P, BB);
      ValueToValueMapTy map;
      for (auto &Ph : BB->phis()) map[&Ph] = Ph.getIncomingValueForBlock(E);
      auto *At = E->getTerminator();
      for (auto *I : expr) {
        auto *N = I->clone();
        RemapInstruction(N, map, RF_IgnoreMissingLocals | RF_NoModuleLevelChanges);
        N->insertBefore(At);
        map[I] = N;
      }
      auto *N = Pick->clone();
      RemapInstruction(N, map, RF_IgnoreMissingLocals | RF_NoModuleLevelChanges);
      N->insertBefore(At);
    }
    Pick->eraseFromParent();
    any = true;
  }
  return any;
}
} // namespace
