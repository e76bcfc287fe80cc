// Equalities and disequalities that hold on the way to a comparison (congruence over the dominating branches) decide it.
namespace {
static bool equalities(Function &F) {
  using namespace PatternMatch;
  DominatorTree DT(F);
  bool changed = false;
  for (auto &BB : F) {
    if (!DT.isReachableFromEntry(&BB)) continue;
    std::vector<ICmpInst *> ask;
    for (auto &I : BB)
      if (auto *IC = dyn_cast<ICmpInst>(&I); IC && IC->isEquality() && !IC->use_empty() && IC->getOperand(0)->getType()->isIntOrPtrTy()) ask.push_back(IC);
    if (ask.empty()) continue;
    std::map<Value *, Value *> up;
    std::function<Value *(Value *)> find = [&](Value *v) {
      while (up.count(v)) v = up[v];
      return v;
    };
    std::vector<std::pair<Value *, Value *>> ne;
    std::function<void(Value *, bool, int)> fact = [&](Value *C, bool t, int depth) {
      Value *a, *b;
      if (depth > 8) return;
      if (match(C, m_Not(m_Value(a)))) return fact(a, !t, depth + 1);
      if (t ? match(C, m_LogicalAnd(m_Value(a), m_Value(b))) : match(C, m_LogicalOr(m_Value(a), m_Value(b)))) {
        fact(a, t, depth + 1);
        fact(b, t, depth + 1);
        return;
      }
      auto *IC = dyn_cast<ICmpInst>(C);
      if (!IC || !IC->isEquality() || !IC->getOperand(0)->getType()->isIntOrPtrTy()) return;
      Value *x = IC->getOperand(0), *y = IC->getOperand(1);
      if ((IC->getPredicate() == ICmpInst::ICMP_EQ) == t) {
        x = find(x);
        y = find(y);
        if (x == y) return;
        if (isa<Constant>(x)) std::swap(x, y); // a constant represents its class
        up[x] = y;
      } else ne.push_back({x, y});
    };
    for (auto *N = DT.getNode(&BB); N && N->getIDom(); N = N->getIDom()) {
      BasicBlock *D = N->getIDom()->getBlock();
      auto *Br = dyn_cast<BranchInst>(D->getTerminator());
      if (!Br || !Br->isConditional() || Br->getSuccessor(0) == Br->getSuccessor(1)) continue;
      for (int s = 0; s < 2; ++s)
        if (DT.dominates(BasicBlockEdge(D, Br->getSuccessor(s)), &BB)) fact(Br->getCondition(), s == 0, 0);
    }
    if (up.empty() && ne.empty()) continue;
    for (auto *IC : ask) {
      Value *x = find(IC->getOperand(0)), *y = find(IC->getOperand(1));
      int known = -1;
      if (x == y) known = 1;
      else if (isa<ConstantInt>(x) && isa<ConstantInt>(y)) known = 0;
      else
        for (auto &p : ne) {
          Value *u = find(p.first), *v = find(p.second);
          if ((u == x && v == y) || (u == y && v == x)) { known = 0; break; }
        }
      if (known < 0) continue;
      IC->replaceAllUsesWith(ConstantInt::getBool(F.getContext(), (IC->getPredicate() == ICmpInst::ICMP_EQ) == (known == 1)));
      changed = true;
    }
  }
  return changed;
}
} // namespace
