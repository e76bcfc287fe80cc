// Equality of integer expressions as polynomials over whatever they are computed from (modulo 2^width).
using Monomial = std::vector<Value *>;
using Poly = std::map<Monomial, APInt>;
static bool polyOf(Value *V, Poly &P, unsigned depth) {
  unsigned w = V->getType()->getIntegerBitWidth();
  auto atom = [&]() { P[{V}] = APInt(w, 1); return true; };
  if (auto *C = dyn_cast<ConstantInt>(V)) { if (!C->isZero()) P[{}] = C->getValue(); return true; }
  if (depth == 0) return atom();
  unsigned op = 0;
  Value *A = nullptr, *B = nullptr;
  if (auto *T = dyn_cast<TruncInst>(V)) { // truncation is a homomorphism: an atom stands for its own truncation
    Poly X;
    if (!polyOf(T->getOperand(0), X, depth - 1)) return false;
    for (auto &x : X)
      if (APInt c = x.second.trunc(w); !c.isZero()) P[x.first] = c;
    return true;
  }
  if (auto *O = dyn_cast<BinaryOperator>(V)) { op = O->getOpcode(); A = O->getOperand(0); B = O->getOperand(1); }
  else if (auto *E = dyn_cast<ExtractValueInst>(V)) {
    if (auto *W = dyn_cast<WithOverflowInst>(E->getAggregateOperand()); W && E->getIndices()[0] == 0) { op = W->getBinaryOp(); A = W->getLHS(); B = W->getRHS(); }
  }
  if (op == Instruction::Shl) {
    auto *C = dyn_cast<ConstantInt>(B);
    if (!C || C->getValue().uge(w)) return atom();
    B = ConstantInt::get(V->getType(), APInt(w, 1).shl(C->getZExtValue()));
    op = Instruction::Mul;
  }
  if (op != Instruction::Add && op != Instruction::Sub && op != Instruction::Mul) return atom();
  Poly X, Y;
  if (!polyOf(A, X, depth - 1) || !polyOf(B, Y, depth - 1)) return false;
  if (op == Instruction::Mul) {
    if (X.size() * Y.size() > 64) return false;
    for (auto &x : X)
      for (auto &y : Y) {
        Monomial m = x.first;
        m.insert(m.end(), y.first.begin(), y.first.end());
        if (m.size() > 12) return false;
        std::sort(m.begin(), m.end());
        auto I = P.try_emplace(m, APInt(w, 0)).first;
        I->second += x.second * y.second;
      }
  } else {
    P = X;
    for (auto &y : Y) {
      auto I = P.try_emplace(y.first, APInt(w, 0)).first;
      if (op == Instruction::Add) I->second += y.second; else I->second -= y.second;
    }
  }
  for (auto I = P.begin(); I != P.end();) I = I->second.isZero() ? P.erase(I) : std::next(I);
  return P.size() <= 64;
}
static bool polynomials(Function &F) {
  bool changed = false;
    for (auto &BB : F)
      for (auto &I : BB) {
        auto *C = dyn_cast<ICmpInst>(&I);
        if (!C || !C->isEquality() || !C->getOperand(0)->getType()->isIntegerTy() || C->use_empty()) continue;
        auto interesting = [](Value *V) { auto *O = dyn_cast<BinaryOperator>(V); return isa<ExtractValueInst>(V) || isa<TruncInst>(V) || (O && (O->getOpcode() == Instruction::Mul || O->getOpcode() == Instruction::Shl || O->getOpcode() == Instruction::Add || O->getOpcode() == Instruction::Sub)); };
        if (!interesting(C->getOperand(0)) || !interesting(C->getOperand(1))) continue;
        Poly X, Y;
        if (!polyOf(C->getOperand(0), X, 12) || !polyOf(C->getOperand(1), Y, 12)) continue;
        if (X == Y) { C->replaceAllUsesWith(ConstantInt::getBool(C->getType(), C->getPredicate() == ICmpInst::ICMP_EQ)); changed = true; }
      }
  return changed;
}
// A sum of population counts is at its largest exactly when every bit that can be set is, and zero when none is.
static bool popcounts(Function &F) {
  bool changed = false;
  const DataLayout &DL = F.getParent()->getDataLayout();
  std::vector<ICmpInst *> cmps;
  for (auto &I : instructions(F))
    if (auto *C = dyn_cast<ICmpInst>(&I); C && C->isEquality() && isa<ConstantInt>(C->getOperand(1)) && !C->use_empty()) cmps.push_back(C);
  for (auto *C : cmps) {
    std::vector<Value *> work{C->getOperand(0)};
    std::vector<IntrinsicInst *> pops;
    uint64_t fixed = 0;
    bool ok = true;
    while (!work.empty() && ok) {
      Value *V = work.back();
      work.pop_back();
      if (auto *Z = dyn_cast<ZExtInst>(V)) work.push_back(Z->getOperand(0));
      else if (auto *T = dyn_cast<TruncInst>(V); T && T->getType()->getIntegerBitWidth() >= 16) work.push_back(T->getOperand(0));
      else if (auto *B = dyn_cast<BinaryOperator>(V); B && B->getOpcode() == Instruction::Add) { work.push_back(B->getOperand(0)); work.push_back(B->getOperand(1)); }
      else if (auto *K = dyn_cast<ConstantInt>(V); K && K->getValue().ult(1 << 10)) fixed += K->getZExtValue();
      else if (auto *P = dyn_cast<IntrinsicInst>(V); P && P->getIntrinsicID() == Intrinsic::ctpop) pops.push_back(P);
      else ok = false;
      if (pops.size() > 16) ok = false;
    }
    if (!ok || pops.empty()) continue;
    uint64_t most = fixed, c = cast<ConstantInt>(C->getOperand(1))->getZExtValue();
    IRBuilder<> B(C);
    std::vector<APInt> can;
    for (auto *P : pops) { can.push_back(~computeKnownBits(P->getArgOperand(0), DL).Zero); most += can.back().popcount(); }
    Value *R = nullptr;
    if (c < fixed || c > most) R = B.getFalse();
    else if (c == most || c == fixed)
      for (size_t i = 0; i < pops.size(); ++i) {
        Value *e = B.CreateICmpEQ(pops[i]->getArgOperand(0), ConstantInt::get(pops[i]->getType(), c == most ? can[i] : APInt(can[i].getBitWidth(), 0)));
        R = R ? B.CreateAnd(R, e) : e;
      }
    if (!R) continue;
    if (C->getPredicate() == ICmpInst::ICMP_NE) R = B.CreateNot(R);
    C->replaceAllUsesWith(R);
    changed = true;
  }
  return changed;
}

// y + ~x is y - (x + 1)
static void complements(Function &F) {
  using namespace PatternMatch;
  for (auto &BB : F)
    for (auto It = BB.begin(); It != BB.end();) {
      auto *O = dyn_cast<BinaryOperator>(&*It++);
      if (!O || O->getOpcode() != Instruction::Add || !O->getType()->isIntegerTy()) continue;
      for (unsigned k = 0; k < 2; ++k) {
        Value *X = nullptr;
        if (!match(O->getOperand(k), m_Not(m_Value(X)))) continue;
        IRBuilder<> B(O);
        auto *R = B.CreateSub(O->getOperand(1 - k), B.CreateAdd(X, ConstantInt::get(X->getType(), 1)));
        if (auto *I = dyn_cast<Instruction>(R)) I->takeName(O);
        O->replaceAllUsesWith(R);
        O->eraseFromParent();
        break;
      }
    }
}
// x % (a * b) / b is x / b - x / (a * b) * a (the signs of the quotients are those of x)
static bool divisions(Function &F) {
  bool changed = false;
  for (auto &BB : F)
    for (auto It = BB.begin(); It != BB.end();) {
      auto *O = dyn_cast<BinaryOperator>(&*It++);
      if (!O || !O->getType()->isIntegerTy() || (O->getOpcode() != Instruction::SDiv && O->getOpcode() != Instruction::UDiv)) continue;
      using namespace PatternMatch;
      bool sign = O->getOpcode() == Instruction::SDiv;
      auto *D = dyn_cast<ConstantInt>(O->getOperand(1));
      Value *R = O->getOperand(0), *X = nullptr, *Q = nullptr;
      bool narrow = !sign && match(R, m_Trunc(m_Value(R)));
      const APInt *C = nullptr, *K = nullptr;
      if (sign ? match(R, m_SRem(m_Value(X), m_APInt(C))) : match(R, m_URem(m_Value(X), m_APInt(C)))) {}
      else if (match(R, m_c_Add(m_Mul(m_Value(Q), m_APInt(K)), m_Value(X))) &&
               (sign ? match(Q, m_SDiv(m_Specific(X), m_APInt(C))) : match(Q, m_UDiv(m_Specific(X), m_APInt(C)))) && (*C + *K).isZero()) {}
      else if (sign && (match(R, m_URem(m_Value(X), m_APInt(C))) || (match(R, m_c_Add(m_Mul(m_Value(Q), m_APInt(K)), m_Value(X))) && match(Q, m_UDiv(m_Specific(X), m_APInt(C))) && (*C + *K).isZero())) &&
               !C->isNegative() && D && !D->isNegative()) sign = false; // the remainder is below C
      else continue;
      if (!D || D->isZero() || C->isZero() || (sign && (C->isNegative() || D->isNegative()))) continue;
      if (narrow && C->getActiveBits() > D->getBitWidth()) continue;
      APInt d = D->getValue().zext(C->getBitWidth());
      if (!C->urem(d).isZero()) continue;
      IRBuilder<> B(O);
      auto div = [&](const APInt &by) { auto *k = ConstantInt::get(X->getType(), by); return sign ? B.CreateSDiv(X, k) : B.CreateUDiv(X, k); };
      Value *N = B.CreateSub(div(d), B.CreateMul(div(*C), ConstantInt::get(X->getType(), C->udiv(d))));
      if (narrow) N = B.CreateTrunc(N, O->getType());
      O->replaceAllUsesWith(N);
      O->eraseFromParent();
      changed = true;
    }
  return changed;
}
