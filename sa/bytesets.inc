// Conditions that depend on one byte only are sets of byte values: they are written in one form (a pure call naming the
// set), so that differently spelt tests of the same set are one value, and decided where the dominating tests settle them.
namespace {
struct ByteSets {
  using Set = std::bitset<256>;
  Function &F;
  Module &M;
  DominatorTree DT;
  explicit ByteSets(Function &F) : F(F), M(*F.getParent()), DT(F) {}

  static std::vector<Set> &sets() { static std::vector<Set> s; return s; }
  static Function *setFn(Module &M, const Set &s) {
    auto &v = sets();
    size_t k = 0;
    while (k != v.size() && v[k] != s) ++k;
    if (k == v.size()) v.push_back(s);
    auto &C = M.getContext();
    auto FC = M.getOrInsertFunction("sa_set_" + std::to_string(k), Type::getInt1Ty(C), Type::getInt8Ty(C));
    auto *f = cast<Function>(FC.getCallee());
    f->setMemoryEffects(MemoryEffects::none());
    f->addFnAttr(Attribute::NoUnwind);
    f->addFnAttr(Attribute::WillReturn);
    f->addFnAttr(Attribute::Speculatable);
    return f;
  }
  static const Set *setOf(const Value *V) {
    auto *CB = dyn_cast<CallInst>(V);
    if (!CB || !CB->getCalledFunction()) return nullptr;
    StringRef n = CB->getCalledFunction()->getName();
    if (!n.consume_front("sa_set_")) return nullptr;
    unsigned k;
    if (n.getAsInteger(10, k) || k >= sets().size()) return nullptr;
    return &sets()[k];
  }
  // the only byte V is computed from
  bool source(Value *V, Value *&x, int &budget) {
    if (--budget < 0) return false;
    if (isa<ConstantInt>(V)) return true;
    if (!V->getType()->isIntegerTy() || V->getType()->getIntegerBitWidth() > 64) return false;
    auto *I = dyn_cast<Instruction>(V);
    if (I) {
      switch (I->getOpcode()) {
      case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc:
      case Instruction::Add: case Instruction::Sub: case Instruction::And: case Instruction::Or: case Instruction::Xor:
      case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::ICmp: case Instruction::Select: case Instruction::Freeze: {
        Value *keep = x;
        int b = budget;
        bool ok = true;
        for (auto &O : I->operands())
          if (!source(O, x, budget)) { ok = false; break; }
        if (ok) return true;
        x = keep;
        budget = b;
        break;
      }
      case Instruction::Call:
        if (setOf(I)) return source(I->getOperand(0), x, budget);
        break;
      default: break;
      }
    }
    if (V->getType()->getIntegerBitWidth() != 8) return false;
    // a truth value, rather than a byte
    if (I && (isa<ZExtInst>(I) || isa<SExtInst>(I)) && I->getOperand(0)->getType()->isIntegerTy(1)) return false;
    if (I && isa<SelectInst>(I) && isa<ConstantInt>(I->getOperand(1)) && isa<ConstantInt>(I->getOperand(2))) return false;
    if (x && x != V) return false;
    x = V;
    return true;
  }
  bool eval(Value *V, Value *x, unsigned xv, APInt &r, int &budget) {
    if (--budget < 0) return false;
    if (auto *C = dyn_cast<ConstantInt>(V)) { r = C->getValue(); return true; }
    if (V == x) { r = APInt(8, xv); return true; }
    auto *I = dyn_cast<Instruction>(V);
    if (!I) return false;
    unsigned w = V->getType()->getIntegerBitWidth();
    APInt a, b, c;
    if (!eval(I->getOperand(0), x, xv, a, budget)) return false;
    switch (I->getOpcode()) {
    case Instruction::ZExt: r = a.zext(w); return true;
    case Instruction::SExt: r = a.sext(w); return true;
    case Instruction::Trunc: r = a.trunc(w); return true;
    case Instruction::Freeze: r = a; return true;
    case Instruction::Call: { auto *s = setOf(I); if (!s) return false; r = APInt(1, (*s)[a.getZExtValue()]); return true; }
    case Instruction::Select:
      return eval(I->getOperand(a.isZero() ? 2 : 1), x, xv, r, budget);
    default: break;
    }
    if (I->getNumOperands() < 2 || !eval(I->getOperand(1), x, xv, b, budget)) return false;
    switch (I->getOpcode()) {
    case Instruction::Add: r = a + b; return true;
    case Instruction::Sub: r = a - b; return true;
    case Instruction::And: r = a & b; return true;
    case Instruction::Or: r = a | b; return true;
    case Instruction::Xor: r = a ^ b; return true;
    case Instruction::Shl: if (b.uge(w)) return false; r = a.shl(b); return true;
    case Instruction::LShr: if (b.uge(w)) return false; r = a.lshr(b); return true;
    case Instruction::AShr: if (b.uge(w)) return false; r = a.ashr(b); return true;
    case Instruction::ICmp: r = APInt(1, ICmpInst::compare(a, b, cast<ICmpInst>(I)->getPredicate())); return true;
    default: return false;
    }
  }
  struct Cond { Value *x = nullptr; Set s; };
  std::map<Value *, std::optional<Cond>> memo;
  const Cond *cond(Value *V) {
    auto it = memo.find(V);
    if (it != memo.end()) return it->second ? &*it->second : nullptr;
    auto &slot = memo[V];
    Value *x = nullptr;
    int budget = 60;
    if (!V->getType()->isIntegerTy(1) || !isa<Instruction>(V) || !source(V, x, budget) || !x) return nullptr;
    Cond c;
    c.x = x;
    for (unsigned k = 0; k < 256; ++k) {
      APInt r;
      int b = 200;
      if (!eval(V, x, k, r, b)) return nullptr;
      c.s[k] = !r.isZero();
    }
    slot = c;
    return &*slot;
  }
  void learn(std::map<Value *, Set> &known, Value *C, bool truth, int depth = 0) {
    using namespace PatternMatch;
    if (auto *c = cond(C)) {
      auto it = known.find(c->x);
      Set s = truth ? c->s : ~c->s;
      if (it == known.end()) known[c->x] = s;
      else it->second &= s;
      return;
    }
    Value *a, *b;
    if (depth > 6) return;
    if (match(C, m_Not(m_Value(a)))) return learn(known, a, !truth, depth + 1);
    if (truth && match(C, m_LogicalAnd(m_Value(a), m_Value(b)))) { learn(known, a, true, depth + 1); learn(known, b, true, depth + 1); }
    if (!truth && match(C, m_LogicalOr(m_Value(a), m_Value(b)))) { learn(known, a, false, depth + 1); learn(known, b, false, depth + 1); }
  }
  // switches over a byte become chains of tests
  bool switches() {
    std::vector<SwitchInst *> work;
    for (auto &BB : F)
      if (auto *S = dyn_cast<SwitchInst>(BB.getTerminator())) {
        Value *x = nullptr;
        int budget = 60;
        if (source(S->getCondition(), x, budget) && x) work.push_back(S);
      }
    for (auto *S : work) {
      BasicBlock *BB = S->getParent();
      Value *x = nullptr;
      int budget = 60;
      source(S->getCondition(), x, budget);
      BasicBlock *Def = S->getDefaultDest();
      MapVector<BasicBlock *, Set> to;
      bool ok = true;
      for (unsigned k = 0; k < 256 && ok; ++k) {
        APInt r;
        int b = 200;
        if (!eval(S->getCondition(), x, k, r, b)) { ok = false; break; }
        auto c = S->findCaseValue(ConstantInt::get(F.getContext(), r));
        BasicBlock *T = c->getCaseSuccessor();
        if (T != Def) to[T][k] = true;
      }
      if (!ok) continue;
      // edges to remove: all but one per successor
      std::set<BasicBlock *> succ(succ_begin(BB), succ_end(BB));
      std::map<BasicBlock *, unsigned> edges;
      for (auto *T : successors(BB)) ++edges[T];
      for (auto &e : edges)
        for (auto &P : e.first->phis()) {
          unsigned n = e.second;
          for (int i = (int)P.getNumIncomingValues() - 1; i >= 0 && n > 1; --i)
            if (P.getIncomingBlock(i) == BB) { P.removeIncomingValue(i, false); --n; }
        }
      IRBuilder<> B(S);
      BasicBlock *cur = BB;
      std::set<BasicBlock *> used;
      for (auto &t : to) {
        BasicBlock *next = BasicBlock::Create(F.getContext(), "", &F, cur->getNextNode());
        Value *c = B.CreateCall(setFn(M, t.second), {x});
        auto *Br = B.CreateCondBr(c, t.first, next);
        (void)Br;
        for (auto &P : t.first->phis())
          for (unsigned i = 0; i < P.getNumIncomingValues(); ++i)
            if (P.getIncomingBlock(i) == BB && cur != BB) P.setIncomingBlock(i, cur);
        used.insert(t.first);
        if (cur == BB) S->eraseFromParent();
        cur = next;
        B.SetInsertPoint(cur);
      }
      if (cur == BB) { S->eraseFromParent(); B.SetInsertPoint(cur); }
      B.CreateBr(Def);
      for (auto &P : Def->phis())
        for (unsigned i = 0; i < P.getNumIncomingValues(); ++i)
          if (P.getIncomingBlock(i) == BB && cur != BB) P.setIncomingBlock(i, cur);
      for (auto *T : succ)
        if (T != Def && !used.count(T))
          for (auto I = T->begin(); auto *P = dyn_cast<PHINode>(&*I);) {
            ++I;
            int k = P->getBasicBlockIndex(BB);
            if (k >= 0) P->removeIncomingValue(k, true);
          }
    }
    return !work.empty();
  }
  bool run() {
    bool changed = switches();
    if (changed) { DT.recalculate(F); memo.clear(); EliminateUnreachableBlocks(F); DT.recalculate(F); }
    std::vector<std::pair<Instruction *, Value *>> repl;
    for (auto &BB : F) {
      if (!DT.isReachableFromEntry(&BB)) continue;
      std::map<Value *, Set> known;
      bool have = false;
      for (auto &I : BB) {
        if (auto *s = setOf(&I))
          if (auto *C = dyn_cast<ConstantInt>(I.getOperand(0))) { repl.push_back({&I, ConstantInt::getBool(F.getContext(), (*s)[C->getZExtValue()])}); continue; }
        if (auto *s = setOf(&I))
          if (auto *O = dyn_cast<Instruction>(I.getOperand(0))) {
            // a choice between two constants
            Value *b = nullptr;
            unsigned t = 0, f = 0;
            if ((isa<ZExtInst>(O) || isa<SExtInst>(O)) && O->getOperand(0)->getType()->isIntegerTy(1)) { b = O->getOperand(0); t = isa<ZExtInst>(O) ? 1 : 255; }
            else if (auto *SI = dyn_cast<SelectInst>(O))
              if (auto *T = dyn_cast<ConstantInt>(SI->getTrueValue()))
                if (auto *U = dyn_cast<ConstantInt>(SI->getFalseValue())) { b = SI->getCondition(); t = T->getZExtValue(); f = U->getZExtValue(); }
            if (b) {
              IRBuilder<> B(&I);
              repl.push_back({&I, B.CreateSelect(b, B.getInt1((*s)[t]), B.getInt1((*s)[f]))});
              continue;
            }
          }
        auto *c = cond(&I);
        if (!c) continue;
        if (!have) {
          have = true;
          for (auto *N = DT.getNode(&BB); N && N->getIDom(); N = N->getIDom()) {
            BasicBlock *D = N->getIDom()->getBlock();
            auto *Br = dyn_cast<BranchInst>(D->getTerminator());
            if (!Br || !Br->isConditional() || Br->getSuccessor(0) == Br->getSuccessor(1)) continue;
            for (int s = 0; s < 2; ++s)
              if (DT.dominates(BasicBlockEdge(D, Br->getSuccessor(s)), &BB)) learn(known, Br->getCondition(), s == 0);
          }
        }
        Set k;
        k.set();
        if (auto it = known.find(c->x); it != known.end()) k = it->second;
        if ((c->s & k).none()) repl.push_back({&I, ConstantInt::getFalse(F.getContext())});
        else if ((c->s & k) == k) repl.push_back({&I, ConstantInt::getTrue(F.getContext())});
        else if (auto *cur = setOf(&I); !cur || I.getOperand(0) != c->x || (*cur)[0]) {
          Set s = c->s;
          bool neg = s[0];
          if (neg) s = ~s;
          IRBuilder<> B(&I);
          Value *v = B.CreateCall(setFn(M, s), {c->x});
          if (neg) v = B.CreateNot(v);
          // tests of this very form stay
          if (neg && I.getOpcode() == Instruction::Xor && setOf(I.getOperand(0)) && *setOf(I.getOperand(0)) == s) { cast<Instruction>(v)->eraseFromParent(); continue; }
          repl.push_back({&I, v});
        }
      }
    }
    for (auto &r : repl) r.first->replaceAllUsesWith(r.second);
    return changed || !repl.empty();
  }
};
// A wide load only used byte by byte is as many loads of a byte.
static bool splitByteLoads(Function &F) {
  using namespace PatternMatch;
  const DataLayout &DL = F.getParent()->getDataLayout();
  if (!DL.isLittleEndian()) return false;
  bool changed = false;
  // the bytes of V, which is L (cut at end) shifted right by so many bytes, as they are used; false if they are not used one by one
  std::function<bool(Value *, unsigned, unsigned, std::vector<std::pair<Instruction *, unsigned>> &, std::vector<Instruction *> &)> bytes = [&](Value *V, unsigned at, unsigned end, auto &out, auto &mid) {
    for (auto *U : V->users()) {
      auto *I = cast<Instruction>(U);
      const APInt *k;
      if (isa<TruncInst>(I) && I->getType()->isIntegerTy(8)) { out.push_back({I, at < end ? at : ~0u}); continue; }
      bool shift = match(I, m_LShr(m_Specific(V), m_APInt(k))) && k->ult(V->getType()->getIntegerBitWidth()) && k->getZExtValue() % 8 == 0;
      bool fit = (isa<TruncInst>(I) || isa<ZExtInst>(I)) && I->getType()->isIntegerTy() && I->getType()->getIntegerBitWidth() % 8 == 0;
      if (!shift && !fit) return false;
      mid.push_back(I);
      if (!bytes(I, at + (shift ? k->getZExtValue() / 8 : 0), isa<TruncInst>(I) ? std::min(end, at + I->getType()->getIntegerBitWidth() / 8) : end, out, mid)) return false;
    }
    return true;
  };
  std::vector<LoadInst *> ls;
  for (auto &I : instructions(F))
    if (auto *L = dyn_cast<LoadInst>(&I); L && L->isSimple() && L->getType()->isIntegerTy()) {
      unsigned w = L->getType()->getIntegerBitWidth();
      if (w > 8 && w <= 64 && w % 8 == 0 && !L->use_empty()) ls.push_back(L);
    }
  for (auto *L : ls) {
    std::vector<std::pair<Instruction *, unsigned>> out;
    std::vector<Instruction *> mid;
    if (!bytes(L, 0, L->getType()->getIntegerBitWidth() / 8, out, mid)) continue;
    IRBuilder<> B(L);
    for (auto &o : out)
      o.first->replaceAllUsesWith(o.second != ~0u ? (Value *)B.CreateAlignedLoad(B.getInt8Ty(), B.CreateConstInBoundsGEP1_64(B.getInt8Ty(), L->getPointerOperand(), o.second), Align(1)) : B.getInt8(0));
    for (auto &o : out) o.first->eraseFromParent();
    for (auto I = mid.rbegin(); I != mid.rend(); ++I) (*I)->eraseFromParent();
    L->eraseFromParent();
    changed = true;
  }
  return changed;
}
} // namespace
