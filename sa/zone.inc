// ------------------------------------------------------------------------------------------------
// Pass: difference-bound (zone) abstract interpretation. State: bounds on x - y for tracked 32/64 bit
// integer SSA values (signed reading). Forward fixpoint with widening at loop headers and a few
// narrowing sweeps; decides comparisons and obligations that need a loop invariant.
namespace {
using i128 = __int128;
struct Zone {
  static constexpr int64_t INF = INT64_MAX;
  Function &F;
  DominatorTree DT;
  AssumptionCache AC;
  LoopInfo LI;
  const DataLayout &DL;
  std::vector<Value *> vars{nullptr};
  DenseMap<const Value *, unsigned> idx;
  unsigned N = 1, decided = 0;

  struct D {
    bool bot = true;
    std::vector<int64_t> m;
  };
  explicit Zone(Function &F) : F(F), DT(F), AC(F), LI(DT), DL(F.getParent()->getDataLayout()) {}

  // Scaled twins: for a quotient q = n / k (or n >> s) and the values computed from it, k times the value is
  // materialised as well, so that differences between multiples (4 * i against n) are in reach of the domain.
  struct Twin { Value *x, *k; int64_t f; };
  std::vector<Twin> twins;
  std::map<std::pair<Value *, int64_t>, Value *> twinOf;
  std::vector<std::tuple<BinaryOperator *, Value *, int64_t>> copies;
  static int64_t quotient(const Value *V) {
    using namespace PatternMatch;
    const APInt *c;
    if (!V->getType()->isIntegerTy(64)) return 0;
    if (match(V, m_LShr(m_Value(), m_APInt(c))) && c->ult(20) && !c->isZero()) return 1ll << c->getZExtValue();
    if (match(V, m_UDiv(m_Value(), m_APInt(c))) && c->ult(1 << 20) && c->ugt(1)) return c->getZExtValue();
    return 0;
  }
  void rootsOf(Value *V, std::set<int64_t> &ks, std::set<Value *> &seen) {
    if (seen.size() > 60 || !seen.insert(V).second) return;
    if (int64_t k = quotient(V)) { ks.insert(k); return; }
    if (auto *P = dyn_cast<PHINode>(V)) for (auto &I : P->incoming_values()) rootsOf(I, ks, seen);
    else if (auto *S = dyn_cast<SelectInst>(V)) { rootsOf(S->getTrueValue(), ks, seen); rootsOf(S->getFalseValue(), ks, seen); }
    else if (auto *B = dyn_cast<BinaryOperator>(V); B && (B->getOpcode() == Instruction::Add || B->getOpcode() == Instruction::Sub)) { rootsOf(B->getOperand(0), ks, seen); rootsOf(B->getOperand(1), ks, seen); }
  }
  Value *twin(Value *V, int64_t k, int depth = 0) {
    if (auto *C = dyn_cast<ConstantInt>(V)) {
      int64_t c = C->getSExtValue();
      return c > -(1ll << 30) && c < (1ll << 30) ? ConstantInt::get(V->getType(), c * k, true) : nullptr;
    }
    auto it = twinOf.find({V, k});
    if (it != twinOf.end()) return it->second;
    auto *I = dyn_cast<Instruction>(V);
    if (!I || depth > 20) return nullptr;
    Value *r = nullptr;
    if (quotient(V) == k) {
      IRBuilder<> B(I->getNextNode());
      r = B.Insert(BinaryOperator::Create(Instruction::Mul, V, ConstantInt::get(V->getType(), k)));
    } else if (auto *P = dyn_cast<PHINode>(V)) {
      PHINode *N = PHINode::Create(P->getType(), P->getNumIncomingValues(), "twin", P);
      twinOf[{V, k}] = N;
      for (unsigned i = 0; i < P->getNumIncomingValues(); ++i) {
        Value *t = twin(P->getIncomingValue(i), k, depth + 1);
        if (!t) { // give up on this one
          N->replaceAllUsesWith(PoisonValue::get(N->getType()));
          N->eraseFromParent();
          return twinOf[{V, k}] = nullptr;
        }
        N->addIncoming(t, P->getIncomingBlock(i));
      }
      r = N;
    } else if (auto *S = dyn_cast<SelectInst>(V)) {
      Value *a = twin(S->getTrueValue(), k, depth + 1), *b = twin(S->getFalseValue(), k, depth + 1);
      if (a && b) r = SelectInst::Create(S->getCondition(), a, b, "twin", I->getNextNode());
    } else if (auto *Bo = dyn_cast<BinaryOperator>(V); Bo && (Bo->getOpcode() == Instruction::Add || Bo->getOpcode() == Instruction::Sub)) {
      Value *a = twin(Bo->getOperand(0), k, depth + 1), *b = twin(Bo->getOperand(1), k, depth + 1);
      if (a && b) r = BinaryOperator::Create(Bo->getOpcode(), a, b, "twin", I->getNextNode());
    }
    twinOf[{V, k}] = r;
    if (r) twins.push_back({V, r, k});
    return r;
  }
  // A counter running down next to one running up is told by the number of steps made, counted up as well: two counters
  // moving apart are not related by any difference, two that move together are.
  bool countUp() {
    using namespace PatternMatch;
    bool any = false;
    for (Loop *L : LI.getLoopsInPreorder()) {
      auto *H = L->getHeader(), *P = L->getLoopPreheader(), *B = L->getLoopLatch();
      if (!B) continue;
      if (!P) {
        bool counts = false; // only where it is of use
        for (auto &Ph : H->phis()) { const APInt *c; counts |= Ph.getType()->isIntegerTy(64) && match(Ph.getIncomingValueForBlock(B), m_Add(m_Specific(&Ph), m_APInt(c))) && c->isAllOnes(); }
        if (!counts || !(P = InsertPreheaderForLoop(L, &DT, &LI, nullptr, false))) continue;
      }
      PHINode *down = nullptr;
      bool up = false;
      for (auto &Ph : H->phis()) {
        const APInt *c;
        if (!Ph.getType()->isIntegerTy(64) || !match(Ph.getIncomingValueForBlock(B), m_Add(m_Specific(&Ph), m_APInt(c)))) continue;
        if (c->isAllOnes() && !isa<Constant>(Ph.getIncomingValueForBlock(P))) down = &Ph;
        else if (c->isStrictlyPositive()) up = true;
      }
      if (!down || !up) continue;
      auto *T = down->getType();
      auto *i = PHINode::Create(T, 2, "made", down);
      Instruction *At = &*H->getFirstInsertionPt();
      auto *c = BinaryOperator::Create(Instruction::Sub, down->getIncomingValueForBlock(P), i, "left", At);
      i->addIncoming(ConstantInt::get(T, 0), P);
      i->addIncoming(BinaryOperator::Create(Instruction::Add, i, ConstantInt::get(T, 1), "made", B->getTerminator()), B);
      down->replaceAllUsesWith(c);
      down->eraseFromParent();
      any = true;
    }
    return any;
  }
  void makeTwins() {
    std::vector<ICmpInst *> cmps;
    for (auto &I : instructions(F)) if (auto *IC = dyn_cast<ICmpInst>(&I)) if (IC->getOperand(0)->getType()->isIntegerTy(64)) cmps.push_back(IC);
    for (auto *IC : cmps) {
      std::set<int64_t> ks;
      std::set<Value *> seen;
      rootsOf(IC->getOperand(0), ks, seen);
      rootsOf(IC->getOperand(1), ks, seen);
      if (ks.size() != 1) continue;
      twin(IC->getOperand(0), *ks.begin());
      twin(IC->getOperand(1), *ks.begin());
    }
    // the program's own multiples of such values are the twins themselves
    std::vector<BinaryOperator *> muls;
    for (auto &I : instructions(F)) if (auto *B = dyn_cast<BinaryOperator>(&I); B && B->getType()->isIntegerTy(64) && (B->getOpcode() == Instruction::Shl || B->getOpcode() == Instruction::Mul) && isa<ConstantInt>(B->getOperand(1))) muls.push_back(B);
    for (auto *B : muls) {
      auto *K = cast<ConstantInt>(B->getOperand(1));
      if (K->getValue().uge(B->getOpcode() == Instruction::Shl ? 20 : 1 << 20)) continue;
      int64_t k = B->getOpcode() == Instruction::Shl ? 1ll << K->getZExtValue() : K->getZExtValue();
      std::set<int64_t> ks;
      std::set<Value *> seen;
      bool own = false;
      for (auto &w : twins) own |= w.k == B;
      if (own || k < 2) continue;
      rootsOf(B->getOperand(0), ks, seen);
      if (ks.size() == 1 && *ks.begin() == k) twin(B->getOperand(0), k);
      auto it = twinOf.find({B->getOperand(0), k});
      if (it != twinOf.end() && it->second && it->second != B) copies.push_back({B, B->getOperand(0), k});
    }
    // a twin that gave up may have left others built on poison: drop those
    for (bool again = true; again;) {
      again = false;
      for (size_t i = 0; i < twins.size(); ++i) {
        auto *I = dyn_cast<Instruction>(twins[i].k);
        bool bad = false;
        if (I) for (auto &O : I->operands()) bad |= isa<PoisonValue>(O.get());
        if (bad) { I->replaceAllUsesWith(PoisonValue::get(I->getType())); twins.erase(twins.begin() + i); again = true; break; }
      }
    }
    for (auto &[B, x, k] : copies)
      for (auto &w : twins) if (w.x == x && w.f == k && w.k != B) { B->replaceAllUsesWith(w.k); break; }
  }
  bool smallRange(const D &d, unsigned v, int64_t k) {
    int64_t h = hi(d, v, 0);
    i128 l = lo(d, v, 0);
    return h != INF && (i128)h * k < ((i128)1 << 62) && l * k > -((i128)1 << 62);
  }
  void reduce(D &d) {
    if (d.bot || twins.empty()) return;
    std::vector<std::tuple<unsigned, unsigned, int64_t>> t;
    std::set<int64_t> ks;
    for (auto &w : twins) {
      auto a = idx.find(w.x), b = idx.find(w.k);
      if (a == idx.end() || b == idx.end() || !smallRange(d, a->second, w.f)) continue;
      t.push_back({a->second, b->second, w.f});
      ks.insert(w.f);
    }
    for (int64_t k : ks) t.push_back({0, 0, k});
    for (auto &[xi, ki, fi] : t)
      for (auto &[xj, kj, fj] : t) {
        if (fi != fj || xi == xj || d.bot) continue;
        int64_t c = get(d, xi, xj);
        if (c != INF && c < (1ll << 62) / fi && c > -(1ll << 62) / fi) addC(d, ki, kj, c * fi);
        if (d.bot) return;
        int64_t e = get(d, ki, kj);
        if (e != INF) addC(d, xi, xj, e >= 0 ? e / fi : -((-e + fi - 1) / fi));
        if (d.bot) return;
      }
  }
  static bool okTy(const Type *T) { return T->isIntegerTy(64) || T->isIntegerTy(32) || T->isIntegerTy(8) || T->isIntegerTy(16); }
  void track(Value *V) {
    if (!okTy(V->getType()) || isa<Constant>(V) || idx.count(V)) return;
    if (N > 200) return;
    idx[V] = N++;
    vars.push_back(V);
    unsigned z = std::min(computeKnownBits(V, DL, 0, &AC, dyn_cast<Instruction>(V), &DT).countMinTrailingZeros(), 20u);
    for (auto &w : twins) if (w.k == V) z = std::max(z, (unsigned)llvm::countr_zero((uint64_t)w.f));
    zeros.push_back(z);
    auto *I = dyn_cast<Instruction>(V);
    if (!I) return;
    switch (I->getOpcode()) {
    case Instruction::PHI: case Instruction::Add: case Instruction::Sub: case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc:
    case Instruction::Select:
      for (auto &O : I->operands()) track(O.get());
      break;
    case Instruction::And: case Instruction::Mul: case Instruction::LShr: case Instruction::UDiv: case Instruction::Shl:
      track(I->getOperand(0));
      break;
    case Instruction::Or:
      if (cast<PossiblyDisjointInst>(I)->isDisjoint()) for (auto &O : I->operands()) track(O.get());
      break;
    case Instruction::Call:
      if (auto *II = dyn_cast<IntrinsicInst>(I))
        if (isa<MinMaxIntrinsic>(II)) for (auto &O : II->args()) track(O.get());
      break;
    default: break;
    }
  }
  // both values are multiples of a power of two: so is their difference
  std::vector<unsigned> zeros{20};
  int64_t whole(unsigned i, unsigned j, int64_t c) const {
    unsigned z = std::min(zeros[i], zeros[j]);
    return c == INF || c < INT64_MIN / 2 ? c : (c >> z) << z;
  }
  static int64_t addS(int64_t a, int64_t b) {
    if (a == INF || b == INF) return INF;
    i128 s = (i128)a + b;
    if (s >= INF) return INF;
    if (s < INT64_MIN) return INT64_MIN; // sound: larger upper bound than the true one
    return (int64_t)s;
  }
  int64_t &at(D &d, unsigned i, unsigned j) { return d.m[i * N + j]; } // upper bound of vi - vj
  int64_t get(const D &d, unsigned i, unsigned j) const { return d.m[i * N + j]; }
  D top() {
    D d;
    d.bot = false;
    d.m.assign(N * N, INF);
    for (unsigned i = 0; i < N; ++i) at(d, i, i) = 0;
    return d;
  }
  void addC(D &d, unsigned i, unsigned j, int64_t c) { // vi - vj <= c
    if (d.bot || c == INF || i == j) {
      if (!d.bot && i == j && c < 0) d.bot = true;
      return;
    }
    c = whole(i, j, c);
    if (get(d, i, j) <= c) return;
    if (addS(get(d, j, i), c) < 0) { d.bot = true; return; }
    at(d, i, j) = c;
    for (unsigned a = 0; a < N; ++a) {
      int64_t x = addS(get(d, a, i), c);
      if (x == INF) continue;
      for (unsigned b = 0; b < N; ++b) {
        int64_t y = whole(a, b, addS(x, get(d, j, b)));
        if (y < get(d, a, b)) at(d, a, b) = y;
      }
    }
    for (unsigned a = 0; a < N; ++a) if (get(d, a, a) < 0) { d.bot = true; return; }
  }
  void forget(D &d, unsigned i) {
    if (d.bot) return;
    for (unsigned a = 0; a < N; ++a) if (a != i) { at(d, a, i) = INF; at(d, i, a) = INF; }
  }
  // linear reading of a value: var + c (var 0 for constants)
  bool lin(const Value *V, unsigned &v, int64_t &c) {
    if (auto *C = dyn_cast<ConstantInt>(V)) {
      if (C->getBitWidth() > 64) return false;
      v = 0;
      c = C->getSExtValue();
      return true;
    }
    auto it = idx.find(V);
    if (it == idx.end()) return false;
    v = it->second;
    c = 0;
    return true;
  }
  int64_t hi(const D &d, unsigned v, int64_t c) { return v ? addS(get(d, v, 0), c) : c; }
  // lower bound: -(upper bound of 0 - v)
  i128 lo(const D &d, unsigned v, int64_t c) { return v ? (get(d, 0, v) == INF ? (i128)INT64_MIN * 4 : -(i128)get(d, 0, v) + c) : (i128)c; }
  bool nonneg(const D &d, unsigned v, int64_t c) { return lo(d, v, c) >= 0; }

  void assume(D &d, CmpInst::Predicate P, Value *A, Value *B) {
    if (d.bot) return;
    unsigned a, b;
    int64_t ca, cb;
    if (!lin(A, a, ca) || !lin(B, b, cb)) return;
    auto le = [&](unsigned x, int64_t cx, unsigned y, int64_t cy, int64_t k) { // x + cx <= y + cy + k
      i128 r = (i128)cy - cx + k;
      if (r >= INF || r <= INT64_MIN) return;
      addC(d, x, y, (int64_t)r);
    };
    switch (P) {
    case CmpInst::ICMP_EQ: le(a, ca, b, cb, 0); le(b, cb, a, ca, 0); break;
    case CmpInst::ICMP_NE: {
      i128 k = (i128)cb - ca; // x != y + k
      if (k > INT64_MAX || k < -INT64_MAX) break;
      if (get(d, a, b) == (int64_t)k) addC(d, a, b, (int64_t)k - 1);
      if (d.bot) break;
      if (get(d, b, a) == (int64_t)-k) addC(d, b, a, (int64_t)-k - 1);
      break;
    }
    case CmpInst::ICMP_SLT: le(a, ca, b, cb, -1); break;
    case CmpInst::ICMP_SLE: le(a, ca, b, cb, 0); break;
    case CmpInst::ICMP_SGT: le(b, cb, a, ca, -1); break;
    case CmpInst::ICMP_SGE: le(b, cb, a, ca, 0); break;
    case CmpInst::ICMP_ULT: case CmpInst::ICMP_ULE: case CmpInst::ICMP_UGT: case CmpInst::ICMP_UGE: {
      if (P == CmpInst::ICMP_UGT || P == CmpInst::ICMP_UGE) { std::swap(a, b); std::swap(ca, cb); }
      bool strict = P == CmpInst::ICMP_ULT || P == CmpInst::ICMP_UGT;
      if (nonneg(d, b, cb)) {
        le(a, ca, b, cb, strict ? -1 : 0);
        if (!d.bot) le(0, 0, a, ca, 0);
      }
      break;
    }
    default: break;
    }
    back(d, A);
    back(d, B);
  }
  // what is known of a difference is known of its operands
  void back(D &d, Value *V) {
    auto *S = dyn_cast<BinaryOperator>(V);
    unsigned x, p, q;
    int64_t cx, cp, cq;
    if (d.bot || !S || S->getOpcode() != Instruction::Sub || !lin(S, x, cx) || !lin(S->getOperand(0), p, cp) || !lin(S->getOperand(1), q, cq)) return;
    if (!S->hasNoSignedWrap() && !(nonneg(d, p, cp) && nonneg(d, q, cq))) return;
    i128 l = lo(d, x, cx);
    int64_t h = hi(d, x, cx);
    if (h != INF) { i128 k = (i128)h + cq - cp; if (k < INF && k > INT64_MIN) addC(d, p, q, (int64_t)k); }
    if (!d.bot && l > INT64_MIN) { i128 k = -l + cp - cq; if (k < INF && k > INT64_MIN) addC(d, q, p, (int64_t)k); }
  }
  // 1 implied, 0 refuted, -1 unknown
  int decide(D &d, CmpInst::Predicate P, Value *A, Value *B) {
    if (d.bot) return -1;
    unsigned a, b;
    int64_t ca, cb;
    if (!lin(A, a, ca) || !lin(B, b, cb)) return -1;
    i128 BIG = (i128)INT64_MAX * 8;
    i128 uab = get(d, a, b) == INF ? BIG : (i128)get(d, a, b) + ca - cb; // A - B <= uab
    i128 uba = get(d, b, a) == INF ? BIG : (i128)get(d, b, a) + cb - ca;
    if (ICmpInst::isUnsigned(P)) {
      if (nonneg(d, a, ca) && nonneg(d, b, cb)) P = ICmpInst::getSignedPredicate(P);
      else {
        // 0 <= A, B unknown sign etc: only a few cases
        return -1;
      }
    }
    switch (P) {
    case CmpInst::ICMP_EQ: if (uab < 0 || uba < 0) return 0; if (uab <= 0 && uba <= 0) return 1; return -1;
    case CmpInst::ICMP_NE: if (uab < 0 || uba < 0) return 1; if (uab <= 0 && uba <= 0) return 0; return -1;
    case CmpInst::ICMP_SLT: if (uab < 0) return 1; if (uba <= 0) return 0; return -1;
    case CmpInst::ICMP_SLE: if (uab <= 0) return 1; if (uba < 0) return 0; return -1;
    case CmpInst::ICMP_SGT: if (uba < 0) return 1; if (uab <= 0) return 0; return -1;
    case CmpInst::ICMP_SGE: if (uba <= 0) return 1; if (uab < 0) return 0; return -1;
    default: return -1;
    }
  }
  // a comparison, looking through extensions and selects with a constant arm
  void assumeCmp(D &d, CmpInst::Predicate p, Value *A, Value *B, int depth = 0) {
    if (d.bot) return;
    assume(d, p, A, B);
    if (d.bot || depth > 6) return;
    if (isa<ConstantInt>(A) && !isa<ConstantInt>(B)) { std::swap(A, B); p = CmpInst::getSwappedPredicate(p); }
    auto *K = dyn_cast<ConstantInt>(B);
    if (!K) return;
    if (auto *Z = dyn_cast<ZExtInst>(A)) {
      unsigned w = Z->getSrcTy()->getIntegerBitWidth();
      if ((CmpInst::isUnsigned(p) || ICmpInst::isEquality(p)) && K->getValue().isIntN(w))
        assumeCmp(d, p, Z->getOperand(0), ConstantInt::get(Z->getSrcTy(), K->getValue().trunc(w)), depth + 1);
    } else if (auto *S = dyn_cast<SelectInst>(A)) {
      for (int arm = 1; arm <= 2; ++arm)
        if (auto *c = dyn_cast<ConstantInt>(S->getOperand(arm)))
          if (!ICmpInst::compare(c->getValue(), K->getValue(), p)) {
            assumeCond(d, S->getCondition(), arm == 2, depth + 1);
            assumeCmp(d, p, S->getOperand(3 - arm), B, depth + 1);
          }
    }
  }
  // does the condition read a phi of this block?
  static bool readsPhi(Value *C, BasicBlock *BB, int depth = 0) {
    auto *I = dyn_cast<Instruction>(C);
    if (!I || depth > 4) return false;
    if (auto *P = dyn_cast<PHINode>(I)) return P->getParent() == BB;
    if (isa<ICmpInst>(I) || I->getType()->isIntegerTy(1) && (isa<BinaryOperator>(I) || isa<SelectInst>(I)))
      for (auto &O : I->operands()) if (readsPhi(O, BB, depth + 1)) return true;
    return false;
  }
  // assume condition C of block BB, evaluated as if BB had been entered from Pred
  void assumeFrom(D &d, Value *C, bool val, BasicBlock *BB, BasicBlock *Pred, int depth = 0) {
    using namespace PatternMatch;
    if (d.bot || depth > 6) return;
    Value *a, *b;
    auto in = [&](Value *V) -> Value * {
      if (auto *P = dyn_cast<PHINode>(V)) return P->getParent() == BB ? P->getIncomingValueForBlock(Pred) : V;
      auto *I = dyn_cast<Instruction>(V);
      return I && I->getParent() == BB ? nullptr : V; // computed in BB: its value at the end of Pred is a stale one
    };
    if (auto *P = dyn_cast<PHINode>(C)) { if (P->getParent() == BB) assumeCond(d, in(P), val); return; }
    if (auto *IC = dyn_cast<ICmpInst>(C)) {
      Value *x = in(IC->getOperand(0)), *y = in(IC->getOperand(1));
      if (x && y) assumeCmp(d, val ? IC->getPredicate() : IC->getInversePredicate(), x, y);
      return;
    }
    if (match(C, m_Not(m_Value(a)))) return assumeFrom(d, a, !val, BB, Pred, depth + 1);
    if (val && match(C, m_LogicalAnd(m_Value(a), m_Value(b))) || !val && match(C, m_LogicalOr(m_Value(a), m_Value(b)))) {
      assumeFrom(d, a, val, BB, Pred, depth + 1);
      assumeFrom(d, b, val, BB, Pred, depth + 1);
    }
  }
  void assumeCond(D &d, Value *C, bool val, int depth = 0) {
    using namespace PatternMatch;
    if (depth > 8 || d.bot) return;
    Value *a, *b;
    if (auto *K = dyn_cast<ConstantInt>(C)) { if (K->isOne() != val) d.bot = true; return; }
    if (auto *IC = dyn_cast<ICmpInst>(C)) { assumeCmp(d, val ? IC->getPredicate() : IC->getInversePredicate(), IC->getOperand(0), IC->getOperand(1), depth); return; }
    if (match(C, m_Not(m_Value(a)))) return assumeCond(d, a, !val, depth + 1);
    if (val && match(C, m_LogicalAnd(m_Value(a), m_Value(b)))) { assumeCond(d, a, true, depth + 1); assumeCond(d, b, true, depth + 1); if (depth < 3) assumeCond(d, a, true, depth + 1); }
    else if (!val && match(C, m_LogicalOr(m_Value(a), m_Value(b)))) { assumeCond(d, a, false, depth + 1); assumeCond(d, b, false, depth + 1); if (depth < 3) assumeCond(d, a, false, depth + 1); }
  }
  int decideCond(D &d, Value *C, int depth = 0) {
    using namespace PatternMatch;
    if (depth > 8) return -1;
    Value *a, *b;
    if (auto *K = dyn_cast<ConstantInt>(C)) return K->isOne();
    if (auto *IC = dyn_cast<ICmpInst>(C)) return decide(d, IC->getPredicate(), IC->getOperand(0), IC->getOperand(1));
    if (match(C, m_Not(m_Value(a)))) { int r = decideCond(d, a, depth + 1); return r < 0 ? r : !r; }
    if (match(C, m_LogicalAnd(m_Value(a), m_Value(b)))) {
      int x = decideCond(d, a, depth + 1), y = decideCond(d, b, depth + 1);
      return x == 0 || y == 0 ? 0 : x == 1 && y == 1 ? 1 : -1;
    }
    if (match(C, m_LogicalOr(m_Value(a), m_Value(b)))) {
      int x = decideCond(d, a, depth + 1), y = decideCond(d, b, depth + 1);
      return x == 1 || y == 1 ? 1 : x == 0 && y == 0 ? 0 : -1;
    }
    return -1;
  }
  void range(D &d, Value *V) {
    unsigned v = idx[V];
    ConstantRange CR = computeConstantRange(V, true, true, &AC, dyn_cast<Instruction>(V), &DT);
    KnownBits KB = computeKnownBits(V, DL, 0, &AC, dyn_cast<Instruction>(V), &DT);
    CR = CR.intersectWith(ConstantRange::fromKnownBits(KB, true));
    if (CR.isEmptySet()) return;
    addC(d, v, 0, CR.getSignedMax().getSExtValue());
    int64_t mn = CR.getSignedMin().getSExtValue();
    if (mn != INT64_MIN) addC(d, 0, v, -mn);
  }
  static bool fits(i128 v, unsigned w) { return v >= -((i128)1 << (w - 1)) && v < ((i128)1 << (w - 1)); }
  void assignLin(D &d, unsigned x, unsigned y, int64_t c) { // x := y + c exactly
    addC(d, x, y, c);
    if (c != INT64_MIN) addC(d, y, x, -c);
  }
  void transfer(D &d, Instruction *I) {
    if (d.bot) return;
    if (auto *CB = dyn_cast<CallInst>(I)) {
      if (auto *A = dyn_cast<AssumeInst>(CB)) {
        assumeCond(d, A->getArgOperand(0), true);
        // conditions that dominate this point may say more now that this is known (x != 0 once x >= 0)
        if (!LI.getLoopFor(I->getParent()))
          for (auto *Nd = DT.getNode(I->getParent()); Nd && Nd->getIDom() && !d.bot; Nd = Nd->getIDom()) {
            BasicBlock *Dm = Nd->getIDom()->getBlock();
            auto *Br = dyn_cast<BranchInst>(Dm->getTerminator());
            if (!Br || !Br->isConditional() || Br->getSuccessor(0) == Br->getSuccessor(1) || LI.getLoopFor(Dm)) continue;
            for (int s = 0; s < 2; ++s)
              if (DT.dominates(BasicBlockEdge(Dm, Br->getSuccessor(s)), I->getParent())) assumeCond(d, Br->getCondition(), s == 0);
          }
        return;
      }
      StringRef n = calleeName(*CB);
      // an obligation that was reported if it can fail: what follows may rely on it
      if (n == "sa_bound") { assumeCond(d, CB->getArgOperand(0), true); return; }
    }
    auto it = idx.find(I);
    if (it == idx.end() || isa<PHINode>(I)) return;
    transferValue(d, I, it->second);
    reduce(d);
  }
  void transferValue(D &d, Instruction *I, unsigned x) {
    forget(d, x);
    range(d, I);
    if (d.bot) return;
    unsigned w = I->getType()->getIntegerBitWidth();
    auto value = [&](unsigned y, int64_t cy) { // x := y + cy
      if (y == 0) { assume(d, CmpInst::ICMP_EQ, I, ConstantInt::get(I->getType(), cy, true)); return; }
      assignLin(d, x, y, cy);
    };
    switch (I->getOpcode()) {
    case Instruction::Add: case Instruction::Or: {
      if (I->getOpcode() == Instruction::Or && !cast<PossiblyDisjointInst>(I)->isDisjoint()) break;
      unsigned a, b;
      int64_t ca, cb;
      if (!lin(I->getOperand(0), a, ca) || !lin(I->getOperand(1), b, cb)) break;
      bool nsw = I->getOpcode() == Instruction::Or || I->hasNoSignedWrap();
      i128 h = (i128)hi(d, a, ca) + hi(d, b, cb), l = lo(d, a, ca) + lo(d, b, cb);
      if (hi(d, a, ca) == INF || hi(d, b, cb) == INF) h = (i128)INT64_MAX * 8;
      // the sum a + b with relational knowledge: if b is a constant, x <= bound of a + c against others stays exact
      if (!nsw && !(fits(h, w) && fits(l, w))) break;
      if (b == 0) { value(a, ca + cb); break; }
      if (a == 0) { value(b, ca + cb); break; }
      int64_t hb = hi(d, b, cb), ha = hi(d, a, ca);
      if (hb != INF) addC(d, x, a, hb);
      if (lo(d, b, cb) >= INT64_MIN + 1) addC(d, a, x, (int64_t)-lo(d, b, cb));
      if (ha != INF) addC(d, x, b, ha);
      if (lo(d, a, ca) >= INT64_MIN + 1) addC(d, b, x, (int64_t)-lo(d, a, ca));
      // t = p - a: what is known about b against t holds for a + b against p
      if (!ca && !cb)
        for (unsigned t = 1; t < vars.size(); ++t) {
          auto *S = dyn_cast<Instruction>(vars[t]);
          if (!S || S->getOpcode() != Instruction::Sub || S->getType() != I->getType() || S == I || !DT.dominates(S, I)) continue;
          unsigned p, q;
          int64_t cp, cq;
          if (!lin(S->getOperand(0), p, cp) || !lin(S->getOperand(1), q, cq) || cq || q == 0) continue;
          if (q != a && q != b) continue;
          if (!S->hasNoSignedWrap() && !(nonneg(d, p, cp) && nonneg(d, q, cq))) continue;
          unsigned o = q == a ? b : a;
          if (get(d, o, t) != INF) addC(d, x, p, addS(get(d, o, t), cp));
          if (get(d, t, o) != INF) addC(d, p, x, addS(get(d, t, o), -cp));
        }
      break;
    }
    case Instruction::Sub: {
      unsigned a, b;
      int64_t ca, cb;
      if (!lin(I->getOperand(0), a, ca) || !lin(I->getOperand(1), b, cb)) break;
      i128 BIG = (i128)INT64_MAX * 8;
      i128 uab = get(d, a, b) == INF ? BIG : (i128)get(d, a, b) + ca - cb;
      i128 uba = get(d, b, a) == INF ? BIG : (i128)get(d, b, a) + cb - ca;
      bool nsw = I->hasNoSignedWrap();
      if (!nsw && !(fits(uab, w) && fits(-uba, w))) {
        i128 h = hi(d, a, ca) == INF ? BIG : (i128)hi(d, a, ca) - lo(d, b, cb), l = hi(d, b, cb) == INF ? -BIG : lo(d, a, ca) - (i128)hi(d, b, cb);
        if (!(fits(h, w) && fits(l, w))) break;
      }
      if (b == 0) { value(a, ca - cb); break; }
      if (uab < INF) addC(d, x, 0, (int64_t)uab);
      if (uba < INF) addC(d, 0, x, (int64_t)uba);
      if (lo(d, b, cb) >= INT64_MIN + 1) { i128 k = (i128)ca - lo(d, b, cb); if (k < INF && k > INT64_MIN) addC(d, x, a, (int64_t)k); }
      if (hi(d, b, cb) != INF) { i128 k = (i128)hi(d, b, cb) - ca; if (k < INF && k > INT64_MIN) addC(d, a, x, (int64_t)k); }
      if (!ca && !cb && a)
        for (unsigned t = 1; t < vars.size(); ++t) {
          auto *S = dyn_cast<Instruction>(vars[t]);
          if (!S || S == I || S->getType() != I->getType() || !DT.dominates(S, I)) continue;
          unsigned p, q;
          int64_t cp, cq;
          if (S->getOpcode() == Instruction::Add) { // t = b + o: t against a is o against x
            if (!lin(S->getOperand(0), p, cp) || !lin(S->getOperand(1), q, cq) || cp || cq || !p || !q || (p != b && q != b)) continue;
            if (!S->hasNoSignedWrap() && !(fits((i128)hi(d, p, 0) + hi(d, q, 0), w) && fits(lo(d, p, 0) + lo(d, q, 0), w))) continue;
            unsigned o = p == b ? q : p;
            if (get(d, t, a) != INF) addC(d, o, x, get(d, t, a));
            if (get(d, a, t) != INF) addC(d, x, o, get(d, a, t));
          } else if (S->getOpcode() == Instruction::Sub) { // t = a - q: q against b is x against t
            if (!lin(S->getOperand(0), p, cp) || !lin(S->getOperand(1), q, cq) || cp || cq || p != a || !q) continue;
            if (!S->hasNoSignedWrap() && !(nonneg(d, p, 0) && nonneg(d, q, 0))) continue;
            if (get(d, q, b) != INF) addC(d, x, t, get(d, q, b));
            if (get(d, b, q) != INF) addC(d, t, x, get(d, b, q));
          }
        }
      break;
    }
    case Instruction::And: { // rounding down to a multiple of a power of two
      unsigned a;
      int64_t ca;
      auto *K = dyn_cast<ConstantInt>(I->getOperand(1));
      if (!K || !lin(I->getOperand(0), a, ca) || !nonneg(d, a, ca)) break;
      APInt kv = K->getValue();
      if (kv.isNonNegative() && kv.isShiftedMask() && hi(d, a, ca) != INF && kv.getActiveBits() < 62 && hi(d, a, ca) < (int64_t(1) << kv.getActiveBits())) // the bits above are zero anyway
        kv = APInt::getHighBitsSet(kv.getBitWidth(), kv.getBitWidth() - kv.countr_zero());
      if (!kv.isNegatedPowerOf2()) break;
      APInt m = -kv;
      if (m.ugt(1 << 20)) break;
      addC(d, x, a, ca);
      if (!d.bot) addC(d, a, x, m.getSExtValue() - 1 - ca);
      break;
    }
    case Instruction::Mul: { // k * (n / k)
      unsigned a;
      int64_t ca;
      auto *K = dyn_cast<ConstantInt>(I->getOperand(1));
      int64_t q = quotient(I->getOperand(0));
      if (!K || !q || K->getSExtValue() != q) break;
      if (!lin(cast<Instruction>(I->getOperand(0))->getOperand(0), a, ca) || !nonneg(d, a, ca)) break;
      addC(d, x, a, ca);
      if (!d.bot) addC(d, a, x, q - 1 - ca);
      if (!d.bot) addC(d, 0, x, 0);
      break;
    }
    case Instruction::LShr: case Instruction::UDiv: {
      unsigned a;
      int64_t ca;
      int64_t q = quotient(I);
      if (!q || !lin(I->getOperand(0), a, ca) || !nonneg(d, a, ca)) break;
      int64_t h = hi(d, a, ca);
      i128 l = lo(d, a, ca);
      if (l > 0 && l < INF) addC(d, 0, x, -int64_t(l / q));
      if (!d.bot && h != INF) addC(d, x, 0, h / q);
      if (!d.bot) addC(d, x, a, ca);
      break;
    }
    case Instruction::ZExt: {
      unsigned a;
      int64_t ca;
      if (!lin(I->getOperand(0), a, ca) || !nonneg(d, a, ca)) break;
      value(a, ca);
      break;
    }
    case Instruction::SExt: {
      unsigned a;
      int64_t ca;
      if (lin(I->getOperand(0), a, ca)) value(a, ca);
      break;
    }
    case Instruction::Trunc: {
      unsigned a;
      int64_t ca;
      if (!lin(I->getOperand(0), a, ca)) break;
      if (hi(d, a, ca) != INF && fits(hi(d, a, ca), w) && fits(lo(d, a, ca), w)) value(a, ca);
      break;
    }
    case Instruction::Select: {
      unsigned a, b;
      int64_t ca, cb;
      if (!lin(I->getOperand(1), a, ca) || !lin(I->getOperand(2), b, cb)) break;
      D d1 = d, d2 = d;
      assumeCond(d1, I->getOperand(0), true);
      assumeCond(d2, I->getOperand(0), false);
      auto asg = [&](D &q, unsigned y, int64_t c) {
        if (q.bot) return;
        if (y == 0) { addC(q, x, 0, c); if (c != INT64_MIN) addC(q, 0, x, -c); } else assignLin(q, x, y, c);
      };
      asg(d1, a, ca);
      asg(d2, b, cb);
      join(d1, d2);
      d = d1;
      break;
    }
    case Instruction::Call: {
      if (auto *MM = dyn_cast<MinMaxIntrinsic>(I)) {
        Value *A = MM->getLHS(), *B = MM->getRHS();
        unsigned a, b;
        int64_t ca, cb;
        if (!lin(A, a, ca) || !lin(B, b, cb)) break;
        bool isMin = MM->getIntrinsicID() == Intrinsic::umin || MM->getIntrinsicID() == Intrinsic::smin;
        if (!MM->isSigned() && !(nonneg(d, a, ca) && nonneg(d, b, cb))) {
          if (isMin && MM->getIntrinsicID() == Intrinsic::umin && (nonneg(d, a, ca) || nonneg(d, b, cb))) {
            addC(d, 0, x, 0);
            if (nonneg(d, a, ca)) assume(d, CmpInst::ICMP_SLE, I, A);
            else assume(d, CmpInst::ICMP_SLE, I, B);
          }
          break;
        }
        D d1 = d, d2 = d;
        assume(d1, isMin ? CmpInst::ICMP_SLE : CmpInst::ICMP_SGE, A, B);
        assume(d2, isMin ? CmpInst::ICMP_SLE : CmpInst::ICMP_SGE, B, A);
        if (!d1.bot) assume(d1, CmpInst::ICMP_EQ, I, A);
        if (!d2.bot) assume(d2, CmpInst::ICMP_EQ, I, B);
        join(d1, d2);
        d = d1;
      }
      break;
    }
    default: break;
    }
  }
  void close(D &d) {
    if (d.bot) return;
    for (unsigned k = 0; k < N; ++k)
      for (unsigned i = 0; i < N; ++i) {
        int64_t x = get(d, i, k);
        if (x == INF) continue;
        for (unsigned j = 0; j < N; ++j) {
          int64_t y = addS(x, get(d, k, j));
          if (y < get(d, i, j)) at(d, i, j) = y;
        }
      }
    for (unsigned i = 0; i < N; ++i) if (get(d, i, i) < 0) { d.bot = true; return; }
  }
  void join(D &a, const D &b) {
    if (b.bot) return;
    if (a.bot) { a = b; return; }
    for (size_t i = 0; i < a.m.size(); ++i) a.m[i] = std::max(a.m[i], b.m[i]);
  }
  D edge(const D &out, BasicBlock *From, BasicBlock *To) {
    D d = edge0(out, From, To);
    reduce(d);
    return d;
  }
  D edge0(const D &out, BasicBlock *From, BasicBlock *To) {
    D d = out;
    if (d.bot) return d;
    Instruction *T = From->getTerminator();
    if (auto *Br = dyn_cast<BranchInst>(T)) {
      if (Br->isConditional() && Br->getSuccessor(0) != Br->getSuccessor(1)) assumeCond(d, Br->getCondition(), Br->getSuccessor(0) == To);
    } else if (auto *Sw = dyn_cast<SwitchInst>(T)) {
      ConstantInt *only = nullptr;
      unsigned cnt = 0;
      for (auto &C : Sw->cases()) if (C.getCaseSuccessor() == To) { only = C.getCaseValue(); ++cnt; }
      if (Sw->getDefaultDest() == To) { if (cnt == 0) for (auto &C : Sw->cases()) assume(d, CmpInst::ICMP_NE, Sw->getCondition(), C.getCaseValue()); }
      else if (cnt == 1) assume(d, CmpInst::ICMP_EQ, Sw->getCondition(), only);
    }
    reduce(d);
    if (d.bot) return d;
    // parallel assignment of phis; a phi that feeds another phi of the block reads its old value
    std::vector<std::pair<PHINode *, Value *>> asg;
    for (auto &P : To->phis())
      if (idx.count(&P)) asg.push_back({&P, P.getIncomingValueForBlock(From)});
    if (asg.empty()) return d;
    // gather the new rows from the old state
    D old = d;
    std::set<unsigned> assigned;
    for (auto &[P, V] : asg) assigned.insert(idx[P]);
    for (unsigned x : assigned) forget(d, x);
    // relation of new phi to unassigned variables and among new phis
    struct L { bool ok; unsigned v; int64_t c; };
    std::vector<L> ls;
    for (auto &[P, V] : asg) { L l; l.ok = lin(V, l.v, l.c); ls.push_back(l); }
    for (size_t i = 0; i < asg.size(); ++i) {
      unsigned x = idx[asg[i].first];
      range(d, asg[i].first);
      if (!ls[i].ok || d.bot) continue;
      for (unsigned b = 0; b < N; ++b) {
        if (assigned.count(b)) continue;
        int64_t u = addS(get(old, ls[i].v, b), ls[i].c), l = ls[i].c == INT64_MIN ? INF : addS(get(old, b, ls[i].v), -ls[i].c);
        addC(d, x, b, u);
        if (d.bot) return d;
        addC(d, b, x, l);
        if (d.bot) return d;
      }
      for (size_t k = 0; k < i; ++k) {
        if (!ls[k].ok) continue;
        unsigned y = idx[asg[k].first];
        i128 dc = (i128)ls[i].c - ls[k].c;
        if (dc > INT64_MAX / 2 || dc < INT64_MIN / 2) continue;
        addC(d, x, y, addS(get(old, ls[i].v, ls[k].v), (int64_t)dc));
        if (d.bot) return d;
        addC(d, y, x, addS(get(old, ls[k].v, ls[i].v), (int64_t)-dc));
        if (d.bot) return d;
      }
    }
    return d;
  }
  bool run() {
    countUp();
    makeTwins();
    for (auto &t : twins) { track(t.x); track(t.k); }
    // seeds: comparison operands
    for (auto &I : instructions(F))
      if (auto *IC = dyn_cast<ICmpInst>(&I)) { track(IC->getOperand(0)); track(IC->getOperand(1)); }
      else if (auto *Sw = dyn_cast<SwitchInst>(&I)) track(Sw->getCondition());
    if (N <= 1) return false;
    ReversePostOrderTraversal<Function *> RPO(&F);
    std::vector<BasicBlock *> order(RPO.begin(), RPO.end());
    if (order.size() > 600 || (size_t)N * N * order.size() > 40000000) return false;
    DenseMap<BasicBlock *, D> in, out;
    auto entry = [&]() {
      D d = top();
      for (unsigned i = 1; i < N; ++i) if (isa<Argument>(vars[i])) range(d, vars[i]);
      return d;
    };
    auto flow = [&](BasicBlock *BB, D d) {
      for (auto &I : *BB) transfer(d, &I);
      return d;
    };
    // state on the edge P -> BB; when P branches on one of its own phis, the paths into P are kept apart
    auto edgeState = [&](BasicBlock *P, BasicBlock *BB) {
      D whole = edge(out[P], P, BB);
      auto *Br = dyn_cast<BranchInst>(P->getTerminator());
      if (whole.bot || !Br || !Br->isConditional() || Br->getSuccessor(0) == Br->getSuccessor(1) || LI.isLoopHeader(P) || P->size() > 40 || !readsPhi(Br->getCondition(), P)) return whole;
      D d;
      std::set<BasicBlock *> seen;
      for (auto *PP : predecessors(P)) {
        if (!seen.insert(PP).second) continue;
        auto it = out.find(PP);
        if (it == out.end()) continue;
        D q = it->second;
        assumeFrom(q, Br->getCondition(), Br->getSuccessor(0) == BB, P, PP);
        if (q.bot) continue;
        q = edge(q, PP, P);
        if (!q.bot) q = flow(P, q);
        if (!q.bot) q = edge(q, P, BB);
        join(d, q);
      }
      return d;
    };
    auto compute = [&](BasicBlock *BB) {
      D d;
      if (BB == &F.getEntryBlock()) d = entry();
      else {
        std::set<BasicBlock *> seen;
        for (auto *P : predecessors(BB)) if (seen.insert(P).second) { auto it = out.find(P); if (it != out.end()) join(d, edgeState(P, BB)); }
      }
      return d;
    };
    DenseMap<BasicBlock *, unsigned> visits;
    bool changed = true;
    unsigned sweeps = 0;
    while (changed && sweeps++ < 60) {
      changed = false;
      for (auto *BB : order) {
        D d = compute(BB);
        auto it = in.find(BB);
        if (it != in.end() && LI.isLoopHeader(BB)) {
          D &o = it->second;
          if (!o.bot && !d.bot) {
            unsigned v = ++visits[BB];
            for (size_t k = 0; k < d.m.size(); ++k) {
              if (d.m[k] <= o.m[k]) d.m[k] = o.m[k];
              else if (v > 2) {
                // widening with a few thresholds
                int64_t t = INF;
                for (int64_t c : {-1l, 0l, 1l, 8l, 64l, 256l}) if (d.m[k] <= c) { t = c; break; }
                d.m[k] = v > 12 ? INF : t;
              }
            }
          } else if (d.bot) d = o;
        }
        if (it != in.end() && it->second.bot == d.bot && (d.bot || it->second.m == d.m)) { if (out.count(BB)) continue; }
        in[BB] = d;
        if (visits.count(BB)) close(d); // the widened matrix itself stays as it is, for termination
        out[BB] = flow(BB, d);
        changed = true;
      }
    }
    if (getenv("SA_DEBUG")) errs() << F.getName() << " zone N=" << N << " blocks=" << order.size() << " sweeps=" << sweeps << " changed=" << changed << "\n";
    if (getenv("SA_DEBUG") && atoi(getenv("SA_DEBUG")) > 1) {
      for (auto &t : twins) errs() << "twin " << t.f << ": " << *t.x << " ~ " << *t.k << (idx.count(t.x) && idx.count(t.k) ? "" : " untracked") << "\n";
      for (auto *BB : order) {
        D &d = in[BB];
        errs() << "block "; BB->printAsOperand(errs(), false); errs() << (d.bot ? " bot\n" : "\n");
        if (d.bot) continue;
        for (unsigned i = 0; i < N; ++i) for (unsigned j = 0; j < N; ++j) if (i != j && get(d, i, j) < 1000 && get(d, i, j) > -1000) {
          errs() << "   "; if (i) vars[i]->printAsOperand(errs(), false); else errs() << "0"; errs() << " - "; if (j) vars[j]->printAsOperand(errs(), false); else errs() << "0"; errs() << " <= " << get(d, i, j) << "\n";
        }
      }
    }
    if (changed) return false; // no fixpoint within the budget: say nothing
    for (int k = 0; k < 3; ++k) // narrowing
      for (auto *BB : order) {
        D d = compute(BB);
        D &o = in[BB];
        if (o.bot) continue;
        if (d.bot) { in[BB] = d; out[BB] = d; continue; }
        for (size_t q = 0; q < d.m.size(); ++q) d.m[q] = std::min(d.m[q], o.m[q]);
        close(d);
        in[BB] = d;
        out[BB] = flow(BB, d);
      }
    // use the result
    bool mod = false;
    auto *True = ConstantInt::getTrue(F.getContext()), *False = ConstantInt::getFalse(F.getContext());
    std::vector<std::pair<Instruction *, Constant *>> repl;
    std::vector<ICmpInst *> unsign;
    std::vector<std::tuple<ICmpInst *, Value *, Value *>> unshift;
    for (auto *BB : order) {
      D d = in[BB];
      if (d.bot) {
        for (auto &I : *BB)
          if (auto *CB = dyn_cast<CallInst>(&I)) {
            StringRef n = calleeName(*CB);
            if (n == "sa_claim_id" || n == "sa_bound") if (!isa<Constant>(CB->getArgOperand(0))) { CB->setArgOperand(0, True); mod = true; ++decided; }
          }
        continue;
      }
      for (auto &I : *BB) {
        if (auto *IC = dyn_cast<ICmpInst>(&I)) {
          int r = decide(d, IC->getPredicate(), IC->getOperand(0), IC->getOperand(1));
          if (r >= 0) repl.push_back({IC, r ? True : False});
          else if (Value *A, *B2; IC->getType()->isIntegerTy(1) && PatternMatch::match(IC->getOperand(0), PatternMatch::m_Shl(PatternMatch::m_Value(A), PatternMatch::m_ConstantInt())) &&
                   PatternMatch::match(IC->getOperand(1), PatternMatch::m_Shl(PatternMatch::m_Value(B2), PatternMatch::m_ConstantInt())) && cast<User>(IC->getOperand(0))->getOperand(1) == cast<User>(IC->getOperand(1))->getOperand(1)) {
            // multiples of the same power of two compare like the multiplied numbers
            uint64_t k = cast<ConstantInt>(cast<User>(IC->getOperand(0))->getOperand(1))->getZExtValue();
            unsigned a, b;
            int64_t ca, cb;
            unsigned w = A->getType()->getIntegerBitWidth();
            if (k < w - 1 && lin(A, a, ca) && lin(B2, b, cb) && nonneg(d, a, ca) && nonneg(d, b, cb) && hi(d, a, ca) < (int64_t(1) << (w - 1 - k)) && hi(d, b, cb) < (int64_t(1) << (w - 1 - k))) unshift.push_back({IC, A, B2});
          } else if (IC->isSigned()) { // one spelling for comparisons of numbers that are not negative
            unsigned a, b;
            int64_t ca, cb;
            if (lin(IC->getOperand(0), a, ca) && lin(IC->getOperand(1), b, cb) && nonneg(d, a, ca) && nonneg(d, b, cb)) unsign.push_back(IC);
          }
        } else if (auto *CB = dyn_cast<CallInst>(&I)) {
          StringRef n = calleeName(*CB);
          if ((n == "sa_claim_id" || n == "sa_bound") && !isa<Constant>(CB->getArgOperand(0))) {
            int r = decideCond(d, CB->getArgOperand(0));
            if (r == 1) { CB->setArgOperand(0, True); mod = true; ++decided; }
          }
        }
        transfer(d, &I);
      }
      if (d.bot) continue;
      if (auto *Br = dyn_cast<BranchInst>(BB->getTerminator()))
        if (Br->isConditional() && !isa<Constant>(Br->getCondition())) {
          int r = decideCond(d, Br->getCondition());
          if (r < 0) {
            D t = edge(out[BB], BB, Br->getSuccessor(0)), f = edge(out[BB], BB, Br->getSuccessor(1));
            if (t.bot && !f.bot) r = 0;
            else if (f.bot && !t.bot) r = 1;
          }
          if (r >= 0) { Br->setCondition(r ? True : False); mod = true; ++decided; }
        }
    }
    for (auto &[IC, A, B] : unshift) { IC->setOperand(0, A); IC->setOperand(1, B); mod = true; }
    for (auto *IC : unsign) { IC->setPredicate(IC->getUnsignedPredicate()); mod = true; }
    for (auto &[I, C] : repl) { if (!I->use_empty()) { I->replaceAllUsesWith(C); mod = true; ++decided; } }
    // proved loop invariants become facts the other analyses can use
    for (auto *L : LI.getLoopsInPreorder()) {
      BasicBlock *H = L->getHeader();
      if (in[H].bot) continue;
      Instruction *IP = &*H->getFirstInsertionPt();
      IRBuilder<> B(IP);
      for (auto &P : H->phis()) {
        if (!idx.count(&P)) continue;
        unsigned x = idx[&P];
        unsigned cnt = 0;
        for (unsigned y = 1; y < N && cnt < 4; ++y) {
          if (y == x || vars[y]->getType() != P.getType()) continue;
          auto *YI = dyn_cast<Instruction>(vars[y]);
          if (YI && (L->contains(YI) || !DT.dominates(YI, IP))) continue;
          if (get(in[H], x, y) == 0) { B.CreateAssumption(B.CreateICmpSLE(&P, vars[y])); ++cnt; mod = true; }
          else if (get(in[H], x, y) == -1) { B.CreateAssumption(B.CreateICmpSLT(&P, vars[y])); ++cnt; mod = true; }
          if (get(in[H], y, x) == 0) { B.CreateAssumption(B.CreateICmpSLE(vars[y], &P)); ++cnt; mod = true; }
        }
        if (get(in[H], 0, x) == 0) B.CreateAssumption(B.CreateICmpSGE(&P, ConstantInt::get(P.getType(), 0)));
      }
    }
    return mod;
  }
};
} // namespace
