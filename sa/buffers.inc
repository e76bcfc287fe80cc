// ------------------------------------------------------------------------------------------------
// Pass: memory-bounds obligations. Objects of known extent are: buffers a probe declares with
// sa_buffer(n) (a fresh object of n bytes), allocas, globals with a definite size, and operator new.
// Pointers into such an object are rewritten as (object, byte offset); each access gets an obligation
// offset + access size <= extent, and pointer comparisons inside one object become offset comparisons.
namespace {
struct Buffers {
  Function &F;
  DominatorTree DT;
  LoopInfo LI;
  const DataLayout &DL;
  Module &M;
  unsigned accesses = 0, constAccesses = 0, foreign = 0;
  std::set<std::string> foreignLocs;
  DenseMap<Value *, Value *> baseMemo; // value -> its unique base object, or null
  DenseMap<Value *, Value *> offMemo;
  explicit Buffers(Function &F) : F(F), DT(F), LI(DT), DL(F.getParent()->getDataLayout()), M(*F.getParent()) {}

  static bool isBufferCall(const Value *V) {
    auto *CB = dyn_cast<CallInst>(V);
    return CB && (calleeName(*CB) == "sa_buffer" || calleeName(*CB) == "sa_cstring");
  }
  static bool isCString(const Value *V) {
    auto *CB = dyn_cast<CallInst>(V);
    return CB && calleeName(*CB) == "sa_cstring";
  }
  static bool isNewCall(const Value *V) {
    auto *CB = dyn_cast<CallInst>(V);
    if (!CB) return false;
    StringRef n = calleeName(*CB);
    return n == "_Znwm" || n == "_Znam";
  }
  bool isObject(Value *V) {
    if (isBufferCall(V) || isNewCall(V)) return true;
    if (auto *A = dyn_cast<AllocaInst>(V)) return A->getAllocationSize(DL).has_value();
    if (auto *G = dyn_cast<GlobalVariable>(V)) return G->hasDefinitiveInitializer();
    return false;
  }
  // unique base object of a pointer: an optimistic fixpoint over phis
  Value *baseOf(Value *V) {
    auto it = baseMemo.find(V);
    if (it != baseMemo.end()) return it->second;
    std::set<Value *> seen;
    std::vector<Value *> work{V};
    Value *base = nullptr;
    bool ok = true;
    while (!work.empty() && ok) {
      Value *X = work.back();
      work.pop_back();
      if (!seen.insert(X).second) continue;
      if (isObject(X)) {
        if (base && base != X) ok = false;
        base = X;
      } else if (auto *G = dyn_cast<GEPOperator>(X)) work.push_back(G->getPointerOperand());
      else if (auto *P = dyn_cast<PHINode>(X)) for (auto &I : P->incoming_values()) work.push_back(I);
      else if (auto *S = dyn_cast<SelectInst>(X)) { work.push_back(S->getTrueValue()); work.push_back(S->getFalseValue()); }
      else if (isa<UndefValue>(X) || isa<ConstantPointerNull>(X)) {}
      else ok = false;
    }
    // an object created anew in every iteration: pointers carried around the loop refer to another one
    if (ok && base && isa<CallInst>(base))
      for (auto *X : seen)
        if (auto *P = dyn_cast<PHINode>(X))
          if (Loop *L = LI.getLoopFor(P->getParent()); L && L->getHeader() == P->getParent() && L->contains(cast<Instruction>(base))) ok = false;
    if (!ok) base = nullptr;
    baseMemo[V] = base;
    return base;
  }
  Value *offOf(Value *V, Value *base) {
    Type *I64 = Type::getInt64Ty(F.getContext());
    if (V == base || isa<UndefValue>(V)) return ConstantInt::get(I64, 0);
    if (isa<ConstantPointerNull>(V)) return ConstantInt::get(I64, 1ull << 62); // null is outside of every object
    auto it = offMemo.find(V);
    if (it != offMemo.end()) return it->second;
    if (auto *P = dyn_cast<PHINode>(V)) {
      PHINode *N = PHINode::Create(I64, P->getNumIncomingValues(), "off", P);
      offMemo[V] = N;
      for (unsigned i = 0; i < P->getNumIncomingValues(); ++i) N->addIncoming(offOf(P->getIncomingValue(i), base), P->getIncomingBlock(i));
      return N;
    }
    if (auto *S = dyn_cast<SelectInst>(V)) {
      Value *a = offOf(S->getTrueValue(), base), *b = offOf(S->getFalseValue(), base);
      IRBuilder<> B(S);
      return offMemo[V] = B.CreateSelect(S->getCondition(), a, b, "off");
    }
    auto *G = cast<GEPOperator>(V);
    Value *o = offOf(G->getPointerOperand(), base);
    if (auto *GI = dyn_cast<GetElementPtrInst>(G)) {
      IRBuilder<> B(GI);
      Value *d = emitGEPOffset(&B, DL, GI, true);
      d = B.CreateSExtOrTrunc(d, I64);
      return offMemo[V] = B.CreateAdd(o, d, "off");
    }
    APInt c(64, 0);
    if (!G->accumulateConstantOffset(DL, c)) report_fatal_error("constant gep with variable offset");
    Constant *k = ConstantInt::get(I64, c);
    if (auto *oc = dyn_cast<Constant>(o)) return ConstantExpr::getAdd(oc, k);
    return nullptr;
  }
  Value *extent(Value *base, IRBuilder<> &B) {
    Type *I64 = Type::getInt64Ty(F.getContext());
    if (isBufferCall(base) || isNewCall(base)) return cast<CallInst>(base)->getArgOperand(0);
    if (auto *A = dyn_cast<AllocaInst>(base)) return ConstantInt::get(I64, A->getAllocationSize(DL)->getFixedValue());
    auto *G = cast<GlobalVariable>(base);
    return ConstantInt::get(I64, DL.getTypeAllocSize(G->getValueType()).getFixedValue());
  }

  // a pointer at an offset inside [0, extent] of an object is not null
  bool nullFold() {
    bool changed = false;
    std::vector<ICmpInst *> work;
    for (auto &I : instructions(F))
      if (auto *IC = dyn_cast<ICmpInst>(&I))
        if (IC->isEquality() && !IC->getMetadata("sa.nf") && (isa<ConstantPointerNull>(IC->getOperand(0)) || isa<ConstantPointerNull>(IC->getOperand(1)))) work.push_back(IC);
    for (auto *IC : work) {
      Value *P = IC->getOperand(isa<ConstantPointerNull>(IC->getOperand(0)) ? 1 : 0);
      Value *a = baseOf(P);
      Value *o = a ? offOf(P, a) : nullptr;
      if (!o) continue;
      if (auto *BI = dyn_cast<Instruction>(a); BI && !DT.dominates(BI, IC)) continue;
      IRBuilder<> B(IC->getNextNode());
      Value *out = B.CreateICmpUGT(o, extent(a, B));
      Instruction *orig = IC->clone();
      B.Insert(orig);
      orig->setMetadata("sa.nf", MDNode::get(F.getContext(), {}));
      Value *r = IC->getPredicate() == ICmpInst::ICMP_EQ ? B.CreateAnd(out, orig) : B.CreateOr(B.CreateNot(out), orig);
      IC->replaceAllUsesWith(r);
      IC->eraseFromParent();
      changed = true;
    }
    return changed;
  }

  bool run() {
    FunctionCallee Bound = M.getOrInsertFunction("sa_bound", Type::getVoidTy(F.getContext()), Type::getInt1Ty(F.getContext()));
    if (auto *BF = dyn_cast<Function>(Bound.getCallee())) {
      BF->setMemoryEffects(MemoryEffects::inaccessibleMemOnly());
      BF->addFnAttr(Attribute::NoUnwind);
      BF->addFnAttr(Attribute::WillReturn);
    }
    std::vector<Instruction *> work;
    for (auto &I : instructions(F)) work.push_back(&I);
    for (auto *I : work) {
      Value *Ptr = nullptr, *Size = nullptr;
      Type *I64 = Type::getInt64Ty(F.getContext());
      std::vector<std::pair<Value *, Value *>> acc;
      if (auto *L = dyn_cast<LoadInst>(I)) acc.push_back({L->getPointerOperand(), ConstantInt::get(I64, DL.getTypeStoreSize(L->getType()).getFixedValue())});
      else if (auto *S = dyn_cast<StoreInst>(I)) acc.push_back({S->getPointerOperand(), ConstantInt::get(I64, DL.getTypeStoreSize(S->getValueOperand()->getType()).getFixedValue())});
      else if (auto *MI = dyn_cast<MemIntrinsic>(I)) {
        acc.push_back({MI->getRawDest(), MI->getLength()});
        if (auto *MT = dyn_cast<MemTransferInst>(MI)) acc.push_back({MT->getRawSource(), MT->getLength()});
      } else if (auto *CB = dyn_cast<CallInst>(I)) {
        StringRef n = calleeName(*CB);
        if ((n == "memcmp" || n == "bcmp" || n == "memmove" || n == "memcpy") && CB->arg_size() == 3) {
          acc.push_back({CB->getArgOperand(0), CB->getArgOperand(2)});
          acc.push_back({CB->getArgOperand(1), CB->getArgOperand(2)});
        } else if (n == "memchr" && CB->arg_size() == 3) acc.push_back({CB->getArgOperand(0), CB->getArgOperand(2)});
      } else if (auto *IC = dyn_cast<ICmpInst>(I)) {
        if (!IC->getOperand(0)->getType()->isPointerTy()) continue;
        Value *a = baseOf(IC->getOperand(0)), *b = baseOf(IC->getOperand(1));
        if (!a || a != b) continue;
        Value *oa = offOf(IC->getOperand(0), a), *ob = offOf(IC->getOperand(1), a);
        if (!oa || !ob) continue;
        IRBuilder<> B(IC);
        CmpInst::Predicate p = IC->getPredicate();
        if (IC->isUnsigned()) p = ICmpInst::getSignedPredicate(p);
        IC->replaceAllUsesWith(B.CreateICmp(p, oa, ob));
        continue;
      } else if (auto *BO = dyn_cast<BinaryOperator>(I)) {
        // pointer difference
        if (BO->getOpcode() != Instruction::Sub) continue;
        auto *x = dyn_cast<PtrToIntOperator>(BO->getOperand(0)), *y = dyn_cast<PtrToIntOperator>(BO->getOperand(1));
        if (!x || !y || !BO->getType()->isIntegerTy(64)) continue;
        Value *a = baseOf(x->getPointerOperand()), *b = baseOf(y->getPointerOperand());
        if (!a || a != b) continue;
        Value *oa = offOf(x->getPointerOperand(), a), *ob = offOf(y->getPointerOperand(), a);
        if (!oa || !ob) continue;
        IRBuilder<> B(BO);
        BO->replaceAllUsesWith(B.CreateSub(oa, ob));
        continue;
      }
      for (auto &[P, Sz] : acc) {
        Value *base = baseOf(P);
        if (auto *BI = dyn_cast_or_null<Instruction>(base); BI && !DT.dominates(BI, I)) base = nullptr;
        if (!base) { ++foreign; foreignLocs.insert(demangleLoc(I->getDebugLoc())); continue; }
        Value *o = offOf(P, base);
        // sa_cstring(n): the last byte of the object is zero
        if (auto *L = dyn_cast<LoadInst>(I); L && o && isCString(base) && L->getType()->isIntegerTy(8)) {
          IRBuilder<> B(L->getNextNode());
          Value *last = B.CreateICmpEQ(o, B.CreateSub(cast<CallInst>(base)->getArgOperand(0), ConstantInt::get(I64, 1)));
          auto *S = cast<Instruction>(B.Insert(SelectInst::Create(last, ConstantInt::get(L->getType(), 0), PoisonValue::get(L->getType()))));
          L->replaceAllUsesWith(S);
          S->setOperand(2, L);
        }
        if (!o) { ++foreign; foreignLocs.insert(demangleLoc(I->getDebugLoc())); continue; }
        IRBuilder<> B(I);
        Value *n = extent(base, B);
        Value *sz = B.CreateZExtOrTrunc(Sz, I64);
        // 0 <= o  &&  sz <= n  &&  o <= n - sz
        Value *c = B.CreateAnd(B.CreateICmpULE(sz, n), B.CreateICmpULE(o, B.CreateSub(n, sz)));
        if (!isa<Constant>(sz)) c = B.CreateOr(c, B.CreateICmpEQ(sz, ConstantInt::get(I64, 0)));
        if (auto *CI = dyn_cast<ConstantInt>(c)) {
          if (CI->isOne()) { ++constAccesses; continue; }
        }
        ++accesses;
        auto *call = B.CreateCall(Bound, {c});
        call->setDebugLoc(I->getDebugLoc());
        // rebase the pointer so that later passes see object + offset
        if (!isa<MemIntrinsic>(I) && !isa<Constant>(P) && P != base && !isa<GetElementPtrInst>(P)) {
          Value *np = B.CreateGEP(B.getInt8Ty(), base, o);
          if (auto *L = dyn_cast<LoadInst>(I)) L->setOperand(0, np);
          else if (auto *S = dyn_cast<StoreInst>(I)) S->setOperand(1, np);
        }
      }
    }
    return accesses > 0;
  }
};
} // namespace
