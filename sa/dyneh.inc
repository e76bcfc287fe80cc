// Exceptions of which the type is known only from where they were thrown: what a handler rethrows, keeps in a nested
// exception or asks the type of. Throws become branches to the handler which the types choose, one level of calls at a time,
// so that what a handler does is only looked at when something is thrown into it. Exception objects are never destroyed.
struct DynEH {
  Function &F;
  Module &M;
  LLVMContext &C;
  Type *PT, *I32, *I64;
  GlobalVariable *Depth = nullptr, *Stack = nullptr; // while the calls are taken apart; locals of the probe afterwards
  static constexpr unsigned Cap = 24;
  explicit DynEH(Function &F) : F(F), M(*F.getParent()), C(F.getContext()) {
    PT = PointerType::get(C, 0);
    I32 = Type::getInt32Ty(C);
    I64 = Type::getInt64Ty(C);
  }
  // the position of a base class in a class, by its description; -1 when it is not a base (or a virtual one)
  static int64_t baseOffset(const GlobalVariable *T, StringRef base, int depth = 0) {
    if (T->getName() == base) return 0;
    if (depth > 8) return -1;
    if (!T->hasInitializer()) {
      for (std::string n = T->getName().str();;) {
        auto it = StdBases.find(n);
        if (it == StdBases.end()) return -1;
        n = it->second;
        if (base == n) return 0;
      }
    }
    auto *CS = dyn_cast<ConstantStruct>(T->getInitializer());
    if (!CS) return -1;
    if (CS->getNumOperands() == 3) {
      auto *G = dyn_cast<GlobalVariable>(CS->getOperand(2)->stripPointerCasts());
      return G ? baseOffset(G, base, depth + 1) : -1;
    }
    for (unsigned i = 4; i + 1 < CS->getNumOperands(); i += 2) {
      auto *G = dyn_cast<GlobalVariable>(CS->getOperand(i)->stripPointerCasts());
      auto *o = dyn_cast<ConstantInt>(CS->getOperand(i + 1));
      if (!G || !o) return -1;
      if (o->getSExtValue() & 1) continue; // virtual base
      if (!(o->getSExtValue() & 2)) continue; // not public
      int64_t r = baseOffset(G, base, depth + 1);
      if (r >= 0) return r + (o->getSExtValue() >> 8);
    }
    return -1;
  }
  std::vector<GlobalVariable *> types() {
    std::vector<GlobalVariable *> r;
    for (auto &G : M.globals()) if (G.getName().starts_with("_ZTI")) r.push_back(&G);
    return r;
  }
  GlobalVariable *global(StringRef n, Type *T) {
    if (auto *G = M.getGlobalVariable(n, true)) return G;
    return new GlobalVariable(M, T, false, GlobalValue::InternalLinkage, Constant::getNullValue(T), n);
  }
  void state() {
    Depth = global("sa.eh.depth", I32);
    Stack = global("sa.eh.stack", ArrayType::get(PT, Cap));
  }
  void begin() {
    state();
    IRBuilder<> B(&*F.getEntryBlock().getFirstInsertionPt());
    B.CreateStore(B.getInt32(0), Depth);
  }
  void end() {
    state();
    for (auto *G : {Depth, Stack}) {
      IRBuilder<> B(&*F.getEntryBlock().getFirstInsertionPt());
      auto *A = B.CreateAlloca(G->getValueType(), nullptr, G->getName());
      convertUsersOfConstantsToInstructions({G});
      G->replaceUsesWithIf(A, [&](Use &U) { auto *I = dyn_cast<Instruction>(U.getUser()); return I && I->getFunction() == &F; });
    }
  }
  std::set<BasicBlock *> normal() {
    std::set<BasicBlock *> s;
    std::vector<BasicBlock *> w{&F.getEntryBlock()};
    while (!w.empty()) {
      auto *B = w.back();
      w.pop_back();
      if (!s.insert(B).second) continue;
      if (auto *II = dyn_cast<InvokeInst>(B->getTerminator())) w.push_back(II->getNormalDest());
      else for (auto *S : successors(B)) w.push_back(S);
    }
    return s;
  }
  Value *top(IRBuilder<> &B) { // the exception being handled, or null
    Value *d = B.CreateLoad(I32, Depth);
    Value *none = B.CreateICmpEQ(d, B.getInt32(0));
    Value *i = B.CreateSelect(none, B.getInt32(0), B.CreateSub(d, B.getInt32(1)));
    Value *v = B.CreateLoad(PT, B.CreateGEP(PT, Stack, {i}));
    return B.CreateSelect(none, ConstantPointerNull::get(cast<PointerType>(PT)), v);
  }
  Value *field(IRBuilder<> &B, Value *h, unsigned i) { return B.CreateConstGEP1_32(PT, h, i); }
  EHLower *Ids;
  // ends the block with the transfer of the exception to where the call `CB` unwinds to
  void raise(CallBase *CB, Value *handle, Value *type) {
    BasicBlock *BB = CB->getParent();
    DebugLoc DL = CB->getDebugLoc();
    FunctionCallee Uncaught = M.getOrInsertFunction("sa_uncaught", Type::getVoidTy(C), PT);
    auto *II = dyn_cast<InvokeInst>(CB);
    if (!II) {
      IRBuilder<> B(CB);
      B.CreateCall(Uncaught, {type})->setDebugLoc(DL);
      changeToUnreachable(CB);
      return;
    }
    BasicBlock *Unw = II->getUnwindDest();
    LandingPadInst *LP = Unw->getLandingPadInst();
    // what follows the landing pad gets a block of its own
    BasicBlock *Cont = SplitBlock(Unw, LP->getNextNode());
    std::vector<std::pair<PHINode *, PHINode *>> ph;
    for (auto &P : Unw->phis()) {
      auto *N = PHINode::Create(P.getType(), 2, "", &Cont->front());
      ph.push_back({&P, N});
    }
    auto *P0 = PHINode::Create(PT, 2, "exc", &Cont->front());
    auto *P1 = PHINode::Create(I32, 2, "sel", &Cont->front());
    IRBuilder<> L(Unw->getTerminator());
    Value *e0 = L.CreateExtractValue(LP, 0), *e1 = L.CreateExtractValue(LP, 1);
    IRBuilder<> CBd(&*Cont->getFirstInsertionPt());
    Value *agg = CBd.CreateInsertValue(PoisonValue::get(LP->getType()), P0, 0);
    agg = CBd.CreateInsertValue(agg, P1, 1);
    LP->replaceUsesWithIf(agg, [&](Use &U) { return U.getUser() != e0 && U.getUser() != e1; });
    P0->addIncoming(e0, Unw);
    P1->addIncoming(e1, Unw);
    for (auto &[P, N] : ph) {
      Value *in = P->getIncomingValueForBlock(BB);
      PHINode *Pn = N, *Po = P;
      P->replaceUsesWithIf(N, [&](Use &U) { return cast<Instruction>(U.getUser())->getParent() != Unw || U.getUser() == Pn; });
      N->addIncoming(Po, Unw);
      N->addIncoming(in, BB);
    }
    IRBuilder<> B(II);
    Value *sel = B.getInt32(0), *adj = B.CreateLoad(PT, field(B, handle, 0)), *obj = adj, *matched = B.getInt1(LP->isCleanup());
    if (getenv("SA_DEBUG")) { errs() << "raise "; type->printAsOperand(errs()); errs() << " " << demangleLoc(DL) << "\n  "; LP->print(errs()); errs() << "\n"; }
    auto all = types();
    for (unsigned i = LP->getNumClauses(); i-- > 0;) {
      if (!LP->isCatch(i)) continue;
      Constant *Cl = LP->getClause(i);
      Value *id = B.getInt32(Ids->idFor(Cl));
      if (isa<ConstantPointerNull>(Cl)) { sel = id; matched = B.getTrue(); adj = obj; continue; }
      StringRef base = Cl->stripPointerCasts()->getName();
      for (auto *T : all) {
        int64_t o = baseOffset(T, base);
        if (o < 0) continue;
        Value *is = B.CreateICmpEQ(type, T);
        sel = B.CreateSelect(is, id, sel);
        matched = B.CreateOr(is, matched);
        adj = B.CreateSelect(is, B.CreateConstGEP1_64(Type::getInt8Ty(C), obj, o), adj);
      }
    }
    B.CreateStore(adj, field(B, handle, 2));
    P0->addIncoming(handle, BB);
    P1->addIncoming(sel, BB);
    II->getNormalDest()->removePredecessor(BB);
    Unw->removePredecessor(BB);
    BasicBlock *U = BasicBlock::Create(C, "uncaught", &F);
    IRBuilder<> UB(U);
    UB.CreateCall(Uncaught, {type})->setDebugLoc(DL);
    UB.CreateUnreachable();
    B.CreateCondBr(matched, Cont, U)->setDebugLoc(DL);
    II->eraseFromParent();
  }
  // the next instruction of the run-time library which can be taken away; false: there is none
  bool lower(bool force = false) {
    state();
    auto live = normal();
    for (auto &BB : F) {
      if (!live.count(&BB)) continue;
      for (auto &I : BB) {
        if (auto *Ld = dyn_cast<LoadInst>(&I)) {
          // what is known of classes of the standard library: their descriptions
          int64_t off = 0;
          auto *Base = dyn_cast<GlobalVariable>(GetPointerBaseWithConstantOffset(Ld->getPointerOperand(), off, M.getDataLayout()));
          if (!Base || Base->hasInitializer() || !Ld->getType()->isPointerTy()) continue;
          StringRef n = Base->getName();
          if (n.starts_with("_ZTV") && off == 8) {
            Ld->replaceAllUsesWith(M.getOrInsertGlobal(("_ZTI" + n.drop_front(4)).str(), PT));
            Ld->eraseFromParent();
            return true;
          }
          if (n.starts_with("_ZTI") && off == 8) {
            IRBuilder<> B(Ld);
            std::string nm = ("_ZTS" + n.drop_front(4)).str();
            GlobalVariable *S = M.getGlobalVariable(nm, true);
            if (!S) S = new GlobalVariable(M, ArrayType::get(Type::getInt8Ty(C), n.size() - 3), true, GlobalValue::InternalLinkage, ConstantDataArray::getString(C, n.drop_front(4)), nm);
            Ld->replaceAllUsesWith(S);
            Ld->eraseFromParent();
            return true;
          }
          continue;
        }
        auto *CB = dyn_cast<CallBase>(&I);
        if (!CB || CB->isIndirectCall()) continue;
        StringRef n = calleeName(*CB);
        IRBuilder<> B(CB);
        auto done = [&](Value *V) {
          if (V) CB->replaceAllUsesWith(V);
          if (auto *II = dyn_cast<InvokeInst>(CB)) {
            II->getUnwindDest()->removePredecessor(&BB);
            BranchInst::Create(II->getNormalDest(), CB);
          }
          CB->eraseFromParent();
          return true;
        };
        if (auto *In = dyn_cast<IntrinsicInst>(CB)) {
          if (In->getIntrinsicID() == Intrinsic::eh_typeid_for) return done(ConstantInt::get(In->getType(), Ids->idFor(In->getArgOperand(0))));
          continue;
        }
        if (n == "__cxa_allocate_exception") {
          auto *sz = cast<ConstantInt>(CB->getArgOperand(0));
          IRBuilder<> E(&*F.getEntryBlock().getFirstInsertionPt());
          auto *A = E.CreateAlloca(ArrayType::get(Type::getInt8Ty(C), sz->getZExtValue()), nullptr, "thrown");
          A->setAlignment(Align(16));
          return done(A);
        }
        if (n == "__cxa_free_exception") return done(nullptr);
        if (n == "__cxa_throw") {
          IRBuilder<> E(&*F.getEntryBlock().getFirstInsertionPt());
          auto *H = E.CreateAlloca(ArrayType::get(PT, 3), nullptr, "exception");
          B.CreateStore(CB->getArgOperand(0), field(B, H, 0));
          B.CreateStore(CB->getArgOperand(1), field(B, H, 1));
          raise(CB, H, CB->getArgOperand(1));
          return true;
        }
        if (n == "__cxa_rethrow" || n.starts_with("_ZSt17rethrow_exception")) {
          Value *h = n == "__cxa_rethrow" ? top(B) : B.CreateLoad(PT, CB->getArgOperand(0));
          // with nothing to throw the program ends
          Value *none = B.CreateICmpEQ(h, ConstantPointerNull::get(cast<PointerType>(PT)));
          Instruction *T = SplitBlockAndInsertIfThen(none, CB, true);
          IRBuilder<> TB(T);
          TB.CreateCall(M.getOrInsertFunction("_ZSt9terminatev", Type::getVoidTy(C)))->setDebugLoc(CB->getDebugLoc());
          B.SetInsertPoint(CB);
          Value *type = B.CreateLoad(PT, field(B, h, 1));
          FunctionCallee R = M.getOrInsertFunction("sa_rethrow", Type::getVoidTy(C), PT, PT);
          if (auto *II = dyn_cast<InvokeInst>(CB)) B.CreateInvoke(R, II->getNormalDest(), II->getUnwindDest(), {h, type})->setDebugLoc(II->getDebugLoc());
          else B.CreateCall(R, {h, type})->setDebugLoc(CB->getDebugLoc());
          if (isa<InvokeInst>(CB)) CB->eraseFromParent();
          else changeToUnreachable(CB);
          return true;
        }
        if (n == "sa_rethrow") {
          if (!isa<GlobalVariable>(CB->getArgOperand(1)) && !force) continue;
          raise(CB, CB->getArgOperand(0), CB->getArgOperand(1));
          return true;
        }
        if (n == "__cxa_begin_catch") {
          Value *h = CB->getArgOperand(0), *d = B.CreateLoad(I32, Depth);
          B.CreateStore(h, B.CreateGEP(PT, Stack, {d}));
          B.CreateStore(B.CreateAdd(d, B.getInt32(1)), Depth);
          return done(B.CreateLoad(PT, field(B, h, 2)));
        }
        if (n == "__cxa_end_catch") {
          B.CreateStore(B.CreateSub(B.CreateLoad(I32, Depth), B.getInt32(1)), Depth);
          return done(nullptr);
        }
        if (n == "__cxa_current_exception_type") {
          Value *h = top(B);
          Value *none = B.CreateICmpEQ(h, ConstantPointerNull::get(cast<PointerType>(PT)));
          Value *from = B.CreateSelect(none, Stack, field(B, h, 1));
          return done(B.CreateSelect(none, ConstantPointerNull::get(cast<PointerType>(PT)), B.CreateLoad(PT, from)));
        }
        if (n == "_ZSt17current_exceptionv") { B.CreateStore(top(B), CB->getArgOperand(0)); return done(nullptr); }
        if (n == "_ZNKSt15__exception_ptr13exception_ptr6_M_getEv") return done(B.CreateLoad(PT, CB->getArgOperand(0)));
        if (n.starts_with("_ZNSt15__exception_ptr13exception_ptr") || n.starts_with("_ZNKSt15__exception_ptr13exception_ptr")) {
          auto *Fn = CB->getCalledFunction();
          if (Fn && !Fn->isDeclaration()) continue;
          if (n.ends_with("C1ERKS0_") || n.ends_with("C2ERKS0_") || n.ends_with("aSERKS0_")) B.CreateStore(B.CreateLoad(PT, CB->getArgOperand(1)), CB->getArgOperand(0));
          else if (n.ends_with("C1Ev") || n.ends_with("C2Ev")) B.CreateStore(ConstantPointerNull::get(cast<PointerType>(PT)), CB->getArgOperand(0));
          else if (!(n.ends_with("D1Ev") || n.ends_with("D2Ev") || n.contains("_M_addref") || n.contains("_M_release"))) continue;
          return done(CB->getType()->isVoidTy() ? nullptr : CB->getArgOperand(0));
        }
        if (n == "_ZNSt16nested_exceptionD2Ev" || n == "_ZNSt16nested_exceptionD1Ev" || n == "_ZNSt9exceptionD2Ev" || n == "_ZNSt9exceptionD1Ev") return done(CB->getType()->isVoidTy() ? nullptr : CB->getArgOperand(0));
        if (n == "_ZNKSt9exception4whatEv") return done(B.CreateGlobalStringPtr("std::exception"));
        if (n == "__dynamic_cast") {
          Value *p = CB->getArgOperand(0);
          Value *vt = B.CreateLoad(PT, p);
          Value *ti = B.CreateLoad(PT, B.CreateConstGEP1_64(PT, vt, -1));
          Value *top = B.CreateLoad(I64, B.CreateConstGEP1_64(I64, vt, -2));
          Value *obj = B.CreateGEP(Type::getInt8Ty(C), p, {top});
          Value *r = ConstantPointerNull::get(cast<PointerType>(PT));
          StringRef dst = CB->getArgOperand(2)->stripPointerCasts()->getName();
          for (auto *T : types()) {
            int64_t o = baseOffset(T, dst);
            if (o < 0) continue;
            r = B.CreateSelect(B.CreateICmpEQ(ti, T), B.CreateConstGEP1_64(Type::getInt8Ty(C), obj, o), r);
          }
          return done(r);
        }
      }
    }
    return false;
  }
  // one level of the calls; of functions which call themselves only where control is known to get to
  bool inlineCalls(const std::set<Function *> &rec, bool deep) {
    auto live = normal();
    std::vector<CallBase *> todo;
    ReversePostOrderTraversal<Function *> RPO(&F);
    for (auto *BB : RPO)
      if (!deep || (live.count(BB) && todo.empty()))
        for (auto &I : *BB)
          if (auto *CB = dyn_cast<CallBase>(&I)) {
            auto *Fn = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts());
            if (!Fn || Fn->isDeclaration() || Fn->getName() == "__clang_call_terminate") continue;
            if ((rec.count(Fn) > 0) == deep) todo.push_back(CB);
          }
    bool any = false;
    for (auto *CB : todo) {
      InlineFunctionInfo IFI;
      if (InlineFunction(*CB, IFI).isSuccess()) any = true;
    }
    return any;
  }
};
