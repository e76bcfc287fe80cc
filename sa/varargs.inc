// Argument lists (x86-64): va_copy copies the 24 bytes of the list, va_end makes the list unusable (the first field gets a value no
// list has), va_start is left to the probe (sa_va_start). A variadic function takes its named arguments only.
static void lowerVarargs(Module &M) {
  std::vector<Function *> variadic;
  FunctionCallee start;
  auto *P = PointerType::get(M.getContext(), 0);
  for (auto &F : M) {
    if (F.isDeclaration()) continue;
    bool starts = false;
    for (auto &BB : F)
      for (auto It = BB.begin(); It != BB.end();) {
        auto *II = dyn_cast<IntrinsicInst>(&*It++);
        if (!II) continue;
        IRBuilder<> B(II);
        if (II->getIntrinsicID() == Intrinsic::vacopy) {
          B.CreateMemCpy(II->getArgOperand(0), MaybeAlign(8), II->getArgOperand(1), MaybeAlign(8), 24);
        } else if (II->getIntrinsicID() == Intrinsic::vaend) {
          B.CreateStore(B.getInt32(0xdead), II->getArgOperand(0));
        } else if (II->getIntrinsicID() == Intrinsic::vastart) {
          starts = true;
          if (!start) start = M.getOrInsertFunction("sa_va_start", Type::getVoidTy(M.getContext()), P);
          B.CreateCall(start, {II->getArgOperand(0)});
        } else
          continue;
        II->eraseFromParent();
      }
    if (starts && F.isVarArg()) variadic.push_back(&F);
  }
  for (auto *F : variadic) {
    auto *T = FunctionType::get(F->getReturnType(), F->getFunctionType()->params(), false);
    auto *N = Function::Create(T, F->getLinkage(), "", &M);
    N->takeName(F);
    N->copyAttributesFrom(F);
    N->setComdat(F->getComdat());
    N->splice(N->begin(), F);
    for (unsigned i = 0; i < F->arg_size(); ++i) F->getArg(i)->replaceAllUsesWith(N->getArg(i));
    if (auto *SP = F->getSubprogram()) { N->setSubprogram(SP); F->setSubprogram(nullptr); }
    std::vector<CallBase *> calls;
    for (auto *U : F->users())
      if (auto *C = dyn_cast<CallBase>(U)) if (C->getCalledOperand() == F) calls.push_back(C);
    for (auto *C : calls) {
      IRBuilder<> B(C);
      SmallVector<Value *, 8> args(C->arg_begin(), C->arg_begin() + N->arg_size());
      CallBase *R;
      if (auto *I = dyn_cast<InvokeInst>(C)) R = B.CreateInvoke(T, N, I->getNormalDest(), I->getUnwindDest(), args);
      else R = B.CreateCall(T, N, args);
      R->setDebugLoc(C->getDebugLoc());
      R->setCallingConv(C->getCallingConv());
      for (unsigned i = 0; i < N->arg_size(); ++i)
        if (C->paramHasAttr(i, Attribute::StructRet)) R->addParamAttr(i, C->getParamAttr(i, Attribute::StructRet));
      C->replaceAllUsesWith(R);
      C->eraseFromParent();
    }
    F->deleteBody();
  }
}
