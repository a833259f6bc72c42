// irlift: canonicalises the LLVM IR of a driver translation unit (full inlining,
// SROA, no loop transformation) and dumps the w_* functions as JSON.
//
//   irlift IN.bc OUT.json [--keep-invoke]
//
// --keep-invoke leaves exceptional control flow in place (exception-escape analysis).
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Scalar/Scalarizer.h"
#include "llvm/Transforms/Utils/Local.h"
#include <map>
#include <set>
using namespace llvm;

static std::string tyName(Type *T) {
  std::string S; raw_string_ostream O(S); T->print(O); return O.str();
}

struct Namer {
  std::map<const Value *, int> Ids; int Next = 0;
  int id(const Value *V) { auto It = Ids.find(V); if (It != Ids.end()) return It->second; return Ids[V] = Next++; }
};

static json::Value operand(const Value *V, Namer &N, const DataLayout &DL) {
  if (auto *CI = dyn_cast<ConstantInt>(V)) {
    SmallString<32> S; CI->getValue().toString(S, 10, true);
    return json::Object{{"k", "c"}, {"v", S.str().str()}, {"w", (int64_t)CI->getBitWidth()}};
  }
  if (auto *CF = dyn_cast<ConstantFP>(V)) {
    SmallString<40> S;
    APFloat F = CF->getValueAPF(); bool Lossy; F.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &Lossy);
    double D = F.convertToDouble(); char Buf[64]; snprintf(Buf, sizeof Buf, "%a", D);
    return json::Object{{"k", "f"}, {"v", std::string(Buf)}};
  }
  if (isa<ConstantPointerNull>(V)) return json::Object{{"k", "null"}};
  if (isa<PoisonValue>(V) || isa<UndefValue>(V)) return json::Object{{"k", "undef"}};
  if (isa<ConstantAggregateZero>(V)) return json::Object{{"k", "zero"}};
  if (auto *CV = dyn_cast<Constant>(V)) if (isa<ConstantVector>(CV) || isa<ConstantDataVector>(CV)) {
    json::Array Es; unsigned K = cast<FixedVectorType>(CV->getType())->getNumElements();
    for (unsigned i = 0; i < K; ++i) Es.push_back(operand(CV->getAggregateElement(i), N, DL));
    return json::Object{{"k", "vec"}, {"els", std::move(Es)}};
  }
  if (auto *G = dyn_cast<GlobalValue>(V)) return json::Object{{"k", "g"}, {"name", G->getName().str()}};
  if (auto *C = dyn_cast<ConstantExpr>(V)) {
    if (auto *GEP = dyn_cast<GEPOperator>(C)) {
      APInt Off(64, 0);
      if (GEP->accumulateConstantOffset(DL, Off))
        return json::Object{{"k", "goff"}, {"base", operand(GEP->getPointerOperand(), N, DL)}, {"off", Off.getSExtValue()}};
    }
    return json::Object{{"k", "cexpr"}, {"s", tyName(C->getType())}};
  }
  if (isa<Constant>(V)) { std::string S; raw_string_ostream O(S); V->printAsOperand(O); return json::Object{{"k", "const"}, {"s", O.str()}}; }
  if (isa<MetadataAsValue>(V) || isa<InlineAsm>(V)) return json::Object{{"k", "other"}};
  return json::Object{{"k", "v"}, {"id", N.id(V)}};
}

static json::Value locOf(const Instruction &I) {
  const DILocation *L = I.getDebugLoc();
  const DILocation *Best = nullptr;
  for (const DILocation *P = L; P; P = P->getInlinedAt()) {
    StringRef F = P->getFilename();
    if (F.contains("lalib")) { Best = P; break; }
  }
  if (!Best) return nullptr;
  std::string Fn;
  if (auto *SP = Best->getScope()->getSubprogram()) Fn = SP->getName().str();
  return json::Array{Best->getFilename().str(), (int64_t)Best->getLine(), Fn};
}

static json::Value dumpFn(Function &F, const DataLayout &DL) {
  Namer N; DominatorTree DT(F); LoopInfo LI(DT);
  std::map<const BasicBlock *, int> B; int K = 0;
  for (auto &BB : F) B[&BB] = K++;
  json::Array Args;
  for (auto &A : F.args())
    Args.push_back(json::Object{{"id", N.id(&A)}, {"ty", tyName(A.getType())}, {"name", A.getName().str()}, {"sret", A.hasStructRetAttr()}});
  json::Array Blocks;
  for (auto &BB : F) {
    json::Array Insts;
    for (auto &I : BB) {
      if (I.isDebugOrPseudoInst()) continue;
      json::Object O;
      O["id"] = N.id(&I); O["op"] = I.getOpcodeName(); O["ty"] = tyName(I.getType());
      if (auto L = locOf(I); L.kind() != json::Value::Null) O["loc"] = std::move(L);
      json::Array Ops;
      if (auto *P = dyn_cast<PHINode>(&I)) {
        for (unsigned i = 0; i < P->getNumIncomingValues(); ++i)
          Ops.push_back(json::Array{operand(P->getIncomingValue(i), N, DL), B[P->getIncomingBlock(i)]});
      } else if (auto *Br = dyn_cast<BranchInst>(&I)) {
        json::Array S; for (unsigned i = 0; i < Br->getNumSuccessors(); ++i) S.push_back(B[Br->getSuccessor(i)]);
        O["succ"] = std::move(S);
        if (Br->isConditional()) Ops.push_back(operand(Br->getCondition(), N, DL));
      } else if (auto *Sw = dyn_cast<SwitchInst>(&I)) {
        Ops.push_back(operand(Sw->getCondition(), N, DL));
        json::Array Cs; for (auto &C : Sw->cases()) Cs.push_back(json::Array{(int64_t)C.getCaseValue()->getSExtValue(), B[C.getCaseSuccessor()]});
        O["cases"] = std::move(Cs); O["default"] = B[Sw->getDefaultDest()];
      } else if (auto *Cb = dyn_cast<CallBase>(&I)) {
        if (auto *Cal = Cb->getCalledFunction()) O["callee"] = Cal->getName().str();
        for (auto &A : Cb->args()) Ops.push_back(operand(A, N, DL));
        if (auto *Inv = dyn_cast<InvokeInst>(&I)) O["succ"] = json::Array{B[Inv->getNormalDest()], B[Inv->getUnwindDest()]};
      } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
        Ops.push_back(operand(G->getPointerOperand(), N, DL));
        MapVector<Value *, APInt> Var; APInt C(64, 0);
        if (cast<GEPOperator>(G)->collectOffset(DL, 64, Var, C)) {
          json::Array Vs; for (auto &P : Var) Vs.push_back(json::Array{operand(P.first, N, DL), P.second.getSExtValue()});
          O["off"] = C.getSExtValue(); O["vars"] = std::move(Vs);
        } else O["badgep"] = true;
      } else {
        for (auto &U : I.operands()) Ops.push_back(operand(U, N, DL));
        if (auto *PD = dyn_cast<PossiblyDisjointInst>(&I)) if (PD->isDisjoint() && I.getType()->isIntegerTy() && !I.getType()->isIntegerTy(1)) O["op"] = "add";
        if (auto *C = dyn_cast<CmpInst>(&I)) O["pred"] = CmpInst::getPredicateName(C->getPredicate()).str();
        if (auto *A = dyn_cast<AllocaInst>(&I)) { if (auto S = A->getAllocationSize(DL)) O["size"] = (int64_t)S->getFixedValue(); }
        if (auto *L = dyn_cast<LoadInst>(&I)) O["size"] = (int64_t)DL.getTypeStoreSize(L->getType());
        if (auto *S = dyn_cast<StoreInst>(&I)) O["size"] = (int64_t)DL.getTypeStoreSize(S->getValueOperand()->getType());
        if (auto *E = dyn_cast<ExtractValueInst>(&I)) { json::Array X; for (auto i : E->indices()) X.push_back((int64_t)i); O["idx"] = std::move(X); }
        if (auto *E = dyn_cast<InsertValueInst>(&I)) { json::Array X; for (auto i : E->indices()) X.push_back((int64_t)i); O["idx"] = std::move(X); }
        if (auto *LP = dyn_cast<LandingPadInst>(&I)) { O["cleanup"] = LP->isCleanup(); O["nclauses"] = (int64_t)LP->getNumClauses();
          json::Array Cl; for (unsigned i = 0; i < LP->getNumClauses(); ++i) if (LP->isCatch(i)) { auto *G = dyn_cast<GlobalValue>(LP->getClause(i)->stripPointerCasts()); Cl.push_back(G ? G->getName().str() : std::string("*")); }
          O["catches"] = std::move(Cl); }
      }
      O["ops"] = std::move(Ops);
      Insts.push_back(std::move(O));
    }
    Blocks.push_back(std::move(Insts));
  }
  json::Array Loops; std::map<const Loop *, int> Lid; 
  auto All = LI.getLoopsInPreorder();
  for (auto *L : All) {
    int Id = Lid.size(); Lid[L] = Id;
    json::Array Bs; for (auto *BB : L->blocks()) Bs.push_back(B[BB]);
    Loops.push_back(json::Object{{"header", B[L->getHeader()]}, {"blocks", std::move(Bs)},
      {"parent", L->getParentLoop() ? Lid[L->getParentLoop()] : -1}});
  }
  return json::Object{{"name", F.getName().str()}, {"args", std::move(Args)}, {"blocks", std::move(Blocks)}, {"loops", std::move(Loops)}, {"ret", tyName(F.getReturnType())}};
}

// The scalars of a constant initializer.
static void leaves(const Constant *C, uint64_t Off, const DataLayout &DL, json::Array &Out, unsigned &Count) {
  if (++Count > 512) return;
  Type *T = C->getType();
  if (T->isIntegerTy() || T->isFloatingPointTy()) {
    Namer N; Out.push_back(json::Array{(int64_t)Off, tyName(T), operand(C, N, DL)});
  } else if (auto *S = dyn_cast<StructType>(T)) {
    for (unsigned i = 0; i < S->getNumElements(); ++i) if (auto *E = C->getAggregateElement(i)) leaves(E, Off + DL.getStructLayout(S)->getElementOffset(i), DL, Out, Count);
  } else if (auto *A = dyn_cast<ArrayType>(T)) {
    for (uint64_t i = 0; i < A->getNumElements() && i < 600; ++i) if (auto *E = C->getAggregateElement(i)) leaves(E, Off + i * DL.getTypeAllocSize(A->getElementType()), DL, Out, Count);
  }
}

// A zero-initialised object to which only initialisers store, and only zero.
static bool onlyZero(GlobalVariable &G) {
  if (!G.getInitializer()->isNullValue()) return false;
  std::vector<Value *> W{&G}; bool Init = false;
  while (!W.empty()) {
    Value *V = W.back(); W.pop_back();
    for (auto *U : V->users()) {
      if (isa<GEPOperator>(U) || isa<ConstantExpr>(U)) { W.push_back(U); continue; }
      auto *S = dyn_cast<StoreInst>(U);
      if (!S || S->getPointerOperand() != V) continue;
      auto *C = dyn_cast<Constant>(S->getValueOperand());
      if (!C || !C->isNullValue() || !S->getFunction()->getName().starts_with("__cxx_global_var_init")) return false;
      Init = true;
    }
  }
  return Init;
}

int main(int argc, char **argv) {
  if (argc < 3) { errs() << "usage: irlift IN OUT\n"; return 2; }
  bool Flow = argc > 3 && StringRef(argv[3]) == "--flow";          // as below, and equal pointers are not exchanged
  bool Keep = Flow || (argc > 3 && StringRef(argv[3]) == "--keep-invoke");
  LLVMContext Ctx; SMDiagnostic Err;
  auto M = parseIRFile(argv[1], Err, Ctx);
  if (!M) { Err.print("irlift", errs()); return 2; }
  const DataLayout &DL = M->getDataLayout();
  auto isCold = [](StringRef N) {
    return N.contains("_M_realloc_insert") || N.contains("_M_realloc_append");
  };
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    F.removeFnAttr(Attribute::OptimizeNone); F.removeFnAttr(Attribute::NoInline);
    if (F.getName().starts_with("w_")) continue;
    F.setComdat(nullptr); F.setLinkage(GlobalValue::InternalLinkage); F.setDSOLocal(true);
    if (!Keep && isCold(F.getName())) { F.addFnAttr(Attribute::NoInline); continue; }
    if (F.getName().starts_with("__clang_call_terminate")) { F.addFnAttr(Attribute::NoInline); continue; }
    F.addFnAttr(Attribute::AlwaysInline);
  }
  // Size requirements of the stand-in containers are marks for the lifter: they write no analysed memory.
  if (auto *F = M->getFunction("vp_require")) {
    F->setMemoryEffects(MemoryEffects::inaccessibleMemOnly()); F->setDoesNotThrow(); F->addFnAttr(Attribute::WillReturn);
  }
  // Exceptional control flow is not followed below: a call inside a try block whose handler
  // may go on normally is marked, so that the lifter does not summarise past it.
  if (!Keep) {
    auto Fc = M->getOrInsertFunction("vp_catch", FunctionType::get(Type::getVoidTy(Ctx), false));
    std::vector<Instruction *> At;
    for (auto &F : *M) for (auto &I : instructions(F)) if (auto *Iv = dyn_cast<InvokeInst>(&I)) {
      std::set<const BasicBlock *> Seen; std::vector<const BasicBlock *> W{Iv->getUnwindDest()}; bool Ret = false;
      while (!W.empty() && !Ret) {
        auto *B = W.back(); W.pop_back();
        if (!Seen.insert(B).second) continue;
        if (isa<ReturnInst>(B->getTerminator())) Ret = true;
        for (auto *S : successors(B)) W.push_back(S);
      }
      if (Ret) At.push_back(Iv);
    }
    for (auto *I : At) CallInst::Create(Fc, "", I);
  }
  // A vector that outgrows its capacity leaves the analysed fragment: the call is
  // replaced by a marked dead end whose unreachability is an obligation of the lifter.
  if (!Keep) {
    auto Fc = M->getOrInsertFunction("vp_realloc", FunctionType::get(Type::getVoidTy(Ctx), false));
    std::vector<CallBase *> Cs;
    for (auto &F : *M) for (auto &I : instructions(F)) if (auto *C = dyn_cast<CallBase>(&I)) if (auto *T = C->getCalledFunction()) if (isCold(T->getName())) Cs.push_back(C);
    for (auto *C : Cs) { CallInst::Create(Fc, "", C); changeToUnreachable(C); }
    // A throw expression becomes one marked exit carrying its type: what builds the
    // exception object runs after the decision to throw and touches nothing else.
    auto Ft = M->getOrInsertFunction("vp_throw", FunctionType::get(Type::getVoidTy(Ctx), {PointerType::getUnqual(Ctx)}, false));
    std::vector<std::pair<CallBase *, Value *>> Ts;
    for (auto &F : *M) for (auto &I : instructions(F)) if (auto *C = dyn_cast<CallBase>(&I)) if (auto *T = C->getCalledFunction()) if (T->getName() == "__cxa_allocate_exception") {
      Value *Ti = nullptr;
      for (auto &J : instructions(F)) if (auto *D = dyn_cast<CallBase>(&J)) if (auto *T2 = D->getCalledFunction()) if (T2->getName() == "__cxa_throw" && D->getArgOperand(0)->stripPointerCasts() == C) Ti = D->getArgOperand(1);
      Ts.push_back({C, Ti ? Ti : ConstantPointerNull::get(PointerType::getUnqual(Ctx))});
    }
    for (auto &P : Ts) { CallInst::Create(Ft, {P.second}, "", P.first); changeToUnreachable(P.first); }
  }
  for (auto &G : M->globals()) {
    if (G.isDeclaration() || G.getName().starts_with("llvm.")) continue;
    G.setComdat(nullptr); G.setLinkage(GlobalValue::InternalLinkage); G.setDSOLocal(true);
  }
  // Initialisers run once, in the order of the program: their guards are open.
  if (!Keep) for (auto &F : *M) if (F.getName().starts_with("__cxx_global_var_init")) {
    std::vector<Instruction *> Dead;
    for (auto &I : instructions(F)) {
      auto guard = [](const Value *P) { return P->stripPointerCasts()->getName().starts_with("_ZGV"); };
      if (auto *L = dyn_cast<LoadInst>(&I)) if (guard(L->getPointerOperand())) { L->replaceAllUsesWith(Constant::getNullValue(L->getType())); Dead.push_back(L); }
      if (auto *S = dyn_cast<StoreInst>(&I)) if (guard(S->getPointerOperand())) Dead.push_back(S);
    }
    for (auto *I : Dead) I->eraseFromParent();
  }
  if (!Keep) if (auto *U = M->getNamedGlobal("llvm.used")) U->eraseFromParent();
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  ModulePassManager MPM;
  std::string Li = Keep ? "" : "lowerinvoke,";
  std::string P = "function(" + Li + "simplifycfg,sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg),always-inline,globaldce,function(" + Li + "simplifycfg,sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg),globalopt,globaldce,"
    "function(" + Li + "simplifycfg,sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,sroa,early-cse<memssa>,gvn,instcombine<no-verify-fixpoint>,simplifycfg,jump-threading,sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,dse,adce)";
  std::string P2 = "function(instcombine<no-verify-fixpoint>,early-cse<memssa>,adce,simplifycfg,loop-simplify)";
  if (Keep) P = "function(simplifycfg,sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg),always-inline,globaldce,"
    "function(simplifycfg,sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,sroa,early-cse<memssa>,gvn,instcombine<no-verify-fixpoint>,correlated-propagation,simplifycfg,jump-threading,early-cse<memssa>,instcombine<no-verify-fixpoint>,adce,simplifycfg)";
  if (Flow) P = "function(simplifycfg,sroa,early-cse),always-inline,globaldce,function(simplifycfg,sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg,sroa,early-cse,adce,simplifycfg)";
  if (auto E = PB.parsePassPipeline(MPM, P)) { errs() << toString(std::move(E)) << "\n"; return 2; }
  if (!Keep) {
    FunctionPassManager FPM; ScalarizerPass Sc; Sc.setScalarizeLoadStore(true); Sc.setScalarizeVariableInsertExtract(true);
    FPM.addPass(std::move(Sc));
    MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
    if (auto E = PB.parsePassPipeline(MPM, P2)) { errs() << toString(std::move(E)) << "\n"; return 2; }
  }
  MPM.run(*M, MAM);
  if (verifyModule(*M, &errs())) return 2;
  json::Array Fns;
  for (auto &F : *M) if (!F.isDeclaration() && (Keep || F.getName().starts_with("w_"))) Fns.push_back(dumpFn(F, DL));
  json::Array Gs;
  for (auto &G : M->globals()) {
    if (G.isDeclaration() || G.getName().starts_with("llvm.") || !G.hasInitializer()) continue;
    bool Ro = G.isConstant() || onlyZero(G);
    json::Array Ls; unsigned Count = 0;
    if (Ro) leaves(G.getInitializer(), 0, DL, Ls, Count);
    Gs.push_back(json::Object{{"name", G.getName().str()}, {"ro", Ro}, {"leaves", std::move(Ls)}, {"const", G.isConstant()}, {"tls", G.isThreadLocal()}, {"size", (int64_t)DL.getTypeAllocSize(G.getValueType())}});
  }
  std::error_code EC; raw_fd_ostream Out(argv[2], EC);
  if (EC) { errs() << EC.message() << "\n"; return 2; }
  Out << json::Value(json::Object{{"functions", std::move(Fns)}, {"globals", std::move(Gs)}}) << "\n";
  if (getenv("IRLIFT_LL")) { std::error_code E2; raw_fd_ostream O2(getenv("IRLIFT_LL"), E2); M->print(O2, nullptr); }
  return 0;
}
