// ompcheck: dependence rules for the OpenMP loops and regions of the library.
//
//   ompcheck PREFIX -- clang arguments ... FILE
//
// Visits every OpenMP directive in files whose path starts with PREFIX and prints one JSON object
// per directive: where it is, what was analysed, and the violations. What the rules do not
// recognise is accepted silently (counted as "open").
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Decl.h"
#include "clang/AST/DeclOpenMP.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Frontend/TextDiagnosticPrinter.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include <map>
#include <set>
using namespace clang;
namespace json = llvm::json;

static std::string Prefix;

// Affine form over symbols; a symbol may be opaque (a quotient, a call, ...).
struct Aff {
  std::map<std::string, long> t; long c = 0; bool bad = false;
  void add(const Aff &o, long s) { for (auto &p : o.t) { t[p.first] += s * p.second; if (!t[p.first]) t.erase(p.first); } c += s * o.c; bad |= o.bad; }
  bool isConst() const { return t.empty(); }
  bool mentions(const std::string &v) const { for (auto &p : t) if (p.first.find(v) != std::string::npos) return true; return false; }
};

struct Access { const ValueDecl *Base; std::string Field; Aff Idx; bool Write; const Expr *E; bool Guarded; bool IdxKnown; };

struct Region {
  ASTContext &Ctx; const OMPExecutableDirective *D; const FunctionDecl *F;
  std::vector<std::string> Viol; unsigned Open = 0, Checked = 0;
  std::set<const ValueDecl *> Inner;                       // declared inside the region
  std::map<const ValueDecl *, const Expr *> Def;           // single initialiser of an inner variable
  std::set<const ValueDecl *> Reassigned;
  std::vector<const ValueDecl *> LoopVars; std::vector<long> Steps;
  std::set<const ValueDecl *> Outer;                       // declared inside an enclosing region: one per thread
  std::map<const ValueDecl *, std::vector<const Expr *>> Assigned;
  std::set<const ValueDecl *> Private, Last; std::map<const ValueDecl *, std::string> Red;
  std::vector<Access> Acc;
  std::map<const ValueDecl *, std::vector<std::pair<const Expr *, bool>>> ScalarWrites;   // (expr, guarded)
  std::map<const ValueDecl *, unsigned> Reads;
  bool Tid = false;

  Region(ASTContext &C, const OMPExecutableDirective *d, const FunctionDecl *f) : Ctx(C), D(d), F(f) {}

  static const Expr *strip(const Expr *E) {
    for (;;) {
      E = E->IgnoreParenImpCasts();
      if (auto *C = dyn_cast<ExplicitCastExpr>(E)) { E = C->getSubExpr(); continue; }
      if (auto *M = dyn_cast<MaterializeTemporaryExpr>(E)) { E = M->getSubExpr(); continue; }
      if (auto *X = dyn_cast<ExprWithCleanups>(E)) { E = X->getSubExpr(); continue; }
      if (auto *B = dyn_cast<CXXBindTemporaryExpr>(E)) { E = B->getSubExpr(); continue; }
      if (auto *U = dyn_cast<CXXUnresolvedConstructExpr>(E)) if (U->getNumArgs() == 1) { E = U->getArg(0); continue; }
      return E;
    }
  }
  static const ValueDecl *declOf(const Expr *E) {
    E = strip(E);
    if (auto *R = dyn_cast<DeclRefExpr>(E)) return dyn_cast<ValueDecl>(R->getDecl()->getCanonicalDecl());
    return nullptr;
  }
  std::string at(const Stmt *S) {
    auto &SM = Ctx.getSourceManager(); auto L = SM.getExpansionLoc(S->getBeginLoc());
    return SM.getFilename(L).str() + ":" + std::to_string(SM.getExpansionLineNumber(L));
  }
  std::string text(const Expr *E) {
    return Lexer::getSourceText(CharSourceRange::getTokenRange(E->getSourceRange()), Ctx.getSourceManager(), Ctx.getLangOpts()).str();
  }
  std::string sym(const ValueDecl *V) { char B[40]; snprintf(B, sizeof B, "<%p>", (const void *)V); return B; }

  Aff aff(const Expr *E, int Depth = 0) {
    Aff R; E = strip(E);
    if (Depth > 12) { R.bad = true; return R; }
    Expr::EvalResult V;
    if (!E->isValueDependent() && E->getType()->isIntegralOrEnumerationType() && E->EvaluateAsInt(V, Ctx)) { R.c = V.Val.getInt().getExtValue(); return R; }
    if (auto *I = dyn_cast<IntegerLiteral>(E)) { R.c = I->getValue().getZExtValue(); return R; }
    if (auto *D = declOf(E)) {
      auto It = Def.find(D);
      if (It != Def.end() && It->second && !Reassigned.count(D)) return aff(It->second, Depth + 1);
      R.t[sym(D)] = 1; return R;
    }
    if (auto *B = dyn_cast<BinaryOperator>(E)) {
      if (B->getOpcode() == BO_Add || B->getOpcode() == BO_Sub) {
        R = aff(B->getLHS(), Depth + 1); R.add(aff(B->getRHS(), Depth + 1), B->getOpcode() == BO_Add ? 1 : -1); return R;
      }
      if (B->getOpcode() == BO_Mul || B->getOpcode() == BO_Shl) {
        Aff L = aff(B->getLHS(), Depth + 1), Q = aff(B->getRHS(), Depth + 1);
        if (B->getOpcode() == BO_Shl) { if (Q.isConst() && !Q.bad && Q.c >= 0 && Q.c < 40) { Aff K; K.c = 1L << Q.c; Q = K; } else { R = opaque(L, Q, "<<"); return R; } }
        R.bad = L.bad || Q.bad;
        auto mulmono = [](std::string a, std::string b) { return a < b ? a + "*" + b : b + "*" + a; };
        for (auto &p : L.t) { for (auto &q : Q.t) R.t[mulmono(p.first, q.first)] += p.second * q.second; if (Q.c) R.t[p.first] += p.second * Q.c; }
        for (auto &q : Q.t) if (L.c) R.t[q.first] += q.second * L.c;
        R.c = L.c * Q.c;
        for (auto It = R.t.begin(); It != R.t.end();) if (!It->second) It = R.t.erase(It); else ++It;
        return R;
      }
      if (B->isAssignmentOp()) { R.bad = true; return R; }
      switch (B->getOpcode()) {
        case BO_Div: case BO_Rem: case BO_And: case BO_Shr:
          return opaque(aff(B->getLHS(), Depth + 1), aff(B->getRHS(), Depth + 1), B->getOpcodeStr().str());
        default: break;
      }
    }
    R.bad = true; return R;
  }
  static std::string show(const Aff &A) { std::string S; for (auto &p : A.t) S += std::to_string(p.second) + p.first; return S + "+" + std::to_string(A.c); }
  // a many-to-one function of its operands
  Aff opaque(const Aff &A, const Aff &B, std::string Op) { Aff R; R.bad = A.bad || B.bad; R.t["{" + show(A) + Op + show(B) + "}"] = 1; return R; }

  // The array and the element a pointer or lvalue expression denotes.
  bool pointer(const Expr *E, const ValueDecl *&B, std::string &Fld, Aff &I, int Depth = 0) {
    E = strip(E);
    if (Depth > 12) return false;
    if (auto *D = declOf(E)) {
      auto It = Def.find(D);
      if (It != Def.end() && It->second && !Reassigned.count(D)) return pointer(It->second, B, Fld, I, Depth + 1);
      if (Inner.count(D)) { B = D; return true; }
      B = D; return true;
    }
    if (auto *O = dyn_cast<BinaryOperator>(E)) if (O->getOpcode() == BO_Add || O->getOpcode() == BO_Sub) {
      if (!pointer(O->getLHS(), B, Fld, I, Depth + 1)) return false;
      I.add(aff(O->getRHS()), O->getOpcode() == BO_Add ? 1 : -1); return true;
    }
    if (auto *U = dyn_cast<UnaryOperator>(E)) if (U->getOpcode() == UO_AddrOf) return lvalue(U->getSubExpr(), B, Fld, I, Depth + 1);
    if (auto *C = dyn_cast<CXXMemberCallExpr>(E)) {
      auto *M = dyn_cast<MemberExpr>(C->getCallee()); std::string N = M ? M->getMemberDecl()->getNameAsString() : "";
      if (M && (N == "get" || N == "data" || N == "begin")) return pointer(M->getBase(), B, Fld, I, Depth + 1);
    }
    if (auto *C = dyn_cast<CallExpr>(E)) if (auto *M = dyn_cast<CXXDependentScopeMemberExpr>(C->getCallee())) {
      std::string N = M->getMember().getAsString();
      if (!M->isImplicitAccess() && (N == "get" || N == "data" || N == "begin")) return pointer(M->getBase(), B, Fld, I, Depth + 1);
    }
    if (auto *M = dyn_cast<MemberExpr>(E)) { Fld += "." + M->getMemberDecl()->getNameAsString(); if (isa<CXXThisExpr>(strip(M->getBase()))) { B = cast<ValueDecl>(M->getMemberDecl()); return true; } return pointer(M->getBase(), B, Fld, I, Depth + 1); }
    return false;
  }
  bool lvalue(const Expr *E, const ValueDecl *&B, std::string &Fld, Aff &I, int Depth = 0) {
    E = strip(E);
    if (auto *A = dyn_cast<ArraySubscriptExpr>(E)) { if (!pointer(A->getLHS(), B, Fld, I, Depth + 1)) return false; I.add(aff(A->getRHS()), 1); return true; }
    if (auto *O = dyn_cast<CXXOperatorCallExpr>(E)) {
      if (O->getOperator() == OO_Subscript) { if (!pointer(O->getArg(0), B, Fld, I, Depth + 1)) return false; I.add(aff(O->getArg(1)), 1); return true; }
      if (O->getOperator() == OO_Star && O->getNumArgs() == 1) return pointer(O->getArg(0), B, Fld, I, Depth + 1);
    }
    if (auto *U = dyn_cast<UnaryOperator>(E)) if (U->getOpcode() == UO_Deref) return pointer(U->getSubExpr(), B, Fld, I, Depth + 1);
    return false;
  }
  bool isElement(const Expr *E) {
    E = strip(E);
    if (isa<ArraySubscriptExpr>(E)) return true;
    if (auto *O = dyn_cast<CXXOperatorCallExpr>(E)) return O->getOperator() == OO_Subscript || (O->getOperator() == OO_Star && O->getNumArgs() == 1);
    if (auto *U = dyn_cast<UnaryOperator>(E)) return U->getOpcode() == UO_Deref;
    return false;
  }

  // ---- collection
  struct Decls : RecursiveASTVisitor<Decls> {
    Region &R; Decls(Region &r) : R(r) {}
    bool VisitVarDecl(VarDecl *V) { auto *C = cast<ValueDecl>(V->getCanonicalDecl()); R.Inner.insert(C); if (V->getInit()) R.Assigned[C].push_back(V->getInit()); if (V->getInit() && !isa<ParmVarDecl>(V) && !V->getType()->isReferenceType()) R.Def[C] = V->getInit(); else if (V->getInit() && V->getType()->isReferenceType()) R.Def[C] = nullptr; return true; }
    bool VisitBinaryOperator(BinaryOperator *B) { if (B->isAssignmentOp()) if (auto *D = declOf(B->getLHS())) { R.Reassigned.insert(D); R.Assigned[D].push_back(B->getRHS()); } return true; }
    bool VisitUnaryOperator(UnaryOperator *U) { if (U->isIncrementDecrementOp() || U->getOpcode() == UO_AddrOf) if (auto *D = declOf(U->getSubExpr())) R.Reassigned.insert(D); return true; }
    bool VisitCXXOperatorCallExpr(CXXOperatorCallExpr *O) { if (O->isAssignmentOp() || O->getOperator() == OO_PlusPlus || O->getOperator() == OO_MinusMinus) if (auto *D = declOf(O->getArg(0))) R.Reassigned.insert(D); return true; }
  };

  void use(const Expr *E, bool Write, bool Guarded) {
    E = strip(E);
    if (isElement(E)) {
      Access A{nullptr, "", {}, Write, E, Guarded, true};
      if (!lvalue(E, A.Base, A.Field, A.Idx)) { ++Open; return; }
      A.IdxKnown = !A.Idx.bad;
      Acc.push_back(A); return;
    }
    if (auto *D = declOf(E)) {
      if (Write) ScalarWrites[D].push_back({E, Guarded}); else ++Reads[D];
    }
  }

  void walk(const Stmt *S, bool Guarded) {
    if (!S) return;
    if (auto *X = dyn_cast<OMPExecutableDirective>(S)) {
      if (isa<OMPAtomicDirective>(X) || isa<OMPCriticalDirective>(X) || isa<OMPSingleDirective>(X) || isa<OMPMasterDirective>(X) || isa<OMPMaskedDirective>(X) || isa<OMPOrderedDirective>(X)) Guarded = true;
      else if (X != D && isOpenMPLoopDirective(X->getDirectiveKind())) { if (nestedShares(X)) return; }
      if (X->hasAssociatedStmt()) walk(X->getRawStmt(), Guarded);
      return;
    }
    if (auto *C = dyn_cast<CapturedStmt>(S)) { walk(C->getCapturedStmt(), Guarded); return; }
    if (isa<CXXThrowExpr>(S)) { Viol.push_back(at(S) + ": an exception leaves the region (the program is terminated)"); }
    if (auto *L = dyn_cast<LambdaExpr>(S)) { (void)L; ++Open; return; }
    if (auto *B = dyn_cast<BinaryOperator>(S)) {
      if (B->isAssignmentOp()) {
        if (B->isCompoundAssignmentOp()) use(B->getLHS(), false, Guarded);
        use(B->getLHS(), true, Guarded); index(B->getLHS(), Guarded); walk(B->getRHS(), Guarded); return;
      }
    }
    if (auto *U = dyn_cast<UnaryOperator>(S)) {
      if (U->isIncrementDecrementOp()) { use(U->getSubExpr(), false, Guarded); use(U->getSubExpr(), true, Guarded); index(U->getSubExpr(), Guarded); return; }
    }
    if (auto *O = dyn_cast<CXXOperatorCallExpr>(S)) {
      if (O->isAssignmentOp() && O->getNumArgs() == 2) {
        if (O->getOperator() != OO_Equal) use(O->getArg(0), false, Guarded);
        use(O->getArg(0), true, Guarded); index(O->getArg(0), Guarded); walk(O->getArg(1), Guarded); return;
      }
      if ((O->getOperator() == OO_PlusPlus || O->getOperator() == OO_MinusMinus)) { use(O->getArg(0), false, Guarded); use(O->getArg(0), true, Guarded); return; }
    }
    if (auto *E = dyn_cast<Expr>(S)) {
      const Expr *P = E->IgnoreParenImpCasts();
      if (isElement(P)) { use(P, false, Guarded); index(P, Guarded); return; }
      if (isa<DeclRefExpr>(P)) { use(P, false, Guarded); return; }
      if (auto *C = dyn_cast<CallExpr>(P)) {
        if (auto *Fd = C->getDirectCallee()) { if (Fd->getNameAsString() == "omp_get_thread_num") Tid = true; }
        else if (auto *Ul = dyn_cast<UnresolvedLookupExpr>(C->getCallee())) { if (Ul->getName().getAsString() == "omp_get_thread_num") Tid = true; }
        ++Open;
      }
      if (P != S) { walk(P, Guarded); return; }
    }
    for (const Stmt *C : S->children()) walk(C, Guarded);
  }
  void index(const Expr *E, bool Guarded) {
    E = strip(E);
    if (auto *A = dyn_cast<ArraySubscriptExpr>(E)) { walkPtr(A->getLHS(), Guarded); walk(A->getRHS(), Guarded); }
    else if (auto *O = dyn_cast<CXXOperatorCallExpr>(E)) { for (unsigned i = 0; i < O->getNumArgs(); ++i) i ? walk(O->getArg(i), Guarded) : walkPtr(O->getArg(i), Guarded); }
    else if (auto *U = dyn_cast<UnaryOperator>(E)) walkPtr(U->getSubExpr(), Guarded);
  }
  void walkPtr(const Expr *E, bool Guarded) { E = strip(E); if (declOf(E)) return; if (auto *B = dyn_cast<BinaryOperator>(E)) { walkPtr(B->getLHS(), Guarded); walk(B->getRHS(), Guarded); return; } if (isElement(E)) walk(E, Guarded); }

  // A worksharing or simd loop inside a region is judged on its own; inside a plain parallel region the iterations are divided.
  bool nestedShares(const OMPExecutableDirective *X) { return isOpenMPWorksharingDirective(X->getDirectiveKind()) && !isOpenMPLoopDirective(D->getDirectiveKind()); }

  void clauses() {
    auto vars = [&](auto *C, std::set<const ValueDecl *> &Out) { for (auto *E : C->varlists()) if (auto *V = declOf(E)) Out.insert(V); };
    for (const OMPClause *C : D->clauses()) {
      if (auto *P = dyn_cast<OMPPrivateClause>(C)) vars(P, Private);
      else if (auto *P = dyn_cast<OMPFirstprivateClause>(C)) vars(P, Private);
      else if (auto *P = dyn_cast<OMPLastprivateClause>(C)) { vars(P, Private); vars(P, Last); }
      else if (auto *P = dyn_cast<OMPLinearClause>(C)) { vars(P, Private); vars(P, Last); }
      else if (auto *P = dyn_cast<OMPCopyinClause>(C)) vars(P, Private);
      else if (auto *P = dyn_cast<OMPReductionClause>(C)) {
        for (auto *E : P->varlists()) if (auto *V = declOf(E)) Red[V] = P->getNameInfo().getName().getAsString();
      } else if (auto *P = dyn_cast<OMPAlignedClause>(C)) {
        Expr::EvalResult V; const Expr *A = P->getAlignment();
        bool Ok = A && !A->isValueDependent() && A->EvaluateAsInt(V, Ctx) && V.Val.getInt().getExtValue() <= 4;
        if (A && A->isValueDependent()) Ok = text(A).find("alignof") == 0;
        if (!Ok) for (auto *E : P->varlists()) if (auto *D2 = declOf(E)) if (isa<ParmVarDecl>(D2)) Viol.push_back(at(D) + ": the clause aligned promises an alignment of " + D2->getNameAsString() + " that callers do not guarantee");
      } else if (auto *P = dyn_cast<OMPMapClause>(C)) {
        if (P->getMapType() == OMPC_MAP_to || P->getMapType() == OMPC_MAP_alloc || P->getMapType() == OMPC_MAP_release)
          for (auto *E : P->varlists()) {
            const Expr *B = strip(E);
            while (auto *S = dyn_cast<ArraySectionLike>(B)) B = strip(S->getBase());
            if (auto *V = declOf(B)) MapTo.insert(V);
          }
      }
    }
  }
  using ArraySectionLike = OMPArraySectionExpr;
  std::set<const ValueDecl *> MapTo;

  bool isLoop() { return isOpenMPLoopDirective(D->getDirectiveKind()); }

  const Stmt *loopBody() {
    const Stmt *S = D->getRawStmt(); unsigned N = 1;
    if (auto *L = dyn_cast<OMPLoopBasedDirective>(D)) N = std::max(1u, L->getLoopsNumber());
    const Stmt *Body = S;
    for (unsigned k = 0; k < N; ++k) {
      while (Body && !isa<ForStmt>(Body) && !isa<CXXForRangeStmt>(Body)) {
        if (auto *C = dyn_cast<CompoundStmt>(Body)) { Body = C->size() == 1 ? *C->body_begin() : nullptr; continue; }
        if (auto *C = dyn_cast<CapturedStmt>(Body)) { Body = C->getCapturedStmt(); continue; }
        if (auto *C = dyn_cast<OMPCanonicalLoop>(Body)) { Body = C->getLoopStmt(); continue; }
        Body = nullptr;
      }
      if (!Body) return nullptr;
      if (auto *R = dyn_cast<CXXForRangeStmt>(Body)) { LoopVars.push_back(cast<ValueDecl>(R->getLoopVariable()->getCanonicalDecl())); Steps.push_back(1); Body = R->getBody(); continue; }
      auto *Fs = cast<ForStmt>(Body);
      const ValueDecl *V = nullptr;
      if (auto *DS = dyn_cast_or_null<DeclStmt>(Fs->getInit())) { if (DS->isSingleDecl()) V = dyn_cast<ValueDecl>(DS->getSingleDecl()->getCanonicalDecl()); }
      else if (auto *B = dyn_cast_or_null<BinaryOperator>(Fs->getInit())) V = declOf(B->getLHS());
      if (!V) return nullptr;
      long St = 0; const Expr *Inc = Fs->getInc() ? strip(Fs->getInc()) : nullptr;
      if (auto *U = dyn_cast_or_null<UnaryOperator>(Inc)) St = U->isIncrementOp() ? 1 : -1;
      else if (auto *O = dyn_cast_or_null<CXXOperatorCallExpr>(Inc)) St = O->getOperator() == OO_PlusPlus ? 1 : O->getOperator() == OO_MinusMinus ? -1 : 0;
      else if (auto *B = dyn_cast_or_null<BinaryOperator>(Inc)) {
        Aff A; if (B->isCompoundAssignmentOp()) A = aff(B->getRHS()); else { A = aff(B->getRHS()); Aff Q; Q.t[sym(V)] = 1; A.add(Q, -1); }
        if (!A.bad && A.isConst()) St = A.c;
      }
      LoopVars.push_back(V); Steps.push_back(St);
      Body = Fs->getBody();
    }
    return Body;
  }

  void run() {
    clauses();
    if (isLoop()) {
      const Stmt *Body = loopBody();
      if (!Body) { ++Open; return; }
      Decls(*this).TraverseStmt(const_cast<Stmt *>(Body));
      for (auto *V : LoopVars) { Inner.insert(V); Def.erase(V); }
      walk(Body, false);
    } else {
      const Stmt *Body = D->hasAssociatedStmt() ? D->getRawStmt() : nullptr;
      if (!Body) return;
      Decls(*this).TraverseStmt(const_cast<Stmt *>(Body));
      walk(Body, false);
      if (Tid) { ++Open; return; }
    }
    bool Simd = isLoop() && !isOpenMPParallelDirective(D->getDirectiveKind()) && !isOpenMPWorksharingDirective(D->getDirectiveKind());
    // scalars
    for (auto &P : ScalarWrites) {
      auto *V = P.first; ++Checked;
      if (std::find(LoopVars.begin(), LoopVars.end(), V) != LoopVars.end()) { Viol.push_back(at(P.second[0].first) + ": the loop variable " + V->getNameAsString() + " is changed in the body"); continue; }
      if (Inner.count(V)) { if (auto *Vd = dyn_cast<VarDecl>(V)) if (Vd->isStaticLocal()) Viol.push_back(at(P.second[0].first) + ": iterations share the static variable " + V->getNameAsString()); continue; }
      if (Red.count(V)) { reduction(V); continue; }
      if (Outer.count(V)) {       // a thread runs its iterations one after the other, the lanes of simd do not
        bool Sd = isOpenMPSimdDirective(D->getDirectiveKind()); if (!Sd) { ++Open; continue; }
      }
      if (Private.count(V)) {
        if (!Last.count(V) && usedAfter(V)) Viol.push_back(at(P.second[0].first) + ": " + V->getNameAsString() + " is private to each thread, but its value is used after the loop");
        continue;
      }
      for (auto &W : P.second) {
        if (W.second) continue;
        if (auto *Vd = dyn_cast<VarDecl>(V)) if (Vd->getType()->isReferenceType()) { }
        Viol.push_back(at(W.first) + ": iterations write the shared variable " + V->getNameAsString() + " without reduction, private or atomic"); break;
      }
    }
    for (auto &P : Red) if (!ScalarWrites.count(P.first) && isLoop()) ++Open;
    // arrays
    std::map<std::pair<const ValueDecl *, std::string>, std::vector<Access *>> By;
    for (auto &A : Acc) By[{A.Base, A.Field}].push_back(&A);
    for (auto &P : By) {
      auto *Base = P.first.first;
      if (Inner.count(Base) && !isRefOrPtr(Base)) continue;           // an array of the iteration itself
      if (Inner.count(Base) || Outer.count(Base)) { ++Open; continue; }
      if (Private.count(Base) && !isRefOrPtr(Base)) continue;
      bool Written = false; for (auto *A : P.second) Written |= A->Write;
      if (!Written) continue;
      if (MapTo.count(Base)) Viol.push_back(at(P.second[0]->E) + ": " + Base->getNameAsString() + " is written, but mapped to the device only");
      if (Red.count(Base)) { ++Open; continue; }
      for (auto *A : P.second) {
        if (!A->Write || A->Guarded) continue;
        ++Checked;
        if (!isLoop()) { if (A->IdxKnown && !innerVar(A->Idx)) Viol.push_back(at(A->E) + ": every thread of the region writes " + text(A->E)); else if (A->IdxKnown) Viol.push_back(at(A->E) + ": every thread of the region executes the whole loop that writes " + text(A->E)); continue; }
        if (!A->IdxKnown) { ++Open; continue; }
        for (size_t k = 0; k < LoopVars.size(); ++k) {
          std::string S = sym(LoopVars[k]);
          if (!A->Idx.mentions(S) && derived(A->Idx, LoopVars[k])) {
            if (k == 0 && LoopVars.size() == 1 && blocksOverlap(A)) Viol.push_back(at(A->E) + ": " + text(A->E) + " is written by two iterations of " + LoopVars[k]->getNameAsString() + ": the ranges of consecutive iterations overlap");
            else ++Open;
            continue;
          }
          if (!A->Idx.mentions(S)) { if (innerSymbol(A->Idx, k)) { Viol.push_back(at(A->E) + ": " + text(A->E) + " is written by all iterations of " + LoopVars[k]->getNameAsString()); } else Viol.push_back(at(A->E) + ": " + text(A->E) + " is the same element in all iterations of " + LoopVars[k]->getNameAsString()); break; }
          bool Plain = false, Op = false;
          for (auto &T : A->Idx.t) if (T.first.find(S) != std::string::npos) (T.first[0] == '{' || T.first.find("*{") != std::string::npos ? Op : Plain) = true;
          if (Op && !Plain) Viol.push_back(at(A->E) + ": several iterations of " + LoopVars[k]->getNameAsString() + " write the same element " + text(A->E));
        }
      }
      if (!isLoop() || LoopVars.size() != 1) continue;
      std::string S = sym(LoopVars[0]);
      for (auto *W : P.second) if (W->Write && !W->Guarded && W->IdxKnown && W->Idx.mentions(S))
        for (auto *A : P.second) {
          if (A == W || !A->IdxKnown || A->Guarded) continue;
          ++Checked;
          Aff Df = A->Idx; Df.add(W->Idx, -1);
          if (Df.t.empty() && Df.c == 0) continue;
          auto coef = [&](const Aff &X) { auto It = X.t.find(S); return It == X.t.end() ? 0L : It->second; };
          bool OnlyLin = true; for (auto *X : {A, W}) for (auto &T : X->Idx.t) if (T.first != S && T.first.find(S) != std::string::npos) OnlyLin = false;
          if (!OnlyLin) { ++Open; continue; }
          long Cw = coef(W->Idx), Ca = coef(A->Idx);
          if (Df.t.empty()) {
            long Q = Cw * Steps[0];
            if (!Q || Df.c % Q) continue;
            if (Simd && safelen(std::labs(Df.c / Q))) continue;
            Viol.push_back(at(A->E) + ": " + text(A->E) + " is an element that another iteration writes (" + text(W->E) + ")");
          } else if (Ca == 0 && !A->Idx.mentions(S)) {
            if (derived(A->Idx, LoopVars[0])) ++Open;
            else if (innerOnly(A->Idx)) Viol.push_back(at(A->E) + ": " + text(A->E) + " is read while other iterations write " + text(W->E));
            else ++Open;
          } else if (Ca != Cw) Viol.push_back(at(A->E) + ": " + text(A->E) + " is an element that another iteration writes (" + text(W->E) + ")");
          else ++Open;
        }
    }
    std::sort(Viol.begin(), Viol.end()); Viol.erase(std::unique(Viol.begin(), Viol.end()), Viol.end());
  }
  // A variable of the body whose values follow from the loop variable (the counter of an inner loop over a block, say).
  bool derived(const Aff &A, const ValueDecl *L) {
    std::set<const ValueDecl *> Dep{L};
    for (bool Ch = true; Ch;) {
      Ch = false;
      for (auto &P : Assigned) if (!Dep.count(P.first)) for (auto *E : P.second) { bool Hit = false; for (auto *V : Dep) Hit |= mentionsVar(E, V); if (Hit) { Dep.insert(P.first); Ch = true; break; } }
    }
    for (auto &T : A.t) for (auto *V : Dep) if (V != L && T.first.find(sym(V)) != std::string::npos) return true;
    return false;
  }
  // for (i = lo(b); i < hi(b); ++i) x[i] = ..., where an upper end hi(b) lies beyond lo(b + 1)
  void ends(const Expr *E, std::vector<const Expr *> &Out, int Depth = 0) {
    E = strip(E);
    if (Depth > 6) return;
    if (auto *D2 = declOf(E)) { auto It = Def.find(D2); if (It != Def.end() && It->second && !Reassigned.count(D2)) { ends(It->second, Out, Depth + 1); return; } }
    if (auto *C = dyn_cast<ConditionalOperator>(E)) { ends(C->getTrueExpr(), Out, Depth + 1); ends(C->getFalseExpr(), Out, Depth + 1); return; }
    if (auto *C = dyn_cast<CallExpr>(E)) {
      std::string N;
      if (auto *Fd = C->getDirectCallee()) N = Fd->getNameAsString();
      else if (auto *Ul = dyn_cast<UnresolvedLookupExpr>(C->getCallee())) N = Ul->getName().getAsString();
      if (N == "min") for (auto *A : C->arguments()) ends(A, Out, Depth + 1);
      return;
    }
    Out.push_back(E);
  }
  bool blocksOverlap(Access *A) {
    struct Fors : RecursiveASTVisitor<Fors> { std::vector<ForStmt *> L; bool VisitForStmt(ForStmt *S) { L.push_back(S); return true; } } Fs;
    Fs.TraverseStmt(const_cast<Stmt *>(D->getRawStmt()));
    std::string S = sym(LoopVars[0]);
    for (auto *Fr : Fs.L) {
      auto *DS = dyn_cast_or_null<DeclStmt>(Fr->getInit());
      if (!DS || !DS->isSingleDecl()) continue;
      auto *V = dyn_cast<VarDecl>(DS->getSingleDecl());
      if (!V || !V->getInit() || A->Idx.t.size() != 1 || A->Idx.t.begin()->first != sym(cast<ValueDecl>(V->getCanonicalDecl())) || A->Idx.t.begin()->second != 1) continue;
      auto *Inc = dyn_cast_or_null<UnaryOperator>(Fr->getInc() ? strip(Fr->getInc()) : nullptr);
      auto *Cond = dyn_cast_or_null<BinaryOperator>(Fr->getCond() ? strip(Fr->getCond()) : nullptr);
      if (!Inc || !Inc->isIncrementOp() || !Cond || declOf(Cond->getLHS()) != V->getCanonicalDecl()) return false;
      long Cl = Cond->getOpcode() == BO_LE ? 1 : Cond->getOpcode() == BO_LT || Cond->getOpcode() == BO_NE ? 0 : -1;
      if (Cl < 0) return false;
      // every pass of the inner loop performs the write
      struct Jumps : RecursiveASTVisitor<Jumps> {
        bool Hit = false;
        bool VisitIfStmt(IfStmt *) { Hit = true; return true; } bool VisitSwitchStmt(SwitchStmt *) { Hit = true; return true; }
        bool VisitBreakStmt(BreakStmt *) { Hit = true; return true; } bool VisitContinueStmt(ContinueStmt *) { Hit = true; return true; }
        bool VisitConditionalOperator(ConditionalOperator *) { Hit = true; return true; }
      } Jp;
      Jp.TraverseStmt(Fr->getBody());
      if (Jp.Hit) return false;
      Aff Lo = aff(V->getInit()), Next;
      if (Lo.bad || !Lo.mentions(S) || !Steps[0]) return false;
      for (auto &T : Lo.t) {                      // lo(b + step) - lo(b)
        auto &M = T.first;
        if (M.find(S) == std::string::npos) continue;
        if (M == S) Next.c += T.second * Steps[0];
        else if (M.find('{') != std::string::npos) return false;
        else if (M.rfind(S + "*", 0) == 0 && M.find(S, S.size()) == std::string::npos) Next.t[M.substr(S.size() + 1)] += T.second * Steps[0];
        else if (M.size() > S.size() + 1 && M.substr(M.size() - S.size() - 1) == "*" + S && M.find(S) == M.size() - S.size()) Next.t[M.substr(0, M.size() - S.size() - 1)] += T.second * Steps[0];
        else return false;
      }
      if (Steps[0] < 0) return false;
      std::vector<const Expr *> Hs; ends(Cond->getRHS(), Hs);
      for (auto *H : Hs) {
        Aff Hi = aff(H);
        if (Hi.bad || !Hi.mentions(S)) continue;
        Hi.c += Cl; Hi.add(Lo, -1); Hi.add(Next, -1);
        if (Hi.isConst() && Hi.c > 0) return true;
      }
      return false;
    }
    return false;
  }
  bool isRefOrPtr(const ValueDecl *V) { auto T = V->getType(); return T->isPointerType() || T->isReferenceType() || T->isDependentType() || T->isUndeducedType(); }
  // all symbols of the index vary inside the body (or there are none: one fixed element)
  bool innerOnly(const Aff &A) { for (auto &T : A.t) { bool In = false; for (auto *V : Inner) if (T.first == sym(V)) In = true; if (!In) return false; } return true; }
  bool innerVar(const Aff &A) { for (auto &T : A.t) for (auto *V : Inner) if (T.first.find(sym(V)) != std::string::npos) return true; return false; }
  bool innerSymbol(const Aff &A, size_t) { return innerVar(A); }
  bool safelen(long Dist) {
    for (const OMPClause *C : D->clauses()) if (auto *P = dyn_cast<OMPSafelenClause>(C)) { Expr::EvalResult V; if (P->getSafelen() && !P->getSafelen()->isValueDependent() && P->getSafelen()->EvaluateAsInt(V, Ctx)) return V.Val.getInt().getExtValue() <= Dist; }
    return false;
  }

  // Every write of a reduction variable combines it with the declared operator, and it is not used otherwise.
  void reduction(const ValueDecl *V) {
    std::string Op = Red[V]; unsigned Expected = 0;
    struct Find : RecursiveASTVisitor<Find> {
      Region &R; const ValueDecl *V; unsigned Uses = 0; std::vector<const Expr *> Ws;
      Find(Region &r, const ValueDecl *v) : R(r), V(v) {}
      bool VisitDeclRefExpr(DeclRefExpr *D) { if (D->getDecl()->getCanonicalDecl() == V) ++Uses; return true; }
      bool VisitBinaryOperator(BinaryOperator *B) { if (B->isAssignmentOp() && declOf(B->getLHS()) == V) Ws.push_back(B); return true; }
      bool VisitUnaryOperator(UnaryOperator *U) { if (U->isIncrementDecrementOp() && declOf(U->getSubExpr()) == V) Ws.push_back(U); return true; }
      bool VisitCXXOperatorCallExpr(CXXOperatorCallExpr *O) { if ((O->isAssignmentOp() || O->getOperator() == OO_PlusPlus) && declOf(O->getArg(0)) == V) Ws.push_back(O); return true; }
    } Fd(*this, V);
    Fd.TraverseStmt(const_cast<Stmt *>(D->getRawStmt()));
    for (auto *W : Fd.Ws) {
      std::string K; bool Self = false; unsigned N = 1;
      auto simple = [&](const Expr *Rhs) {                      // x = x op e, x = e op x
        const Expr *E = strip(Rhs);
        auto one = [&](const Expr *L, const Expr *R2, std::string O, bool Comm) { if (declOf(L) == V) { K = O; N = 2; Self = mentionsVar(R2, V); return true; } if (Comm && declOf(R2) == V) { K = O; N = 2; Self = mentionsVar(L, V); return true; } return false; };
        if (auto *B = dyn_cast<BinaryOperator>(E)) {
          std::string O = B->getOpcodeStr().str();
          if (one(B->getLHS(), B->getRHS(), O, O != "-")) return true;
          // x = x + a + b
          if (O == "+" || O == "-") { const Expr *L = B->getLHS(); while (true) { L = strip(L); auto *B2 = dyn_cast<BinaryOperator>(L); if (!B2 || (B2->getOpcodeStr() != "+" && B2->getOpcodeStr() != "-")) break; if (mentionsVar(B2->getRHS(), V)) break; L = B2->getLHS(); } if (declOf(L) == V && !mentionsVar(B->getRHS(), V)) { K = "+"; N = 2; return true; } }
        }
        if (auto *O = dyn_cast<CXXOperatorCallExpr>(E)) if (O->getNumArgs() == 2) return one(O->getArg(0), O->getArg(1), getOperatorSpelling(O->getOperator()), O->getOperator() != OO_Minus);
        if (isa<CallExpr>(E) || isa<ConditionalOperator>(E)) { K = "?"; N = 0; return true; }    // min, max and the like
        return false;
      };
      if (auto *B = dyn_cast<BinaryOperator>(W)) {
        if (B->getOpcode() == BO_Assign) { if (!simple(B->getRHS())) K = "="; }
        else { K = BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(B->getOpcode())).str(); Self = mentionsVar(B->getRHS(), V); }
      } else if (auto *U = dyn_cast<UnaryOperator>(W)) K = U->isIncrementOp() ? "+" : "-";
      else if (auto *O = dyn_cast<CXXOperatorCallExpr>(W)) {
        if (O->getOperator() == OO_Equal) { if (!simple(O->getArg(1))) K = "="; }
        else if (O->getOperator() == OO_PlusPlus) K = "+";
        else { K = getOperatorSpelling(O->getOperator()); if (!K.empty()) K.pop_back(); Self = mentionsVar(O->getArg(1), V); }
      }
      if (K == "?") { ++Open; return; }
      if (K == "-") K = "+";
      std::string Want = Op; if (Want.rfind("operator", 0) == 0) Want = Want.substr(8);
      if (Want == "-") Want = "+";
      if (K != Want) Viol.push_back(at(W) + ": the reduction of " + V->getNameAsString() + " is declared with " + Want + ", but the loop combines with " + K);
      else if (Self) Viol.push_back(at(W) + ": the partial result of the reduction of " + V->getNameAsString() + " is used in its own update");
      Expected += N;
    }
    if (Fd.Uses > Expected) Viol.push_back(at(D) + ": the partial result of the reduction of " + V->getNameAsString() + " is used inside the loop");
  }
  bool mentionsVar(const Expr *E, const ValueDecl *V) {
    struct M : RecursiveASTVisitor<M> { const ValueDecl *V; bool Hit = false; M(const ValueDecl *v) : V(v) {} bool VisitDeclRefExpr(DeclRefExpr *D) { if (D->getDecl()->getCanonicalDecl() == V) Hit = true; return true; } } X(V);
    X.TraverseStmt(const_cast<Expr *>(E)); return X.Hit;
  }
  bool usedAfter(const ValueDecl *V) {
    if (!F || !F->getBody()) return false;
    struct U : RecursiveASTVisitor<U> { const ValueDecl *V; SourceManager &SM; SourceLocation End; bool Hit = false; U(const ValueDecl *v, SourceManager &s, SourceLocation e) : V(v), SM(s), End(e) {}
      bool VisitDeclRefExpr(DeclRefExpr *D) { if (D->getDecl()->getCanonicalDecl() == V && SM.isBeforeInTranslationUnit(End, D->getLocation())) Hit = true; return true; } } X(V, Ctx.getSourceManager(), D->getRawStmt()->getEndLoc());
    X.TraverseStmt(F->getBody()); return X.Hit;
  }
};

struct Visit : RecursiveASTVisitor<Visit> {
  ASTContext &Ctx; const FunctionDecl *F = nullptr; json::Array &Out; std::vector<OMPExecutableDirective *> Stack;
  Visit(ASTContext &C, json::Array &O) : Ctx(C), Out(O) {}
  bool shouldVisitTemplateInstantiations() const { return false; }
  bool shouldVisitImplicitCode() const { return false; }
  bool TraverseFunctionDecl(FunctionDecl *D) { auto *S = F; F = D; bool R = RecursiveASTVisitor::TraverseFunctionDecl(D); F = S; return R; }
  bool TraverseCXXMethodDecl(CXXMethodDecl *D) { auto *S = F; F = D; bool R = RecursiveASTVisitor::TraverseCXXMethodDecl(D); F = S; return R; }
  bool TraverseCXXConstructorDecl(CXXConstructorDecl *D) { auto *S = F; F = D; bool R = RecursiveASTVisitor::TraverseCXXConstructorDecl(D); F = S; return R; }
  bool TraverseStmt(Stmt *S, DataRecursionQueue *Q = nullptr) {
    if (auto *D = dyn_cast_or_null<OMPExecutableDirective>(S)) {
      directive(D);
      bool R = true;
      Stack.push_back(D);
      if (D->hasAssociatedStmt()) R = RecursiveASTVisitor::TraverseStmt(const_cast<Stmt *>(raw(D->getRawStmt())));
      Stack.pop_back();
      return R;
    }
    return RecursiveASTVisitor::TraverseStmt(S, Q);
  }
  static const Stmt *raw(const Stmt *S) { while (auto *C = dyn_cast_or_null<CapturedStmt>(S)) S = C->getCapturedStmt(); return S; }
  bool here(SourceLocation L, std::string &File, unsigned &Line) {
    auto &SM = Ctx.getSourceManager(); L = SM.getExpansionLoc(L);
    File = SM.getFilename(L).str(); Line = SM.getExpansionLineNumber(L);
    return File.rfind(Prefix, 0) == 0;
  }
  void directive(OMPExecutableDirective *D) {
    std::string File; unsigned Line;
    if (!here(D->getBeginLoc(), File, Line)) return;
    auto K = D->getDirectiveKind();
    if (!isOpenMPLoopDirective(K) && !isOpenMPParallelDirective(K) && !isOpenMPTargetExecutionDirective(K) && !isOpenMPTeamsDirective(K)) return;
    Region R(Ctx, D, F); for (auto *O : Stack) if (isOpenMPParallelDirective(O->getDirectiveKind()) && O->hasAssociatedStmt()) { Region Q(Ctx, O, F); Region::Decls(Q).TraverseStmt(const_cast<Stmt *>(O->getRawStmt())); R.Outer.insert(Q.Inner.begin(), Q.Inner.end()); }
    R.run();
    json::Array V; for (auto &S : R.Viol) V.push_back(S);
    Out.push_back(json::Object{{"file", File}, {"line", (int64_t)Line}, {"function", F ? F->getNameAsString() : ""}, {"directive", llvm::omp::getOpenMPDirectiveName(K).str()},
      {"checked", (int64_t)R.Checked}, {"open", (int64_t)R.Open}, {"violations", std::move(V)}});
  }
  // The combiner of a declared sum must add, and start from zero.
  bool VisitOMPDeclareReductionDecl(OMPDeclareReductionDecl *D) {
    std::string File; unsigned Line;
    if (!here(D->getBeginLoc(), File, Line)) return true;
    std::string Name = D->getDeclName().getAsString();
    json::Array V;
    auto txt = [&](const Expr *E) { return E ? Lexer::getSourceText(CharSourceRange::getTokenRange(E->getSourceRange()), Ctx.getSourceManager(), Ctx.getLangOpts()).str() : std::string(); };
    std::string C = txt(D->getCombiner()), I = txt(D->getInitializer());
    auto squeeze = [](std::string S) { std::string R; for (char c : S) if (!isspace((unsigned char)c)) R += c; return R; };
    C = squeeze(C); I = squeeze(I);
    if (Name == "operator+") {
      static const std::set<std::string> Good{"omp_out+=omp_in", "omp_out=omp_out+omp_in", "omp_out=omp_in+omp_out"};
      bool Sub = C.find("omp_in") == std::string::npos || C.find("omp_out") == std::string::npos || C.find('-') != std::string::npos || C.find("*") != std::string::npos;
      if (!Good.count(C) && Sub) V.push_back(File + ":" + std::to_string(Line) + ": the sum reduction combines partial results by " + C);
      if (I.find("omp_orig") != std::string::npos && I.find("decltype") == std::string::npos) V.push_back(File + ":" + std::to_string(Line) + ": every partial sum starts from the value before the loop, not from zero");
      for (char c : I) if (c >= '1' && c <= '9') { V.push_back(File + ":" + std::to_string(Line) + ": a partial sum does not start from zero (" + I + ")"); break; }
      if (!D->getInitializer()) V.push_back(File + ":" + std::to_string(Line) + ": partial sums of the reduction have no initial value");
    }
    Out.push_back(json::Object{{"file", File}, {"line", (int64_t)Line}, {"function", Name}, {"directive", "declare reduction"}, {"checked", 2}, {"open", 0}, {"violations", std::move(V)}});
    return true;
  }
};

struct Consumer : ASTConsumer { void HandleTranslationUnit(ASTContext &C) override { json::Array O; Visit V(C, O); V.TraverseDecl(C.getTranslationUnitDecl()); llvm::outs() << json::Value(std::move(O)) << "\n"; } };
struct Action : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); } };

int main(int argc, const char **argv) {
  if (argc < 4) return 2;
  Prefix = argv[1];
  std::vector<std::string> Args(argv + 3, argv + argc - 1); std::string File = argv[argc - 1];
  tooling::FixedCompilationDatabase Db(".", Args);
  tooling::ClangTool T(Db, {File});
  return T.run(tooling::newFrontendActionFactory<Action>().get());
}
