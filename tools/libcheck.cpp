// libcheck: syntax-tree and control-flow rules over the functions of the library.
//
//   libcheck PREFIX -- clang arguments ... FILE
//
// For every function defined in files whose path starts with PREFIX (template instances included):
//  * stale iterators: a local iterator, pointer or reference into a std::vector is not used after an operation that may
//    move the elements of that vector, unless a reserve() of it dominates the growth;
// and over all declarations in those files:
//  * functions that are declared, but defined nowhere.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Decl.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Frontend/TextDiagnosticPrinter.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include <functional>
#include <map>
#include <set>
using namespace clang;
namespace json = llvm::json;
static std::string Prefix;

static const Expr *strip(const Expr *E) {
  for (;;) {
    E = E->IgnoreParenImpCasts();
    if (auto *C = dyn_cast<ExprWithCleanups>(E)) { E = C->getSubExpr(); continue; }
    if (auto *C = dyn_cast<MaterializeTemporaryExpr>(E)) { E = C->getSubExpr(); continue; }
    if (auto *C = dyn_cast<CXXBindTemporaryExpr>(E)) { E = C->getSubExpr(); continue; }
    if (auto *C = dyn_cast<ExplicitCastExpr>(E)) { E = C->getSubExpr(); continue; }
    if (auto *C = dyn_cast<CXXConstructExpr>(E)) if (C->getNumArgs() == 1) { E = C->getArg(0); continue; }
    return E;
  }
}
static std::string className(QualType T) {
  T = T.getNonReferenceType().getCanonicalType();
  if (auto *R = T->getAsCXXRecordDecl()) return R->getNameAsString();
  return "";
}
static bool pointsInto(QualType T) {                 // a type that designates elements
  if (T->isReferenceType()) return true;
  T = T.getCanonicalType();
  if (T->isPointerType()) return true;
  auto N = className(T);
  return N.find("iterator") != std::string::npos || N == "span" || N == "subrange" || N.find("_view") != std::string::npos || N == "ref_view";
}
static const std::set<std::string> Gives = {"begin", "end", "cbegin", "cend", "rbegin", "rend", "data", "front", "back", "at", "operator[]"};
static const std::set<std::string> Grows = {"push_back", "emplace_back", "insert", "emplace", "resize", "append_range", "insert_range"};
static const std::set<std::string> Moves = {"assign", "reserve", "shrink_to_fit", "operator=", "swap", "erase", "clear"};

struct Fn {
  ASTContext &Ctx; const FunctionDecl *F;
  std::map<const VarDecl *, const Expr *> Alias;     // reference to a vector
  std::set<std::string> Viol; unsigned Uses = 0, Growths = 0;
  Fn(ASTContext &C, const FunctionDecl *f) : Ctx(C), F(f) {}

  std::string text(const Expr *E, int d = 0) {       // name of a vector object
    E = strip(E);
    if (auto *R = dyn_cast<DeclRefExpr>(E)) {
      if (auto *V = dyn_cast<VarDecl>(R->getDecl())) if (d < 4) if (auto I = Alias.find(V); I != Alias.end()) return text(I->second, d + 1);
      return R->getDecl()->getNameAsString() + "#" + std::to_string(R->getDecl()->getID());
    }
    if (auto *M = dyn_cast<MemberExpr>(E)) {
      auto B = text(M->getBase(), d);
      return B.empty() ? "" : B + "." + M->getMemberDecl()->getNameAsString();
    }
    if (isa<CXXThisExpr>(E)) return "this";
    if (auto *U = dyn_cast<UnaryOperator>(E)) if (U->getOpcode() == UO_Deref) return text(U->getSubExpr(), d);
    return "";
  }
  static std::string human(std::string s) { std::string o; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '#') { while (i + 1 < s.size() && isdigit(s[i + 1])) ++i; } else o += s[i]; } return o; }

  // vectors whose elements an expression designates
  void sources(const Expr *E, QualType T, const std::map<const VarDecl *, std::set<std::string>> &Tr, std::set<std::string> &Out, int d = 0) {
    if (d > 10) return;
    E = strip(E);
    if (auto *R = dyn_cast<DeclRefExpr>(E)) {
      if (auto *V = dyn_cast<VarDecl>(R->getDecl())) if (auto I = Tr.find(V); I != Tr.end()) Out.insert(I->second.begin(), I->second.end());
      return;
    }
    if (auto *C = dyn_cast<CXXMemberCallExpr>(E)) {
      auto *D = C->getMethodDecl();
      if (D && className(C->getImplicitObjectArgument()->getType()) == "vector" && Gives.count(D->getNameAsString())) {
        auto N = text(C->getImplicitObjectArgument());
        if (!N.empty()) Out.insert(N);
        return;
      }
      if (pointsInto(C->getType()) || C->isLValue()) sources(C->getImplicitObjectArgument(), T, Tr, Out, d + 1);
      return;
    }
    if (auto *C = dyn_cast<CXXOperatorCallExpr>(E)) {
      auto O = C->getOperator();
      if (O == OO_Subscript && C->getNumArgs() && className(C->getArg(0)->getType()) == "vector") {
        auto N = text(C->getArg(0));
        if (!N.empty()) Out.insert(N);
        return;
      }
      if (C->getNumArgs() && (pointsInto(C->getType()) || C->isLValue())) sources(C->getArg(0), T, Tr, Out, d + 1);
      return;
    }
    if (auto *C = dyn_cast<CallExpr>(E)) {
      auto *D = C->getDirectCallee();
      if (D && D->isInStdNamespace() && (pointsInto(C->getType()) || C->isLValue())) for (auto *A : C->arguments()) sources(A, T, Tr, Out, d + 1);
      return;
    }
    if (auto *U = dyn_cast<UnaryOperator>(E)) { if (U->getOpcode() == UO_AddrOf || U->getOpcode() == UO_Deref) sources(U->getSubExpr(), T, Tr, Out, d + 1); return; }
    if (auto *A = dyn_cast<ArraySubscriptExpr>(E)) { sources(A->getBase(), T, Tr, Out, d + 1); return; }
    if (auto *B = dyn_cast<BinaryOperator>(E)) { if (B->getType()->isPointerType()) { sources(B->getLHS(), T, Tr, Out, d + 1); sources(B->getRHS(), T, Tr, Out, d + 1); } return; }
    if (auto *Q = dyn_cast<ConditionalOperator>(E)) { sources(Q->getTrueExpr(), T, Tr, Out, d + 1); sources(Q->getFalseExpr(), T, Tr, Out, d + 1); return; }
    if (auto *C = dyn_cast<CXXConstructExpr>(E)) { for (auto *A : C->arguments()) sources(A, T, Tr, Out, d + 1); }
  }

  struct State {
    std::map<const VarDecl *, std::set<std::string>> Tr;      // what a variable designates
    std::map<const VarDecl *, std::string> Bad;               // may be stale, and why
    std::set<std::string> Res; bool Live = false;             // reserved on every path
    bool join(const State &o) {
      if (!o.Live) return false;
      if (!Live) { *this = o; return true; }
      bool ch = false;
      for (auto &p : o.Tr) for (auto &s : p.second) ch |= Tr[p.first].insert(s).second;
      for (auto &p : o.Bad) ch |= Bad.insert(p).second;
      for (auto I = Res.begin(); I != Res.end();) if (!o.Res.count(*I)) { I = Res.erase(I); ch = true; } else ++I;
      return ch;
    }
  };

  std::string at(SourceLocation L) {
    auto P = Ctx.getSourceManager().getPresumedLoc(Ctx.getSourceManager().getExpansionLoc(L));
    return P.isValid() ? std::string(P.getFilename()) + ":" + std::to_string(P.getLine()) : "?";
  }

  void stale(State &S, const std::string &C, SourceLocation L, const std::string &How, const std::set<const VarDecl *> &Keep = {}) {
    for (auto &p : S.Tr) if (p.second.count(C) && !Keep.count(p.first)) S.Bad.insert({p.first, How + " at " + at(L)});
  }

  // containers a callee reserves, as seen from the call
  void reservedBy(const FunctionDecl *D, const std::string &Obj, State &S, int depth = 0) {
    const FunctionDecl *Def = nullptr;
    if (!D || !D->hasBody(Def) || depth > 2) return;
    Fn sub(Ctx, Def);
    std::function<void(const Stmt *)> go = [&](const Stmt *X) {
      if (!X) return;
      if (auto *C = dyn_cast<CXXMemberCallExpr>(X)) if (C->getMethodDecl() && C->getMethodDecl()->getNameAsString() == "reserve") {
        auto N = sub.text(C->getImplicitObjectArgument());
        if (N.rfind("this", 0) == 0) S.Res.insert(Obj + N.substr(4));
      }
      for (auto *K : X->children()) go(K);
    };
    go(Def->getBody());
  }

  void step(const Stmt *X, State &S, bool Report) {
    if (auto *D = dyn_cast<DeclStmt>(X)) {
      for (auto *d : D->decls()) if (auto *V = dyn_cast<VarDecl>(d)) define(V, V->getInit(), S);
      return;
    }
    const Expr *E = dyn_cast<Expr>(X);
    if (!E) return;
    if (auto *R = dyn_cast<DeclRefExpr>(E)) {
      if (auto *V = dyn_cast<VarDecl>(R->getDecl())) if (Report && S.Tr.count(V) && !Written.count(R)) {
        ++Uses;
        if (auto I = S.Bad.find(V); I != S.Bad.end()) {
          std::string n; for (auto &s : S.Tr[V]) n += (n.empty() ? "" : ", ") + human(s);
          Viol.insert(at(R->getBeginLoc()) + ": " + V->getNameAsString() + " designates elements of " + n + ", which " + I->second);
        }
      }
      return;
    }
    if (auto *B = dyn_cast<BinaryOperator>(E)) {
      if (B->getOpcode() == BO_Assign) if (auto *R = dyn_cast<DeclRefExpr>(strip(B->getLHS()))) if (auto *V = dyn_cast<VarDecl>(R->getDecl())) if (!V->getType()->isReferenceType()) define(V, B->getRHS(), S);
      return;
    }
    if (auto *C = dyn_cast<CXXOperatorCallExpr>(E)) {
      if (C->getOperator() == OO_Equal && C->getNumArgs() == 2) {
        auto *L = strip(C->getArg(0));
        if (className(L->getType()) == "vector") { auto N = text(L); if (!N.empty()) { stale(S, N, E->getBeginLoc(), "was assigned"); S.Res.erase(N); } }
        else if (auto *R = dyn_cast<DeclRefExpr>(L)) if (auto *V = dyn_cast<VarDecl>(R->getDecl())) if (!V->getType()->isReferenceType()) define(V, C->getArg(1), S);
      }
      return;
    }
    if (auto *C = dyn_cast<CXXMemberCallExpr>(E)) {
      auto *D = C->getMethodDecl();
      if (!D) return;
      auto Nm = D->getNameAsString();
      auto *O = C->getImplicitObjectArgument();
      if (className(O->getType()) == "vector" || (O->getType()->isPointerType() && className(O->getType()->getPointeeType()) == "vector")) {
        auto N = text(O);
        if (N.empty()) return;
        if (Grows.count(Nm)) { if (Report) ++Growths; if (!S.Res.count(N)) stale(S, N, E->getExprLoc(), "may have been moved by " + Nm + "()"); }
        else if (Nm == "reserve") { stale(S, N, E->getExprLoc(), "may have been moved by reserve()"); S.Res.insert(N); }
        else if (Moves.count(Nm)) { stale(S, N, E->getExprLoc(), "was changed by " + Nm + "()"); if (Nm != "erase" && Nm != "clear") S.Res.erase(N); }
      } else if (auto B = text(O); !B.empty()) reservedBy(D, B, S);
    }
  }

  std::set<const DeclRefExpr *> Written;              // left sides of assignments
  void define(const VarDecl *V, const Expr *Init, State &S) {
    S.Bad.erase(V); S.Tr.erase(V);
    if (!Init || !pointsInto(V->getType())) return;
    std::set<std::string> Out;
    sources(Init, V->getType(), S.Tr, Out);
    if (!Out.empty()) S.Tr[V] = Out;
  }

  void run() {
    std::function<void(const Stmt *)> pre = [&](const Stmt *X) {
      if (!X) return;
      if (auto *D = dyn_cast<DeclStmt>(X)) for (auto *d : D->decls()) if (auto *V = dyn_cast<VarDecl>(d)) if (V->getType()->isReferenceType() && V->getInit() && className(V->getType()) == "vector") Alias[V] = V->getInit();
      if (auto *B = dyn_cast<BinaryOperator>(X)) if (B->getOpcode() == BO_Assign) if (auto *R = dyn_cast<DeclRefExpr>(strip(B->getLHS()))) Written.insert(R);
      if (auto *C = dyn_cast<CXXOperatorCallExpr>(X)) if (C->getOperator() == OO_Equal && C->getNumArgs()) if (auto *R = dyn_cast<DeclRefExpr>(strip(C->getArg(0)))) Written.insert(R);
      for (auto *K : X->children()) pre(K);
    };
    pre(F->getBody());
    CFG::BuildOptions O; O.AddImplicitDtors = false; O.AddEHEdges = false; O.setAllAlwaysAdd();
    auto G = CFG::buildCFG(F, F->getBody(), &Ctx, O);
    if (!G) return;
    std::map<const CFGBlock *, State> In;
    In[&G->getEntry()].Live = true;
    for (int k = 0; k < 60; ++k) {
      bool ch = false;
      for (auto I = G->rbegin(); I != G->rend(); ++I) {
        State S = In[*I];
        if (!S.Live) continue;
        for (auto &El : **I) if (auto St = El.getAs<CFGStmt>()) step(St->getStmt(), S, false);
        for (auto It = (*I)->succ_begin(); It != (*I)->succ_end(); ++It) if (const CFGBlock *B = *It) ch |= In[B].join(S);
      }
      if (!ch) break;
    }
    for (auto *B : *G) {
      State S = In[B];
      if (!S.Live) continue;
      for (auto &El : *B) if (auto St = El.getAs<CFGStmt>()) step(St->getStmt(), S, true);
    }
  }
};

struct V : RecursiveASTVisitor<V> {
  ASTContext &Ctx; json::Array Fns, Undef; std::set<std::string> Seen; std::set<const FunctionDecl *> Used; std::vector<std::pair<const FunctionDecl *, json::Object>> Private;
  std::map<const FunctionDecl *, bool> Canon;
  V(ASTContext &C) : Ctx(C) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  std::string file(SourceLocation L) { auto P = Ctx.getSourceManager().getPresumedLoc(Ctx.getSourceManager().getExpansionLoc(L)); return P.isValid() ? P.getFilename() : ""; }
  unsigned line(SourceLocation L) { auto P = Ctx.getSourceManager().getPresumedLoc(Ctx.getSourceManager().getExpansionLoc(L)); return P.isValid() ? P.getLine() : 0; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    auto Fl = file(F->getLocation());
    if (Fl.rfind(Prefix, 0) != 0) return true;
    if (F->isUsed(false) || F->isReferenced()) {
      Used.insert(F->getCanonicalDecl());
      if (auto *P = F->getTemplateInstantiationPattern(false)) Used.insert(P->getCanonicalDecl());
      if (auto *P = F->getInstantiatedFromMemberFunction()) Used.insert(P->getCanonicalDecl());
    }
    if (!F->isTemplateInstantiation() && !F->isImplicit() && !F->isDeleted() && !F->isDefaulted() && !F->isPureVirtual()) {
      const FunctionDecl *Def = nullptr;
      bool has = F->isDefined(Def);
      if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isImplicit() || isa<ClassTemplateSpecializationDecl>(M->getParent())) has = has || isa<ClassTemplateSpecializationDecl>(M->getParent());
      if (!has && F->isExternC()) has = true;
      if (auto *FT = F->getDescribedFunctionTemplate()) for (auto *Sp : FT->specializations()) if (Sp->getTemplateSpecializationKind() == TSK_ExplicitSpecialization) has = true;
      if (!has && !F->getBuiltinID()) {
        std::string N = F->getQualifiedNameAsString();
        if (Seen.insert(N + std::to_string(line(F->getLocation()))).second) {
          json::Object O{{"name", N}, {"file", Fl}, {"line", (int64_t)line(F->getLocation())}, {"type", F->getType().getAsString()}};
          // a private member that nothing calls cannot be missed by any program
          if (F->getAccess() == AS_private) Private.emplace_back(F->getCanonicalDecl(), std::move(O));
          else Undef.push_back(std::move(O));
        }
      }
    }
    if (F->doesThisDeclarationHaveABody() && !F->isDependentContext()) {
      Fn A(Ctx, F);
      A.run();
      json::Array Vi; for (auto &s : A.Viol) Vi.push_back(s);
      Fns.push_back(json::Object{{"name", F->getQualifiedNameAsString()}, {"file", Fl}, {"line", (int64_t)line(F->getLocation())}, {"uses", (int64_t)A.Uses}, {"growths", (int64_t)A.Growths}, {"violations", std::move(Vi)}});
    }
    return true;
  }
};
struct Con : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    V v(C); v.TraverseDecl(C.getTranslationUnitDecl());
    for (auto &[F, O] : v.Private) if (v.Used.count(F)) v.Undef.push_back(std::move(O));
    llvm::outs() << json::Value(json::Object{{"functions", std::move(v.Fns)}, {"undefined", std::move(v.Undef)}}) << "\n";
  }
};
struct Act : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Con>(); } };

int main(int argc, char **argv) {
  if (argc < 4) return 2;
  Prefix = argv[1];
  std::vector<std::string> Args{"clang++"}; 
  for (int i = 3; i < argc - 1; ++i) Args.push_back(argv[i]);
  Args.push_back("-fsyntax-only"); Args.push_back(argv[argc - 1]);
  llvm::IntrusiveRefCntPtr<FileManager> FM(new FileManager(FileSystemOptions()));
  tooling::ToolInvocation T(Args, std::make_unique<Act>(), FM.get());
  return T.run() ? 0 : 1;
}
