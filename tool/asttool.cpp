// asttool SOURCE OUT.json REPO -- CLANG-ARGS: facts about the declarations of the
// repository, read off clang's AST (including uninstantiated templates).
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include <fstream>
#include <set>
using namespace clang;
namespace json = llvm::json;

static std::string Repo;
static json::Array Vars, Casts, Funcs, Fields, Asms, InAssert;

struct V : RecursiveASTVisitor<V> {
  ASTContext &C;
  SourceManager &SM;
  std::vector<const FunctionDecl *> Stack;
  std::vector<std::set<std::string>> Mention;
  std::vector<int> Writes;
  V(ASTContext &C) : C(C), SM(C.getSourceManager()) {}
  bool shouldVisitTemplateInstantiations() const { return false; }
  bool shouldVisitImplicitCode() const { return false; }

  std::string file(SourceLocation L) {
    return SM.getFilename(SM.getExpansionLoc(L)).str();
  }
  std::string norm(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto FE = SM.getFileEntryRefForID(SM.getFileID(L));
    if (!FE) return "";
    std::string R = FE->getFileEntry().tryGetRealPathName().str();
    return R.empty() ? FE->getName().str() : R;
  }
  bool mine(SourceLocation L) { return norm(L).compare(0, Repo.size(), Repo) == 0; }
  std::string loc(SourceLocation L) {
    std::string F = norm(L);
    if (F.compare(0, Repo.size(), Repo) == 0) F = F.substr(Repo.size());
    return F + ":" + std::to_string(SM.getExpansionLineNumber(L));
  }
  std::string fn() { return Stack.empty() ? "" : Stack.back()->getQualifiedNameAsString(); }
  void mention(llvm::StringRef N) {
    if (!Mention.empty() && !N.empty()) Mention.back().insert(N.str());
  }
  std::string text(SourceRange R) {
    return Lexer::getSourceText(CharSourceRange::getTokenRange(SM.getExpansionRange(R).getAsRange()),
                                SM, C.getLangOpts()).str();
  }

  bool TraverseDecl(Decl *D) {
    if (!D) return true;
    if (!isa<TranslationUnitDecl>(D) && !isa<NamespaceDecl>(D) && !isa<LinkageSpecDecl>(D) &&
        D->getLocation().isValid() && !mine(D->getLocation()))
      return true;
    const FunctionDecl *F = dyn_cast<FunctionDecl>(D);
    if (auto *T = dyn_cast<FunctionTemplateDecl>(D)) F = nullptr, (void)T;
    bool body = F && F->isThisDeclarationADefinition();
    if (body) {
      Stack.push_back(F);
      Mention.emplace_back();
      Writes.push_back(0);
      // member initialisers mention constructors of their types
      if (auto *CD = dyn_cast<CXXConstructorDecl>(F))
        for (auto *I : CD->inits())
          if (I->getMember()) mentionType(I->getMember()->getType());
    }
    bool r = RecursiveASTVisitor<V>::TraverseDecl(D);
    if (body) {
      json::Array A;
      for (auto &m : Mention.back()) A.push_back(m);
      std::string cls;
      if (auto *M = dyn_cast<CXXMethodDecl>(F)) cls = M->getParent()->getNameAsString();
      Funcs.push_back(json::Object{{"name", F->getNameAsString()}, {"qual", F->getQualifiedNameAsString()},
                                   {"class", cls}, {"loc", loc(F->getLocation())},
                                   {"const", !isa<CXXMethodDecl>(F) || cast<CXXMethodDecl>(F)->isStatic() || cast<CXXMethodDecl>(F)->isConst()},
                                   {"virtual", isa<CXXMethodDecl>(F) && cast<CXXMethodDecl>(F)->isVirtual()},
                                   {"writes", Writes.back()}, {"mentions", std::move(A)}});
      Stack.pop_back();
      Mention.pop_back();
      Writes.pop_back();
    }
    return r;
  }
  void mentionType(QualType T) {
    T = T.getNonReferenceType();
    while (!T.isNull() && T->isPointerType()) T = T->getPointeeType();
    if (T.isNull()) return;
    if (auto *R = T->getAsCXXRecordDecl()) mention(R->getName());
    if (auto *TS = T->getAs<TemplateSpecializationType>())
      if (auto *TD = TS->getTemplateName().getAsTemplateDecl()) mention(TD->getName());
    if (auto *TD = T->getAs<TypedefType>()) mention(TD->getDecl()->getName());
  }
  bool VisitTypeLoc(TypeLoc TL) { mentionType(TL.getType()); return true; }
  bool VisitDeclRefExpr(DeclRefExpr *E) {
    mention(E->getDecl()->getDeclName().isIdentifier() ? E->getDecl()->getName() : "");
    return true;
  }
  bool VisitMemberExpr(MemberExpr *E) {
    auto *D = E->getMemberDecl();
    mention(D->getDeclName().isIdentifier() ? D->getName() : "");
    return true;
  }
  bool VisitCXXDependentScopeMemberExpr(CXXDependentScopeMemberExpr *E) {
    if (E->getMember().isIdentifier()) mention(E->getMember().getAsIdentifierInfo()->getName());
    return true;
  }
  bool VisitOverloadExpr(OverloadExpr *E) {
    if (E->getName().isIdentifier()) mention(E->getName().getAsIdentifierInfo()->getName());
    return true;
  }
  bool VisitDependentScopeDeclRefExpr(DependentScopeDeclRefExpr *E) {
    if (E->getDeclName().isIdentifier()) mention(E->getDeclName().getAsIdentifierInfo()->getName());
    return true;
  }
  bool VisitCXXConstructExpr(CXXConstructExpr *E) { mentionType(E->getType()); return true; }

  bool hasMutable(QualType T) {
    if (auto *R = T->getAsCXXRecordDecl()) {
      if (!R->hasDefinition()) return false;
      if (R->getDefinition()->hasMutableFields()) return true;
    }
    return false;
  }
  bool VisitVarDecl(VarDecl *D) {
    if (!D->hasGlobalStorage()) return true;
    if (isa<ParmVarDecl>(D)) return true;
    QualType T = D->getType();
    QualType B = T;
    bool isref = B->isReferenceType();
    if (isref) B = B->getPointeeType();
    QualType E = B;
    while (auto *A = C.getAsArrayType(E)) E = A->getElementType();
    bool konst = isref ? true : (E.isConstQualified() || D->isConstexpr());
    // what can be reached through it
    bool reach = false;
    QualType P = E;
    if (isref) reach = !E.isConstQualified();
    while (P->isPointerType()) {
      P = P->getPointeeType();
      if (!P.isConstQualified() && !P->isFunctionType()) reach = true;
    }
    Vars.push_back(json::Object{
        {"name", D->getQualifiedNameAsString()}, {"type", T.getAsString()}, {"loc", loc(D->getLocation())},
        {"const", konst}, {"reach", reach}, {"mutable", hasMutable(E)},
        {"tls", D->getTLSKind() != VarDecl::TLS_None}, {"fn", fn()},
        {"fname", Stack.empty() ? "" : Stack.back()->getNameAsString()},
        {"decl", D->isThisDeclarationADefinition() == VarDecl::DeclarationOnly},
        {"dependent", T->isDependentType()}, {"static_local", D->isStaticLocal()}});
    return true;
  }
  bool VisitFieldDecl(FieldDecl *D) {
    if (D->isMutable())
      Fields.push_back(json::Object{{"name", D->getQualifiedNameAsString()}, {"type", D->getType().getAsString()},
                                    {"loc", loc(D->getLocation())}});
    return true;
  }
  static bool dropsConst(QualType From, QualType To) {
    // peel pointers in parallel
    int n = 0;
    while (!From.isNull() && !To.isNull() && From->isPointerType() && To->isPointerType()) {
      From = From->getPointeeType();
      To = To->getPointeeType();
      n++;
      if (From.isConstQualified() && !To.isConstQualified()) return true;
    }
    return false;
  }
  std::string parentCall(const Expr *E) {
    const Stmt *S = E;
    for (int k = 0; k < 8; k++) {
      auto Ps = C.getParents(*S);
      if (Ps.empty()) return "";
      const Stmt *N = Ps[0].get<Stmt>();
      if (!N) return "";
      if (auto *CE = dyn_cast<CallExpr>(N)) {
        if (auto *FD = CE->getDirectCallee()) return FD->getNameAsString();
        return text(CE->getCallee()->getSourceRange());
      }
      if (!isa<Expr>(N) || isa<BinaryOperator>(N) || isa<DeclRefExpr>(N)) return "";
      S = N;
    }
    return "";
  }
  bool VisitExplicitCastExpr(ExplicitCastExpr *E) {
    QualType To = E->getTypeAsWritten();
    const Expr *S = E->getSubExprAsWritten();
    QualType From = S->getType();
    std::string kind;
    bool drop = false, unk = false;
    if (isa<CXXConstCastExpr>(E)) {
      kind = "const_cast";
      QualType f = From, t = To.getNonReferenceType();
      if (To->isReferenceType()) drop = f.isConstQualified() && !t.isConstQualified();
      else drop = dropsConst(f, t);
      if (f->isDependentType() || t->isDependentType()) {
        // adding const is fine, anything else is treated as dropping it
        QualType p = t;
        if (p->isPointerType()) p = p->getPointeeType();
        unk = !p.isConstQualified();
      }
    } else if (To->isReferenceType()) {
      kind = "ref cast";
      QualType t = To.getNonReferenceType();
      drop = From.isConstQualified() && !t.isConstQualified() && S->isLValue() && !isa<CXXStaticCastExpr>(E);
    } else {
      kind = E->getStmtClassName();
      QualType f = From;
      if (f->isArrayType()) f = C.getArrayDecayedType(f);
      drop = dropsConst(f, To);
      if (To->isPointerType() && f->isIntegerType()) kind = "int->ptr", unk = true;
      if (To->isIntegerType() && f->isPointerType()) {
        kind = "ptr->int";
        unk = f->getPointeeType().isConstQualified();
      }
      if (To->isIntegerType() && f->isDependentType() && isa<CXXReinterpretCastExpr>(E)) {
        kind = "ptr->int";
        unk = true;
      }
      if (To->isPointerType() && f->isDependentType()) {
        kind = "dependent";
        QualType p = To->getPointeeType();
        if (!p.isConstQualified() && !isa<CXXStaticCastExpr>(E) && !isa<CXXReinterpretCastExpr>(E)) unk = true;
      }
    }
    if (drop || unk)
      Casts.push_back(json::Object{{"kind", kind}, {"drop", drop}, {"from", From.getAsString()}, {"to", To.getAsString()},
                                   {"loc", loc(E->getExprLoc())}, {"fn", fn()}, {"call", parentCall(E)},
                                   {"text", text(E->getSourceRange()).substr(0, 160)}});
    return true;
  }
  bool VisitGCCAsmStmt(GCCAsmStmt *S) {
    json::Array Ops;
    for (unsigned k = 0; k < S->getNumOutputs(); k++)
      Ops.push_back(json::Object{{"c", S->getOutputConstraint(k)}, {"name", S->getOutputName(k)},
                                 {"type", S->getOutputExpr(k)->getType().getAsString()},
                                 {"constptr", cptr(S->getOutputExpr(k)->getType())}});
    for (unsigned k = 0; k < S->getNumInputs(); k++)
      Ops.push_back(json::Object{{"c", S->getInputConstraint(k)}, {"name", S->getInputName(k)},
                                 {"type", S->getInputExpr(k)->getType().getAsString()},
                                 {"constptr", cptr(S->getInputExpr(k)->getType())}});
    Asms.push_back(json::Object{{"loc", loc(S->getAsmLoc())}, {"fn", fn()}, {"outs", (int)S->getNumOutputs()},
                                {"tmpl", S->generateAsmString(C)},
                                {"ops", std::move(Ops)}});
    return true;
  }
  // ---- expressions inside assert(...) ----
  bool inAssert(SourceLocation L) {
    while (L.isMacroID()) {
      if (Lexer::getImmediateMacroName(L, SM, C.getLangOpts()) == "assert") return true;
      if (SM.isMacroArgExpansion(L)) {
        SourceLocation E = SM.getImmediateExpansionRange(L).getBegin();
        if (Lexer::getImmediateMacroName(L, SM, C.getLangOpts()) == "assert") return true;
        L = E;
      } else
        L = SM.getImmediateMacroCallerLoc(L);
    }
    return false;
  }
  void eff(const Expr *E, const char *Kind, const std::string &Callee, bool Pure, bool Known) {
    if (!inAssert(E->getExprLoc()) && !inAssert(E->getBeginLoc())) return;
    if (Callee == "__assert_fail" || Callee == "__assert") return;
    InAssert.push_back(json::Object{{"kind", Kind}, {"callee", Callee}, {"pure", Pure}, {"known", Known},
                                    {"loc", loc(E->getExprLoc())}, {"fn", fn()},
                                    {"text", Lexer::getSourceText(CharSourceRange::getTokenRange(
                                         SM.getSpellingLoc(E->getBeginLoc()), SM.getSpellingLoc(E->getEndLoc())),
                                         SM, C.getLangOpts()).str()}});
  }
  // an assignment to something other than a local variable of the function
  void wr(const Expr *L) {
    if (Writes.empty()) return;
    L = L->IgnoreParenImpCasts();
    while (auto *M = dyn_cast<MemberExpr>(L)) {
      if (M->isArrow()) break;
      L = M->getBase()->IgnoreParenImpCasts();
    }
    if (auto *A = dyn_cast<ArraySubscriptExpr>(L)) {
      auto *B = A->getBase()->IgnoreParenImpCasts();
      if (B->getType()->isArrayType()) L = B;
    }
    if (auto *D = dyn_cast<DeclRefExpr>(L))
      if (auto *V = dyn_cast<VarDecl>(D->getDecl()))
        if (V->hasLocalStorage() && !V->getType()->isReferenceType()) return;
    Writes.back()++;
  }
  bool VisitBinaryOperator(BinaryOperator *E) {
    if (E->isAssignmentOp()) wr(E->getLHS());
    if (E->isAssignmentOp()) eff(E, "assignment", "", false, true);
    return true;
  }
  bool VisitUnaryOperator(UnaryOperator *E) {
    if (E->isIncrementDecrementOp()) wr(E->getSubExpr());
    if (E->isIncrementDecrementOp()) eff(E, "increment", "", false, true);
    return true;
  }
  bool VisitCXXNewExpr(CXXNewExpr *E) { eff(E, "new", "", false, true); return true; }
  bool VisitCXXDeleteExpr(CXXDeleteExpr *E) { if (!Writes.empty()) Writes.back()++; eff(E, "delete", "", false, true); return true; }
  bool VisitCallExpr(CallExpr *E) {
    std::string N;
    bool pure = true, known = false;
    if (auto *FD = dyn_cast_or_null<FunctionDecl>(E->getCalleeDecl())) {
      known = true;
      N = FD->getNameAsString();
      if (auto *M = dyn_cast<CXXMethodDecl>(FD))
        if (!M->isStatic() && !M->isConst()) pure = false;
      for (auto *P : FD->parameters()) {
        QualType T = P->getType();
        if ((T->isPointerType() || T->isReferenceType()) && !T->getPointeeType().isConstQualified() &&
            !T->getPointeeType()->isFunctionType() && !T->getPointeeType()->isDependentType())
          pure = false;
      }
      if (FD->hasAttr<PureAttr>() || FD->hasAttr<ConstAttr>()) pure = true;
    } else if (auto *M = dyn_cast<CXXDependentScopeMemberExpr>(E->getCallee()->IgnoreParenImpCasts())) {
      if (M->getMember().isIdentifier()) N = M->getMember().getAsIdentifierInfo()->getName().str();
    } else if (auto *O = dyn_cast<OverloadExpr>(E->getCallee()->IgnoreParenImpCasts())) {
      if (O->getName().isIdentifier()) N = O->getName().getAsIdentifierInfo()->getName().str();
    }
    eff(E, "call", N, pure, known);
    return true;
  }
  bool cptr(QualType T) { return T->isPointerType() && T->getPointeeType().isConstQualified(); }
};

struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    V v(C);
    v.TraverseDecl(C.getTranslationUnitDecl());
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef) override {
    return std::make_unique<Cons>();
  }
};

int main(int argc, const char **argv) {
  std::string Src = argv[1], Out = argv[2];
  Repo = argv[3];
  if (Repo.back() != '/') Repo += '/';
  std::vector<std::string> Args;
  for (int k = 5; k < argc; k++) Args.push_back(argv[k]);
  tooling::FixedCompilationDatabase DB(".", Args);
  tooling::ClangTool T(DB, {Src});
  int rc = T.run(tooling::newFrontendActionFactory<Act>().get());
  json::Object O{{"vars", std::move(Vars)}, {"casts", std::move(Casts)}, {"funcs", std::move(Funcs)},
                 {"mutable_fields", std::move(Fields)}, {"asms", std::move(Asms)}, {"inassert", std::move(InAssert)}, {"rc", rc}};
  std::error_code EC;
  llvm::raw_fd_ostream OS(Out, EC);
  OS << json::Value(std::move(O)) << "\n";
  return rc;
}
