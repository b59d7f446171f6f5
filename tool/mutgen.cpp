// Lists small source changes of a translation unit: wrong ones (kind mut) and ones that keep the meaning (kind same).
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
using namespace clang;
using namespace llvm::json;
namespace {
std::string Root;
struct V : RecursiveASTVisitor<V> {
  ASTContext &C; SourceManager &SM; const LangOptions &LO;
  Array Out;
  const FunctionDecl *Fn = nullptr;
  explicit V(ASTContext &C) : C(C), SM(C.getSourceManager()), LO(C.getLangOpts()) {}
  bool shouldVisitTemplateInstantiations() const { return false; }
  bool shouldVisitImplicitCode() const { return false; }
  bool range(SourceRange R, std::string &File, unsigned &O, unsigned &L) {
    if (R.isInvalid() || R.getBegin().isMacroID() || R.getEnd().isMacroID()) return false;
    CharSourceRange CR = Lexer::getAsCharRange(CharSourceRange::getTokenRange(R), SM, LO);
    auto B = SM.getDecomposedLoc(CR.getBegin()), E = SM.getDecomposedLoc(CR.getEnd());
    if (B.first != E.first || E.second < B.second) return false;
    auto F = SM.getFileEntryRefForID(B.first);
    if (!F) return false;
    File = F->getName().str();
    if (File.rfind(Root, 0) != 0) return false;
    O = B.second; L = E.second - B.second;
    return true;
  }
  std::string text(SourceRange R) {
    return Lexer::getSourceText(CharSourceRange::getTokenRange(R), SM, LO).str();
  }
  struct E { SourceRange R; std::string T; bool Before = false; };
  void emit(const char *Kind, const char *Op, std::vector<E> Es) {
    Array A; std::string F0;
    unsigned Line = 0;
    for (auto &X : Es) {
      std::string F; unsigned O, L;
      if (!range(X.R, F, O, L)) return;
      if (F0.empty()) { F0 = F; Line = SM.getSpellingLineNumber(X.R.getBegin()); }
      if (F != F0) return;
      if (X.Before) L = 0;
      A.push_back(Array{(int64_t)O, (int64_t)L, X.T});
    }
    Out.push_back(Object{{"kind", Kind}, {"op", Op}, {"file", F0}, {"line", (int64_t)Line}, {"fn", Fn ? Fn->getQualifiedNameAsString() : std::string()}, {"edits", std::move(A)}});
  }
  bool inAssert(SourceRange R) { return R.getBegin().isMacroID(); }
  bool TraverseFunctionDecl(FunctionDecl *D) { auto *S = Fn; if (!D->isImplicit()) Fn = D; bool R = RecursiveASTVisitor::TraverseFunctionDecl(D); Fn = S; return R; }
  bool TraverseCXXMethodDecl(CXXMethodDecl *D) { auto *S = Fn; if (!D->isImplicit()) Fn = D; bool R = RecursiveASTVisitor::TraverseCXXMethodDecl(D); Fn = S; return R; }
  bool TraverseCXXConstructorDecl(CXXConstructorDecl *D) { auto *S = Fn; if (!D->isImplicit()) Fn = D; bool R = RecursiveASTVisitor::TraverseCXXConstructorDecl(D); Fn = S; return R; }
  bool arithT(QualType T) { return T->isArithmeticType() && !T->isBooleanType(); }

  bool VisitBinaryOperator(BinaryOperator *B) {
    auto L = text(B->getLHS()->getSourceRange()), R = text(B->getRHS()->getSourceRange());
    auto rep = [&](const char *Op, const std::string &N) { emit("mut", Op, {{SourceRange(B->getOperatorLoc()), N}}); };
    switch (B->getOpcode()) {
    case BO_LT: rep("lt_le", "<="); rep("lt_gt", ">"); emit("same", "flip_cmp", {{B->getSourceRange(), "(" + R + " > " + L + ")"}}); break;
    case BO_GT: rep("gt_ge", ">="); rep("gt_lt", "<"); emit("same", "flip_cmp", {{B->getSourceRange(), "(" + R + " < " + L + ")"}}); break;
    case BO_LE: rep("le_lt", "<"); rep("le_ge", ">="); emit("same", "flip_cmp", {{B->getSourceRange(), "(" + R + " >= " + L + ")"}}); break;
    case BO_GE: rep("ge_gt", ">"); rep("ge_le", "<="); emit("same", "flip_cmp", {{B->getSourceRange(), "(" + R + " <= " + L + ")"}}); break;
    case BO_EQ: rep("eq_ne", "!="); emit("same", "flip_cmp", {{B->getSourceRange(), "(" + R + " == " + L + ")"}}); emit("same", "not_ne", {{B->getSourceRange(), "!(" + L + " != " + R + ")"}}); break;
    case BO_NE: rep("ne_eq", "=="); emit("same", "flip_cmp", {{B->getSourceRange(), "(" + R + " != " + L + ")"}}); break;
    case BO_Add: rep("add_sub", "-"); if (arithT(B->getLHS()->getType()) && arithT(B->getRHS()->getType())) emit("same", "commute", {{B->getSourceRange(), "(" + R + " + " + L + ")"}}); break;
    case BO_Sub: rep("sub_add", "+"); emit("mut", "sub_swap", {{B->getSourceRange(), "((" + R + ") - (" + L + "))"}}); break;
    case BO_Mul: rep("mul_div", "/"); emit("mut", "mul_lhs", {{B->getSourceRange(), "(" + L + ")"}}); emit("mut", "mul_rhs", {{B->getSourceRange(), "(" + R + ")"}}); if (arithT(B->getLHS()->getType()) && arithT(B->getRHS()->getType())) emit("same", "commute", {{B->getSourceRange(), "((" + R + ") * (" + L + "))"}}); break;
    case BO_Div: rep("div_mul", "*"); emit("mut", "div_lhs", {{B->getSourceRange(), "(" + L + ")"}}); break;
    case BO_LAnd: rep("and_or", "||"); emit("mut", "and_lhs", {{B->getSourceRange(), "(" + L + ")"}}); emit("mut", "and_rhs", {{B->getSourceRange(), "(" + R + ")"}}); emit("same", "and_cond", {{B->getSourceRange(), "((" + L + ") ? bool(" + R + ") : false)"}}); break;
    case BO_LOr: rep("or_and", "&&"); emit("mut", "or_lhs", {{B->getSourceRange(), "(" + L + ")"}}); emit("mut", "or_rhs", {{B->getSourceRange(), "(" + R + ")"}}); emit("same", "or_cond", {{B->getSourceRange(), "((" + L + ") ? true : bool(" + R + "))"}}); break;
    default: break;
    }
    return true;
  }
  bool VisitCompoundAssignOperator(CompoundAssignOperator *B) {
    auto L = text(B->getLHS()->getSourceRange()), R = text(B->getRHS()->getSourceRange());
    const char *N = nullptr, *O = nullptr;
    switch (B->getOpcode()) { case BO_AddAssign: N = "-="; O = "+"; break; case BO_SubAssign: N = "+="; O = "-"; break; case BO_MulAssign: N = "/="; O = "*"; break; case BO_DivAssign: N = "*="; O = "/"; break; default: return true; }
    emit("mut", "compound", {{SourceRange(B->getOperatorLoc()), N}});
    emit("mut", "compound_assign", {{SourceRange(B->getOperatorLoc()), "="}});
    if (!B->getLHS()->HasSideEffects(C)) emit("same", "compound_plain", {{B->getSourceRange(), L + " = " + L + " " + O + " (" + R + ")"}});
    return true;
  }
  bool VisitUnaryOperator(UnaryOperator *U) {
    auto S = text(U->getSubExpr()->getSourceRange());
    switch (U->getOpcode()) {
    case UO_Minus: emit("mut", "minus", {{U->getSourceRange(), "(" + S + ")"}}); break;
    case UO_LNot: emit("mut", "not", {{U->getSourceRange(), "(" + S + ")"}}); break;
    case UO_PostInc: case UO_PreInc: break;
    default: break;
    }
    return true;
  }
  bool VisitIntegerLiteral(IntegerLiteral *I) {
    auto T = text(I->getSourceRange());
    if (T.empty()) return true;
    emit("mut", "int_plus", {{I->getSourceRange(), "(" + T + " + 1)"}});
    if (I->getValue() != 0) emit("mut", "int_minus", {{I->getSourceRange(), "(" + T + " - 1)"}});
    return true;
  }
  bool VisitFloatingLiteral(FloatingLiteral *I) {
    auto T = text(I->getSourceRange());
    if (T.empty()) return true;
    emit("mut", "real", {{I->getSourceRange(), "(" + T + " * 2 + 1)"}});
    return true;
  }
  bool VisitCXXBoolLiteralExpr(CXXBoolLiteralExpr *B) { emit("mut", "bool", {{B->getSourceRange(), B->getValue() ? "false" : "true"}}); return true; }
  bool VisitStringLiteral(StringLiteral *S) {
    if (S->getLength() && S->getLength() < 20 && S->isOrdinary()) emit("mut", "string", {{S->getSourceRange(), "\"" + S->getString().str().substr(1) + "\""}});
    return true;
  }
  bool VisitDeclRefExpr(DeclRefExpr *D) {
    if (auto *E = dyn_cast<EnumConstantDecl>(D->getDecl())) {
      auto *ED = cast<EnumDecl>(E->getDeclContext());
      int n = 0;
      for (auto *X : ED->enumerators()) if (X != E && n++ < 1) {
        emit("mut", "enum", {{SourceRange(D->getLocation()), X->getNameAsString()}});
      }
      return true;
    }
    auto *VD = dyn_cast<VarDecl>(D->getDecl());
    if (VD && Fn && isa<ParmVarDecl>(VD)) {
      for (auto *P : Fn->parameters()) if (P != VD && !P->getName().empty() && C.hasSameUnqualifiedType(P->getType().getNonReferenceType(), VD->getType().getNonReferenceType()))
        emit("mut", "param", {{SourceRange(D->getLocation()), P->getNameAsString()}});
    }
    return true;
  }
  bool VisitMemberExpr(MemberExpr *M) {
    if (auto *F = dyn_cast<FieldDecl>(M->getMemberDecl())) {
      int n = 0;
      for (auto *X : F->getParent()->fields()) if (X != F && n < 2 && C.hasSameUnqualifiedType(X->getType(), F->getType())) { n++; emit("mut", "field", {{SourceRange(M->getMemberLoc()), X->getNameAsString()}}); }
    } else if (auto *MD = dyn_cast<CXXMethodDecl>(M->getMemberDecl())) {
      if (MD->getIdentifier()) { int n = 0;
        for (auto *X : MD->getParent()->methods()) if (X->getIdentifier() && X->getNameAsString() != MD->getNameAsString() && n < 1 && C.hasSameType(X->getType(), MD->getType())) { std::string F; unsigned O, L; if (range(X->getSourceRange(), F, O, L)) { n++; emit("mut", "method", {{SourceRange(M->getMemberLoc()), X->getNameAsString()}}); } } }
    }
    return true;
  }
  bool VisitCallExpr(CallExpr *K) {
    if (isa<CXXOperatorCallExpr>(K)) {
      auto *O = cast<CXXOperatorCallExpr>(K);
      if (O->getNumArgs() == 2) {
        auto L = text(O->getArg(0)->getSourceRange()), R = text(O->getArg(1)->getSourceRange());
        auto rep = [&](const char *N) { emit("mut", "opcall", {{SourceRange(O->getOperatorLoc()), N}}); };
        switch (O->getOperator()) { case OO_Plus: rep("-"); break; case OO_Minus: rep("+"); break; case OO_EqualEqual: rep("!="); break; case OO_ExclaimEqual: rep("=="); break; case OO_Less: rep(">="); break; case OO_PlusEqual: rep("="); break; default: break; }
        if (O->getOperator() == OO_Minus) emit("mut", "op_swap", {{O->getSourceRange(), "((" + R + ") - (" + L + "))"}});
      }
      return true;
    }
    for (unsigned i = 0; i + 1 < K->getNumArgs(); i++) {
      auto *A = K->getArg(i), *B = K->getArg(i + 1);
      if (isa<CXXDefaultArgExpr>(A) || isa<CXXDefaultArgExpr>(B)) continue;
      if (C.hasSameUnqualifiedType(A->getType(), B->getType())) {
        auto a = text(A->getSourceRange()), b = text(B->getSourceRange());
        if (a != b) emit("mut", "arg_swap", {{A->getSourceRange(), b}, {B->getSourceRange(), a}});
      }
    }
    return true;
  }
  bool VisitCXXConstructExpr(CXXConstructExpr *K) {
    for (unsigned i = 0; i + 1 < K->getNumArgs(); i++) {
      auto *A = K->getArg(i), *B = K->getArg(i + 1);
      if (isa<CXXDefaultArgExpr>(A) || isa<CXXDefaultArgExpr>(B)) continue;
      if (C.hasSameUnqualifiedType(A->getType(), B->getType())) {
        auto a = text(A->getSourceRange()), b = text(B->getSourceRange());
        if (a != b) emit("mut", "arg_swap", {{A->getSourceRange(), b}, {B->getSourceRange(), a}});
      }
    }
    return true;
  }
  bool hasJump(Stmt *S) {
    if (!S) return false;
    if (isa<LambdaExpr>(S)) return false;
    if (isa<ReturnStmt>(S) || isa<BreakStmt>(S) || isa<ContinueStmt>(S)) return true;
    for (auto *X : S->children()) if (hasJump(X)) return true;
    return false;
  }
  bool hasDecl(Stmt *S) {
    if (auto *K = dyn_cast<CompoundStmt>(S)) { for (auto *X : K->body()) if (isa<DeclStmt>(X)) return true; }
    return false;
  }
  bool VisitCompoundStmt(CompoundStmt *K) {
    for (auto *S : K->body()) {
      if (auto *E = dyn_cast<Expr>(S)) {
        if (E->getBeginLoc().isMacroID()) continue;
        std::string F; unsigned O, L;
        emit("mut", "delete", {{E->getSourceRange(), "(void)0"}});
      }
      if (isa<IfStmt>(S) || isa<ForStmt>(S) || isa<CXXForRangeStmt>(S) || isa<WhileStmt>(S)) emit("mut", "delete_block", {{S->getSourceRange(), "{}"}});
      // named lambda arguments
      lambdas(S);
    }
    return true;
  }
  struct FindL : RecursiveASTVisitor<FindL> {
    std::vector<LambdaExpr *> Ls;
    bool TraverseLambdaExpr(LambdaExpr *L) { Ls.push_back(L); return true; }
    bool TraverseCompoundStmt(CompoundStmt *) { return true; }
  };
  int LN = 0;
  void lambdas(Stmt *S) {
    if (!(isa<DeclStmt>(S) || isa<Expr>(S) || isa<ReturnStmt>(S))) return;
    if (auto *D = dyn_cast<DeclStmt>(S)) { if (!D->isSingleDecl()) return; }
    FindL X; X.TraverseStmt(S);
    for (auto *L : X.Ls) {
      auto Ps = C.getParents(*L);
      std::string N = "named_lambda_" + std::to_string(LN++);
      emit("same", "named_lambda", {{L->getSourceRange(), N}, {S->getSourceRange(), "const auto " + N + " = " + text(L->getSourceRange()) + ";\n  ", true}});
    }
  }
  bool VisitIfStmt(IfStmt *I) {
    if (I->isConstexpr() || I->getInit() || I->getConditionVariable()) return true;
    auto Cnd = text(I->getCond()->getSourceRange());
    if (Cnd.empty() || I->getCond()->getBeginLoc().isMacroID()) return true;
    emit("mut", "if_not", {{I->getCond()->getSourceRange(), "!(" + Cnd + ")"}});
    emit("mut", "if_false", {{I->getCond()->getSourceRange(), "(" + Cnd + ") && false"}});
    emit("mut", "if_true", {{I->getCond()->getSourceRange(), "(" + Cnd + ") || true"}});
    if (I->getElse()) {
      auto A = text(I->getThen()->getSourceRange()), B = text(I->getElse()->getSourceRange());
      if (isa<CompoundStmt>(I->getThen())) {
        if (!isa<CompoundStmt>(I->getElse())) B = "{ " + B + (isa<Expr>(I->getElse()) || isa<ReturnStmt>(I->getElse()) ? ";" : "") + " }";
        emit("same", "if_swap", {{I->getSourceRange(), "if (!(" + Cnd + ")) " + B + " else " + A}});
      }
    }
    emit("same", "if_named", {{I->getCond()->getSourceRange(), "[&]() -> bool { return bool(" + Cnd + "); }()"}});
    return true;
  }
  bool VisitConditionalOperator(ConditionalOperator *Q) {
    auto Cnd = text(Q->getCond()->getSourceRange()), A = text(Q->getTrueExpr()->getSourceRange()), B = text(Q->getFalseExpr()->getSourceRange());
    emit("mut", "cond_swap", {{Q->getSourceRange(), "((" + Cnd + ") ? (" + B + ") : (" + A + "))"}});
    emit("same", "cond_not", {{Q->getSourceRange(), "(!(" + Cnd + ") ? " + B + " : " + A + ")"}});
    return true;
  }
  bool VisitReturnStmt(ReturnStmt *R) {
    auto *E = R->getRetValue();
    if (!E || !Fn) return true;
    auto T = text(E->getSourceRange());
    if (T.empty() || E->getBeginLoc().isMacroID()) return true;
    auto Ps = C.getParents(*R);
    bool InBlock = !Ps.empty() && Ps[0].get<CompoundStmt>();
    auto *EI = E->IgnoreImplicit();
    if (InBlock) {
      QualType RT = E->getType();
      if (!E->isLValue() && !isa<InitListExpr>(EI) && T[0] != '{') emit("same", "return_named", {{R->getSourceRange(), "{ auto returned_value = " + T + "; return returned_value; }"}});
      if (auto *Q = dyn_cast<ConditionalOperator>(EI)) {
        auto Cnd = text(Q->getCond()->getSourceRange()), A = text(Q->getTrueExpr()->getSourceRange()), B = text(Q->getFalseExpr()->getSourceRange());
        emit("same", "return_if", {{R->getSourceRange(), "if (" + Cnd + ") { return " + A + "; } return " + B}});
      }
    }
    return true;
  }
  bool VisitCXXForRangeStmt(CXXForRangeStmt *F) {
    auto *LV = F->getLoopVariable();
    auto D = text(LV->getSourceRange());
    std::string Rg = text(F->getRangeInit()->getSourceRange()), B = text(F->getBody()->getSourceRange());
    if (!isa<CompoundStmt>(F->getBody())) return true;
    // declaration text without initialiser
    std::string Decl;
    if (auto *DD = dyn_cast<DecompositionDecl>(LV)) {
      Decl = text(SourceRange(LV->getBeginLoc(), LV->getEndLoc()));
      auto p = Decl.find(']'); if (p == std::string::npos) return true; Decl = Decl.substr(0, p + 1);
    } else {
      Decl = text(SourceRange(LV->getBeginLoc(), LV->getLocation()));
    }
    bool Simple = F->getRangeInit()->isLValue();
    if (Simple) {
      emit("same", "range_iter", {{F->getSourceRange(), "for (auto range_it = std::begin(" + Rg + "); range_it != std::end(" + Rg + "); ++range_it) { " + Decl + " = *range_it; " + B + " }"}});
      if (!hasJump(F->getBody()) && !isa<DecompositionDecl>(LV)) {
        emit("same", "range_foreach", {{F->getSourceRange(), "std::for_each(std::begin(" + Rg + "), std::end(" + Rg + "), [&](" + Decl + ") " + B + ");"}});
      }
      if (!hasJump(F->getBody()) && isa<DecompositionDecl>(LV)) {
        emit("same", "range_foreach", {{F->getSourceRange(), "std::for_each(std::begin(" + Rg + "), std::end(" + Rg + "), [&](auto& element_) { " + Decl + " = element_; " + B + " });"}});
      }
    }
    emit("mut", "loop_once", {{SourceRange(cast<CompoundStmt>(F->getBody())->getRBracLoc()), "break; }"}});
    return true;
  }
  bool VisitForStmt(ForStmt *F) {
    if (!F->getInit() || !F->getCond() || !F->getInc() || !isa<CompoundStmt>(F->getBody())) return true;
    auto I = text(F->getInit()->getSourceRange()), Cn = text(F->getCond()->getSourceRange()), N = text(F->getInc()->getSourceRange()), B = text(F->getBody()->getSourceRange());
    if (!I.empty() && I.back() != ';') I += ";";
    struct FC : RecursiveASTVisitor<FC> { bool H = false; bool VisitContinueStmt(ContinueStmt *) { H = true; return true; } } X;
    X.TraverseStmt(F->getBody());
    if (!X.H) emit("same", "for_while", {{F->getSourceRange(), "{ " + I + " while (" + Cn + ") { " + B + " " + N + "; } }"}});
    emit("mut", "loop_once", {{SourceRange(cast<CompoundStmt>(F->getBody())->getRBracLoc()), "break; }"}});
    return true;
  }
  bool VisitFunctionDecl(FunctionDecl *D) {
    if (!D->isThisDeclarationADefinition() || D->isImplicit() || !D->getBody() || D->getTemplatedKind() != FunctionDecl::TK_NonTemplate) return true;
    auto *B = dyn_cast<CompoundStmt>(D->getBody());
    if (!B || B->body_empty() || isa<CXXConstructorDecl>(D) || isa<CXXDestructorDecl>(D)) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(D)) if (M->getParent()->isLambda()) return true;
    auto T = text(B->getSourceRange());
    auto RT = D->getReturnType();
    std::string TS = RT.getAsString(PrintingPolicy(LO));
    if (RT->isVoidType()) {
      emit("same", "body_lambda", {{B->getSourceRange(), "{ const auto whole_body = [&]() -> void " + T + "; whole_body(); }"}});
    } else
      emit("same", "body_lambda", {{B->getSourceRange(), "{ const auto whole_body = [&]() -> decltype(auto) " + T + "; return whole_body(); }"}});
    return true;
  }
  bool VisitVarDecl(VarDecl *D) {
    if (!D->isLocalVarDecl() || !D->hasInit() || D->getInitStyle() != VarDecl::CInit) return true;
    return true;
  }
};
struct Con : ASTConsumer {
  void HandleTranslationUnit(ASTContext &Ctx) override {
    V X(Ctx);
    X.TraverseDecl(Ctx.getTranslationUnitDecl());
    llvm::outs() << Value(std::move(X.Out)) << "\n";
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Con>(); }
};
} // namespace
int main(int argc, char **argv) {
  Root = argv[1];
  std::vector<std::string> Src{argv[2]}, Flags;
  for (int I = 4; I < argc; I++) Flags.push_back(argv[I]);
  tooling::FixedCompilationDatabase DB(".", Flags);
  tooling::ClangTool T(DB, Src);
  return T.run(tooling::newFrontendActionFactory<Act>().get());
}
