// Resolved-program extractor: parses one translation unit with clang and dumps
// every function defined below a given source root as a control-flow graph over
// fully resolved expressions (JSON), plus records, enums, variables.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string Root;
static std::string OutPath;

namespace {

class Dumper : public RecursiveASTVisitor<Dumper> {
public:
  ASTContext &Ctx;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const void *, int> Ids;
  Array Functions, Records, Enums, Vars;
  std::set<std::string> SeenFn, SeenRec, SeenVar, SeenEnum;

  explicit Dumper(ASTContext &C)
      : Ctx(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressUnwrittenScope = false;
    PP.TerseOutput = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }

  int id(const void *P) {
    auto It = Ids.find(P);
    if (It != Ids.end()) return It->second;
    int N = (int)Ids.size() + 1;
    Ids[P] = N;
    return N;
  }
  bool inRoot(SourceLocation L) {
    if (L.isInvalid()) return false;
    L = SM.getExpansionLoc(L);
    StringRef F = SM.getFilename(L);
    return F.starts_with(Root);
  }
  std::string loc(SourceLocation L) {
    if (L.isInvalid()) return "";
    L = SM.getExpansionLoc(L);
    StringRef F = SM.getFilename(L);
    if (F.starts_with(Root)) F = F.substr(Root.size());
    while (F.starts_with("/")) F = F.substr(1);
    return F.str() + ":" + std::to_string(SM.getSpellingLineNumber(L)) + ":" +
           std::to_string(SM.getSpellingColumnNumber(L));
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "";
    return T.getCanonicalType().getAsString(PP);
  }
  // name of the record type behind references, pointers
  std::string rec(QualType T) {
    if (T.isNull()) return "";
    T = T.getCanonicalType().getNonReferenceType();
    if (const auto *R = T->getAsCXXRecordDecl()) return recName(R);
    return "";
  }
  std::string recName(const CXXRecordDecl *R) {
    if (R->isLambda()) return "lambda@" + loc(R->getBeginLoc());
    return Ctx.getRecordType(R).getCanonicalType().getUnqualifiedType().getAsString(PP);
  }
  std::string qual(const NamedDecl *D) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    D->printQualifiedName(OS, PP);
    OS.flush();
    // drop inline namespaces
    for (const char *N : {"__cxx11::", "_V2::", "__1::"}) {
      size_t P;
      while ((P = S.find(N)) != std::string::npos) S.erase(P, strlen(N));
    }
    return S;
  }
  std::string key(const FunctionDecl *F) {
    // USR plus template arguments / signature (USRs of lambdas are location based)
    llvm::SmallString<256> Buf;
    std::string K;
    if (const auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->getParent()->isLambda()) {
        K = "lambda@" + loc(M->getParent()->getBeginLoc()) + ":" + M->getNameAsString();
        // lambdas inside templates / generic lambdas: add signature and parent
        K += ty(M->getType());
        const DeclContext *DC = M->getParent()->getDeclContext();
        while (DC && !isa<FunctionDecl>(DC)) DC = DC->getParent();
        if (DC) {
          const auto *PF = cast<FunctionDecl>(DC);
          if (PF->isTemplateInstantiation() || PF->getTemplateSpecializationArgs())
            K += "|" + key(PF);
          else if (const auto *PM = dyn_cast<CXXMethodDecl>(PF))
            if (isa<ClassTemplateSpecializationDecl>(PM->getParent()) || PM->getParent()->isLambda())
              K += "|" + key(PF);
        }
        return K;
      }
    }
    if (!index::generateUSRForDecl(F, Buf)) K = Buf.str().str();
    else K = qual(F);
    if (const auto *Args = F->getTemplateSpecializationArgs()) {
      K += "<";
      for (const auto &A : Args->asArray()) {
        std::string S;
        llvm::raw_string_ostream OS(S);
        A.print(PP, OS, true);
        OS.flush();
        K += S + ",";
      }
      K += ">";
    }
    if (const auto *M = dyn_cast<CXXMethodDecl>(F))
      if (isa<ClassTemplateSpecializationDecl>(M->getParent()))
        K += "@" + recName(M->getParent());
    // internal linkage functions: add file
    if (!F->isExternallyVisible()) K += "#" + loc(F->getLocation());
    return K;
  }

  bool nothrow(const FunctionDecl *F) {
    const auto *FPT = F->getType()->getAs<FunctionProtoType>();
    if (!FPT) return false;
    auto EST = FPT->getExceptionSpecType();
    if (EST == EST_Unevaluated || EST == EST_Uninstantiated || EST == EST_Unparsed) {
      // implicit members: report as unknown = throwing
      return isa<CXXDestructorDecl>(F);
    }
    return FPT->isNothrow();
  }

  // ---- expressions -------------------------------------------------------
  std::map<const Stmt *, int> *StmtIds = nullptr;
  Object *Nodes = nullptr;
  std::vector<const Stmt *> *Pending = nullptr;

  int sid(const Stmt *S) {
    auto It = StmtIds->find(S);
    if (It != StmtIds->end()) return It->second;
    int N = (int)StmtIds->size() + 1;
    (*StmtIds)[S] = N;
    dumpStmt(S, N);
    return N;
  }
  Value op(const Stmt *S) {
    if (!S) return nullptr;
    if (const auto *E = dyn_cast<Expr>(S)) {
      // transparent wrappers
      while (true) {
        if (const auto *P = dyn_cast<ParenExpr>(E)) { E = P->getSubExpr(); continue; }
        if (const auto *P = dyn_cast<ExprWithCleanups>(E)) { E = P->getSubExpr(); continue; }
        if (const auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
        if (const auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
        if (const auto *P = dyn_cast<ConstantExpr>(E)) { E = P->getSubExpr(); continue; }
        if (const auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = P->getReplacement(); continue; }
        if (const auto *P = dyn_cast<CXXDefaultArgExpr>(E)) { E = P->getExpr(); continue; }
        if (const auto *P = dyn_cast<CXXDefaultInitExpr>(E)) { E = P->getExpr(); continue; }
        if (const auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) { E = P->getSubExpr(); continue; }
        break;
      }
      return sid(E);
    }
    return sid(S);
  }
  std::string varKey(const ValueDecl *D) {
    if (const auto *V = dyn_cast<VarDecl>(D)) {
      if (V->hasGlobalStorage()) {
        std::string S = "g:" + qual(V);
        if (V->isStaticLocal()) S += "@" + loc(V->getLocation());
        return S;
      }
    }
    return "v" + std::to_string(id(D->getCanonicalDecl()));
  }

  void dumpStmt(const Stmt *S, int N) {
    Object O;
    O["k"] = S->getStmtClassName();
    O["loc"] = loc(S->getBeginLoc());
    Array Ops;
    auto push = [&](const Stmt *X) { Ops.push_back(op(X)); };
    if (const auto *E = dyn_cast<Expr>(S)) {
      O["t"] = ty(E->getType());
      if (E->isGLValue()) O["lv"] = true;
    }
    if (const auto *E = dyn_cast<DeclRefExpr>(S)) {
      const ValueDecl *D = E->getDecl();
      O["name"] = D->getNameAsString();
      if (const auto *F = dyn_cast<FunctionDecl>(D)) {
        O["fn"] = key(F); O["q"] = qual(F);
      } else if (const auto *C = dyn_cast<EnumConstantDecl>(D)) {
        O["enum"] = qual(C);
        O["val"] = (int64_t)C->getInitVal().extOrTrunc(64).getRawData()[0];
      } else if (const auto *V = dyn_cast<VarDecl>(D)) {
        O["var"] = varKey(V);
        O["vt"] = ty(V->getType());
        if (V->hasGlobalStorage()) { O["glob"] = true; O["q"] = qual(V); noteVar(V); }
        if (isa<ParmVarDecl>(V)) O["param"] = true;
        if (V->getType().getNonReferenceType().isConstQualified() && V->hasInit()) {
          Array Tab;
          if (table(V, Tab)) O["table"] = std::move(Tab);
        }
        if (E->refersToEnclosingVariableOrCapture()) O["capt"] = true;
        if (V->isConstexpr() || (V->getType().isConstQualified() && V->hasInit() && V->hasGlobalStorage())) {
          if (const auto *Init = V->getAnyInitializer()) {
            Expr::EvalResult R;
            if (!Init->isValueDependent() && Init->EvaluateAsRValue(R, Ctx)) {
              if (R.Val.isFloat()) O["const"] = R.Val.getFloat().convertToDouble();
              else if (R.Val.isInt()) O["const"] = (int64_t)R.Val.getInt().extOrTrunc(64).getRawData()[0];
            }
          }
        }
      } else if (isa<BindingDecl>(D)) {
        O["var"] = "v" + std::to_string(id(D));
        const auto *B = cast<BindingDecl>(D);
        O["binding"] = true;
        if (const auto *DD = dyn_cast_or_null<VarDecl>(B->getDecomposedDecl())) {
          O["decomp"] = varKey(DD);
          int I = 0;
          for (const auto *BB : cast<DecompositionDecl>(DD)->bindings()) {
            if (BB == B) O["bidx"] = I;
            I++;
          }
        }
        if (const auto *BE = B->getBinding()) push(BE);
      }
    } else if (const auto *E = dyn_cast<MemberExpr>(S)) {
      O["name"] = E->getMemberDecl()->getNameAsString();
      O["arrow"] = E->isArrow();
      if (const auto *FD = dyn_cast<FieldDecl>(E->getMemberDecl())) {
        O["field"] = qual(FD);
        O["cls"] = recName(cast<CXXRecordDecl>(FD->getParent()));
        O["mut"] = FD->isMutable();
        O["ft"] = ty(FD->getType());
      } else if (const auto *F = dyn_cast<FunctionDecl>(E->getMemberDecl())) {
        O["fn"] = key(F); O["q"] = qual(F);
      } else if (const auto *V = dyn_cast<VarDecl>(E->getMemberDecl())) {
        O["var"] = varKey(V); O["glob"] = true; O["q"] = qual(V); noteVar(V);
        O["vt"] = ty(V->getType());
      }
      push(E->getBase());
    } else if (const auto *E = dyn_cast<CXXConstructExpr>(S)) {
      O["ctor"] = key(E->getConstructor());
      O["q"] = qual(E->getConstructor());
      O["cls"] = recName(E->getConstructor()->getParent());
      if (E->requiresZeroInitialization()) O["zero"] = true;
      O["copy"] = E->getConstructor()->isCopyConstructor();
      O["move"] = E->getConstructor()->isMoveConstructor();
      O["nothrow"] = nothrow(E->getConstructor());
      O["listinit"] = E->isListInitialization();
      for (const auto *A : E->arguments()) push(A);
    } else if (const auto *E = dyn_cast<CallExpr>(S)) {
      const FunctionDecl *F = E->getDirectCallee();
      if (F) {
        O["fn"] = key(F);
        O["q"] = qual(F);
        O["nothrow"] = nothrow(F);
        O["noret"] = F->isNoReturn();
        if (const auto *M = dyn_cast<CXXMethodDecl>(F)) {
          O["cls"] = recName(M->getParent());
          O["cmeth"] = M->isConst();
          O["smeth"] = M->isStatic();
          bool Virt = M->isVirtual();
          if (const auto *MC = dyn_cast<CXXMemberCallExpr>(E))
            if (const auto *ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParenImpCasts()))
              if (ME->hasQualifier()) Virt = false;
          if (Virt) O["virt"] = true;
        }
        Array PT;
        for (const auto *P : F->parameters()) PT.push_back(ty(P->getType()));
        O["pt"] = std::move(PT);
      }
      if (const auto *MC = dyn_cast<CXXMemberCallExpr>(E)) {
        O["member"] = true;
        const Expr *Callee = MC->getCallee()->IgnoreParens();
        if (const auto *ME = dyn_cast<MemberExpr>(Callee)) {
          O["arrow"] = ME->isArrow();
          push(ME->getBase());
        } else { push(MC->getImplicitObjectArgument()); push(Callee); O["pmf"] = true; }
      } else if (isa<CXXOperatorCallExpr>(E)) {
        O["opcall"] = getOperatorSpelling(cast<CXXOperatorCallExpr>(E)->getOperator());
        if (F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) O["member"] = true;
      } else if (!F) {
        O["indirect"] = true;
        push(E->getCallee());
      }
      for (const auto *A : E->arguments()) push(A);
    } else if (const auto *E = dyn_cast<BinaryOperator>(S)) {
      O["op"] = E->getOpcodeStr().str();
      push(E->getLHS());
      push(E->getRHS());
      if (const auto *CA = dyn_cast<CompoundAssignOperator>(E))
        O["ct"] = ty(CA->getComputationResultType());
    } else if (const auto *E = dyn_cast<UnaryOperator>(S)) {
      O["op"] = UnaryOperator::getOpcodeStr(E->getOpcode()).str();
      O["post"] = E->isPostfix();
      push(E->getSubExpr());
    } else if (const auto *E = dyn_cast<CastExpr>(S)) {
      O["ck"] = E->getCastKindName();
      O["st"] = ty(E->getSubExpr()->getType());
      if (const auto *EC = dyn_cast<ExplicitCastExpr>(E)) O["explicit"] = ty(EC->getTypeAsWritten());
      if (const auto *CD = dyn_cast_or_null<FunctionDecl>(E->getConversionFunction())) { O["conv"] = qual(CD); }
      push(E->getSubExpr());
    } else if (const auto *E = dyn_cast<IntegerLiteral>(S)) {
      O["val"] = (int64_t)E->getValue().getLimitedValue();
    } else if (const auto *E = dyn_cast<SizeOfPackExpr>(S)) {
      if (!E->isValueDependent()) O["val"] = (int64_t)E->getPackLength();
    } else if (const auto *E = dyn_cast<FloatingLiteral>(S)) {
      O["val"] = E->getValue().convertToDouble();
    } else if (const auto *E = dyn_cast<CXXBoolLiteralExpr>(S)) {
      O["val"] = E->getValue();
    } else if (const auto *E = dyn_cast<StringLiteral>(S)) {
      O["val"] = E->isOrdinary() ? llvm::json::fixUTF8(E->getString()) : std::string("?");
    } else if (const auto *E = dyn_cast<CharacterLiteral>(S)) {
      O["val"] = (int64_t)E->getValue();
    } else if (const auto *E = dyn_cast<ConditionalOperator>(S)) {
      push(E->getCond()); push(E->getTrueExpr()); push(E->getFalseExpr());
    } else if (const auto *E = dyn_cast<InitListExpr>(S)) {
      O["cls"] = rec(E->getType());
      const InitListExpr *L = E;
      if (!L->isSemanticForm() && L->getSemanticForm()) L = L->getSemanticForm();
      for (const auto *I : L->inits()) push(I);
    } else if (const auto *E = dyn_cast<LambdaExpr>(S)) {
      O["fn"] = key(E->getCallOperator());
      O["cls"] = recName(E->getLambdaClass());
      Array Caps;
      auto It = E->capture_init_begin();
      for (const auto &C : E->captures()) {
        Object CO;
        if (C.capturesVariable()) {
          CO["var"] = varKey(C.getCapturedVar());
          CO["name"] = C.getCapturedVar()->getNameAsString();
          if (const auto *CV = dyn_cast<VarDecl>(C.getCapturedVar())) CO["init"] = CV->isInitCapture();
        } else if (C.capturesThis()) CO["this"] = true;
        CO["byref"] = C.getCaptureKind() == LCK_ByRef;
        if (*It && !C.capturesThis()) { CO["op"] = op(*It); }
        ++It;
        Caps.push_back(std::move(CO));
      }
      O["caps"] = std::move(Caps);
    } else if (const auto *E = dyn_cast<CXXNewExpr>(S)) {
      O["nt"] = ty(E->getAllocatedType());
      O["cls"] = rec(E->getAllocatedType());
      if (E->getInitializer()) push(E->getInitializer());
    } else if (const auto *E = dyn_cast<CXXDeleteExpr>(S)) {
      push(E->getArgument());
    } else if (const auto *E = dyn_cast<CXXThrowExpr>(S)) {
      if (E->getSubExpr()) { push(E->getSubExpr()); O["tt"] = ty(E->getSubExpr()->getType()); }
    } else if (const auto *D = dyn_cast<DeclStmt>(S)) {
      Array Ds;
      for (const auto *X : D->decls()) {
        if (const auto *V = dyn_cast<VarDecl>(X)) {
          Object DO;
          DO["var"] = varKey(V);
          DO["name"] = V->getNameAsString();
          DO["t"] = ty(V->getType());
          DO["static"] = V->isStaticLocal();
          DO["loc"] = loc(V->getLocation());
          if (V->hasGlobalStorage()) noteVar(V);
          if (V->getInit()) DO["op"] = op(V->getInit());
          if (const auto *DD = dyn_cast<DecompositionDecl>(V)) {
            Array B;
            for (const auto *BD : DD->bindings()) {
              Object BO;
              BO["var"] = "v" + std::to_string(id(BD));
              BO["name"] = BD->getNameAsString();
              if (BD->getBinding()) BO["op"] = op(BD->getBinding());
              if (const auto *HV = BD->getHoldingVar()) {
                BO["hold"] = varKey(HV);
                if (HV->getInit()) BO["hop"] = op(HV->getInit());
              }
              B.push_back(std::move(BO));
            }
            DO["bindings"] = std::move(B);
          }
          Ds.push_back(std::move(DO));
        }
      }
      O["decls"] = std::move(Ds);
    } else if (const auto *R = dyn_cast<ReturnStmt>(S)) {
      if (R->getRetValue()) push(R->getRetValue());
    } else if (const auto *A = dyn_cast<ArraySubscriptExpr>(S)) {
      push(A->getBase()); push(A->getIdx());
    } else if (const auto *U = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
      O["trait"] = (int)U->getKind();
    } else if (const auto *IL = dyn_cast<ArrayInitLoopExpr>(S)) {
      push(IL->getCommonExpr()); 
    } else if (const auto *OV = dyn_cast<OpaqueValueExpr>(S)) {
      if (OV->getSourceExpr()) push(OV->getSourceExpr());
    } else if (isa<SwitchCase>(S) || isa<CompoundStmt>(S) || isa<IfStmt>(S) || isa<ForStmt>(S) ||
               isa<WhileStmt>(S) || isa<DoStmt>(S) || isa<CXXForRangeStmt>(S) || isa<SwitchStmt>(S) ||
               isa<CXXTryStmt>(S) || isa<CXXCatchStmt>(S)) {
      // structure is carried by the CFG
    } else if (isa<Expr>(S)) {
      for (const auto *C : S->children()) push(C);
    }
    O["ops"] = std::move(Ops);
    (*Nodes)[std::to_string(N)] = std::move(O);
  }

  // ---- constant lookup tables: std::map and the like filled from literals ----
  static const Expr *bare(const Expr *E) {
    for (;;) {
      E = E->IgnoreParenImpCasts();
      if (const auto *W = dyn_cast<ExprWithCleanups>(E)) E = W->getSubExpr();
      else if (const auto *M = dyn_cast<MaterializeTemporaryExpr>(E)) E = M->getSubExpr();
      else if (const auto *B = dyn_cast<CXXBindTemporaryExpr>(E)) E = B->getSubExpr();
      else if (const auto *F = dyn_cast<CXXFunctionalCastExpr>(E)) E = F->getSubExpr();
      else if (const auto *L = dyn_cast<CXXStdInitializerListExpr>(E)) E = L->getSubExpr();
      else return E;
    }
  }

  bool literal(const Expr *E, Object &O) {
    E = bare(E);
    if (const auto *C = dyn_cast<CXXConstructExpr>(E)) {
      unsigned N = 0;
      for (const auto *A : C->arguments()) if (!isa<CXXDefaultArgExpr>(A)) N++;
      if (N != 1) return false;
      return literal(C->getArg(0), O);
    }
    if (const auto *S = dyn_cast<StringLiteral>(E)) { O["str"] = S->getString().str(); return true; }
    if (const auto *D = dyn_cast<DeclRefExpr>(E))
      if (const auto *C = dyn_cast<EnumConstantDecl>(D->getDecl())) { O["enum"] = qual(C); return true; }
    Expr::EvalResult R;
    if (!E->isValueDependent() && !E->getType().isNull() && E->getType()->isArithmeticType() && E->EvaluateAsRValue(R, Ctx)) {
      if (R.Val.isFloat()) O["num"] = R.Val.getFloat().convertToDouble();
      else if (R.Val.isInt()) O["num"] = (int64_t)R.Val.getInt().extOrTrunc(64).getRawData()[0];
      else return false;
      return true;
    }
    return false;
  }

  bool table(const VarDecl *V, Array &Tab) {
    auto *RD = V->getType().getNonReferenceType()->getAsCXXRecordDecl();
    if (!RD || !RD->isInStdNamespace()) return false;
    std::string N = RD->getNameAsString();
    if (N != "map" && N != "unordered_map") return false;
    const Expr *I = V->getAnyInitializer();
    if (!I || I->isValueDependent()) return false;
    I = bare(I);
    if (const auto *C = dyn_cast<CXXConstructExpr>(I)) {
      if (!C->getNumArgs()) return false;
      I = bare(C->getArg(0));
    }
    const auto *L = dyn_cast<InitListExpr>(I);
    if (!L) return false;
    for (const auto *X : L->inits()) {
      X = bare(X);
      const Expr *A = nullptr, *B = nullptr;
      if (const auto *C = dyn_cast<CXXConstructExpr>(X)) {
        if (C->getNumArgs() != 2) return false;
        A = C->getArg(0); B = C->getArg(1);
      } else if (const auto *P = dyn_cast<InitListExpr>(X)) {
        if (P->getNumInits() != 2) return false;
        A = P->getInit(0); B = P->getInit(1);
      } else return false;
      Object KO, VO;
      if (!literal(A, KO) || !literal(B, VO)) return false;
      Tab.push_back(Array{std::move(KO), std::move(VO)});
    }
    return !Tab.empty();
  }

  // ---- functions ---------------------------------------------------------
  void noteVar(const VarDecl *V) {
    std::string K = varKey(V);
    if (!inRoot(V->getLocation())) {
      // remember external globals by name only
      if (!SeenVar.insert(K).second) return;
      Object O;
      O["key"] = K; O["q"] = qual(V); O["t"] = ty(V->getType()); O["ext"] = true;
      Vars.push_back(std::move(O));
      return;
    }
    if (!SeenVar.insert(K).second) return;
    Object O;
    O["key"] = K;
    O["q"] = qual(V);
    O["t"] = ty(V->getType());
    O["const"] = V->getType().isConstQualified() || V->isConstexpr();
    O["tls"] = V->getTLSKind() != VarDecl::TLS_None;
    O["local"] = V->isStaticLocal();
    O["member"] = V->isStaticDataMember();
    O["loc"] = loc(V->getLocation());
    if (V->isConstexpr() || V->getType().isConstQualified()) {
      if (const auto *Init = V->getAnyInitializer()) {
        Expr::EvalResult R;
        if (!Init->isValueDependent() && Init->EvaluateAsRValue(R, Ctx)) {
          if (R.Val.isFloat()) O["val"] = R.Val.getFloat().convertToDouble();
          else if (R.Val.isInt()) O["val"] = (int64_t)R.Val.getInt().extOrTrunc(64).getRawData()[0];
        }
      }
    }
    Vars.push_back(std::move(O));
  }

  struct TryFinder : RecursiveASTVisitor<TryFinder> {
    std::vector<const CXXTryStmt *> Tries;
    bool VisitCXXTryStmt(CXXTryStmt *T) { Tries.push_back(T); return true; }
  };
  struct StmtCollector : RecursiveASTVisitor<StmtCollector> {
    std::vector<const Stmt *> All;
    bool TraverseLambdaExpr(LambdaExpr *L) { All.push_back(L); return true; }
    bool VisitStmt(Stmt *S) { All.push_back(S); return true; }
  };

  void dumpFunction(const FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody()) return;
    if (F->isDependentContext() || F->isInvalidDecl()) return;
    if (F->getType()->isDependentType()) return;
    std::string K = key(F);
    if (!SeenFn.insert(K).second) return;
    Object O;
    O["key"] = K;
    O["q"] = qual(F);
    O["name"] = F->getNameAsString();
    O["loc"] = loc(F->getLocation());
    O["end"] = loc(F->getEndLoc());
    O["ret"] = ty(F->getReturnType());
    O["nothrow"] = nothrow(F);
    const auto *FPT = F->getType()->getAs<FunctionProtoType>();
    O["noexcept_written"] = FPT && (FPT->getExceptionSpecType() == EST_BasicNoexcept ||
                                    FPT->getExceptionSpecType() == EST_NoexceptTrue);
    O["implicit"] = F->isImplicit();
    O["defaulted"] = F->isDefaulted();
    Array Ps;
    for (const auto *P : F->parameters()) {
      Object PO;
      PO["var"] = varKey(P);
      PO["name"] = P->getNameAsString();
      PO["t"] = ty(P->getType());
      Ps.push_back(std::move(PO));
    }
    O["params"] = std::move(Ps);
    if (const auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = recName(M->getParent());
      O["const"] = M->isConst();
      O["static"] = M->isStatic();
      O["virt"] = M->isVirtual();
      O["ctor"] = isa<CXXConstructorDecl>(M);
      O["dtor"] = isa<CXXDestructorDecl>(M);
      O["lambda"] = M->getParent()->isLambda();
      O["access"] = (int)M->getAccess();
      if (const auto *C = dyn_cast<CXXConstructorDecl>(M)) {
        O["copyctor"] = C->isCopyConstructor();
        O["movector"] = C->isMoveConstructor();
        O["delegating"] = C->isDelegatingConstructor();
      }
      Array Ov;
      for (const auto *B : M->overridden_methods()) Ov.push_back(key(B));
      O["overrides"] = std::move(Ov);
    }
    if (F->isStatic()) O["fstatic"] = true;
    std::map<const Stmt *, int> LocalIds;
    Object LocalNodes;
    auto *SaveI = StmtIds; auto *SaveN = Nodes;
    StmtIds = &LocalIds; Nodes = &LocalNodes;

    CFG::BuildOptions BO;
    BO.setAllAlwaysAdd();
    BO.AddInitializers = true;
    BO.AddImplicitDtors = true;
    BO.AddCXXNewAllocator = false;
    BO.AddEHEdges = false;
    BO.PruneTriviallyFalseEdges = true;
    std::unique_ptr<CFG> G = CFG::buildCFG(F, F->getBody(), &Ctx, BO);
    Array Blocks;
    if (G) {
      O["entry"] = (int)G->getEntry().getBlockID();
      O["exit"] = (int)G->getExit().getBlockID();
      for (const CFGBlock *B : *G) {
        Object BOb;
        BOb["id"] = (int)B->getBlockID();
        Array El;
        for (const auto &E : *B) {
          Object EO;
          if (auto CS = E.getAs<CFGStmt>()) {
            const Stmt *S = CS->getStmt();
            Value V = op(S);
            EO["s"] = std::move(V);
          } else if (auto I = E.getAs<CFGInitializer>()) {
            const CXXCtorInitializer *CI = I->getInitializer();
            EO["init"] = true;
            if (CI->isAnyMemberInitializer()) {
              EO["field"] = qual(CI->getAnyMember());
              EO["fname"] = CI->getAnyMember()->getNameAsString();
              EO["ft"] = ty(CI->getAnyMember()->getType());
            } else if (CI->isBaseInitializer()) {
              EO["base"] = ty(QualType(CI->getBaseClass(), 0));
            } else EO["delegating"] = true;
            EO["written"] = CI->isWritten();
            EO["loc"] = loc(CI->isWritten() ? CI->getSourceLocation() : F->getLocation());
            EO["op"] = op(CI->getInit());
          } else if (auto D = E.getAs<CFGAutomaticObjDtor>()) {
            EO["dtor"] = varKey(D->getVarDecl());
            EO["t"] = ty(D->getVarDecl()->getType());
            EO["name"] = D->getVarDecl()->getNameAsString();
          } else continue;
          El.push_back(std::move(EO));
        }
        BOb["el"] = std::move(El);
        if (const Stmt *T = B->getTerminatorStmt()) {
          BOb["tk"] = T->getStmtClassName();
          BOb["tl"] = loc(T->getBeginLoc());
        }
        if (const Stmt *C = B->getTerminatorCondition(false)) BOb["cond"] = op(C);
        Array Su;
        for (auto It = B->succ_begin(); It != B->succ_end(); ++It) {
          const CFGBlock *T = It->getReachableBlock();
          if (T) Su.push_back((int)T->getBlockID());
          else if (It->getPossiblyUnreachableBlock()) Su.push_back(-(int)It->getPossiblyUnreachableBlock()->getBlockID() - 1);
          else Su.push_back(nullptr);
        }
        BOb["su"] = std::move(Su);
        if (const Stmt *L = B->getLabel()) {
          if (const auto *C = dyn_cast<CaseStmt>(L)) BOb["case"] = op(C->getLHS());
          else if (isa<DefaultStmt>(L)) BOb["default"] = true;
          else if (const auto *C = dyn_cast<CXXCatchStmt>(L)) {
            BOb["catch"] = C->getExceptionDecl() ? ty(C->getExceptionDecl()->getType()) : std::string("...");
            BOb["catchloc"] = loc(C->getBeginLoc());
          }
        }
        if (const Stmt *L = B->getLoopTarget()) BOb["loopto"] = loc(L->getBeginLoc());
        if (B->hasNoReturnElement()) BOb["noreturn"] = true;
        Blocks.push_back(std::move(BOb));
      }
    } else O["nocfg"] = true;
    O["blocks"] = std::move(Blocks);
    // try regions
    {
      TryFinder TF;
      TF.TraverseStmt(F->getBody());
      Array Ts;
      for (const auto *T : TF.Tries) {
        Object TO;
        StmtCollector SC;
        SC.TraverseStmt(const_cast<CompoundStmt *>(T->getTryBlock()));
        Array Ss;
        for (const auto *S : SC.All) {
          auto It = LocalIds.find(S);
          if (It != LocalIds.end()) Ss.push_back(It->second);
        }
        TO["stmts"] = std::move(Ss);
        Array Hs;
        for (unsigned I = 0; I < T->getNumHandlers(); I++) {
          const auto *H = T->getHandler(I);
          Object HO;
          HO["t"] = H->getExceptionDecl() ? ty(H->getExceptionDecl()->getType()) : std::string("...");
          StmtCollector HC;
          HC.TraverseStmt(H->getHandlerBlock());
          bool Rethrow = false;
          Array Hcalls;
          for (const auto *S : HC.All) {
            if (isa<CXXThrowExpr>(S)) Rethrow = true;
            if (const auto *CE = dyn_cast<CallExpr>(S))
              if (const auto *FD = CE->getDirectCallee()) Hcalls.push_back(qual(FD));
          }
          HO["calls"] = std::move(Hcalls);
          HO["throws"] = Rethrow;
          HO["loc"] = loc(H->getBeginLoc());
          Hs.push_back(std::move(HO));
        }
        TO["handlers"] = std::move(Hs);
        TO["loc"] = loc(T->getBeginLoc());
        Ts.push_back(std::move(TO));
      }
      O["tries"] = std::move(Ts);
    }
    O["nodes"] = std::move(LocalNodes);
    StmtIds = SaveI; Nodes = SaveN;
    Functions.push_back(std::move(O));
  }

  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!inRoot(F->getLocation())) return true;
    dumpFunction(F);
    return true;
  }
  bool VisitLambdaExpr(LambdaExpr *L) {
    if (inRoot(L->getBeginLoc())) dumpFunction(L->getCallOperator());
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (!inRoot(V->getLocation())) return true;
    if (V->hasGlobalStorage() && !V->getType()->isDependentType()) noteVar(V);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!inRoot(E->getLocation())) return true;
    if (!SeenEnum.insert(qual(E)).second) return true;
    Object O;
    O["q"] = qual(E);
    O["loc"] = loc(E->getLocation());
    Array C;
    for (const auto *X : E->enumerators()) {
      Object XO;
      XO["q"] = qual(X); XO["name"] = X->getNameAsString(); XO["val"] = (int64_t)X->getInitVal().extOrTrunc(64).getRawData()[0];
      C.push_back(std::move(XO));
    }
    O["consts"] = std::move(C);
    Enums.push_back(std::move(O));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!inRoot(R->getLocation())) return true;
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return true;
    std::string K = recName(R);
    if (!SeenRec.insert(K).second) return true;
    Object O;
    O["name"] = K;
    O["loc"] = loc(R->getLocation());
    O["abstract"] = R->isAbstract();
    O["poly"] = R->isPolymorphic();
    O["union"] = R->isUnion();
    Array Fs, Bs, Ms;
    for (const auto *F : R->fields()) {
      Object FO;
      FO["name"] = F->getNameAsString();
      FO["q"] = qual(F);
      FO["t"] = ty(F->getType());
      FO["mut"] = F->isMutable();
      FO["const"] = F->getType().isConstQualified();
      FO["ref"] = F->getType()->isReferenceType();
      FO["init"] = F->hasInClassInitializer();
      FO["pod"] = F->getType()->isScalarType();
      FO["loc"] = loc(F->getLocation());
      FO["access"] = (int)F->getAccess();
      if (const auto *FR = F->getType()->getAsCXXRecordDecl()) FO["rec"] = recName(FR);
      Fs.push_back(std::move(FO));
    }
    for (const auto &B : R->bases()) Bs.push_back(ty(B.getType()));
    for (const auto *M : R->methods()) {
      Object MO;
      MO["key"] = key(M); MO["q"] = qual(M); MO["virt"] = M->isVirtual(); MO["pure"] = M->isPureVirtual();
      MO["loc"] = loc(M->getLocation());
      MO["const"] = M->isConst(); MO["static"] = M->isStatic(); MO["deleted"] = M->isDeleted();
      MO["nothrow"] = nothrow(M); MO["access"] = (int)M->getAccess();
      MO["implicit"] = M->isImplicit(); MO["defaulted"] = M->isDefaulted();
      MO["name"] = M->getNameAsString();
      MO["ctor"] = isa<CXXConstructorDecl>(M);
      Array Ov;
      for (const auto *B : M->overridden_methods()) Ov.push_back(key(B));
      MO["overrides"] = std::move(Ov);
      Ms.push_back(std::move(MO));
    }
    O["fields"] = std::move(Fs);
    O["bases"] = std::move(Bs);
    O["methods"] = std::move(Ms);
    Records.push_back(std::move(O));
    return true;
  }
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &Ctx) override {
    if (Ctx.getDiagnostics().hasErrorOccurred()) return;
    Dumper D(Ctx);
    D.TraverseDecl(Ctx.getTranslationUnitDecl());
    Object O;
    O["functions"] = std::move(D.Functions);
    O["records"] = std::move(D.Records);
    O["enums"] = std::move(D.Enums);
    O["vars"] = std::move(D.Vars);
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutPath, EC);
    OS << Value(std::move(O));
  }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override {
    return std::make_unique<Consumer>();
  }
};
} // namespace

int main(int argc, char **argv) {
  // extract ROOT OUT SOURCE -- flags
  if (argc < 5) { llvm::errs() << "usage: extract ROOT OUT SRC -- flags\n"; return 2; }
  Root = argv[1];
  OutPath = argv[2];
  std::vector<std::string> Src{argv[3]};
  std::vector<std::string> Flags;
  for (int I = 5; I < argc; I++) Flags.push_back(argv[I]);
  tooling::FixedCompilationDatabase DB(".", Flags);
  tooling::ClangTool T(DB, Src);
  return T.run(tooling::newFrontendActionFactory<Action>().get());
}
