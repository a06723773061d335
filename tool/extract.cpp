// AST fact extractor: dumps, as JSON, every function body, record and enum
// declared under the given roots, with all names resolved by clang's semantic
// analysis (template instantiations included).
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;
static std::string OutFile;

// Any 64-bit value, signed or not.
static llvm::json::Value num(const llvm::APSInt &V) {
  if (V.isUnsigned())
    return V.getLimitedValue();
  return V.getSExtValue();
}

namespace {
class Dumper {
public:
  Dumper(ASTContext &C, json::OStream &J) : C(C), J(J), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.SuppressScope = false;
    PP.AnonymousTagLocations = false;
    PP.SuppressUnwrittenScope = false;
    PP.PrintCanonicalTypes = true;
    PP.SuppressDefaultTemplateArgs = false;
  }
  ASTContext &C;
  json::OStream &J;
  PrintingPolicy PP;
  std::map<const Decl *, unsigned> LocalIds;
  std::map<std::string, unsigned> TypeIds;
  std::vector<std::string> Types;
  std::set<std::string> DoneFn, DoneRec, DoneEnum, DoneVar;
  std::vector<const CXXRecordDecl *> PendingLambdas;

  unsigned ty(QualType T) {
    if (T.isNull())
      return tyS("<null>");
    return tyS(T.getCanonicalType().getAsString(PP));
  }
  unsigned tyS(std::string S) {
    auto It = TypeIds.find(S);
    if (It != TypeIds.end())
      return It->second;
    unsigned Id = Types.size();
    TypeIds[S] = Id;
    Types.push_back(std::move(S));
    return Id;
  }
  unsigned localId(const Decl *D) {
    D = D->getCanonicalDecl();
    auto It = LocalIds.find(D);
    if (It != LocalIds.end())
      return It->second;
    unsigned Id = LocalIds.size() + 1;
    LocalIds[D] = Id;
    return Id;
  }
  std::string usr(const Decl *D) {
    llvm::SmallString<128> Buf;
    if (index::generateUSRForDecl(D, Buf) || Buf.empty())
      return "?" + std::to_string(localId(D));
    return std::string(Buf.str());
  }
  std::string fnId(const FunctionDecl *F) { return usr(F); }
  std::string qn(const NamedDecl *D) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    D->printQualifiedName(OS, PP);
    return OS.str();
  }
  // qualified name of a record including template arguments
  std::string rn(const RecordDecl *R) {
    return C.getTypeDeclType(R).getCanonicalType().getAsString(PP);
  }
  std::string file(SourceLocation L) {
    SourceManager &SM = C.getSourceManager();
    PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L));
    return P.isValid() ? P.getFilename() : "";
  }
  unsigned line(SourceLocation L) {
    SourceManager &SM = C.getSourceManager();
    return SM.getExpansionLineNumber(L);
  }
  bool inRoots(SourceLocation L) {
    std::string F = file(L);
    llvm::SmallString<256> P(F);
    for (auto &R : Roots)
      if (llvm::StringRef(P).starts_with(R))
        return true;
    return false;
  }

  // ---- expressions -------------------------------------------------------
  const Expr *strip(const Expr *E) {
    while (E) {
      if (auto *P = dyn_cast<ParenExpr>(E))
        E = P->getSubExpr();
      else if (auto *P = dyn_cast<FullExpr>(E))
        E = P->getSubExpr();
      else if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E))
        E = P->getSubExpr();
      else if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E))
        E = P->getSubExpr();
      else if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E))
        E = P->getReplacement();
      else if (auto *P = dyn_cast<CXXDefaultArgExpr>(E))
        E = P->getExpr();
      else if (auto *P = dyn_cast<CXXDefaultInitExpr>(E))
        E = P->getExpr();
      else if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E))
        E = P->getSubExpr();
      else if (auto *P = dyn_cast<ImplicitCastExpr>(E)) {
        switch (P->getCastKind()) {
        case CK_LValueToRValue:
        case CK_NoOp:
        case CK_UncheckedDerivedToBase:
        case CK_DerivedToBase:
        case CK_FunctionToPointerDecay:
        case CK_ArrayToPointerDecay:
        case CK_BuiltinFnToFnPtr:
        case CK_ConstructorConversion:
        case CK_UserDefinedConversion:
          E = P->getSubExpr();
          continue;
        default:
          return E;
        }
      } else
        return E;
    }
    return E;
  }

  void attrLine(SourceLocation L) { J.attribute("l", line(L)); }

  void args(llvm::ArrayRef<const Expr *> A) {
    J.attributeArray("a", [&] {
      for (auto *E : A)
        expr(E);
    });
  }
  template <typename R> void argsR(R &&Range) {
    J.attributeArray("a", [&] {
      for (auto *E : Range)
        expr(E);
    });
  }

  void callee(const FunctionDecl *F) {
    J.attribute("fn", qn(F));
    J.attribute("id", fnId(F));
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isVirtual())
        J.attribute("virt", 1);
      if (M->isStatic())
        J.attribute("static", 1);
      J.attribute("cls", rn(M->getParent()));
    }
    if (F->isOverloadedOperator())
      J.attribute("op", getOperatorSpelling(F->getOverloadedOperator()));
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      J.attributeArray("ta", [&] {
        for (auto &A : TA->asArray())
          targ(A);
      });
    }
  }
  void targ(const TemplateArgument &A) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    if (A.getKind() == TemplateArgument::Type)
      OS << A.getAsType().getCanonicalType().getAsString(PP);
    else if (A.getKind() == TemplateArgument::Pack) {
      J.arrayBegin();
      for (auto &X : A.pack_elements())
        targ(X);
      J.arrayEnd();
      return;
    } else
      A.print(PP, OS, true);
    J.value(OS.str());
  }

  void expr(const Expr *E0) {
    const Expr *E = strip(E0);
    if (!E) {
      J.value(nullptr);
      return;
    }
    J.objectBegin();
    exprBody(E);
    J.objectEnd();
  }

  void refDecl(const ValueDecl *D) {
    if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
      J.attribute("k", "enum");
      J.attribute("n", qn(EC));
      llvm::SmallString<16> S;
      EC->getInitVal().toString(S, 10);
      J.attribute("v", num(EC->getInitVal()));
      return;
    }
    if (auto *F = dyn_cast<FunctionDecl>(D)) {
      J.attribute("k", "fref");
      callee(F);
      return;
    }
    if (auto *B = dyn_cast<BindingDecl>(D)) {
      J.attribute("k", "ref");
      J.attribute("d", localId(B));
      J.attribute("n", B->getNameAsString());
      J.attribute("bind", 1);
      return;
    }
    if (auto *V = dyn_cast<VarDecl>(D)) {
      if (V->isLocalVarDeclOrParm() && !V->isStaticLocal()) {
        J.attribute("k", "ref");
        J.attribute("d", localId(V));
        J.attribute("n", V->getNameAsString());
      } else {
        J.attribute("k", "gref");
        J.attribute("n", qn(V));
        J.attribute("id", usr(V));
      }
      return;
    }
    J.attribute("k", "dref");
    J.attribute("n", qn(D));
  }

  void exprBody(const Expr *E) {
    auto T = [&](const Expr *X) {
      J.attribute("t", ty(X->getType()));
      if (X->isLValue())
        J.attribute("vc", "l");
      else if (X->isXValue())
        J.attribute("vc", "x");
    };
    if (auto *X = dyn_cast<IntegerLiteral>(E)) {
      J.attribute("k", "int");
      J.attribute("v", (int64_t)X->getValue().getLimitedValue(INT64_MAX));
      T(E);
      return;
    }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) {
      J.attribute("k", "bool");
      J.attribute("v", X->getValue());
      return;
    }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) {
      J.attribute("k", "char");
      J.attribute("v", (int64_t)X->getValue());
      return;
    }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) {
      J.attribute("k", "float");
      llvm::SmallString<32> S;
      X->getValue().toString(S);
      J.attribute("v", S.str());
      return;
    }
    if (auto *X = dyn_cast<clang::StringLiteral>(E)) {
      J.attribute("k", "str");
      J.attribute("v", json::isUTF8(X->getBytes()) ? X->getBytes().str()
                                                     : json::fixUTF8(X->getBytes()));
      return;
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
      J.attribute("k", "null");
      return;
    }
    if (isa<CXXThisExpr>(E)) {
      J.attribute("k", "this");
      T(E);
      return;
    }
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      if (auto *V = dyn_cast<VarDecl>(X->getDecl());
          V && V->isConstexpr() && !X->isValueDependent() &&
          (E->getType()->isIntegralOrEnumerationType())) {
        Expr::EvalResult R;
        if (X->EvaluateAsInt(R, C)) {
          J.attribute("k", "const");
          J.attribute("v", num(R.Val.getInt()));
          T(E);
          return;
        }
      }
      refDecl(X->getDecl());
      T(E);
      return;
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      if (auto *F = dyn_cast<FieldDecl>(X->getMemberDecl())) {
        J.attribute("k", "mem");
        J.attribute("f", F->getNameAsString());
        J.attribute("cls", rn(F->getParent()));
        J.attributeBegin("b");
        expr(X->getBase());
        J.attributeEnd();
        if (X->isArrow())
          J.attribute("arrow", 1);
        T(E);
        return;
      }
      if (auto *F = dyn_cast<CXXMethodDecl>(X->getMemberDecl())) {
        J.attribute("k", "mref");
        callee(F);
        J.attributeBegin("b");
        expr(X->getBase());
        J.attributeEnd();
        return;
      }
      refDecl(X->getMemberDecl());
      T(E);
      return;
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      J.attribute("k", "call");
      attrLine(E->getExprLoc());
      if (auto *F = X->getDirectCallee()) {
        callee(F);
        auto *M = dyn_cast<CXXMethodDecl>(F);
        if (M && !M->isStatic() && X->getNumArgs() > 0) {
          J.attributeBegin("obj");
          expr(X->getArg(0));
          J.attributeEnd();
          args(llvm::ArrayRef<const Expr *>(X->getArgs(), X->getNumArgs())
                   .drop_front());
          T(E);
          return;
        }
      } else
        J.attribute("op", getOperatorSpelling(X->getOperator()));
      args(llvm::ArrayRef<const Expr *>(X->getArgs(), X->getNumArgs()));
      T(E);
      return;
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      J.attribute("k", "call");
      attrLine(E->getExprLoc());
      if (auto *M = X->getMethodDecl()) {
        callee(M);
        if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens()))
          if (ME->hasQualifier())
            J.attribute("nonvirt", 1);
      }
      if (auto *O = X->getImplicitObjectArgument()) {
        J.attributeBegin("obj");
        expr(O);
        J.attributeEnd();
        if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens()))
          if (ME->isArrow())
            J.attribute("arrow", 1);
      }
      args(llvm::ArrayRef<const Expr *>(X->getArgs(), X->getNumArgs()));
      T(E);
      return;
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      J.attribute("k", "call");
      attrLine(E->getExprLoc());
      if (auto *F = X->getDirectCallee())
        callee(F);
      else {
        J.attributeBegin("cal");
        expr(X->getCallee());
        J.attributeEnd();
      }
      args(llvm::ArrayRef<const Expr *>(X->getArgs(), X->getNumArgs()));
      T(E);
      return;
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      J.attribute("k", "ctor");
      attrLine(E->getExprLoc());
      auto *D = X->getConstructor();
      J.attribute("cls", rn(D->getParent()));
      J.attribute("id", fnId(D));
      if (D->isCopyConstructor())
        J.attribute("ck", "copy");
      else if (D->isMoveConstructor())
        J.attribute("ck", "move");
      else if (D->isDefaultConstructor())
        J.attribute("ck", "default");
      if (X->isListInitialization())
        J.attribute("list", 1);
      args(llvm::ArrayRef<const Expr *>(X->getArgs(), X->getNumArgs()));
      T(E);
      return;
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      J.attribute("k", "inhctor");
      J.attribute("cls", rn(X->getConstructor()->getParent()));
      J.attribute("id", fnId(X->getConstructor()));
      return;
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      J.attribute("k", "un");
      J.attribute("op", UnaryOperator::getOpcodeStr(X->getOpcode()));
      if (X->isPostfix())
        J.attribute("post", 1);
      J.attributeBegin("e");
      expr(X->getSubExpr());
      J.attributeEnd();
      T(E);
      return;
    }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      J.attribute("k", "bin");
      attrLine(X->getOperatorLoc());
      J.attribute("op", X->getOpcodeStr());
      J.attributeBegin("x");
      expr(X->getLHS());
      J.attributeEnd();
      J.attributeBegin("y");
      expr(X->getRHS());
      J.attributeEnd();
      T(E);
      return;
    }
    if (auto *X = dyn_cast<AbstractConditionalOperator>(E)) {
      J.attribute("k", "cond");
      J.attributeBegin("c");
      expr(X->getCond());
      J.attributeEnd();
      J.attributeBegin("x");
      expr(X->getTrueExpr());
      J.attributeEnd();
      J.attributeBegin("y");
      expr(X->getFalseExpr());
      J.attributeEnd();
      T(E);
      return;
    }
    if (auto *X = dyn_cast<CXXFunctionalCastExpr>(E)) {
      if (X->getCastKind() == CK_ConstructorConversion ||
          X->getCastKind() == CK_NoOp ||
          X->getCastKind() == CK_UserDefinedConversion) {
        exprBody(strip(X->getSubExpr()));
        return;
      }
    }
    if (auto *X = dyn_cast<CastExpr>(E)) {
      J.attribute("k", "cast");
      J.attribute("ck", X->getCastKindName());
      if (isa<ExplicitCastExpr>(E))
        J.attribute("ex", 1);
      J.attributeBegin("e");
      expr(X->getSubExpr());
      J.attributeEnd();
      J.attribute("st", ty(X->getSubExpr()->getType()));
      T(E);
      return;
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      J.attribute("k", "idx");
      J.attributeBegin("b");
      expr(X->getBase());
      J.attributeEnd();
      J.attributeBegin("i");
      expr(X->getIdx());
      J.attributeEnd();
      T(E);
      return;
    }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      const InitListExpr *S = X->isSemanticForm() ? X : X->getSemanticForm();
      if (!S)
        S = X;
      J.attribute("k", "ilist");
      argsR(S->inits());
      T(E);
      T(E);
      return;
    }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      J.attribute("k", "lambda");
      attrLine(E->getExprLoc());
      J.attributeArray("cap", [&] {
        for (auto &Cp : X->captures()) {
          J.objectBegin();
          J.attribute("byref", Cp.getCaptureKind() == LCK_ByRef);
          if (Cp.capturesThis())
            J.attribute("this", 1);
          else if (Cp.capturesVariable()) {
            J.attribute("d", localId(Cp.getCapturedVar()));
            J.attribute("n", Cp.getCapturedVar()->getNameAsString());
            if (auto *VD = dyn_cast<VarDecl>(Cp.getCapturedVar()))
              if (VD->isInitCapture() && VD->getInit()) {
                J.attributeBegin("init");
                expr(VD->getInit());
                J.attributeEnd();
              }
          }
          J.objectEnd();
        }
      });
      auto *M = X->getCallOperator();
      bool Generic = X->isGenericLambda();
      if (Generic) {
        J.attribute("generic", 1);
        // use the first instantiation when there is one
        if (auto *FT = X->getDependentCallOperator()) {
          for (auto *Sp : FT->specializations())
            if (Sp->hasBody()) {
              M = cast<CXXMethodDecl>(Sp);
              break;
            }
        }
      }
      J.attribute("id", fnId(X->getCallOperator()));
      params(M);
      J.attributeBegin("body");
      stmt(M->getBody());
      J.attributeEnd();
      if (Generic)
        if (auto *FT = X->getDependentCallOperator()) {
          std::vector<const CXXMethodDecl *> Others;
          for (auto *Sp : FT->specializations())
            if (Sp->hasBody() && Sp != M)
              Others.push_back(cast<CXXMethodDecl>(Sp));
          if (!Others.empty())
            J.attributeArray("specs", [&] {
              for (auto *O : Others) {
                J.objectBegin();
                params(O);
                J.attributeBegin("body");
                stmt(O->getBody());
                J.attributeEnd();
                J.objectEnd();
              }
            });
        }
      return;
    }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      J.attribute("k", "new");
      J.attribute("t", ty(X->getAllocatedType()));
      if (auto *I = X->getInitializer()) {
        J.attributeBegin("init");
        expr(I);
        J.attributeEnd();
      }
      return;
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
      J.attribute("k", "delete");
      J.attributeBegin("e");
      expr(X->getArgument());
      J.attributeEnd();
      return;
    }
    if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) {
      J.attribute("k", "zero");
      T(E);
      return;
    }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      J.attribute("k", "sizeof");
      J.attribute("of", ty(X->getTypeOfArgument()));
      return;
    }
    if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E)) {
      exprBody(strip(X->getSemanticForm()));
      return;
    }
    if (auto *X = dyn_cast<OpaqueValueExpr>(E)) {
      if (X->getSourceExpr()) {
        exprBody(strip(X->getSourceExpr()));
        return;
      }
    }
    if (auto *X = dyn_cast<CXXForRangeStmt>((const Stmt *)E))
      (void)X;
    // generic fallback
    J.attribute("k", "other");
    J.attribute("c", E->getStmtClassName());
    attrLine(E->getExprLoc());
    J.attributeArray("a", [&] {
      for (const Stmt *S : E->children())
        if (S && isa<Expr>(S))
          expr(cast<Expr>(S));
    });
    if (!E->getType().isNull())
      T(E);
  }

  void params(const FunctionDecl *F) {
    J.attributeArray("p", [&] {
      for (auto *P : F->parameters()) {
        J.objectBegin();
        J.attribute("d", localId(P));
        J.attribute("n", P->getNameAsString());
        J.attribute("t", ty(P->getType()));
        J.objectEnd();
      }
    });
  }

  // ---- statements --------------------------------------------------------
  void varDecl(const VarDecl *V) {
    J.objectBegin();
    J.attribute("d", localId(V));
    J.attribute("n", V->getNameAsString());
    J.attribute("t", ty(V->getType()));
    if (V->isStaticLocal()) {
      J.attribute("staticlocal", 1);
      J.attribute("id", usr(V));
    }
    if (auto *D = dyn_cast<DecompositionDecl>(V)) {
      J.attributeArray("bind", [&] {
        for (auto *B : D->bindings()) {
          J.objectBegin();
          J.attribute("d", localId(B));
          J.attribute("n", B->getNameAsString());
          J.attributeBegin("e");
          if (auto *HV = B->getHoldingVar()) {
            expr(HV->getInit());
          } else
            expr(B->getBinding());
          J.attributeEnd();
          J.objectEnd();
        }
      });
    }
    if (V->getInit()) {
      J.attributeBegin("i");
      expr(V->getInit());
      J.attributeEnd();
    }
    J.objectEnd();
  }

  void optStmt(const char *N, const Stmt *S) {
    if (!S)
      return;
    J.attributeBegin(N);
    stmt(S);
    J.attributeEnd();
  }
  void optExpr(const char *N, const Expr *E) {
    if (!E)
      return;
    J.attributeBegin(N);
    expr(E);
    J.attributeEnd();
  }

  void stmt(const Stmt *S) {
    if (!S) {
      J.value(nullptr);
      return;
    }
    J.objectBegin();
    stmtBody(S);
    J.objectEnd();
  }

  void stmtBody(const Stmt *S) {
    if (auto *X = dyn_cast<LabelStmt>(S)) {
      stmtBody(X->getSubStmt());
      return;
    }
    if (auto *X = dyn_cast<AttributedStmt>(S)) {
      stmtBody(X->getSubStmt());
      return;
    }
    attrLine(S->getBeginLoc());
    if (auto *X = dyn_cast<Expr>(S)) {
      J.attribute("k", "expr");
      J.attributeBegin("e");
      expr(X);
      J.attributeEnd();
      return;
    }
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      J.attribute("k", "block");
      J.attributeArray("s", [&] {
        for (auto *Y : X->body())
          stmt(Y);
      });
      return;
    }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      J.attribute("k", "decl");
      J.attributeArray("v", [&] {
        for (auto *D : X->decls())
          if (auto *V = dyn_cast<VarDecl>(D))
            varDecl(V);
      });
      return;
    }
    if (auto *X = dyn_cast<IfStmt>(S)) {
      J.attribute("k", "if");
      if (X->isConstexpr()) {
        J.attribute("constexpr", 1);
        Expr::EvalResult R;
        if (X->getCond() && !X->getCond()->isValueDependent() &&
            X->getCond()->EvaluateAsInt(R, C))
          J.attribute("cx", (int64_t)(R.Val.getInt() != 0));
      }
      optStmt("init", X->getInit());
      if (X->getConditionVariable()) {
        J.attributeBegin("cv");
        varDecl(X->getConditionVariable());
        J.attributeEnd();
      }
      optExpr("c", X->getCond());
      optStmt("x", X->getThen());
      optStmt("y", X->getElse());
      return;
    }
    if (auto *X = dyn_cast<WhileStmt>(S)) {
      J.attribute("k", "while");
      if (X->getConditionVariable()) {
        J.attributeBegin("cv");
        varDecl(X->getConditionVariable());
        J.attributeEnd();
      }
      optExpr("c", X->getCond());
      optStmt("b", X->getBody());
      return;
    }
    if (auto *X = dyn_cast<DoStmt>(S)) {
      J.attribute("k", "do");
      optExpr("c", X->getCond());
      optStmt("b", X->getBody());
      return;
    }
    if (auto *X = dyn_cast<ForStmt>(S)) {
      J.attribute("k", "for");
      optStmt("init", X->getInit());
      optExpr("c", X->getCond());
      optExpr("inc", X->getInc());
      optStmt("b", X->getBody());
      return;
    }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      J.attribute("k", "rfor");
      optStmt("init", X->getInit());
      J.attributeBegin("v");
      varDecl(X->getLoopVariable());
      J.attributeEnd();
      J.attributeBegin("r");
      expr(X->getRangeInit());
      J.attributeEnd();
      optStmt("b", X->getBody());
      return;
    }
    if (auto *X = dyn_cast<SwitchStmt>(S)) {
      J.attribute("k", "switch");
      optStmt("init", X->getInit());
      if (X->getConditionVariable()) {
        J.attributeBegin("cv");
        varDecl(X->getConditionVariable());
        J.attributeEnd();
      }
      optExpr("c", X->getCond());
      optStmt("b", X->getBody());
      return;
    }
    if (auto *X = dyn_cast<CaseStmt>(S)) {
      J.attribute("k", "case");
      Expr::EvalResult R;
      if (!X->getLHS()->isValueDependent() &&
          X->getLHS()->EvaluateAsInt(R, C))
        J.attribute("v", num(R.Val.getInt()));
      optExpr("e", X->getLHS());
      optStmt("b", X->getSubStmt());
      return;
    }
    if (auto *X = dyn_cast<DefaultStmt>(S)) {
      J.attribute("k", "default");
      optStmt("b", X->getSubStmt());
      return;
    }
    if (auto *X = dyn_cast<ReturnStmt>(S)) {
      J.attribute("k", "ret");
      optExpr("e", X->getRetValue());
      return;
    }
    if (isa<BreakStmt>(S)) {
      J.attribute("k", "break");
      return;
    }
    if (isa<ContinueStmt>(S)) {
      J.attribute("k", "continue");
      return;
    }
    if (isa<NullStmt>(S)) {
      J.attribute("k", "nop");
      return;
    }
    J.attribute("k", "sother");
    J.attribute("c", S->getStmtClassName());
    J.attributeArray("s", [&] {
      for (auto *Y : S->children())
        if (Y)
          stmt(Y);
    });
  }

  // ---- declarations ------------------------------------------------------
  void function(const FunctionDecl *F, json::OStream &) {
    J.objectBegin();
    J.attribute("id", fnId(F));
    J.attribute("n", qn(F));
    J.attribute("file", file(F->getLocation()));
    J.attribute("l", line(F->getLocation()));
    J.attribute("le", line(F->getEndLoc()));
    J.attribute("rt", ty(F->getReturnType()));
    if (F->isTemplateInstantiation())
      J.attribute("inst", 1);
    if (F->isDependentContext())
      J.attribute("dep", 1);
    if (F->isDefaulted())
      J.attribute("defaulted", 1);
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      J.attributeArray("ta", [&] {
        for (auto &A : TA->asArray())
          targ(A);
      });
    }
    params(F);
    if (F->isOverloadedOperator())
      J.attribute("op", getOperatorSpelling(F->getOverloadedOperator()));
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      J.attribute("cls", rn(M->getParent()));
      if (M->isVirtual())
        J.attribute("virt", 1);
      if (M->isStatic())
        J.attribute("static", 1);
      if (M->isConst())
        J.attribute("const", 1);
      if (M->size_overridden_methods()) {
        J.attributeArray("over", [&] {
          for (auto *O : M->overridden_methods())
            J.value(fnId(O));
        });
      }
    }
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      J.attribute("kind", CD->isCopyConstructor()   ? "copyctor"
                          : CD->isMoveConstructor() ? "movector"
                                                    : "ctor");
      J.attributeArray("inits", [&] {
        for (auto *I : CD->inits()) {
          J.objectBegin();
          if (I->isAnyMemberInitializer())
            J.attribute("f", I->getAnyMember()->getNameAsString());
          else if (I->isBaseInitializer())
            J.attribute("base", QualType(I->getBaseClass(), 0)
                                    .getCanonicalType()
                                    .getAsString(PP));
          else
            J.attribute("deleg", 1);
          J.attribute("w", I->isWritten());
          J.attributeBegin("e");
          expr(I->getInit());
          J.attributeEnd();
          J.objectEnd();
        }
      });
    } else if (isa<CXXDestructorDecl>(F))
      J.attribute("kind", "dtor");
    else if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isCopyAssignmentOperator())
        J.attribute("kind", "copyassign");
      else if (M->isMoveAssignmentOperator())
        J.attribute("kind", "moveassign");
    }
    J.attributeBegin("body");
    stmt(F->getBody());
    J.attributeEnd();
    J.objectEnd();
  }

  void record(const CXXRecordDecl *R) {
    J.objectBegin();
    J.attribute("n", rn(R));
    J.attribute("q", qn(R));
    J.attribute("file", file(R->getLocation()));
    J.attribute("l", line(R->getLocation()));
    if (R->isDependentContext())
      J.attribute("dep", 1);
    if (!R->isDependentContext())
      J.attribute("abstract", R->isAbstract());
    J.attributeArray("bases", [&] {
      for (auto &B : R->bases())
        J.value(B.getType().getCanonicalType().getAsString(PP));
    });
    J.attributeArray("fields", [&] {
      for (auto *F : R->fields()) {
        J.objectBegin();
        J.attribute("n", F->getNameAsString());
        J.attribute("t", ty(F->getType()));
        if (F->isMutable())
          J.attribute("mutable", 1);
        if (F->hasInClassInitializer() && F->getInClassInitializer()) {
          J.attributeBegin("i");
          expr(F->getInClassInitializer());
          J.attributeEnd();
        }
        J.objectEnd();
      }
    });
    J.attributeArray("methods", [&] {
      for (auto *D : R->decls()) {
        const FunctionDecl *M = dyn_cast<CXXMethodDecl>(D);
        bool Tm = false;
        if (auto *FT = dyn_cast<FunctionTemplateDecl>(D)) {
          M = FT->getTemplatedDecl();
          Tm = true;
        }
        if (!M)
          continue;
        J.objectBegin();
        J.attribute("n", M->getNameAsString());
        J.attribute("id", fnId(M));
        J.attribute("rt", ty(M->getReturnType()));
        J.attribute("access", (int)M->getAccess());
        if (Tm)
          J.attribute("tmpl", 1);
        if (auto *MM = dyn_cast<CXXMethodDecl>(M)) {
          if (MM->isVirtual())
            J.attribute("virt", 1);
          if (MM->isPureVirtual())
            J.attribute("pure", 1);
          if (MM->isConst())
            J.attribute("const", 1);
          if (MM->isStatic())
            J.attribute("static", 1);
          if (MM->isImplicit())
            J.attribute("implicit", 1);
          if (MM->isDeleted())
            J.attribute("deleted", 1);
          if (MM->isDefaulted())
            J.attribute("defaulted", 1);
          if (MM->size_overridden_methods()) {
            J.attributeArray("over", [&] {
              for (auto *O : MM->overridden_methods())
                J.value(fnId(O));
            });
          }
          if (auto *CD = dyn_cast<CXXConstructorDecl>(MM))
            J.attribute("kind", CD->isCopyConstructor()   ? "copyctor"
                                : CD->isMoveConstructor() ? "movector"
                                                          : "ctor");
          else if (isa<CXXDestructorDecl>(MM))
            J.attribute("kind", "dtor");
          else if (MM->isCopyAssignmentOperator())
            J.attribute("kind", "copyassign");
          else if (MM->isMoveAssignmentOperator())
            J.attribute("kind", "moveassign");
        }
        params(M);
        J.objectEnd();
      }
    });
    J.objectEnd();
  }

  void en(const EnumDecl *E) {
    J.objectBegin();
    J.attribute("n", qn(E));
    J.attribute("file", file(E->getLocation()));
    J.attribute("l", line(E->getLocation()));
    J.attributeArray("v", [&] {
      for (auto *X : E->enumerators()) {
        J.arrayBegin();
        J.value(X->getNameAsString());
        J.value(num(X->getInitVal()));
        J.arrayEnd();
      }
    });
    J.objectEnd();
  }
  void gvar(const VarDecl *V) {
    J.objectBegin();
    J.attribute("n", qn(V));
    J.attribute("id", usr(V));
    J.attribute("file", file(V->getLocation()));
    J.attribute("l", line(V->getLocation()));
    J.attribute("t", ty(V->getType()));
    if (V->getAnyInitializer()) {
      J.attributeBegin("i");
      expr(V->getAnyInitializer());
      J.attributeEnd();
    }
    J.objectEnd();
  }
};

class Collector : public RecursiveASTVisitor<Collector> {
public:
  Collector(Dumper &D) : D(D) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    const FunctionDecl *Def = nullptr;
    if (!F->hasBody(Def) || Def != F)
      return true;
    if (!D.inRoots(F->getLocation()))
      return true;
    if (F->isDependentContext())
      return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda())
        return true;
    std::string Id = D.fnId(F);
    if (D.DoneFn.insert(Id).second)
      Fns.push_back(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isLambda())
      return true;
    if (!D.inRoots(R->getLocation()))
      return true;
    if (D.DoneRec.insert(D.usr(R)).second)
      Recs.push_back(R);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!E->isThisDeclarationADefinition() || !D.inRoots(E->getLocation()))
      return true;
    if (D.DoneEnum.insert(D.usr(E)).second)
      Ens.push_back(E);
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (V->isLocalVarDeclOrParm() && !V->isStaticLocal())
      return true;
    if (!D.inRoots(V->getLocation()))
      return true;
    if (!V->getAnyInitializer())
      return true;
    if (D.DoneVar.insert(D.usr(V)).second)
      Vars.push_back(V);
    return true;
  }
  Dumper &D;
  std::vector<FunctionDecl *> Fns;
  std::vector<CXXRecordDecl *> Recs;
  std::vector<EnumDecl *> Ens;
  std::vector<VarDecl *> Vars;
};

class Consumer : public ASTConsumer {
public:
  CompilerInstance &CI;
  Consumer(CompilerInstance &CI) : CI(CI) {}
  void HandleTranslationUnit(ASTContext &Ctx) override {
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutFile, EC);
    if (EC) {
      llvm::errs() << "cannot open " << OutFile << "\n";
      exit(3);
    }
    json::OStream J(OS);
    Dumper D(Ctx, J);
    Collector Col(D);
    Col.TraverseDecl(Ctx.getTranslationUnitDecl());
    J.objectBegin();
    J.attribute("errors", (int64_t)CI.getDiagnostics().getClient()->getNumErrors());
    J.attributeArray("functions", [&] {
      for (auto *F : Col.Fns)
        D.function(F, J);
    });
    J.attributeArray("records", [&] {
      for (auto *R : Col.Recs)
        D.record(R);
    });
    J.attributeArray("enums", [&] {
      for (auto *E : Col.Ens)
        D.en(E);
    });
    J.attributeArray("vars", [&] {
      for (auto *V : Col.Vars)
        D.gvar(V);
    });
    J.attributeArray("files", [&] {
      SourceManager &SM = Ctx.getSourceManager();
      std::set<std::string> Seen;
      for (auto It = SM.fileinfo_begin(); It != SM.fileinfo_end(); ++It) {
        std::string N = It->first.getName().str();
        for (auto &R : Roots)
          if (llvm::StringRef(N).starts_with(R) && Seen.insert(N).second)
            J.value(N);
      }
    });
    J.attributeArray("types", [&] {
      for (auto &T : D.Types)
        J.value(T);
    });
    J.objectEnd();
    OS.flush();
  }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI,
                                                 llvm::StringRef) override {
    return std::make_unique<Consumer>(CI);
  }
};
class Factory : public tooling::FrontendActionFactory {
public:
  std::unique_ptr<FrontendAction> create() override {
    return std::make_unique<Action>();
  }
};
} // namespace

// usage: extract OUT.json FILE ROOT[,ROOT...] -- compiler args
int main(int argc, const char **argv) {
  if (argc < 5) {
    llvm::errs() << "usage: extract OUT FILE ROOTS -- args\n";
    return 2;
  }
  OutFile = argv[1];
  std::string In = argv[2];
  llvm::SmallVector<llvm::StringRef> Rs;
  llvm::StringRef(argv[3]).split(Rs, ',');
  for (auto R : Rs)
    Roots.push_back(R.str());
  std::vector<std::string> Args;
  for (int i = 5; i < argc; ++i)
    Args.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB("/", Args);
  tooling::ClangTool Tool(DB, {In});
  Tool.clearArgumentsAdjusters();
  Factory F;
  int R = Tool.run(&F);
  return R;
}
