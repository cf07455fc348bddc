// vpextract: dumps the type-checked program (resolved AST, template
// instantiations included) of one translation unit as JSON, for the analyses
// in /verif/engine.  No code under analysis is executed.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Sema/Sema.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static llvm::cl::OptionCategory Cat("vpextract");
static llvm::cl::opt<std::string> OutFile("o", llvm::cl::cat(Cat), llvm::cl::init("-"));
static llvm::cl::opt<std::string> Root("root", llvm::cl::cat(Cat), llvm::cl::init("/repo/"));
static llvm::cl::opt<std::string> Root2("root2", llvm::cl::cat(Cat), llvm::cl::init("/verif/"));

namespace {
class Dumper : public RecursiveASTVisitor<Dumper> {
  ASTContext &C;
  SourceManager &SM;
  std::unique_ptr<ASTNameGenerator> NG;
  std::map<const Decl *, int> Ids;
  std::set<const Decl *> DoneFn, DoneRec;
  int NextId = 1;

public:
  llvm::raw_ostream &OS;
  bool First = true;
  std::set<std::string> Keys;
  Dumper(ASTContext &C, llvm::raw_ostream &OS)
      : C(C), SM(C.getSourceManager()), NG(new ASTNameGenerator(C)), OS(OS) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }

  int id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto It = Ids.find(D);
    if (It != Ids.end()) return It->second;
    return Ids[D] = NextId++;
  }
  int line(SourceLocation L) {
    if (L.isInvalid()) return 0;
    return SM.getExpansionLineNumber(L);
  }
  std::string file(SourceLocation L) {
    if (L.isInvalid()) return "";
    L = SM.getExpansionLoc(L);
    if (auto FE = SM.getFileEntryRefForID(SM.getFileID(L))) {
      StringRef R = FE->getFileEntry().tryGetRealPathName();
      if (!R.empty()) return R.str();
      return FE->getName().str();
    }
    return "";
  }
  bool inScope(const std::string &F) {
    return StringRef(F).starts_with(Root) || StringRef(F).starts_with(Root2);
  }
  std::string qual(const NamedDecl *D) {
    std::string S;
    llvm::raw_string_ostream O(S);
    D->printQualifiedName(O);
    O.flush();
    // strip inline template args never printed by printQualifiedName for the
    // decl itself; class template specialisations print without args too in
    // most policies, but be safe.
    std::string R;
    int depth = 0;
    if (S.find("operator") != std::string::npos) return S;
    for (char c : S) {
      if (c == '<') { depth++; continue; }
      if (c == '>') { depth--; continue; }
      if (!depth) R += c;
    }
    return R;
  }
  std::string recName(const CXXRecordDecl *R) { return qual(R); }
  std::string recFull(const CXXRecordDecl *R) {
    return C.getTypeDeclType(R).getCanonicalType().getAsString(PrintingPolicy(C.getLangOpts()));
  }
  std::string ty(QualType Q, int depth = 0) {
    if (Q.isNull()) return "?";
    Q = Q.getCanonicalType();
    std::string P;
    if (Q.isConstQualified()) P = "c ";
    const Type *T = Q.getTypePtr();
    if (T->isLValueReferenceType()) return "&" + ty(T->getPointeeType(), depth + 1);
    if (T->isRValueReferenceType()) return "&&" + ty(T->getPointeeType(), depth + 1);
    if (T->isPointerType()) return P + "*" + ty(T->getPointeeType(), depth + 1);
    if (auto *BT = dyn_cast<BuiltinType>(T)) {
      if (BT->getKind() == BuiltinType::Bool) return P + "bool";
      if (BT->isInteger())
        return P + (BT->isSignedInteger() ? "i" : "u") + std::to_string(C.getTypeSize(Q));
      if (BT->isFloatingPoint()) return P + "f" + std::to_string(C.getTypeSize(Q));
      if (T->isVoidType()) return P + "void";
      if (T->isNullPtrType()) return P + "nullptr";
    }
    if (auto *ET = dyn_cast<EnumType>(T)) {
      QualType U = ET->getDecl()->getIntegerType();
      std::string W = U.isNull() ? "i32" : ty(U);
      return P + "E:" + qual(ET->getDecl()) + ":" + W;
    }
    if (auto *R = T->getAsCXXRecordDecl()) {
      if (R->isLambda()) return P + "L:" + std::to_string(id(R));
      return P + "R:" + Q.getUnqualifiedType().getAsString(PrintingPolicy(C.getLangOpts()));
    }
    if (auto *A = dyn_cast<ConstantArrayType>(T))
      return P + "[" + std::to_string(A->getSize().getZExtValue()) + "]" + ty(A->getElementType());
    return P + "?:" + Q.getAsString(PrintingPolicy(C.getLangOpts()));
  }
  std::string key(const FunctionDecl *F) {
    if (auto *D = F->getDefinition()) F = D;
    std::string N;
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda())
        return "lambda#" + std::to_string(id(M->getParent())) + "@" +
               file(M->getParent()->getLocation()) + ":" + std::to_string(line(M->getParent()->getLocation()));
    if (!F->isDependentContext()) {
      if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
        std::string S = NG->getName(GlobalDecl(CD, Ctor_Complete).getDecl());
        // ASTNameGenerator may give several names; take first line
        auto All = NG->getAllManglings(F);
        if (!All.empty()) return All[0];
        return S;
      }
      if (isa<CXXDestructorDecl>(F)) {
        auto All = NG->getAllManglings(F);
        if (!All.empty()) return All[0];
      }
      N = NG->getName(F);
    }
    if (N.empty()) N = qual(F) + "#" + std::to_string(id(F));
    return N;
  }
  std::string sig(const FunctionDecl *F) {
    std::string S;
    for (auto *P : F->parameters()) {
      if (!S.empty()) S += ",";
      S += ty(P->getType());
    }
    return S;
  }

  // ---- expressions ----
  Value E(const Expr *X) {
    if (!X) return nullptr;
    int L = line(X->getExprLoc());
    // constants (only side-effect free integer expressions)
    if (!X->isValueDependent() && !X->isTypeDependent() && X->getType()->isIntegralOrEnumerationType() && !isa<InitListExpr>(X)) {
      const Expr *S = X->IgnoreParenImpCasts();
      bool tryEval = isa<IntegerLiteral>(S) || isa<CXXBoolLiteralExpr>(S) || isa<CharacterLiteral>(S) ||
                     isa<DeclRefExpr>(S) || isa<UnaryExprOrTypeTraitExpr>(S) || isa<BinaryOperator>(S) ||
                     isa<UnaryOperator>(S) || isa<CastExpr>(S) || isa<CallExpr>(S) || isa<SubstNonTypeTemplateParmExpr>(S) || isa<TypeTraitExpr>(S) || isa<ConstantExpr>(S) || isa<ConditionalOperator>(S) || isa<MemberExpr>(S);
      if (tryEval && X->isPRValue()) {
        Expr::EvalResult R;
        if (X->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
          llvm::APSInt V = R.Val.getInt();
          Array A{"int", L};
          if (V.getActiveBits() <= 62 || (V.isSigned() && V.getSignificantBits() <= 62))
            A.push_back((int64_t)V.getExtValue());
          else {
            llvm::SmallString<32> Str; V.toString(Str, 10);
            A.push_back(Str.str().str());
          }
          A.push_back(ty(X->getType()));
          std::string nm;
          if (auto *DR = dyn_cast<DeclRefExpr>(S)) nm = qual(DR->getDecl());
          A.push_back(nm);
          return A;
        }
      }
    }
    switch (X->getStmtClass()) {
    case Stmt::ParenExprClass: return E(cast<ParenExpr>(X)->getSubExpr());
    case Stmt::ExprWithCleanupsClass: return E(cast<ExprWithCleanups>(X)->getSubExpr());
    case Stmt::MaterializeTemporaryExprClass: return E(cast<MaterializeTemporaryExpr>(X)->getSubExpr());
    case Stmt::CXXBindTemporaryExprClass: return E(cast<CXXBindTemporaryExpr>(X)->getSubExpr());
    case Stmt::ConstantExprClass: return E(cast<ConstantExpr>(X)->getSubExpr());
    case Stmt::SubstNonTypeTemplateParmExprClass: return E(cast<SubstNonTypeTemplateParmExpr>(X)->getReplacement());
    case Stmt::CXXDefaultArgExprClass: return E(cast<CXXDefaultArgExpr>(X)->getExpr());
    case Stmt::CXXDefaultInitExprClass: return E(cast<CXXDefaultInitExpr>(X)->getExpr());
    case Stmt::OpaqueValueExprClass: return E(cast<OpaqueValueExpr>(X)->getSourceExpr());
    case Stmt::IntegerLiteralClass: {
      auto V = cast<IntegerLiteral>(X)->getValue();
      return Array{"int", L, (int64_t)V.getZExtValue(), ty(X->getType()), ""};
    }
    case Stmt::CXXBoolLiteralExprClass: return Array{"int", L, (int64_t)cast<CXXBoolLiteralExpr>(X)->getValue(), "bool", ""};
    case Stmt::CharacterLiteralClass: return Array{"int", L, (int64_t)cast<CharacterLiteral>(X)->getValue(), ty(X->getType()), ""};
    case Stmt::FloatingLiteralClass: return Array{"flt", L, cast<FloatingLiteral>(X)->getValueAsApproximateDouble()};
    case Stmt::StringLiteralClass: {
      auto *S = cast<StringLiteral>(X);
      std::string T = S->getCharByteWidth() == 1 ? S->getString().str() : "";
      for (auto &c : T) if ((unsigned char)c >= 128) c = '?';
      return Array{"str", L, T};
    }
    case Stmt::CXXNullPtrLiteralExprClass:
    case Stmt::GNUNullExprClass: return Array{"null", L};
    case Stmt::CXXThisExprClass: return Array{"this", L, ty(X->getType())};
    case Stmt::DeclRefExprClass: {
      auto *D = cast<DeclRefExpr>(X)->getDecl();
      if (auto *V = dyn_cast<VarDecl>(D)) {
        if (V->isLocalVarDeclOrParm() && !V->isStaticLocal())
          return Array{"var", L, id(V), V->getNameAsString(), ty(V->getType())};
        return Array{"gvar", L, qual(V), ty(V->getType())};
      }
      if (auto *B = dyn_cast<BindingDecl>(D)) {
        if (B->getHoldingVar()) return Array{"var", L, id(B->getHoldingVar()), B->getNameAsString(), ty(B->getType())};
        if (B->getBinding()) return E(B->getBinding());
        return Array{"var", L, id(B), B->getNameAsString(), ty(B->getType())};
      }
      if (auto *F = dyn_cast<FunctionDecl>(D)) return Array{"fn", L, key(F), qual(F)};
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        return Array{"int", L, (int64_t)EC->getInitVal().getExtValue(), ty(X->getType()), qual(EC)};
      }
      return Array{"opaque", L, "declref", Array{}, ty(X->getType())};
    }
    case Stmt::MemberExprClass: {
      auto *M = cast<MemberExpr>(X);
      if (auto *V = dyn_cast<VarDecl>(M->getMemberDecl()))
        return Array{"gvar", L, qual(V), ty(V->getType())};
      if (auto *F = dyn_cast<FieldDecl>(M->getMemberDecl()))
        return Array{"mem", L, E(M->getBase()), M->isArrow(), F->getNameAsString(),
                     qual(cast<NamedDecl>(F->getParent())), ty(F->getType())};
      if (auto *F = dyn_cast<FunctionDecl>(M->getMemberDecl()))
        return Array{"fn", L, key(F), qual(F)};
      return Array{"opaque", L, "member", Array{E(M->getBase())}, ty(X->getType())};
    }
    case Stmt::ArraySubscriptExprClass: {
      auto *A = cast<ArraySubscriptExpr>(X);
      return Array{"idx", L, E(A->getBase()), E(A->getIdx()), ty(X->getType())};
    }
    case Stmt::CXXMemberCallExprClass:
    case Stmt::CXXOperatorCallExprClass:
    case Stmt::UserDefinedLiteralClass:
    case Stmt::CallExprClass: return call(cast<CallExpr>(X), L);
    case Stmt::CXXRewrittenBinaryOperatorClass:
      return E(cast<CXXRewrittenBinaryOperator>(X)->getSemanticForm());
    case Stmt::CXXConstructExprClass:
    case Stmt::CXXTemporaryObjectExprClass: {
      auto *K = cast<CXXConstructExpr>(X);
      Array A;
      for (auto *Ar : K->arguments()) A.push_back(E(Ar));
      auto *CD = K->getConstructor();
      std::string kind = CD->isCopyConstructor() ? "copy" : CD->isMoveConstructor() ? "move" : CD->isDefaultConstructor() ? "default" : "user";
      return Array{"ctor", L, ty(X->getType()), key(CD), std::move(A), kind, isa<CXXTemporaryObjectExpr>(X), sig(CD)};
    }
    case Stmt::CXXInheritedCtorInitExprClass: return Array{"opaque", L, "inhctor", Array{}, ty(X->getType())};
    case Stmt::CXXScalarValueInitExprClass:
    case Stmt::ImplicitValueInitExprClass:
      if (X->getType()->isIntegralOrEnumerationType()) return Array{"int", L, 0, ty(X->getType()), ""};
      if (X->getType()->isPointerType()) return Array{"null", L};
      return Array{"opaque", L, "valueinit", Array{}, ty(X->getType())};
    case Stmt::CXXNewExprClass: {
      auto *N = cast<CXXNewExpr>(X);
      Array P;
      for (unsigned i = 0; i < N->getNumPlacementArgs(); i++) P.push_back(E(N->getPlacementArg(i)));
      Value Sz = nullptr;
      if (N->isArray() && N->getArraySize()) Sz = E(*N->getArraySize());
      return Array{"new", L, ty(N->getAllocatedType()), E(N->getInitializer()), std::move(P), std::move(Sz)};
    }
    case Stmt::CXXDeleteExprClass: {
      auto *D = cast<CXXDeleteExpr>(X);
      return Array{"del", L, E(D->getArgument()), D->isArrayForm(), ty(D->getDestroyedType())};
    }
    case Stmt::BinaryOperatorClass:
    case Stmt::CompoundAssignOperatorClass: {
      auto *B = cast<BinaryOperator>(X);
      if (B->isAssignmentOp()) {
        std::string Op = B->getOpcodeStr().str();
        Op.pop_back();
        std::string CT;
        if (auto *CA = dyn_cast<CompoundAssignOperator>(B)) CT = ty(CA->getComputationResultType());
        return Array{"asg", L, Op, E(B->getLHS()), E(B->getRHS()), ty(B->getLHS()->getType()), CT};
      }
      return Array{"bin", L, B->getOpcodeStr().str(), E(B->getLHS()), E(B->getRHS()), ty(X->getType()), ty(B->getLHS()->getType())};
    }
    case Stmt::UnaryOperatorClass: {
      auto *U = cast<UnaryOperator>(X);
      std::string Op = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
      if (U->isIncrementDecrementOp()) Op = (U->isPrefix() ? "pre" : "post") + Op;
      return Array{"un", L, Op, E(U->getSubExpr()), ty(X->getType())};
    }
    case Stmt::ConditionalOperatorClass: {
      auto *K = cast<ConditionalOperator>(X);
      return Array{"cond", L, E(K->getCond()), E(K->getTrueExpr()), E(K->getFalseExpr()), ty(X->getType())};
    }
    case Stmt::ImplicitCastExprClass:
    case Stmt::CStyleCastExprClass:
    case Stmt::CXXStaticCastExprClass:
    case Stmt::CXXReinterpretCastExprClass:
    case Stmt::CXXConstCastExprClass:
    case Stmt::CXXDynamicCastExprClass:
    case Stmt::CXXFunctionalCastExprClass: {
      auto *K = cast<CastExpr>(X);
      auto CK = K->getCastKind();
      if (CK == CK_LValueToRValue || CK == CK_NoOp || CK == CK_FunctionToPointerDecay || CK == CK_ConstructorConversion || CK == CK_UserDefinedConversion || CK == CK_BuiltinFnToFnPtr) {
        if (CK == CK_LValueToRValue) return Array{"rv", L, E(K->getSubExpr()), ty(X->getType())};
        return E(K->getSubExpr());
      }
      return Array{"cast", L, std::string(K->getCastKindName()), ty(K->getSubExpr()->getType()), ty(X->getType()),
                   E(K->getSubExpr()), !isa<ImplicitCastExpr>(X)};
    }
    case Stmt::LambdaExprClass: {
      auto *Lm = cast<LambdaExpr>(X);
      auto *M = Lm->getCallOperator();
      Array Caps;
      auto CI = Lm->capture_init_begin();
      for (auto &Cp : Lm->captures()) {
        Array One;
        if (Cp.capturesVariable()) {
          One = Array{id(Cp.getCapturedVar()), Cp.getCaptureKind() == LCK_ByRef, E(*CI)};
        } else if (Cp.capturesThis()) One = Array{0, true, nullptr};
        Caps.push_back(std::move(One));
        ++CI;
      }
      std::string K = key(M);
      if (M->isDependentContext() || Lm->isGenericLambda()) {
        // generic lambda: emit each specialisation separately via traversal
      } else fn(M);
      return Array{"lambda", L, K, std::move(Caps), id(Lm->getLambdaClass())};
    }
    case Stmt::InitListExprClass: {
      auto *I = cast<InitListExpr>(X);
      Array A;
      for (auto *S : I->inits()) A.push_back(E(S));
      return Array{"init", L, ty(X->getType()), std::move(A)};
    }
    case Stmt::CXXStdInitializerListExprClass: return E(cast<CXXStdInitializerListExpr>(X)->getSubExpr());
    case Stmt::CXXThrowExprClass: {
      auto *T = cast<CXXThrowExpr>(X);
      return Array{"throw", L, T->getSubExpr() ? ty(T->getSubExpr()->getType()) : "rethrow", E(T->getSubExpr())};
    }
    case Stmt::CXXTypeidExprClass: return Array{"opaque", L, "typeid", Array{}, ty(X->getType())};
    case Stmt::CXXPseudoDestructorExprClass:
      return Array{"pdtor", L, E(cast<CXXPseudoDestructorExpr>(X)->getBase())};
    case Stmt::UnaryExprOrTypeTraitExprClass: return Array{"opaque", L, "sizeof", Array{}, ty(X->getType())};
    case Stmt::StmtExprClass: return Array{"opaque", L, "stmtexpr", Array{}, ty(X->getType())};
    default: break;
    }
    Array Kids;
    for (auto *Ch : X->children())
      if (auto *CE = dyn_cast_or_null<Expr>(Ch)) Kids.push_back(E(CE));
    return Array{"opaque", L, X->getStmtClassName(), std::move(Kids), ty(X->getType())};
  }
  Value call(const CallExpr *X, int L) {
    const FunctionDecl *F = X->getDirectCallee();
    if (auto *DR = dyn_cast<CXXPseudoDestructorExpr>(X->getCallee()->IgnoreParens()))
      return Array{"pdtor", L, E(DR->getBase())};
    Array A;
    Value Obj = nullptr;
    bool Arrow = false, Virt = false;
    unsigned start = 0;
    if (auto *MC = dyn_cast<CXXMemberCallExpr>(X)) {
      Obj = E(MC->getImplicitObjectArgument());
      auto *ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParens());
      if (ME) {
        Arrow = ME->isArrow();
        if (auto *M = dyn_cast<CXXMethodDecl>(ME->getMemberDecl()))
          Virt = M->isVirtual() && !ME->hasQualifier();
      }
    } else if (auto *OC = dyn_cast<CXXOperatorCallExpr>(X)) {
      if (F && isa<CXXMethodDecl>(F) && cast<CXXMethodDecl>(F)->isInstance()) {
        Obj = E(OC->getArg(0));
        start = 1;
      }
    }
    for (unsigned i = start; i < X->getNumArgs(); i++) A.push_back(E(X->getArg(i)));
    if (!F) {
      Value Callee = E(X->getCallee());
      return Array{"icall", L, std::move(Callee), std::move(A), std::move(Obj), ty(X->getType())};
    }
    bool isConst = false, isStatic = false;
    std::string rec;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      isConst = M->isConst();
      isStatic = M->isStatic();
      rec = recName(M->getParent());
    }
    return Array{"call", L, key(F), qual(F), std::move(A), std::move(Obj), Arrow, Virt,
                 ty(X->getType()), sig(F), isConst, isStatic, rec, X->isGLValue()};
  }

  // ---- statements ----
  Value S(const Stmt *X) {
    if (!X) return nullptr;
    int L = line(X->getBeginLoc());
    if (auto *Ex = dyn_cast<Expr>(X)) return Array{"expr", L, E(Ex)};
    switch (X->getStmtClass()) {
    case Stmt::CompoundStmtClass: {
      Array A;
      for (auto *Ch : cast<CompoundStmt>(X)->body()) A.push_back(S(Ch));
      return Array{"seq", L, std::move(A)};
    }
    case Stmt::DeclStmtClass: {
      Array A;
      for (auto *D : cast<DeclStmt>(X)->decls()) {
        if (auto *V = dyn_cast<VarDecl>(D)) {
          std::string DK;
          if (auto *R = V->getType().getNonReferenceType()->getAsCXXRecordDecl())
            if (!V->getType()->isReferenceType() && R->hasDefinition())
              if (auto *DD = R->getDestructor()) DK = key(DD);
          Array B;
          if (auto *DD = dyn_cast<DecompositionDecl>(V))
            for (auto *Bd : DD->bindings()) B.push_back(Array{id(Bd), Bd->getNameAsString()});
          A.push_back(Array{"decl", L, id(V), V->getNameAsString(), ty(V->getType()), E(V->getInit()),
                            V->isStaticLocal(), DK, std::move(B)});
        }
      }
      if (A.size() == 1) return std::move(A[0]);
      return Array{"seqns", L, std::move(A)};
    }
    case Stmt::IfStmtClass: {
      auto *I = cast<IfStmt>(X);
      Array Pre;
      if (I->getInit()) Pre.push_back(S(I->getInit()));
      if (I->getConditionVariableDeclStmt()) Pre.push_back(S(I->getConditionVariableDeclStmt()));
      Value If = Array{"if", L, E(I->getCond()), S(I->getThen()), S(I->getElse())};
      if (Pre.empty()) return If;
      Pre.push_back(std::move(If));
      return Array{"seq", L, std::move(Pre)};
    }
    case Stmt::WhileStmtClass: {
      auto *W = cast<WhileStmt>(X);
      if (W->getConditionVariableDeclStmt()) return Array{"opaquestmt", L, "while-decl", Array{S(W->getBody())}};
      return Array{"while", L, E(W->getCond()), S(W->getBody())};
    }
    case Stmt::DoStmtClass: return Array{"do", L, E(cast<DoStmt>(X)->getCond()), S(cast<DoStmt>(X)->getBody())};
    case Stmt::ForStmtClass: {
      auto *F = cast<ForStmt>(X);
      return Array{"for", L, S(F->getInit()), E(F->getCond()), E(F->getInc()), S(F->getBody())};
    }
    case Stmt::CXXForRangeStmtClass: {
      auto *F = cast<CXXForRangeStmt>(X);
      auto *V = F->getLoopVariable();
      Array B;
      if (auto *DD = dyn_cast<DecompositionDecl>(V))
        for (auto *Bd : DD->bindings()) B.push_back(Array{id(Bd), Bd->getNameAsString()});
      return Array{"rfor", L, id(V), V->getNameAsString(), ty(V->getType()), E(F->getRangeInit()), S(F->getBody()), std::move(B)};
    }
    case Stmt::SwitchStmtClass: {
      auto *W = cast<SwitchStmt>(X);
      return Array{"switch", L, E(W->getCond()), S(W->getBody()), ty(W->getCond()->IgnoreParenImpCasts()->getType())};
    }
    case Stmt::CaseStmtClass: {
      auto *K = cast<CaseStmt>(X);
      return Array{"case", L, E(K->getLHS()), S(K->getSubStmt())};
    }
    case Stmt::DefaultStmtClass: return Array{"default", L, S(cast<DefaultStmt>(X)->getSubStmt())};
    case Stmt::ReturnStmtClass: return Array{"ret", L, E(cast<ReturnStmt>(X)->getRetValue())};
    case Stmt::BreakStmtClass: return Array{"break", L};
    case Stmt::ContinueStmtClass: return Array{"cont", L};
    case Stmt::NullStmtClass: return Array{"seq", L, Array{}};
    case Stmt::AttributedStmtClass: return S(cast<AttributedStmt>(X)->getSubStmt());
    case Stmt::CXXTryStmtClass: {
      auto *T = cast<CXXTryStmt>(X);
      Array H;
      for (unsigned i = 0; i < T->getNumHandlers(); i++) {
        auto *K = T->getHandler(i);
        Array One;
        One.push_back(K->getExceptionDecl() ? ty(K->getCaughtType()) : "...");
        One.push_back(K->getExceptionDecl() ? id(K->getExceptionDecl()) : 0);
        One.push_back(S(K->getHandlerBlock()));
        H.push_back(std::move(One));
      }
      return Array{"try", L, S(T->getTryBlock()), std::move(H)};
    }
    default: break;
    }
    Array Kids;
    for (auto *Ch : X->children()) if (Ch) Kids.push_back(S(Ch));
    return Array{"opaquestmt", L, X->getStmtClassName(), std::move(Kids)};
  }

  void emit(Value V) {
    if (!First) OS << ",\n";
    First = false;
    OS << V;
  }
  void fn(const FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody() && !F->isDefaulted()) return;
    if (F->isDependentContext()) return;
    if (!F->doesThisDeclarationHaveABody()) return;
    if (!DoneFn.insert(F->getCanonicalDecl()).second) return;
    std::string Fl = file(F->getLocation());
    if (!inScope(Fl)) return;
    std::string K = key(F);
    if (!Keys.insert(K).second) return;
    Object O;
    O["kind"] = "fn";
    O["key"] = K;
    O["name"] = qual(F);
    O["short"] = F->getNameAsString();
    O["file"] = Fl;
    O["line"] = line(F->getLocation());
    O["end"] = line(F->getEndLoc());
    O["ret"] = ty(F->getReturnType());
    O["sig"] = sig(F);
    Array P;
    for (auto *Pm : F->parameters()) P.push_back(Array{id(Pm), Pm->getNameAsString(), ty(Pm->getType())});
    O["params"] = std::move(P);
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      Array T;
      for (auto &Ar : TA->asArray()) {
        std::string S; llvm::raw_string_ostream Os(S);
        Ar.print(PrintingPolicy(C.getLangOpts()), Os, true); Os.flush();
        T.push_back(S);
      }
      O["targs"] = std::move(T);
    }
    O["nothrow"] = F->getType()->getAs<FunctionProtoType>() ? F->getType()->castAs<FunctionProtoType>()->isNothrow() : false;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["rec"] = recName(M->getParent());
      O["cls"] = recFull(M->getParent());
      O["const"] = M->isConst();
      O["static"] = M->isStatic();
      O["virtual"] = M->isVirtual();
      O["access"] = (int)M->getAccess();
      O["lambda"] = M->getParent()->isLambda();
      Array Ov;
      for (auto *B : M->overridden_methods()) Ov.push_back(key(B));
      O["overrides"] = std::move(Ov);
      if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
        O["isctor"] = true;
        O["ctorkind"] = CD->isCopyConstructor() ? "copy" : CD->isMoveConstructor() ? "move" : CD->isDefaultConstructor() ? "default" : "user";
        Array I;
        for (auto *In : CD->inits()) {
          Array One;
          if (In->isAnyMemberInitializer()) One = Array{"field", In->getAnyMember()->getNameAsString(), E(In->getInit()), In->isWritten(), ty(In->getAnyMember()->getType())};
          else if (In->isBaseInitializer()) One = Array{"base", ty(QualType(In->getBaseClass(), 0)), E(In->getInit()), In->isWritten(), ""};
          else One = Array{"deleg", "", E(In->getInit()), true, ""};
          I.push_back(std::move(One));
        }
        O["inits"] = std::move(I);
      }
      if (isa<CXXDestructorDecl>(F)) O["isdtor"] = true;
      O["implicit"] = F->isImplicit() || F->isDefaulted();
    }
    O["body"] = S(F->getBody());
    emit(std::move(O));
  }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isThisDeclarationADefinition()) fn(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return true;
    std::string Fl = file(R->getLocation());
    if (!inScope(Fl)) return true;
    if (!DoneRec.insert(R).second) return true;
    Object O;
    O["kind"] = "rec";
    O["rec"] = recName(R);
    O["cls"] = recFull(R);
    O["file"] = Fl;
    O["line"] = line(R->getLocation());
    O["abstract"] = R->isAbstract();
    O["polymorphic"] = R->isPolymorphic();
    Array Fs;
    for (auto *F : R->fields())
      Fs.push_back(Object{{"name", F->getNameAsString()}, {"ty", ty(F->getType())}, {"mutable", F->isMutable()},
                          {"access", (int)F->getAccess()}, {"line", line(F->getLocation())},
                          {"init", F->hasInClassInitializer() ? E(F->getInClassInitializer()) : Value(nullptr)}});
    O["fields"] = std::move(Fs);
    Array Bs;
    for (auto &B : R->bases()) {
      std::string bn; 
      if (auto *BR = B.getType()->getAsCXXRecordDecl()) Bs.push_back(Array{recName(BR), recFull(BR)});
    }
    O["bases"] = std::move(Bs);
    Array Ms;
    for (auto *M : R->methods()) {
      Ms.push_back(Object{{"name", M->getNameAsString()}, {"key", key(M)}, {"sig", sig(M)}, {"deleted", M->isDeleted()},
                          {"defaulted", M->isDefaulted()}, {"implicit", M->isImplicit()}, {"access", (int)M->getAccess()},
                          {"virtual", M->isVirtual()}, {"pure", M->isPureVirtual()}, {"const", M->isConst()}, {"static", M->isStatic()},
                          {"body", M->getDefinition() != nullptr}, {"line", line(M->getLocation())}});
    }
    O["methods"] = std::move(Ms);
    O["implcopydeleted"] = R->needsImplicitCopyConstructor() ? R->defaultedCopyConstructorIsDeleted() : false;
    O["needsimplcopy"] = R->needsImplicitCopyConstructor();
    O["needsimplmove"] = R->needsImplicitMoveConstructor();
    O["userdtor"] = R->hasUserDeclaredDestructor();
    O["trivialcopy"] = R->hasTrivialCopyConstructor();
    emit(std::move(O));
    return true;
  }
  bool VisitEnumDecl(EnumDecl *D) {
    if (!D->isThisDeclarationADefinition() || D->isDependentContext()) return true;
    std::string Fl = file(D->getLocation());
    if (!inScope(Fl)) return true;
    Array A;
    for (auto *EC : D->enumerators()) A.push_back(Array{EC->getNameAsString(), (int64_t)EC->getInitVal().getExtValue()});
    emit(Object{{"kind", "enum"}, {"name", qual(D)}, {"file", Fl}, {"line", line(D->getLocation())}, {"items", std::move(A)}});
    return true;
  }
};
class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutFile, EC);
    OS << "[";
    Dumper D(C, OS);
    D.TraverseDecl(C.getTranslationUnitDecl());
    OS << "]\n";
  }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override {
    CI.getDiagnostics().setIgnoreAllWarnings(true);
    return std::make_unique<Consumer>();
  }
};
} // namespace
int main(int argc, const char **argv) {
  auto P = tooling::CommonOptionsParser::create(argc, argv, Cat);
  if (!P) { llvm::errs() << llvm::toString(P.takeError()); return 3; }
  tooling::ClangTool T(P->getCompilations(), P->getSourcePathList());
  return T.run(tooling::newFrontendActionFactory<Action>().get());
}
