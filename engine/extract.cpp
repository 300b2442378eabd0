// Fact extractor: parses one translation unit with clang's front end and writes
// the resolved syntax trees of every function defined in the repository's own
// files, plus records and namespace-scope variables, as one JSON document.
// It makes no judgement; all rules live in the Python analyses that read it.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/FileSystem.h"
using namespace clang;
namespace json = llvm::json;

static llvm::cl::OptionCategory Cat("extract");
static llvm::cl::opt<std::string> Root("root", llvm::cl::desc("repository root prefix"), llvm::cl::cat(Cat));
static llvm::cl::opt<std::string> Out("o", llvm::cl::desc("output"), llvm::cl::cat(Cat));

namespace {
struct X {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  llvm::DenseMap<const Decl *, int> Ids;
  std::vector<json::Value> Lambdas;
  X(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.Bool = 1; PP.FullyQualifiedName = 1;
    PP.PrintCanonicalTypes = 1; PP.SuppressUnwrittenScope = 1;
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "";
    return T.getCanonicalType().getAsString(PP);
  }
  std::string usr(const Decl *D) {
    llvm::SmallString<128> B;
    if (index::generateUSRForDecl(D, B)) return "";
    return std::string(B.str());
  }
  std::string qn(const NamedDecl *D) {
    std::string S; llvm::raw_string_ostream O(S);
    D->printQualifiedName(O, PP); return O.str();
  }
  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto F = SM.getFileEntryRefForID(SM.getFileID(L));
    if (!F) return "";
    StringRef R = F->getFileEntry().tryGetRealPathName();
    return R.empty() ? std::string(F->getName()) : R.str();
  }
  int line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  bool inRepo(SourceLocation L) {
    if (L.isInvalid()) return false;
    std::string F = file(L);
    return StringRef(F).starts_with(Root);
  }
  int id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto It = Ids.find(D);
    if (It != Ids.end()) return It->second;
    int N = Ids.size() + 1; Ids[D] = N; return N;
  }
  json::Object node(const char *K, const Stmt *S) {
    json::Object O; O["k"] = K; O["l"] = line(S->getBeginLoc());
    if (auto *E = dyn_cast<Expr>(S)) {
      O["t"] = ty(E->getType());
      if (E->isLValue()) O["lv"] = true;
    }
    return O;
  }
  json::Value nul() { return json::Value(nullptr); }
  const FunctionDecl *patt(const FunctionDecl *F) { return F; }
  void callee(json::Object &O, const FunctionDecl *F) {
    O["f"] = usr(F); O["n"] = qn(F); O["rt"] = ty(F->getReturnType());
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = qn(M->getParent());
      if (M->isVirtual()) O["virt"] = true;
      if (M->isStatic()) O["static"] = true;
      if (M->isConst()) O["const"] = true;
      if (M->isCopyAssignmentOperator() || M->isMoveAssignmentOperator()) O["assign"] = true;
      if (M->isDefaulted()) O["dflt"] = true;
    }
    if (F->isOverloadedOperator()) O["op"] = getOperatorSpelling(F->getOverloadedOperator());
    json::Array P;
    for (auto *A : F->parameters()) P.push_back(ty(A->getType()));
    O["pt"] = std::move(P);
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      json::Array T;
      for (auto &A : TA->asArray()) { if (A.getKind() == TemplateArgument::Type) T.push_back(ty(A.getAsType())); }
      O["targs"] = std::move(T);
    }
  }
  json::Value ex(const Expr *E) {
    if (!E) return nul();
    // transparent wrappers
    if (auto *P = dyn_cast<ParenExpr>(E)) return ex(P->getSubExpr());
    if (auto *P = dyn_cast<ExprWithCleanups>(E)) return ex(P->getSubExpr());
    if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) return ex(P->getSubExpr());
    if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) return ex(P->getSubExpr());
    if (auto *P = dyn_cast<ConstantExpr>(E)) return ex(P->getSubExpr());
    if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return ex(P->getReplacement());
    if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) { auto V = ex(P->getExpr()); if (auto *O = V.getAsObject()) (*O)["darg"] = true; return V; }
    if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) return ex(P->getExpr());
    if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) return ex(P->getSubExpr());
    if (auto *P = dyn_cast<ImplicitCastExpr>(E)) {
      switch (P->getCastKind()) {
      case CK_IntegralToFloating: case CK_FloatingToIntegral: case CK_IntegralCast:
      case CK_IntegralToBoolean: case CK_FloatingToBoolean: case CK_PointerToBoolean: case CK_FloatingCast: {
        auto O = node("cast", E); O["ck"] = P->getCastKindName(); O["e"] = ex(P->getSubExpr()); return std::move(O);
      }
      case CK_UserDefinedConversion: case CK_ConstructorConversion: return ex(P->getSubExpr());
      case CK_DerivedToBase: case CK_UncheckedDerivedToBase: {
        auto O = node("upcast", E); O["e"] = ex(P->getSubExpr()); return std::move(O);
      }
      default: return ex(P->getSubExpr());
      }
    }
    if (auto *P = dyn_cast<ExplicitCastExpr>(E)) {
      const char *W = "cast";
      if (isa<CXXDynamicCastExpr>(P)) W = "dyncast";
      else if (isa<CXXConstCastExpr>(P)) W = "constcast";
      else if (isa<CXXReinterpretCastExpr>(P)) W = "reinterpret";
      auto O = node(W, E); O["ck"] = P->getCastKindName(); O["x"] = true;
      O["st"] = ty(P->getSubExpr()->getType());
      if (isa<CStyleCastExpr>(P)) O["cstyle"] = true;
      O["tw"] = ty(P->getTypeAsWritten());
      O["e"] = ex(P->getSubExpr()); return std::move(O);
    }
    if (auto *P = dyn_cast<IntegerLiteral>(E)) {
      auto O = node("int", E); llvm::SmallString<32> S; P->getValue().toString(S, 10, P->getType()->isSignedIntegerType());
      O["v"] = std::string(S.str()); return std::move(O);
    }
    if (auto *P = dyn_cast<CharacterLiteral>(E)) { auto O = node("char", E); O["v"] = (int64_t)P->getValue(); return std::move(O); }
    if (auto *P = dyn_cast<FloatingLiteral>(E)) { auto O = node("real", E); O["v"] = P->getValueAsApproximateDouble(); return std::move(O); }
    if (auto *P = dyn_cast<StringLiteral>(E)) { auto O = node("str", E);
      std::string S = P->getCharByteWidth() == 1 ? P->getBytes().str() : std::string("?");
      O["v"] = json::fixUTF8(S); return std::move(O); }
    if (auto *P = dyn_cast<CXXBoolLiteralExpr>(E)) { auto O = node("bool", E); O["v"] = P->getValue(); return std::move(O); }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return node("nullptr", E);
    if (isa<CXXThisExpr>(E)) return node("this", E);
    if (auto *P = dyn_cast<DeclRefExpr>(E)) {
      auto O = node("ref", E); const ValueDecl *D = P->getDecl();
      O["n"] = D->getNameAsString();
      if (auto *V = dyn_cast<VarDecl>(D)) {
        if (isa<ParmVarDecl>(V)) { O["dk"] = "param"; O["d"] = id(V); }
        else if (V->isLocalVarDecl() && !V->isStaticLocal()) { O["dk"] = "local"; O["d"] = id(V); }
        else { O["dk"] = V->isStaticLocal() ? "slocal" : "global"; O["n"] = qn(V); O["d"] = usr(V); O["isconst"] = V->getType().isConstQualified(); }
      } else if (auto *F = dyn_cast<FunctionDecl>(D)) { O["dk"] = "func"; O["d"] = usr(F); O["n"] = qn(F); }
      else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { O["dk"] = "enum"; llvm::SmallString<32> S; EC->getInitVal().toString(S, 10); O["v"] = std::string(S.str()); O["n"] = qn(EC); }
      else O["dk"] = "other";
      return std::move(O);
    }
    if (auto *P = dyn_cast<MemberExpr>(E)) {
      auto O = node("mem", E); O["n"] = P->getMemberDecl()->getNameAsString();
      if (auto *F = dyn_cast<FieldDecl>(P->getMemberDecl())) { O["cls"] = qn(F->getParent()); if (F->isMutable()) O["mutable"] = true; }
      else if (auto *V = dyn_cast<VarDecl>(P->getMemberDecl())) { O["k"] = "ref"; O["dk"] = "global"; O["n"] = qn(V); O["d"] = usr(V); return std::move(O); }
      else if (auto *M = dyn_cast<CXXMethodDecl>(P->getMemberDecl())) { O["method"] = usr(M); }
      O["arrow"] = P->isArrow(); O["b"] = ex(P->getBase()); return std::move(O);
    }
    if (auto *P = dyn_cast<CXXMemberCallExpr>(E)) {
      auto O = node("call", E);
      if (auto *M = P->getMethodDecl()) {
        callee(O, M);
        if (auto *ME = dyn_cast<MemberExpr>(P->getCallee()->IgnoreParens())) {
          O["arrow"] = ME->isArrow();
          if (ME->hasQualifier()) O["qual"] = true; // explicit Base::f(): static dispatch
        }
        O["obj"] = ex(P->getImplicitObjectArgument());
        O["objt"] = ty(P->getImplicitObjectArgument()->getType());
      } else O["indirect"] = ex(P->getCallee());
      json::Array A; for (auto *X : P->arguments()) A.push_back(ex(X));
      O["a"] = std::move(A); return std::move(O);
    }
    if (auto *P = dyn_cast<CallExpr>(E)) {
      auto O = node("call", E);
      unsigned First = 0;
      if (auto *F = P->getDirectCallee()) {
        callee(O, F);
        if (isa<CXXOperatorCallExpr>(P) && isa<CXXMethodDecl>(F) && P->getNumArgs() > 0) {
          O["obj"] = ex(P->getArg(0)); O["objt"] = ty(P->getArg(0)->getType()); O["arrow"] = false; First = 1;
        }
      } else O["indirect"] = ex(P->getCallee());
      if (isa<CXXOperatorCallExpr>(P)) O["opcall"] = true;
      json::Array A; for (unsigned I = First; I < P->getNumArgs(); ++I) A.push_back(ex(P->getArg(I)));
      O["a"] = std::move(A); return std::move(O);
    }
    if (auto *P = dyn_cast<CXXConstructExpr>(E)) {
      auto *K = P->getConstructor();
      auto O = node("ctor", E); callee(O, K);
      if (K->isCopyOrMoveConstructor()) { O["copy"] = true; if (!K->isUserProvided()) O["trivialcopy"] = true; }
      if (K->isDefaultConstructor()) O["dfltctor"] = true;
      if (!K->isUserProvided()) O["implicit"] = true;
      if (P->isElidable()) O["elide"] = true;
      if (P->isListInitialization()) O["list"] = true;
      json::Array A; for (auto *X : P->arguments()) A.push_back(ex(X));
      O["a"] = std::move(A); return std::move(O);
    }
    if (auto *P = dyn_cast<CXXNewExpr>(E)) {
      auto O = node("new", E); O["at"] = ty(P->getAllocatedType()); O["array"] = P->isArray();
      O["init"] = P->hasInitializer() || P->getConstructExpr() ? ex(P->getConstructExpr() ? P->getConstructExpr() : P->getInitializer()) : nul();
      return std::move(O);
    }
    if (auto *P = dyn_cast<CXXDeleteExpr>(E)) { auto O = node("delete", E); O["e"] = ex(P->getArgument()); O["array"] = P->isArrayForm(); return std::move(O); }
    if (auto *P = dyn_cast<UnaryOperator>(E)) {
      if (P->getOpcode() == UO_AddrOf && P->getType()->isMemberPointerType())
        if (auto *D = dyn_cast<DeclRefExpr>(P->getSubExpr()->IgnoreParens()))
          if (auto *FD = dyn_cast<FieldDecl>(D->getDecl())) { auto O = node("memptr", E); O["n"] = FD->getNameAsString(); return std::move(O); }
      auto O = node("un", E); O["op"] = UnaryOperator::getOpcodeStr(P->getOpcode()).str(); O["post"] = P->isPostfix(); O["e"] = ex(P->getSubExpr()); return std::move(O);
    }
    if (auto *P = dyn_cast<CompoundAssignOperator>(E)) {
      auto O = node("asgop", E); O["op"] = P->getOpcodeStr().drop_back(1).str(); O["a"] = ex(P->getLHS()); O["b"] = ex(P->getRHS()); return std::move(O);
    }
    if (auto *P = dyn_cast<BinaryOperator>(E)) {
      if (P->isPtrMemOp() && !P->getRHS()->getType()->isMemberFunctionPointerType()) {
        auto O = node("pmem", E); O["arrow"] = P->getOpcode() == BO_PtrMemI; O["b"] = ex(P->getLHS()); O["p"] = ex(P->getRHS()); return std::move(O);
      }
      auto O = node(P->isAssignmentOp() ? "asg" : "bin", E); O["op"] = P->getOpcodeStr().str(); O["a"] = ex(P->getLHS()); O["b"] = ex(P->getRHS()); O["lt"] = ty(P->getLHS()->getType()); return std::move(O);
    }
    if (auto *P = dyn_cast<ConditionalOperator>(E)) {
      auto O = node("cond", E); O["c"] = ex(P->getCond()); O["a"] = ex(P->getTrueExpr()); O["b"] = ex(P->getFalseExpr()); return std::move(O);
    }
    if (auto *P = dyn_cast<ArraySubscriptExpr>(E)) { auto O = node("sub", E); O["a"] = ex(P->getBase()); O["b"] = ex(P->getIdx());
      QualType BT = P->getBase()->IgnoreParenImpCasts()->getType(); O["bt"] = ty(BT);
      if (auto *CA = C.getAsConstantArrayType(BT)) O["n"] = (int64_t)CA->getSize().getZExtValue();
      return std::move(O); }
    if (auto *P = dyn_cast<InitListExpr>(E)) {
      if (P->isTransparent()) return ex(P->getInit(0));
      auto O = node("ilist", E); json::Array A; for (auto *X : P->inits()) A.push_back(ex(X)); O["a"] = std::move(A); return std::move(O);
    }
    if (auto *P = dyn_cast<CXXThrowExpr>(E)) { auto O = node("throw", E); O["e"] = ex(P->getSubExpr());
      if (P->getSubExpr()) O["tt"] = ty(P->getSubExpr()->getType()); return std::move(O); }
    if (auto *P = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      auto O = node("sizeof", E); Expr::EvalResult R;
      if (P->EvaluateAsInt(R, C)) O["v"] = llvm::toString(R.Val.getInt(), 10); return std::move(O);
    }
    if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) return node("zero", E);
    if (isa<CXXTypeidExpr>(E)) return node("typeid", E);
    if (auto *P = dyn_cast<LambdaExpr>(E)) {
      auto O = node("lambda", E);
      O["f"] = usr(P->getCallOperator());
      json::Array Cs;
      for (auto &Cp : P->captures()) if (Cp.capturesVariable()) { json::Object Q; Q["d"] = id(Cp.getCapturedVar()); Q["n"] = Cp.getCapturedVar()->getNameAsString(); Q["byref"] = Cp.getCaptureKind() == LCK_ByRef; Cs.push_back(std::move(Q)); }
      else if (Cp.capturesThis()) Cs.push_back(json::Object{{"this", true}});
      O["cap"] = std::move(Cs);
      json::Array Ps; for (auto *A : P->getCallOperator()->parameters()) Ps.push_back(parm(A));
      O["params"] = std::move(Ps); O["body"] = st(P->getBody());
      return std::move(O);
    }
    if (auto *P = dyn_cast<ArrayInitLoopExpr>(E)) { auto O = node("arrcopy", E); O["e"] = ex(P->getCommonExpr()->getSourceExpr()); return std::move(O); }
    auto O = node("other", E); O["cls"] = E->getStmtClassName();
    json::Array A; for (auto *S : E->children()) if (auto *X = dyn_cast_or_null<Expr>(S)) A.push_back(ex(X)); O["a"] = std::move(A);
    return std::move(O);
  }
  json::Value parm(const ParmVarDecl *A) {
    json::Object P; P["d"] = id(A); P["n"] = A->getNameAsString(); P["t"] = ty(A->getType()); P["def"] = A->hasDefaultArg();
    if (A->hasDefaultArg() && !A->hasUninstantiatedDefaultArg() && !A->hasUnparsedDefaultArg()) P["dv"] = ex(A->getDefaultArg());
    return std::move(P);
  }
  json::Value var(const VarDecl *V) {
    json::Object O; O["d"] = id(V); O["n"] = V->getNameAsString(); O["t"] = ty(V->getType()); O["l"] = line(V->getLocation());
    if (V->isStaticLocal()) { O["static"] = true; O["u"] = usr(V); }
    O["init"] = V->getInit() ? ex(V->getInit()) : nul();
    return std::move(O);
  }
  json::Value st(const Stmt *S) {
    if (!S) return nul();
    if (auto *P = dyn_cast<Expr>(S)) { auto O = node("expr", S); O.erase("t"); O["e"] = ex(P); return std::move(O); }
    if (auto *P = dyn_cast<CompoundStmt>(S)) { auto O = node("block", S); json::Array A; for (auto *X : P->body()) A.push_back(st(X)); O["s"] = std::move(A); return std::move(O); }
    if (auto *P = dyn_cast<DeclStmt>(S)) { auto O = node("decl", S); json::Array A; for (auto *D : P->decls()) if (auto *V = dyn_cast<VarDecl>(D)) A.push_back(var(V)); O["v"] = std::move(A); return std::move(O); }
    if (auto *P = dyn_cast<IfStmt>(S)) { auto O = node("if", S); O["init"] = st(P->getInit());
      if (P->getConditionVariable()) O["cv"] = var(P->getConditionVariable());
      O["c"] = ex(P->getCond()); O["a"] = st(P->getThen()); O["b"] = st(P->getElse()); return std::move(O); }
    if (auto *P = dyn_cast<ForStmt>(S)) { auto O = node("for", S); O["init"] = st(P->getInit()); O["c"] = ex(P->getCond()); O["inc"] = ex(P->getInc()); O["body"] = st(P->getBody()); return std::move(O); }
    if (auto *P = dyn_cast<WhileStmt>(S)) { auto O = node("while", S); O["c"] = ex(P->getCond()); if (P->getConditionVariable()) O["cv"] = var(P->getConditionVariable()); O["body"] = st(P->getBody()); return std::move(O); }
    if (auto *P = dyn_cast<DoStmt>(S)) { auto O = node("do", S); O["c"] = ex(P->getCond()); O["body"] = st(P->getBody()); return std::move(O); }
    if (auto *P = dyn_cast<CXXForRangeStmt>(S)) { auto O = node("range", S); O["var"] = var(P->getLoopVariable()); O["range"] = ex(P->getRangeInit()); O["rt"] = ty(P->getRangeInit()->getType()); O["body"] = st(P->getBody()); return std::move(O); }
    if (auto *P = dyn_cast<SwitchStmt>(S)) { auto O = node("switch", S); O["c"] = ex(P->getCond()); O["body"] = st(P->getBody()); return std::move(O); }
    if (auto *P = dyn_cast<CaseStmt>(S)) { auto O = node("case", S); Expr::EvalResult R; if (P->getLHS()->EvaluateAsInt(R, C)) O["v"] = llvm::toString(R.Val.getInt(), 10); O["s"] = st(P->getSubStmt()); return std::move(O); }
    if (auto *P = dyn_cast<DefaultStmt>(S)) { auto O = node("default", S); O["s"] = st(P->getSubStmt()); return std::move(O); }
    if (isa<BreakStmt>(S)) return node("break", S);
    if (isa<ContinueStmt>(S)) return node("continue", S);
    if (isa<NullStmt>(S)) return node("null", S);
    if (auto *P = dyn_cast<ReturnStmt>(S)) { auto O = node("return", S); O["e"] = ex(P->getRetValue()); return std::move(O); }
    if (auto *P = dyn_cast<CXXTryStmt>(S)) { auto O = node("try", S); O["body"] = st(P->getTryBlock()); json::Array A;
      for (unsigned I = 0; I < P->getNumHandlers(); ++I) { auto *H = P->getHandler(I); json::Object Q; if (H->getExceptionDecl()) Q["v"] = var(H->getExceptionDecl()); Q["body"] = st(H->getHandlerBlock()); A.push_back(std::move(Q)); }
      O["h"] = std::move(A); return std::move(O); }
    if (auto *P = dyn_cast<AttributedStmt>(S)) return st(P->getSubStmt());
    if (auto *P = dyn_cast<LabelStmt>(S)) { auto O = node("label", S); O["s"] = st(P->getSubStmt()); return std::move(O); }
    auto O = node("ostmt", S); O["cls"] = S->getStmtClassName(); return std::move(O);
  }
  json::Object fn(const FunctionDecl *F) {
    json::Object O; O["u"] = usr(F); O["n"] = qn(F); O["file"] = file(F->getLocation()); O["l"] = line(F->getBeginLoc()); O["el"] = line(F->getEndLoc());
    O["ret"] = ty(F->getReturnType());
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = qn(M->getParent()); O["const"] = M->isConst(); O["static"] = M->isStatic(); O["virt"] = M->isVirtual();
      O["acc"] = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private";
    }
    O["kind"] = isa<CXXConstructorDecl>(F) ? "ctor" : isa<CXXDestructorDecl>(F) ? "dtor" : isa<CXXMethodDecl>(F) ? "method" : "func";
    O["linkage"] = F->isExternallyVisible(); 
    json::Array P; for (auto *A : F->parameters()) P.push_back(parm(A)); O["params"] = std::move(P);
    if (F->isDefaulted()) O["dflt"] = true;
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      json::Array I;
      for (auto *In : K->inits()) {
        json::Object Q; Q["written"] = In->isWritten();
        if (In->isAnyMemberInitializer()) { Q["field"] = In->getAnyMember()->getNameAsString(); Q["ft"] = ty(In->getAnyMember()->getType()); }
        else if (In->isBaseInitializer()) Q["base"] = ty(QualType(In->getBaseClass(), 0));
        else if (In->isDelegatingInitializer()) Q["deleg"] = true;
        Q["e"] = ex(In->getInit()); I.push_back(std::move(Q));
      }
      O["inits"] = std::move(I);
    }
    O["body"] = st(F->getBody());
    return O;
  }
};

class V : public RecursiveASTVisitor<V> {
public:
  X &x; json::Array Fn, Rec, Gl, Decls;
  std::set<std::string> SeenR;
  V(X &x) : x(x) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!x.inRepo(F->getLocation())) return true;
    if (F->isDependentContext()) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
    if (F->isThisDeclarationADefinition() && F->getBody() && !F->isDeleted()) Fn.push_back(x.fn(F));
    else if (!isa<CXXMethodDecl>(F)) {
      json::Object O; O["u"] = x.usr(F); O["n"] = x.qn(F); O["file"] = x.file(F->getLocation()); O["l"] = x.line(F->getLocation()); O["deleted"] = F->isDeleted();
      O["ret"] = x.ty(F->getReturnType()); json::Array P; for (auto *A : F->parameters()) P.push_back(x.parm(A)); O["params"] = std::move(P);
      Decls.push_back(std::move(O));
    }
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || !x.inRepo(R->getLocation()) || R->isLambda() || R->isDependentContext()) return true;
    json::Object O; O["n"] = x.qn(R); O["file"] = x.file(R->getLocation()); O["l"] = x.line(R->getLocation());
    json::Array B; for (auto &Bs : R->bases()) B.push_back(x.ty(Bs.getType())); O["bases"] = std::move(B);
    json::Array F; for (auto *D : R->fields()) { json::Object Q; Q["n"] = D->getNameAsString(); Q["t"] = x.ty(D->getType()); Q["mutable"] = D->isMutable(); Q["l"] = x.line(D->getLocation());
      Q["acc"] = D->getAccess() == AS_public ? "public" : "private";
      Q["init"] = D->hasInClassInitializer() ? x.ex(D->getInClassInitializer()) : x.nul(); F.push_back(std::move(Q)); } O["fields"] = std::move(F);
    json::Array M; 
    for (auto *D : R->methods()) { if (D->isImplicit()) continue; json::Object Q; Q["u"] = x.usr(D); Q["n"] = x.qn(D); Q["l"] = x.line(D->getLocation()); Q["deleted"] = D->isDeleted(); Q["dflt"] = D->isDefaulted(); Q["pure"] = D->isPureVirtual(); Q["const"] = D->isConst(); Q["virt"] = D->isVirtual(); Q["static"] = D->isStatic();
      Q["acc"] = D->getAccess() == AS_public ? "public" : D->getAccess() == AS_protected ? "protected" : "private"; Q["ret"] = x.ty(D->getReturnType());
      Q["kind"] = isa<CXXConstructorDecl>(D) ? "ctor" : isa<CXXDestructorDecl>(D) ? "dtor" : "method";
      Q["inl"] = D->isThisDeclarationADefinition();
      json::Array Ov; for (auto *OM : D->overridden_methods()) Ov.push_back(x.usr(OM)); Q["over"] = std::move(Ov);
      json::Array P; for (auto *A : D->parameters()) P.push_back(x.parm(A)); Q["params"] = std::move(P); M.push_back(std::move(Q)); }
    O["methods"] = std::move(M);
    Rec.push_back(std::move(O)); return true;
  }
  bool VisitVarDecl(VarDecl *D) {
    if (isa<ParmVarDecl>(D) || !x.inRepo(D->getLocation())) return true;
    if (!D->hasGlobalStorage() || D->getDeclContext()->isDependentContext()) return true;
    json::Object O; O["u"] = x.usr(D); O["n"] = x.qn(D); O["t"] = x.ty(D->getType()); O["file"] = x.file(D->getLocation()); O["l"] = x.line(D->getLocation());
    O["const"] = D->getType().isConstQualified(); O["slocal"] = D->isStaticLocal(); O["internal"] = !D->isExternallyVisible();
    O["isdef"] = D->isThisDeclarationADefinition() != VarDecl::DeclarationOnly;
    O["init"] = D->getInit() ? x.ex(D->getInit()) : x.nul(); Gl.push_back(std::move(O)); return true;
  }
};
class Cons : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    X x(C); V v(x); v.TraverseDecl(C.getTranslationUnitDecl());
    json::Object O; O["functions"] = std::move(v.Fn); O["records"] = std::move(v.Rec); O["globals"] = std::move(v.Gl); O["decls"] = std::move(v.Decls);
    O["errors"] = (int64_t)C.getDiagnostics().hasErrorOccurred();
    std::error_code EC; llvm::raw_fd_ostream OS(Out, EC); OS << json::Value(std::move(O));
  }
};
class Act : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Cons>(); }
};
} // namespace
int main(int argc, const char **argv) {
  auto P = tooling::CommonOptionsParser::create(argc, argv, Cat);
  if (!P) { llvm::errs() << llvm::toString(P.takeError()); return 2; }
  tooling::ClangTool T(P->getCompilations(), P->getSourcePathList());
  return T.run(tooling::newFrontendActionFactory<Act>().get());
}
