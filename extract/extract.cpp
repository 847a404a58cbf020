// extract ROOT[,ROOT...] FILE.cpp -- compiler args...
// Dumps, as JSON on stdout, the type-resolved AST of every function (template instantiations, lambdas included), record
// and global variable whose definition lies under one of the ROOT directories.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Basic/Diagnostic.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace clang;
namespace json = llvm::json;
using json::Array;
using json::Object;
using json::Value;

static std::vector<std::string> Roots, RecRoots;
static unsigned NErrors = 0;

struct Dumper {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const Decl *, unsigned> Ids;
  unsigned Next = 0;
  Dumper(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
  }
  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto F = SM.getFilename(L);
    return F.str();
  }
  bool inRecRoots(const Decl *D) {
    std::string f = file(D->getLocation());
    for (auto &r : RecRoots)
      if (f.compare(0, r.size(), r) == 0) return true;
    return inRoots(D);
  }
  unsigned line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  bool inRoots(const Decl *D) {
    std::string f = file(D->getLocation());
    for (auto &r : Roots)
      if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "?";
    T = T.getCanonicalType();
    std::string pre, post;
    if (T->isLValueReferenceType() || T->isRValueReferenceType()) {
      QualType I = T->getPointeeType();
      return std::string(I.isConstQualified() ? "const " : "") + ty(I.getUnqualifiedType()) + "&";
    }
    if (T->isPointerType() && !T->getPointeeType()->isFunctionType()) return ty(T->getPointeeType().getUnqualifiedType()) + "*";
    T = T.getUnqualifiedType();
    std::string s = T.getAsString(PP);
    if (s.size() > 700) {
      if (auto *R = T->getAsCXXRecordDecl()) return R->getQualifiedNameAsString() + "<...>";
      s = s.substr(0, 700);
    }
    return s;
  }
  std::string cat(QualType T) {
    T = T.getCanonicalType().getNonReferenceType();
    if (T->isBooleanType()) return "b";
    if (T->isEnumeralType()) return "e";
    if (T->isUnsignedIntegerType()) return "u";
    if (T->isIntegerType()) return "i";
    if (T->isRealFloatingType()) return "f";
    if (T->isPointerType() || T->isNullPtrType()) return "p";
    if (T->isRecordType()) return "r";
    if (T->isArrayType()) return "a";
    if (T->isVoidType()) return "v";
    return "o";
  }
  std::string fid(const FunctionDecl *F) {
    std::string s;
    llvm::raw_string_ostream os(s);
    F->getNameForDiagnostic(os, PP, true);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->getParent()->isLambda()) os << "@" << SM.getExpansionLoc(M->getParent()->getLocation()).getRawEncoding();
      else if (isa<ClassTemplateSpecializationDecl>(M->getParent())) os << "@" << ty(C.getRecordType(M->getParent()));
    }
    else if (F->isInAnonymousNamespace() || F->getFormalLinkage() == Linkage::Internal) {
      std::string f = file(F->getLocation());
      size_t k = f.rfind('/');
      os << "@" << (k == std::string::npos ? f : f.substr(k + 1));
    }
    os << "(";
    for (auto *P : F->parameters()) os << ty(P->getType()) << ",";
    os << ")";
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->isConst()) os << "const";
    return os.str();
  }
  std::string qn(const NamedDecl *F) { return F->getQualifiedNameAsString(); }
  std::string vid(const ValueDecl *D) {
    auto *CD = cast<ValueDecl>(D->getCanonicalDecl());
    auto it = Ids.find(CD);
    if (it == Ids.end()) it = Ids.emplace(CD, Next++).first;
    return D->getNameAsString() + "#" + std::to_string(it->second);
  }
  static const Expr *strip(const Expr *E) {
    while (E) {
      if (auto *X = dyn_cast<ParenExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<FullExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = X->getReplacement();
      else if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) E = X->getExpr();
      else if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) E = X->getExpr();
      else if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<OpaqueValueExpr>(E)) { if (!X->getSourceExpr()) return E; E = X->getSourceExpr(); }
      else if (auto *X = dyn_cast<CastExpr>(E)) {
        switch (X->getCastKind()) {
          case CK_LValueToRValue: case CK_NoOp: case CK_UserDefinedConversion: case CK_ConstructorConversion:
          case CK_DerivedToBase: case CK_UncheckedDerivedToBase: case CK_BaseToDerived: case CK_FunctionToPointerDecay:
          case CK_ArrayToPointerDecay: case CK_NullToPointer: case CK_ToVoid: case CK_BitCast: case CK_LValueBitCast:
            E = X->getSubExpr(); break;
          default: return E;
        }
      } else break;
    }
    return E;
  }
  bool constVal(const Expr *E, Object &O) {
    QualType T = E->getType();
    if (T.isNull() || E->isValueDependent() || E->isTypeDependent() || E->isInstantiationDependent()) return false;
    T = T.getCanonicalType();
    if (!(T->isIntegralOrEnumerationType() || T->isRealFloatingType())) return false;
    if (isa<InitListExpr>(E)) return false;
    Expr::EvalResult R;
    if (!E->EvaluateAsRValue(R, C) || R.HasSideEffects) return false;
    O["k"] = "num";
    O["t"] = cat(T);
    if (T->isEnumeralType()) O["ty"] = ty(T);
    if (R.Val.isInt()) {
      llvm::SmallString<32> s;
      R.Val.getInt().toString(s, 10);
      O["v"] = std::string(s.str());
      return true;
    }
    if (R.Val.isFloat()) {
      llvm::APFloat f = R.Val.getFloat();
      if (f.isNaN()) O["v"] = "nan";
      else if (f.isInfinity()) O["v"] = f.isNegative() ? "-inf" : "inf";
      else {
        llvm::SmallString<32> s;
        bool isf = &f.getSemantics() == &llvm::APFloat::IEEEsingle();
        char buf[64];
        bool lose;
        f.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &lose);
        snprintf(buf, sizeof buf, isf ? "%.9g" : "%.17g", f.convertToDouble());
        O["v"] = std::string(buf);
      }
      return true;
    }
    return false;
  }
  Value fnref(const FunctionDecl *F) {
    Object O{{"k", "fn"}, {"f", fid(F)}, {"n", qn(F)}};
    return O;
  }
  Array args(llvm::ArrayRef<const Expr *> A) {
    Array r;
    for (auto *e : A) r.push_back(ex(e));
    return r;
  }
  template <typename R> Array argsR(R &&A) {
    Array r;
    for (const Expr *e : A) r.push_back(ex(e));
    return r;
  }
  Value ex(const Expr *E0) {
    const Expr *E = strip(E0);
    if (!E) return nullptr;
    Object O;
    if (!isa<CXXThisExpr>(E) && constVal(E, O)) return O;
    O["l"] = line(E->getExprLoc());
    O["t"] = cat(E->getType());
    if (auto *X = dyn_cast<StringLiteral>(E)) {
      O["k"] = "str"; O["v"] = X->isUTF8() || X->isOrdinary() ? json::fixUTF8(X->getString()) : std::string("?"); return O;
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { O["k"] = "null"; return O; }
    if (isa<CXXThisExpr>(E)) { O["k"] = "this"; return O; }
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      if (auto *F = dyn_cast<FunctionDecl>(X->getDecl())) return fnref(F);
      if (auto *EC = dyn_cast<EnumConstantDecl>(X->getDecl())) {
        llvm::SmallString<32> s; EC->getInitVal().toString(s, 10);
        O["k"] = "num"; O["v"] = std::string(s.str()); O["t"] = "e"; O["ty"] = ty(EC->getType()); return O;
      }
      if (auto *V = dyn_cast<VarDecl>(X->getDecl())) {
        if (V->isLocalVarDeclOrParm()) {
          O["k"] = "var"; O["id"] = vid(V); O["ty"] = ty(V->getType());
          if (V->isStaticLocal()) O["static"] = true;
        } else { O["k"] = "gvar"; O["n"] = qn(V); O["ty"] = ty(V->getType()); }
        return O;
      }
      if (auto *B = dyn_cast<BindingDecl>(X->getDecl())) { O["k"] = "var"; O["id"] = vid(B); return O; }
      O["k"] = "unk"; O["d"] = "declref"; return O;
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      if (auto *F = dyn_cast<FieldDecl>(X->getMemberDecl())) {
        O["k"] = "mem"; O["f"] = F->getNameAsString(); O["o"] = ex(X->getBase()); O["arrow"] = X->isArrow();
        O["cls"] = qn(F->getParent()); O["ty"] = ty(F->getType());
        if (F->getNameAsString().empty()) O["anon"] = true;
        return O;
      }
      if (auto *V = dyn_cast<VarDecl>(X->getMemberDecl())) { O["k"] = "gvar"; O["n"] = qn(V); return O; }
      if (auto *F = dyn_cast<FunctionDecl>(X->getMemberDecl())) { O["k"] = "fn"; O["f"] = fid(F); O["n"] = qn(F); return O; }
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      O["k"] = "opcall"; O["op"] = getOperatorSpelling(X->getOperator());
      if (auto *F = X->getDirectCallee()) { O["f"] = fid(F); O["n"] = qn(F); O["meth"] = isa<CXXMethodDecl>(F);
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) { if (M->isCopyAssignmentOperator() || M->isMoveAssignmentOperator()) O["asg"] = true; O["lam"] = M->getParent()->isLambda(); O["cst"] = M->isConst(); } }
      O["a"] = argsR(X->arguments());
      O["ty"] = ty(E->getType());
      O["oty"] = X->getNumArgs() ? ty(X->getArg(0)->getType()) : "";
      return O;
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      O["k"] = "mcall";
      auto *ME = dyn_cast<MemberExpr>(strip(X->getCallee()));
      if (auto *F = X->getMethodDecl()) { O["f"] = fid(F); O["n"] = qn(F); O["cls"] = qn(F->getParent()); O["virt"] = F->isVirtual(); O["cst"] = F->isConst();
        if (auto *Conv = dyn_cast<CXXConversionDecl>(F)) { O["conv"] = cat(Conv->getConversionType()); }
        O["m"] = F->getNameAsString(); 
        if (auto *TA = F->getTemplateSpecializationArgs()) { Array ta; for (auto &A : TA->asArray()) { std::string s; llvm::raw_string_ostream os(s); A.print(PP, os, true); ta.push_back(os.str()); } O["ta"] = std::move(ta); } }
      if (ME) { O["o"] = ex(ME->getBase()); O["arrow"] = ME->isArrow(); if (ME->hasQualifier()) O["qual"] = true; O["oty"] = ty(ME->isArrow() ? ME->getBase()->getType()->getPointeeType() : ME->getBase()->getType()); }
      O["a"] = argsR(X->arguments());
      O["ty"] = ty(E->getType());
      return O;
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      O["k"] = "call";
      if (auto *F = X->getDirectCallee()) { O["f"] = fid(F); O["n"] = qn(F); 
        if (auto *TA = F->getTemplateSpecializationArgs()) { Array ta; for (auto &A : TA->asArray()) { std::string s; llvm::raw_string_ostream os(s); A.print(PP, os, true); ta.push_back(os.str()); } O["ta"] = std::move(ta); } }
      else O["callee"] = ex(X->getCallee());
      O["a"] = argsR(X->arguments());
      O["ty"] = ty(E->getType());
      return O;
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      auto *CD = X->getConstructor();
      O["k"] = "ctor"; O["cls"] = qn(CD->getParent()); O["f"] = fid(CD); O["ty"] = ty(E->getType());
      if (CD->isCopyOrMoveConstructor()) O["copy"] = true;
      if (CD->isMoveConstructor()) O["move"] = true;
      if (CD->isDefaultConstructor()) O["def"] = true;
      if (X->isListInitialization()) O["list"] = true;
      if (X->requiresZeroInitialization()) O["zero"] = true;
      O["impl"] = CD->isImplicit() || CD->isDefaulted();
      Array a;
      for (unsigned i = 0; i < X->getNumArgs(); i++) a.push_back(ex(X->getArg(i)));
      O["a"] = std::move(a);
      return O;
    }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      if (X->isSemanticForm() == false && X->getSemanticForm()) X = X->getSemanticForm();
      O["k"] = "ilist"; O["ty"] = ty(E->getType());
      if (auto *R = E->getType()->getAsCXXRecordDecl()) {
        O["cls"] = qn(R);
        Array fs;
        for (auto &B : R->bases()) { fs.push_back("<base>" + ty(B.getType())); }
        for (auto *F : R->fields()) fs.push_back(F->getNameAsString());
        O["fields"] = std::move(fs);
      }
      Array a;
      for (auto *I : X->inits()) a.push_back(ex(I));
      O["a"] = std::move(a);
      if (X->hasArrayFiller()) O["filler"] = ex(X->getArrayFiller());
      if (auto *AT = C.getAsConstantArrayType(E->getType())) O["n"] = (int64_t)AT->getSize().getZExtValue();
      return O;
    }
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) { O["k"] = "zero"; O["ty"] = ty(E->getType()); return O; }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      O["k"] = "un"; O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str(); O["post"] = X->isPostfix(); O["a"] = ex(X->getSubExpr()); return O;
    }
    if (auto *X = dyn_cast<CompoundAssignOperator>(E)) {
      O["k"] = "casg"; std::string op = X->getOpcodeStr().str(); op.pop_back(); O["op"] = op; O["a"] = ex(X->getLHS()); O["b"] = ex(X->getRHS());
      O["ct"] = cat(X->getComputationResultType()); return O;
    }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      O["k"] = "bin"; O["op"] = X->getOpcodeStr().str(); O["a"] = ex(X->getLHS()); O["b"] = ex(X->getRHS());
      O["ot"] = cat(X->getLHS()->getType()); return O;
    }
    if (auto *X = dyn_cast<AbstractConditionalOperator>(E)) {
      O["k"] = "cond"; O["c"] = ex(X->getCond()); O["a"] = ex(X->getTrueExpr()); O["b"] = ex(X->getFalseExpr()); return O;
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) { O["k"] = "idx"; O["ty"] = ty(E->getType()); O["o"] = ex(X->getBase()); O["i"] = ex(X->getIdx()); return O; }
    if (auto *X = dyn_cast<CastExpr>(E)) {
      O["k"] = "cast"; O["ck"] = X->getCastKindName(); O["from"] = cat(X->getSubExpr()->getType()); O["ty"] = ty(X->getType()); O["fty"] = ty(X->getSubExpr()->getType());
      O["a"] = ex(X->getSubExpr()); return O;
    }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      O["k"] = "lambda";
      Array caps;
      auto ci = X->capture_init_begin();
      for (auto &cp : X->captures()) {
        Object c;
        if (cp.capturesThis()) { c["this"] = true; }
        else if (cp.capturesVariable()) { c["id"] = vid(cast<ValueDecl>(cp.getCapturedVar())); c["ref"] = cp.getCaptureKind() == LCK_ByRef; if (X->isInitCapture(&cp)) c["init"] = ex(cast<VarDecl>(cp.getCapturedVar())->getInit()); }
        caps.push_back(std::move(c));
        ++ci;
      }
      O["caps"] = std::move(caps);
      Array ps;
      for (auto *P : X->getCallOperator()->parameters()) ps.push_back(param(P));
      O["params"] = std::move(ps);
      O["f"] = fid(X->getCallOperator());
      if (!X->getCallOperator()->isDependentContext()) O["body"] = st(X->getBody());
      else O["generic"] = true;
      O["ret"] = cat(X->getCallOperator()->getReturnType());
      O["line"] = line(X->getBeginLoc());
      return O;
    }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      O["k"] = "new"; O["ty"] = ty(X->getAllocatedType()); 
      if (X->getInitializer()) O["init"] = ex(X->getInitializer());
      if (X->isArray() && X->getArraySize()) O["n"] = ex(*X->getArraySize());
      return O;
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { O["k"] = "delete"; O["a"] = ex(X->getArgument()); return O; }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) { O["k"] = "throw"; if (X->getSubExpr()) { O["a"] = ex(X->getSubExpr()); O["ty"] = ty(X->getSubExpr()->getType()); } return O; }
    if (auto *X = dyn_cast<CXXPseudoDestructorExpr>(E)) { O["k"] = "unk"; O["d"] = "pseudodtor"; return O; }
    O["k"] = "unk"; O["d"] = E->getStmtClassName();
    Array a;
    for (auto *c : E->children()) if (c && isa<Expr>(c)) a.push_back(ex(cast<Expr>(c)));
    O["a"] = std::move(a);
    return O;
  }
  Value param(const ParmVarDecl *P) {
    Object o{{"id", vid(P)}, {"n", P->getNameAsString()}, {"ty", ty(P->getType())}, {"t", cat(P->getType())}};
    QualType T = P->getType();
    if (T->isReferenceType()) { o["ref"] = true; o["cref"] = T->getPointeeType().isConstQualified(); o["rref"] = T->isRValueReferenceType(); }
    return o;
  }
  Value var(const VarDecl *V) {
    Object o{{"id", vid(V)}, {"n", V->getNameAsString()}, {"ty", ty(V->getType())}, {"t", cat(V->getType())}, {"l", line(V->getLocation())}};
    QualType T = V->getType();
    if (T->isReferenceType()) { o["ref"] = true; o["cref"] = T->getPointeeType().isConstQualified(); }
    if (V->isStaticLocal()) o["static"] = true;
    if (V->getInit()) o["init"] = ex(V->getInit());
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
      Array bs;
      for (auto *B : DD->bindings()) { Object b{{"id", vid(B)}}; if (B->getBinding()) b["e"] = ex(B->getBinding()); bs.push_back(std::move(b)); }
      o["bindings"] = std::move(bs);
    }
    return o;
  }
  Value st(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *X = dyn_cast<Expr>(S)) { return Object{{"k", "expr"}, {"l", line(S->getBeginLoc())}, {"e", ex(X)}}; }
    Object O;
    O["l"] = line(S->getBeginLoc());
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      O["k"] = "comp"; Array b;
      for (auto *c : X->body()) b.push_back(st(c));
      O["b"] = std::move(b); return O;
    }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      O["k"] = "decl"; Array b;
      for (auto *d : X->decls()) if (auto *V = dyn_cast<VarDecl>(d)) b.push_back(var(V));
      O["vars"] = std::move(b); return O;
    }
    if (auto *X = dyn_cast<IfStmt>(S)) {
      O["k"] = "if";
      if (X->getInit()) O["init"] = st(X->getInit());
      if (X->getConditionVariable()) O["cv"] = var(X->getConditionVariable());
      O["c"] = ex(X->getCond()); O["a"] = st(X->getThen()); if (X->getElse()) O["b"] = st(X->getElse()); return O;
    }
    if (auto *X = dyn_cast<ForStmt>(S)) {
      O["k"] = "for"; if (X->getInit()) O["init"] = st(X->getInit()); if (X->getCond()) O["c"] = ex(X->getCond()); if (X->getInc()) O["inc"] = ex(X->getInc()); O["b"] = st(X->getBody()); return O;
    }
    if (auto *X = dyn_cast<WhileStmt>(S)) { O["k"] = "while"; if (X->getConditionVariable()) O["cv"] = var(X->getConditionVariable()); O["c"] = ex(X->getCond()); O["b"] = st(X->getBody()); return O; }
    if (auto *X = dyn_cast<DoStmt>(S)) { O["k"] = "do"; O["c"] = ex(X->getCond()); O["b"] = st(X->getBody()); return O; }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) { O["k"] = "rfor"; O["var"] = loopVar(X->getLoopVariable()); O["r"] = ex(X->getRangeInit()); O["b"] = st(X->getBody()); return O; }
    if (auto *X = dyn_cast<ReturnStmt>(S)) { O["k"] = "ret"; if (X->getRetValue()) O["e"] = ex(X->getRetValue()); return O; }
    if (isa<BreakStmt>(S)) { O["k"] = "brk"; return O; }
    if (isa<ContinueStmt>(S)) { O["k"] = "cont"; return O; }
    if (isa<NullStmt>(S)) { O["k"] = "null"; return O; }
    if (auto *X = dyn_cast<SwitchStmt>(S)) { O["k"] = "switch"; if (X->getInit()) O["init"] = st(X->getInit()); O["c"] = ex(X->getCond()); O["b"] = st(X->getBody());
      if (X->isAllEnumCasesCovered()) O["all"] = true; return O; }
    if (auto *X = dyn_cast<CaseStmt>(S)) { O["k"] = "case"; O["v"] = ex(X->getLHS()); O["b"] = st(X->getSubStmt()); return O; }
    if (auto *X = dyn_cast<DefaultStmt>(S)) { O["k"] = "default"; O["b"] = st(X->getSubStmt()); return O; }
    if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      O["k"] = "try"; O["b"] = st(X->getTryBlock()); Array h;
      for (unsigned i = 0; i < X->getNumHandlers(); i++) { Object c; auto *H = X->getHandler(i); if (H->getExceptionDecl()) c["var"] = var(H->getExceptionDecl()); c["b"] = st(H->getHandlerBlock()); h.push_back(std::move(c)); }
      O["h"] = std::move(h); return O;
    }
    if (auto *X = dyn_cast<AttributedStmt>(S)) return st(X->getSubStmt());
    if (auto *X = dyn_cast<LabelStmt>(S)) return st(X->getSubStmt());
    O["k"] = "unk"; O["d"] = S->getStmtClassName(); return O;
  }
  Value loopVar(const VarDecl *V) {
    Object o{{"id", vid(V)}, {"n", V->getNameAsString()}, {"ty", ty(V->getType())}, {"t", cat(V->getType())}};
    if (V->getType()->isReferenceType()) { o["ref"] = true; o["cref"] = V->getType()->getPointeeType().isConstQualified(); }
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
      Array bs;
      for (auto *B : DD->bindings()) { Object b{{"id", vid(B)}}; if (B->getBinding()) b["e"] = ex(B->getBinding()); bs.push_back(std::move(b)); }
      o["bindings"] = std::move(bs);
    }
    return o;
  }
};

struct V : RecursiveASTVisitor<V> {
  Dumper D;
  Array Fns, Recs, Vars, Enums;
  std::set<std::string> Seen;
  V(ASTContext &c) : D(c) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->isThisDeclarationADefinition() || F->isDependentContext() || !F->hasBody()) return true;
    if (!D.inRoots(F)) return true;
    bool lam = false;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      lam = M->getParent()->isLambda();
      if (M->isDefaulted()) return true;
    }
    if (lam && !F->isTemplateInstantiation()) return true;  // dumped inline
    std::string id = D.fid(F);
    if (!Seen.insert(id).second) return true;
    Object O{{"id", id}, {"n", D.qn(F)}, {"file", D.file(F->getLocation())}, {"l", D.line(F->getLocation())}, {"ret", D.ty(F->getReturnType())}, {"rt", D.cat(F->getReturnType())}};
    if (F->getReturnType()->isReferenceType()) O["rref"] = true;
    if (lam) O["lam"] = true;
    Array ps;
    for (auto *P : F->parameters()) ps.push_back(D.param(P));
    O["params"] = std::move(ps);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = D.qn(M->getParent()); O["static"] = M->isStatic(); O["const"] = M->isConst(); O["virt"] = M->isVirtual();
      O["acc"] = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private";
      Array ov;
      for (auto *o : M->overridden_methods()) ov.push_back(D.fid(o));
      O["ov"] = std::move(ov);
    }
    if (auto *Ct = dyn_cast<CXXConstructorDecl>(F)) {
      O["kind"] = "ctor"; Array in;
      for (auto *I : Ct->inits()) {
        Object i;
        if (I->isAnyMemberInitializer()) i["f"] = I->getAnyMember()->getNameAsString();
        else if (I->isBaseInitializer()) i["base"] = D.ty(QualType(I->getBaseClass(), 0));
        else if (I->isDelegatingInitializer()) i["deleg"] = true;
        i["written"] = I->isWritten();
        i["e"] = D.ex(I->getInit());
        in.push_back(std::move(i));
      }
      O["inits"] = std::move(in);
    } else if (isa<CXXDestructorDecl>(F)) O["kind"] = "dtor";
    O["body"] = D.st(F->getBody());
    Fns.push_back(std::move(O));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda() || !D.inRecRoots(R)) return true;
    std::string t = D.ty(D.C.getRecordType(R));
    if (!Seen.insert("R:" + t).second) return true;
    Object O{{"n", D.qn(R)}, {"ty", t}, {"file", D.file(R->getLocation())}, {"l", D.line(R->getLocation())}};
    Array fs, bs;
    for (auto *F : R->fields()) {
      Object f{{"n", F->getNameAsString()}, {"ty", D.ty(F->getType())}, {"t", D.cat(F->getType())}, {"l", D.line(F->getLocation())}, {"acc", F->getAccess() == AS_public ? "public" : "private"}};
      if (F->hasInClassInitializer() && F->getInClassInitializer()) f["init"] = D.ex(F->getInClassInitializer());
      fs.push_back(std::move(f));
    }
    for (auto &B : R->bases()) bs.push_back(D.ty(B.getType()));
    O["fields"] = std::move(fs); O["bases"] = std::move(bs);
    Array ms;
    for (auto *M : R->methods()) if (!M->isImplicit()) ms.push_back(Object{{"f", D.fid(M)}, {"n", M->getNameAsString()}, {"acc", M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private"}, {"defaulted", M->isDefaulted()}, {"deleted", M->isDeleted()}});
    O["methods"] = std::move(ms);
    Recs.push_back(std::move(O));
    return true;
  }
  bool VisitVarDecl(VarDecl *X) {
    if (X->isLocalVarDeclOrParm() || X->isInvalidDecl() || X->getDeclContext()->isDependentContext() || !D.inRoots(X)) return true;
    if (!X->getInit() && X->isThisDeclarationADefinition() == VarDecl::DeclarationOnly) return true;
    Object O{{"n", D.qn(X)}, {"ty", D.ty(X->getType())}, {"t", D.cat(X->getType())}, {"file", D.file(X->getLocation())}, {"const", X->getType().isConstQualified()}, {"own", !X->isExternallyVisible()}};
    const VarDecl *ID = nullptr;
    if (auto *I = X->getAnyInitializer(ID)) if (!I->isValueDependent()) O["init"] = D.ex(I);
    Vars.push_back(std::move(O));
    return true;
  }
  bool VisitEnumDecl(EnumDecl *X) {
    if (!D.inRoots(X) || !X->isThisDeclarationADefinition()) return true;
    Object cs;
    for (auto *c : X->enumerators()) { llvm::SmallString<32> s; c->getInitVal().toString(s, 10); cs[c->getNameAsString()] = std::string(s.str()); }
    Enums.push_back(Object{{"n", D.qn(X)}, {"c", std::move(cs)}});
    return true;
  }
};
struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    V v(C);
    v.TraverseDecl(C.getTranslationUnitDecl());
    NErrors = C.getDiagnostics().getClient()->getNumErrors();
    Object O{{"fns", std::move(v.Fns)}, {"recs", std::move(v.Recs)}, {"vars", std::move(v.Vars)}, {"enums", std::move(v.Enums)}, {"errors", (int64_t)NErrors}};
    llvm::outs() << Value(std::move(O)) << "\n";
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef) override { return std::make_unique<Cons>(); }
};
struct Fac : tooling::FrontendActionFactory {
  std::unique_ptr<FrontendAction> create() override { return std::make_unique<Act>(); }
};
int main(int argc, const char **argv) {
  std::string r = argv[1];
  size_t p = 0, q;
  while ((q = r.find(',', p)) != std::string::npos) { Roots.push_back(r.substr(p, q - p)); p = q + 1; }
  Roots.push_back(r.substr(p));
  for (size_t i = 0; i < Roots.size();) if (Roots[i][0] == '+') { RecRoots.push_back(Roots[i].substr(1)); Roots.erase(Roots.begin() + i); } else i++;
  std::string file = argv[2];
  std::vector<std::string> args;
  for (int i = 4; i < argc; i++) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", args);
  tooling::ClangTool T(DB, {file});
  Fac f;
  T.run(&f);
  return 0;  // parse errors are recorded in the output
}
