// astx: exports the type-checked program (Clang AST after template instantiation) of the functions that are defined
// under a given directory, as JSON lines.  It only reads; nothing of the analysed program is executed.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/OpenMPClause.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string Root;

struct Exporter {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const Decl *, int> ids;
  std::vector<const FunctionDecl *> queue;
  std::set<const FunctionDecl *> queued;
  explicit Exporter(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.Bool = true;
  }
  int id(const Decl *D) {
    if (auto *V = dyn_cast<VarDecl>(D)) D = V->getCanonicalDecl();
    if (auto *V = dyn_cast<FunctionDecl>(D)) D = V->getCanonicalDecl();
    auto it = ids.find(D);
    if (it != ids.end()) return it->second;
    int n = (int)ids.size() + 1;
    ids[D] = n;
    return n;
  }
  std::string type(QualType T) {
    if (T.isNull()) return "?";
    return T.getCanonicalType().getAsString(PP);
  }
  std::string loc(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    PresumedLoc P = SM.getPresumedLoc(L);
    if (P.isInvalid()) return "?";
    std::string f = P.getFilename();
    if (f.compare(0, Root.size(), Root) == 0) f = f.substr(Root.size() + 1);
    return f + ":" + std::to_string(P.getLine());
  }
  std::string qname(const NamedDecl *D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    D->printQualifiedName(os, PP);
    return os.str();
  }
  bool inRoot(const Decl *D) {
    SourceLocation L = SM.getExpansionLoc(D->getLocation());
    PresumedLoc P = SM.getPresumedLoc(L);
    if (P.isInvalid()) return false;
    return llvm::StringRef(P.getFilename()).starts_with(Root + "/distributed_vector_ole/");
  }
  Value fn(const FunctionDecl *F) {
    Object o;
    o["id"] = id(F);
    o["q"] = qname(F);
    o["n"] = F->getNameAsString();
    if (auto *A = F->getTemplateSpecializationArgs()) {
      Array a;
      for (auto &x : A->asArray()) {
        std::string s;
        llvm::raw_string_ostream os(s);
        x.print(PP, os, true);
        a.push_back(os.str());
      }
      o["ta"] = std::move(a);
    }
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = type(QualType(M->getParent()->getTypeForDecl(), 0));
      if (M->isStatic()) o["static"] = true;
      if (M->isConst()) o["const"] = true;
    }
    const FunctionDecl *Def = nullptr;
    if (F->hasBody(Def) && inRoot(Def)) {
      o["def"] = true;
      if (queued.insert(Def->getCanonicalDecl()).second) queue.push_back(Def);
    }
    Array pt;
    for (auto *P : F->parameters()) pt.push_back(type(P->getType()));
    o["pt"] = std::move(pt);
    o["ret"] = type(F->getReturnType());
    if (F->isNoReturn()) o["noreturn"] = true;
    return std::move(o);
  }
  Value var(const VarDecl *V) {
    Object o;
    o["d"] = id(V);
    o["n"] = V->getNameAsString();
    o["t"] = type(V->getType());
    o["loc"] = loc(V->getLocation());
    if (V->isStaticLocal()) o["static"] = true;
    if (V->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
    if (V->getInit() && !isa<ParmVarDecl>(V)) o["init"] = expr(V->getInit());
    return std::move(o);
  }
  Array exprs(llvm::ArrayRef<const Expr *> xs) {
    Array a;
    for (auto *x : xs) a.push_back(expr(x));
    return a;
  }
  Value expr(const Expr *E) {
    if (!E) return nullptr;
    // transparent wrappers
    while (true) {
      if (auto *P = dyn_cast<ParenExpr>(E)) E = P->getSubExpr();
      else if (auto *X = dyn_cast<FullExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = X->getReplacement();
      else if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) E = X->getExpr();
      else if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) E = X->getExpr();
      else if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<OpaqueValueExpr>(E)) { if (!X->getSourceExpr()) break; E = X->getSourceExpr(); }
      else if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E)) E = X->getSemanticForm();
      else break;
    }
    Object o;
    o["loc"] = loc(E->getBeginLoc());
    o["t"] = type(E->getType());
    if (!E->isValueDependent() && !E->isTypeDependent() && E->getType()->isIntegralOrEnumerationType() && !isa<IntegerLiteral>(E)) {
      Expr::EvalResult R;
      if (E->isPRValue() && E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
        llvm::SmallString<40> s;
        R.Val.getInt().toString(s, 10);
        o["cv"] = std::string(s.str());
      } else if (auto *D = dyn_cast<DeclRefExpr>(E)) {
        if (auto *V = dyn_cast<VarDecl>(D->getDecl()))
          if (V->getType().isConstQualified() && !V->getType()->isReferenceType())
            if (auto *AV = V->getInit() && !V->getInit()->isValueDependent() && V->hasGlobalStorage() ? V->evaluateValue() : nullptr)
              if (AV->isInt()) {
                llvm::SmallString<40> s;
                AV->getInt().toString(s, 10);
                o["cv"] = std::string(s.str());
              }
      }
    }
    if (auto *L = dyn_cast<IntegerLiteral>(E)) {
      llvm::SmallString<40> s;
      L->getValue().toString(s, 10, false);
      o["k"] = "Int";
      o["cv"] = std::string(s.str());
    } else if (auto *L = dyn_cast<FloatingLiteral>(E)) {
      o["k"] = "Float";
      llvm::SmallString<40> s;
      L->getValue().toString(s, 25, 3, false);
      o["v"] = std::string(s.str());
    } else if (auto *L = dyn_cast<CXXBoolLiteralExpr>(E)) {
      o["k"] = "Bool";
      o["v"] = L->getValue();
    } else if (auto *L = dyn_cast<StringLiteral>(E)) {
      o["k"] = "Str";
      o["v"] = L->isOrdinary() || L->isUTF8() ? L->getString().str() : std::string("?");
    } else if (auto *L = dyn_cast<CharacterLiteral>(E)) {
      o["k"] = "Int";
      o["cv"] = std::to_string(L->getValue());
    } else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
      o["k"] = "Null";
    } else if (auto *R = dyn_cast<DeclRefExpr>(E)) {
      o["k"] = "Ref";
      o["d"] = id(R->getDecl());
      o["n"] = R->getDecl()->getNameAsString();
      if (auto *F = dyn_cast<FunctionDecl>(R->getDecl())) {
        o["fn"] = fn(F);
      } else if (auto *V = dyn_cast<VarDecl>(R->getDecl())) {
        if (V->hasGlobalStorage() && !V->isStaticLocal()) o["g"] = qname(V);
        if (V->isStaticLocal()) o["sl"] = true;
        o["dt"] = type(V->getType());
      } else {
        o["g"] = qname(R->getDecl());
      }
    } else if (auto *M = dyn_cast<MemberExpr>(E)) {
      o["k"] = "Member";
      o["b"] = expr(M->getBase());
      o["n"] = M->getMemberDecl()->getNameAsString();
      o["arrow"] = M->isArrow();
      if (auto *F = dyn_cast<FunctionDecl>(M->getMemberDecl())) o["fn"] = fn(F);
      if (auto *V = dyn_cast<VarDecl>(M->getMemberDecl())) o["g"] = qname(V);
      o["dt"] = type(M->getMemberDecl()->getType());
    } else if (isa<CXXThisExpr>(E)) {
      o["k"] = "This";
    } else if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      o["k"] = "Op";
      o["op"] = getOperatorSpelling(X->getOperator());
      if (auto *F = X->getDirectCallee()) o["fn"] = fn(F);
      Array a;
      for (auto *x : X->arguments()) a.push_back(expr(x));
      o["a"] = std::move(a);
      o["ol"] = loc(X->getOperatorLoc());
    } else if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      o["k"] = "MCall";
      if (auto *F = X->getMethodDecl()) o["fn"] = fn(F);
      o["b"] = expr(X->getImplicitObjectArgument());
      if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) o["arrow"] = ME->isArrow();
      Array a;
      for (auto *x : X->arguments()) a.push_back(expr(x));
      o["a"] = std::move(a);
    } else if (auto *X = dyn_cast<CallExpr>(E)) {
      o["k"] = "Call";
      if (auto *F = X->getDirectCallee()) o["fn"] = fn(F);
      else o["callee"] = expr(X->getCallee());
      Array a;
      for (auto *x : X->arguments()) a.push_back(expr(x));
      o["a"] = std::move(a);
    } else if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      o["k"] = "Ctor";
      o["fn"] = fn(X->getConstructor());
      o["cm"] = X->getConstructor()->isCopyOrMoveConstructor();
      if (X->requiresZeroInitialization()) o["zi"] = true;
      if (X->isListInitialization()) o["li"] = true;
      Array a;
      for (auto *x : X->arguments()) a.push_back(expr(x));
      o["a"] = std::move(a);
    } else if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      o["k"] = "New";
      o["at"] = type(X->getAllocatedType());
      o["init"] = X->getInitializer() ? expr(X->getInitializer()) : (X->getConstructExpr() ? expr(X->getConstructExpr()) : Value(nullptr));
    } else if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      o["k"] = "Throw";
      o["e"] = expr(X->getSubExpr());
    } else if (auto *X = dyn_cast<UnaryOperator>(E)) {
      o["k"] = "Un";
      o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      o["post"] = X->isPostfix();
      o["e"] = expr(X->getSubExpr());
    } else if (auto *X = dyn_cast<CompoundAssignOperator>(E)) {
      o["k"] = "CAssign";
      o["op"] = X->getOpcodeStr().str();
      o["l"] = expr(X->getLHS());
      o["r"] = expr(X->getRHS());
      o["ct"] = type(X->getComputationResultType());
    } else if (auto *X = dyn_cast<BinaryOperator>(E)) {
      o["k"] = "Bin";
      o["op"] = X->getOpcodeStr().str();
      o["l"] = expr(X->getLHS());
      o["r"] = expr(X->getRHS());
    } else if (auto *X = dyn_cast<AbstractConditionalOperator>(E)) {
      o["k"] = "Cond";
      o["c"] = expr(X->getCond());
      o["l"] = expr(X->getTrueExpr());
      o["r"] = expr(X->getFalseExpr());
    } else if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      o["k"] = "Index";
      o["l"] = expr(X->getBase());
      o["r"] = expr(X->getIdx());
    } else if (auto *X = dyn_cast<CastExpr>(E)) {
      o["k"] = "Cast";
      o["ck"] = X->getCastKindName();
      o["ex"] = isa<ExplicitCastExpr>(X);
      o["e"] = expr(X->getSubExpr());
      if (auto *D = X->getConversionFunction())
        if (auto *F = dyn_cast<FunctionDecl>(D)) o["fn"] = fn(F);
    } else if (auto *X = dyn_cast<InitListExpr>(E)) {
      o["k"] = "Init";
      Array a;
      for (auto *x : X->inits()) a.push_back(expr(x));
      o["a"] = std::move(a);
      if (X->hasArrayFiller()) o["fill"] = expr(X->getArrayFiller());
    } else if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) {
      o["k"] = "Zero";
    } else if (auto *X = dyn_cast<LambdaExpr>(E)) {
      o["k"] = "Lambda";
      Array cs;
      auto ii = X->capture_init_begin();
      for (auto &c : X->captures()) {
        Object co;
        if (c.capturesThis()) {
          co["this"] = true;
        } else if (c.capturesVariable()) {
          auto *V = c.getCapturedVar();
          co["d"] = id(V);
          co["n"] = V->getNameAsString();
          co["ref"] = c.getCaptureKind() == LCK_ByRef;
          if (auto *VD = dyn_cast<VarDecl>(V))
            if (VD->isInitCapture()) co["init"] = expr(*ii);
        }
        cs.push_back(std::move(co));
        ++ii;
      }
      o["caps"] = std::move(cs);
      o["fn"] = funcObj(X->getCallOperator());
    } else if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      o["k"] = "Trait";
      if (X->isArgumentType()) o["at"] = type(X->getArgumentType());
    } else {
      o["k"] = std::string("?") + E->getStmtClassName();
      Array a;
      for (auto *c : E->children())
        if (c)
          if (auto *e = dyn_cast<Expr>(c)) a.push_back(expr(e));
      o["a"] = std::move(a);
    }
    return std::move(o);
  }
  Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *A = dyn_cast<AttributedStmt>(S)) return stmt(A->getSubStmt());
    if (auto *E = dyn_cast<Expr>(S)) {
      Object o;
      o["k"] = "Expr";
      o["e"] = expr(E);
      o["loc"] = loc(E->getBeginLoc());
      return std::move(o);
    }
    Object o;
    o["loc"] = loc(S->getBeginLoc());
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      o["k"] = "Block";
      Array a;
      for (auto *c : X->body()) a.push_back(stmt(c));
      o["b"] = std::move(a);
    } else if (auto *X = dyn_cast<DeclStmt>(S)) {
      o["k"] = "Decl";
      Array a;
      for (auto *d : X->decls())
        if (auto *v = dyn_cast<VarDecl>(d)) {
          if (auto *D = dyn_cast<DecompositionDecl>(v)) {
            Object dv;
            dv["decomp"] = true;
            a.push_back(std::move(dv));
          } else {
            a.push_back(var(v));
          }
        }
      o["v"] = std::move(a);
    } else if (auto *X = dyn_cast<IfStmt>(S)) {
      o["k"] = "If";
      o["init"] = stmt(X->getInit());
      o["cv"] = X->getConditionVariable() ? var(X->getConditionVariable()) : Value(nullptr);
      o["c"] = expr(X->getCond());
      o["th"] = stmt(X->getThen());
      o["el"] = stmt(X->getElse());
      if (X->isConstexpr()) o["cx"] = true;
    } else if (auto *X = dyn_cast<ForStmt>(S)) {
      o["k"] = "For";
      o["init"] = stmt(X->getInit());
      o["c"] = expr(X->getCond());
      o["inc"] = expr(X->getInc());
      o["b"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<WhileStmt>(S)) {
      o["k"] = "While";
      o["cv"] = X->getConditionVariable() ? var(X->getConditionVariable()) : Value(nullptr);
      o["c"] = expr(X->getCond());
      o["b"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<DoStmt>(S)) {
      o["k"] = "Do";
      o["c"] = expr(X->getCond());
      o["b"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      o["k"] = "Range";
      o["var"] = var(X->getLoopVariable());
      o["range"] = expr(X->getRangeInit());
      o["b"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<ReturnStmt>(S)) {
      o["k"] = "Return";
      o["e"] = expr(X->getRetValue());
    } else if (isa<BreakStmt>(S)) {
      o["k"] = "Break";
    } else if (isa<ContinueStmt>(S)) {
      o["k"] = "Continue";
    } else if (isa<NullStmt>(S)) {
      o["k"] = "Null";
    } else if (auto *X = dyn_cast<SwitchStmt>(S)) {
      o["k"] = "Switch";
      o["c"] = expr(X->getCond());
      o["b"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<CaseStmt>(S)) {
      o["k"] = "Case";
      o["v"] = expr(X->getLHS());
      o["b"] = stmt(X->getSubStmt());
    } else if (auto *X = dyn_cast<DefaultStmt>(S)) {
      o["k"] = "Default";
      o["b"] = stmt(X->getSubStmt());
    } else if (auto *X = dyn_cast<OMPExecutableDirective>(S)) {
      o["k"] = "Omp";
      o["dk"] = llvm::omp::getOpenMPDirectiveName(X->getDirectiveKind()).str();
      Array cl;
      for (auto *c : X->clauses()) {
        if (c->isImplicit()) continue;
        Object co;
        co["n"] = llvm::omp::getOpenMPClauseName(c->getClauseKind()).str();
        Array vs;
        for (auto *ch : c->children())
          if (auto *e = dyn_cast_or_null<Expr>(ch)) vs.push_back(expr(e));
        co["v"] = std::move(vs);
        if (auto *sc = dyn_cast<OMPScheduleClause>(c))
          co["s"] = getOpenMPSimpleClauseTypeName(llvm::omp::OMPC_schedule, sc->getScheduleKind());
        cl.push_back(std::move(co));
      }
      o["cl"] = std::move(cl);
      o["b"] = X->hasAssociatedStmt() ? stmt(X->getRawStmt()) : Value(nullptr);
    } else if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      o["k"] = "Try";
      o["b"] = stmt(X->getTryBlock());
    } else {
      o["k"] = std::string("?") + S->getStmtClassName();
    }
    return std::move(o);
  }
  Value funcObj(const FunctionDecl *F) {
    Object o;
    o["f"] = fn(F);
    o["loc"] = loc(F->getLocation());
    Array ps;
    for (auto *P : F->parameters()) {
      Object p;
      p["d"] = id(P);
      p["n"] = P->getNameAsString();
      p["t"] = type(P->getType());
      ps.push_back(std::move(p));
    }
    o["params"] = std::move(ps);
    if (auto *Ct = dyn_cast<CXXConstructorDecl>(F)) {
      Array is;
      for (auto *I : Ct->inits()) {
        Object io;
        if (I->isAnyMemberInitializer()) io["m"] = I->getAnyMember()->getNameAsString();
        else if (I->isDelegatingInitializer()) io["deleg"] = true;
        io["e"] = expr(I->getInit());
        is.push_back(std::move(io));
      }
      o["inits"] = std::move(is);
    }
    o["body"] = stmt(F->getBody());
    return std::move(o);
  }
};

struct Collect : RecursiveASTVisitor<Collect> {
  Exporter &X;
  std::vector<const VarDecl *> vars;
  std::vector<const CXXRecordDecl *> recs;
  explicit Collect(Exporter &x) : X(x) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isDependentContext() || !F->doesThisDeclarationHaveABody() || !X.inRoot(F)) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda()) return true;
    if (X.queued.insert(F->getCanonicalDecl()).second) X.queue.push_back(F);
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (V->isFileVarDecl() && !V->getDeclContext()->isDependentContext() && X.inRoot(V) && V->getInit() && !isa<ParmVarDecl>(V)) vars.push_back(V);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    // an explicit instantiation is located where it is written: use the place of its template
    const CXXRecordDecl *At = R->getTemplateInstantiationPattern();
    if (R->isThisDeclarationADefinition() && !R->isDependentContext() && !R->isLambda() && (X.inRoot(R) || (At && X.inRoot(At)))) recs.push_back(R);
    return true;
  }
};

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Exporter X(C);
    Collect V(X);
    V.TraverseDecl(C.getTranslationUnitDecl());
    auto &os = llvm::outs();
    std::set<const Decl *> seen;
    for (auto *R : V.recs) {
      if (!seen.insert(R->getCanonicalDecl()).second) continue;
      Object o;
      o["kind"] = "rec";
      o["q"] = X.type(QualType(R->getTypeForDecl(), 0));
      Array fs;
      for (auto *F : R->fields()) {
        Object fo;
        fo["n"] = F->getNameAsString();
        fo["t"] = X.type(F->getType());
        if (F->getInClassInitializer()) fo["init"] = X.expr(F->getInClassInitializer());
        fs.push_back(std::move(fo));
      }
      o["fields"] = std::move(fs);
      os << Value(std::move(o)) << "\n";
    }
    for (auto *D : V.vars) {
      if (!seen.insert(D).second) continue;
      Object o;
      o["kind"] = "var";
      o["q"] = X.qname(D);
      o["var"] = X.var(D);
      os << Value(std::move(o)) << "\n";
    }
    for (size_t i = 0; i < X.queue.size(); i++) {
      Value v = X.funcObj(X.queue[i]);
      Object &o = *v.getAsObject();
      o["kind"] = "fun";
      os << v << "\n";
    }
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override {
    return std::make_unique<Consumer>();
  }
};

int main(int argc, char **argv) {
  // astx ROOT SOURCE -- flags...
  Root = argv[1];
  std::string src = argv[2];
  std::vector<std::string> flags;
  for (int i = 4; i < argc; i++) flags.push_back(argv[i]);
  clang::tooling::FixedCompilationDatabase db(".", flags);
  std::vector<std::string> srcs{src};
  clang::tooling::ClangTool tool(db, srcs);
  return tool.run(clang::tooling::newFrontendActionFactory<Action>().get());
}
