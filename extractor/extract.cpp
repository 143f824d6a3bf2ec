// Fact extractor: dumps, for one translation unit, the resolved AST (callees, fields, types, constant values, implicit
// destructors' types) of every function whose definition lies under the analysed roots. The rules run on this output.
#include <set>
#include <string>
#include <map>
#include <vector>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;

namespace
{
struct Extractor : RecursiveASTVisitor<Extractor>
{
  ASTContext &C;
  SourceManager &SM;
  json::Array Functions, Records, Globals, Enums;
  std::set<const FunctionDecl *> Seen;
  std::set<const CXXRecordDecl *> SeenRec;
  std::string CurFile;
  std::map<const Decl *, size_t> VarIds;
  PrintingPolicy PP;

  explicit Extractor(ASTContext &Ctx) : C(Ctx), SM(Ctx.getSourceManager()), PP(Ctx.getPrintingPolicy())
  {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.SuppressInlineNamespace = true;
    PP.Bool = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }

  std::string fileOf(SourceLocation L)
  {
    auto E = SM.getExpansionLoc(L);
    if (auto FE = SM.getFileEntryRefForID(SM.getFileID(E)))
    {
      llvm::StringRef rp = FE->getFileEntry().tryGetRealPathName();
      return rp.empty() ? FE->getName().str() : rp.str();
    }
    return "";
  }
  unsigned lineOf(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  bool inRoots(SourceLocation L)
  {
    if (L.isInvalid())
      return false;
    auto F = fileOf(L);
    for (auto &R : Roots)
      if (F.compare(0, R.size(), R) == 0)
        return true;
    return false;
  }
  std::string qname(const NamedDecl *D)
  {
    std::vector<std::string> parts;
    parts.push_back(D->getDeclName().isIdentifier() ? D->getName().str() : D->getNameAsString());
    for (const DeclContext *DC = D->getDeclContext(); DC && !DC->isTranslationUnit(); DC = DC->getParent())
    {
      if (auto *NS = dyn_cast<NamespaceDecl>(DC))
      {
        if (NS->isInline())
          continue;
        parts.push_back(NS->isAnonymousNamespace() ? "(anon)" : NS->getName().str());
      }
      else if (auto *R = dyn_cast<CXXRecordDecl>(DC))
      {
        if (R->isLambda())
          parts.push_back("(lambda)");
        else
          parts.push_back(R->getName().str());
      }
      else if (auto *FD = dyn_cast<FunctionDecl>(DC))
        parts.push_back(FD->getNameAsString() + "()");
    }
    std::string out;
    for (auto it = parts.rbegin(); it != parts.rend(); ++it)
    {
      if (!out.empty())
        out += "::";
      out += *it;
    }
    return out;
  }
  std::string usr(const Decl *D)
  {
    llvm::SmallString<128> B;
    std::string extra;
    if (auto *FD = dyn_cast<FunctionDecl>(D))
    {
      if (auto *M = dyn_cast<CXXMethodDecl>(FD))
        if (M->getParent()->isLambda())
        {
          extra = "@lam" + fileOf(M->getParent()->getBeginLoc()) + ":" +
                  std::to_string(SM.getExpansionLineNumber(M->getParent()->getBeginLoc())) + ":" +
                  std::to_string(SM.getExpansionColumnNumber(M->getParent()->getBeginLoc())) + "/" +
                  std::to_string(SM.getFileOffset(SM.getSpellingLoc(M->getParent()->getBeginLoc())));
          // distinguish instantiations of the enclosing function
          const DeclContext *DC = M->getParent()->getDeclContext();
          while (DC && !isa<FunctionDecl>(DC) && !DC->isTranslationUnit())
            DC = DC->getParent();
          if (DC && isa<FunctionDecl>(DC))
            extra += "@" + usr(cast<FunctionDecl>(DC));
        }
    }
    // a definition may spell its parameters differently (const) from the declaration that is called
    if (auto *FD = dyn_cast<FunctionDecl>(D))
      D = FD->getCanonicalDecl();
    if (!index::generateUSRForDecl(D, B))
      return std::string(B.str()) + extra;
    return "anon:" + fileOf(D->getLocation()) + ":" + std::to_string(SM.getFileOffset(SM.getExpansionLoc(D->getLocation()))) + extra;
  }
  std::string varId(const ValueDecl *D)
  {
    auto it = VarIds.emplace(D->getCanonicalDecl(), VarIds.size()).first;
    return D->getNameAsString() + "@" + std::to_string(it->second);
  }
  std::string ty(QualType T)
  {
    if (T.isNull())
      return "";
    return T.getCanonicalType().getAsString(PP);
  }
  json::Object node(const char *k, SourceLocation L)
  {
    json::Object O;
    O["k"] = k;
    if (L.isValid())
    {
      O["l"] = lineOf(L);
      auto f = fileOf(L);
      if (f != CurFile)
        O["file"] = f;
    }
    return O;
  }

  json::Value callee(const FunctionDecl *FD)
  {
    json::Object O;
    O["q"] = qname(FD);
    O["usr"] = usr(FD);
    O["n"] = FD->getNameAsString();
    const FunctionDecl *Def = nullptr;
    if (FD->hasBody(Def) && Def && inRoots(Def->getLocation()))
      O["repo"] = true;
    else if (inRoots(FD->getLocation()))
      O["repodecl"] = true;
    if (auto *FPT = FD->getType()->getAs<FunctionProtoType>())
      if (!isUnresolvedExceptionSpec(FPT->getExceptionSpecType()) && FPT->isNothrow())
        O["nothrow"] = true;
    if (auto *M = dyn_cast<CXXMethodDecl>(FD))
    {
      O["cls"] = qname(M->getParent());
      O["clst"] = ty(C.getRecordType(M->getParent()));
      if (M->isVirtual())
        O["virt"] = true;
      if (M->isConst())
        O["const"] = true;
      if (M->isStatic())
        O["static"] = true;
      if (M->getParent()->isLambda())
        O["lambda"] = true;
      if (isa<CXXConversionDecl>(M))
        O["conv"] = true;
    }
    json::Array pts;
    for (auto *P : FD->parameters())
      pts.push_back(ty(P->getType()));
    O["pt"] = std::move(pts);
    O["rt"] = ty(FD->getReturnType());
    return O;
  }

  void addCv(json::Object &O, const Expr *E)
  {
    if (E->isValueDependent() || E->isTypeDependent() || E->containsErrors())
      return;
    if (!E->getType()->isIntegralOrEnumerationType())
      return;
    Expr::EvalResult R;
    if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects) && R.Val.isInt())
    {
      llvm::SmallString<32> S;
      R.Val.getInt().toString(S, 10);
      O["cv"] = std::string(S.str());
    }
  }

  json::Value ex(const Expr *E)
  {
    if (!E)
      return nullptr;
    // transparent wrappers
    while (true)
    {
      if (auto *X = dyn_cast<ParenExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<ExprWithCleanups>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<ConstantExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = X->getReplacement(); continue; }
      if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) { E = X->getExpr(); continue; }
      if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) { E = X->getExpr(); continue; }
      if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<OpaqueValueExpr>(E)) { if (X->getSourceExpr()) { E = X->getSourceExpr(); continue; } }
      if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E)) { E = X->getSemanticForm(); continue; }
      if (auto *X = dyn_cast<ImplicitCastExpr>(E))
      {
        E = X->getSubExpr();
        continue;
      }
      break;
    }
    json::Object O = node("other", E->getExprLoc());
    auto T = ty(E->getType());
    O["t"] = T;
    if (auto *X = dyn_cast<IntegerLiteral>(E))
    {
      O["k"] = "int";
      llvm::SmallString<32> S;
      X->getValue().toString(S, 10, X->getType()->isSignedIntegerType());
      O["v"] = std::string(S.str());
      O["cv"] = std::string(S.str());
      return O;
    }
    if (auto *X = dyn_cast<CharacterLiteral>(E))
    {
      O["k"] = "int";
      O["v"] = std::to_string(X->getValue());
      O["cv"] = std::to_string(X->getValue());
      return O;
    }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E))
    {
      O["k"] = "bool";
      O["v"] = X->getValue();
      O["cv"] = X->getValue() ? "1" : "0";
      return O;
    }
    if (auto *X = dyn_cast<FloatingLiteral>(E))
    {
      O["k"] = "float";
      O["v"] = X->getValueAsApproximateDouble();
      return O;
    }
    if (auto *X = dyn_cast<StringLiteral>(E))
    {
      O["k"] = "str";
      O["v"] = json::fixUTF8(X->getBytes());
      return O;
    }
    if (auto *X = dyn_cast<PredefinedExpr>(E))
    {
      O["k"] = "str";
      O["v"] = X->getFunctionName() ? X->getFunctionName()->getString().str() : "";
      O["predef"] = true;
      return O;
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E))
    {
      O["k"] = "null";
      return O;
    }
    if (isa<CXXThisExpr>(E))
    {
      O["k"] = "this";
      return O;
    }
    if (auto *X = dyn_cast<DeclRefExpr>(E))
    {
      const ValueDecl *D = X->getDecl();
      addCv(O, E);
      if (auto *FD = dyn_cast<FunctionDecl>(D))
      {
        O["k"] = "fn";
        O["fn"] = callee(FD);
        return O;
      }
      O["k"] = "var";
      O["n"] = D->getNameAsString();
      if (auto *EC = dyn_cast<EnumConstantDecl>(D))
      {
        O["vk"] = "enum";
        O["q"] = qname(EC);
        return O;
      }
      if (auto *VD = dyn_cast<VarDecl>(D))
      {
        if (isa<ParmVarDecl>(VD))
          O["vk"] = "param";
        else if (VD->isLocalVarDecl())
        {
          O["vk"] = VD->getTLSKind() != VarDecl::TLS_None ? "tls" : (VD->isStaticLocal() ? "static" : "local");
        }
        else
        {
          O["vk"] = "global";
          O["q"] = qname(VD);
        }
        if (VD->isLocalVarDecl() || isa<ParmVarDecl>(VD))
          O["id"] = varId(VD->getCanonicalDecl());
        else
          O["id"] = qname(VD);
        return O;
      }
      O["vk"] = "other";
      O["id"] = varId(D);
      return O;
    }
    if (auto *X = dyn_cast<MemberExpr>(E))
    {
      addCv(O, E);
      if (auto *VD = dyn_cast<VarDecl>(X->getMemberDecl()))
      {  // static data member through object
        O["k"] = "var";
        O["vk"] = "global";
        O["n"] = VD->getNameAsString();
        O["id"] = qname(VD);
        O["q"] = qname(VD);
        return O;
      }
      if (auto *M = dyn_cast<FunctionDecl>(X->getMemberDecl()))
      {
        O["k"] = "fn";
        O["fn"] = callee(M);
        O["b"] = ex(X->getBase());
        return O;
      }
      O["k"] = "mem";
      O["f"] = qname(X->getMemberDecl());
      O["n"] = X->getMemberDecl()->getNameAsString();
      O["arrow"] = X->isArrow();
      O["b"] = ex(X->getBase());
      return O;
    }
    if (auto *X = dyn_cast<LambdaExpr>(E))
    {
      O["k"] = "lambda";
      O["fn"] = usr(X->getCallOperator());
      O["generic"] = X->isGenericLambda();
      if (X->isGenericLambda())
      {
        json::Array specs;
        if (auto *FT = X->getCallOperator()->getDescribedFunctionTemplate())
          for (auto *S : FT->specializations())
            specs.push_back(usr(S));
        O["specs"] = std::move(specs);
      }
      json::Array caps;
      auto init = X->capture_init_begin();
      for (auto &Cp : X->captures())
      {
        json::Object CO;
        if (Cp.capturesThis())
          CO["this"] = true;
        else if (Cp.capturesVariable())
        {
          auto *CV = Cp.getCapturedVar();
          CO["id"] = varId(cast<ValueDecl>(CV->getCanonicalDecl()));
          CO["n"] = CV->getNameAsString();
          CO["initcap"] = isa<VarDecl>(CV) && cast<VarDecl>(CV)->isInitCapture();
          CO["byref"] = Cp.getCaptureKind() == LCK_ByRef;
          if (*init)
            CO["e"] = ex(*init);
        }
        caps.push_back(std::move(CO));
        ++init;
      }
      O["caps"] = std::move(caps);
      return O;
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E))
    {
      O["k"] = "call";
      O["op"] = getOperatorSpelling(X->getOperator());
      const FunctionDecl *FD = X->getDirectCallee();
      unsigned start = 0;
      if (FD)
      {
        O["c"] = callee(FD);
        if (isa<CXXMethodDecl>(FD) && !cast<CXXMethodDecl>(FD)->isStatic())
        {
          O["o"] = ex(X->getArg(0));
          start = 1;
        }
      }
      json::Array A;
      for (unsigned i = start; i < X->getNumArgs(); i++)
        A.push_back(ex(X->getArg(i)));
      O["a"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<CallExpr>(E))
    {
      O["k"] = "call";
      addCv(O, E);
      const FunctionDecl *FD = X->getDirectCallee();
      if (FD)
        O["c"] = callee(FD);
      if (auto *MC = dyn_cast<CXXMemberCallExpr>(X))
      {
        O["o"] = ex(MC->getImplicitObjectArgument());
        if (auto *ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParens()))
        {
          O["arrow"] = ME->isArrow();
          if (ME->hasQualifier())
            O["nonvirt"] = true;
        }
      }
      else if (!FD)
        O["fnexpr"] = ex(X->getCallee());
      json::Array A;
      for (auto *Ar : X->arguments())
        A.push_back(ex(Ar));
      O["a"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E))
    {
      if (X->isElidable() && X->getNumArgs() == 1)
        return ex(X->getArg(0));
      O["k"] = "ctor";
      auto *CD = X->getConstructor();
      O["c"] = callee(CD);
      O["cm"] = CD->isCopyOrMoveConstructor() ? (CD->isMoveConstructor() ? "move" : "copy") : "";
      O["rq"] = qname(CD->getParent());
      json::Array A;
      for (auto *Ar : X->arguments())
        A.push_back(ex(Ar));
      O["a"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E))
    {
      O["k"] = "ctor";
      O["c"] = callee(X->getConstructor());
      O["rq"] = qname(X->getConstructor()->getParent());
      O["a"] = json::Array{};
      return O;
    }
    if (auto *X = dyn_cast<UnaryOperator>(E))
    {
      O["k"] = "un";
      O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode());
      if (X->isPostfix())
        O["post"] = true;
      O["e"] = ex(X->getSubExpr());
      addCv(O, E);
      return O;
    }
    if (auto *X = dyn_cast<BinaryOperator>(E))
    {
      O["k"] = X->isAssignmentOp() ? "assign" : "bin";
      O["op"] = X->getOpcodeStr();
      O["x"] = ex(X->getLHS());
      O["y"] = ex(X->getRHS());
      if (!X->isAssignmentOp())
        addCv(O, E);
      return O;
    }
    if (auto *X = dyn_cast<AbstractConditionalOperator>(E))
    {
      O["k"] = "cond";
      O["c"] = ex(X->getCond());
      O["x"] = ex(X->getTrueExpr());
      O["y"] = ex(X->getFalseExpr());
      addCv(O, E);
      return O;
    }
    if (auto *X = dyn_cast<ExplicitCastExpr>(E))
    {
      if (isa<CXXFunctionalCastExpr>(X) || X->getCastKind() == CK_ConstructorConversion)
      {
        const Expr *S = X->getSubExpr()->IgnoreImplicit();
        if (isa<CXXConstructExpr>(S) || isa<InitListExpr>(S))
          return ex(X->getSubExpr());
      }
      O["k"] = "cast";
      O["ck"] = X->getCastKindName();
      O["cs"] = isa<CXXReinterpretCastExpr>(X) ? "reinterpret" : isa<CXXDynamicCastExpr>(X) ? "dynamic" : "static";
      O["e"] = ex(X->getSubExpr());
      O["st"] = ty(X->getSubExpr()->getType());
      addCv(O, E);
      return O;
    }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E))
    {
      O["k"] = "sizeof";
      addCv(O, E);
      if (!X->isArgumentType())
        O["e"] = ex(X->getArgumentExpr());
      O["at"] = ty(X->getTypeOfArgument());
      return O;
    }
    if (auto *X = dyn_cast<InitListExpr>(E))
    {
      if (X->getNumInits() == 1 && !X->getType()->isRecordType() && !X->getType()->isArrayType())
        return ex(X->getInit(0));
      if (X->isTransparent() && X->getNumInits() == 1)
        return ex(X->getInit(0));
      O["k"] = "initlist";
      if (auto *RD = X->getType()->getAsCXXRecordDecl())
      {
        O["rq"] = qname(RD);
        json::Array fs;
        for (auto *F : RD->fields())
          fs.push_back(qname(F));
        O["fields"] = std::move(fs);
      }
      json::Array A;
      for (auto *I : X->inits())
        A.push_back(ex(I));
      O["a"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E))
    {
      O["k"] = "idx";
      O["x"] = ex(X->getBase());
      O["y"] = ex(X->getIdx());
      return O;
    }
    if (auto *X = dyn_cast<CXXThrowExpr>(E))
    {
      O["k"] = "throw";
      if (X->getSubExpr())
      {
        O["e"] = ex(X->getSubExpr());
        O["tt"] = ty(X->getSubExpr()->getType());
        json::Array bs;
        if (auto *RD = X->getSubExpr()->getType()->getAsCXXRecordDecl())
          allBases(RD, bs);
        O["bases"] = std::move(bs);
      }
      return O;
    }
    if (auto *X = dyn_cast<CXXNewExpr>(E))
    {
      O["k"] = "new";
      if (X->getInitializer())
        O["e"] = ex(X->getInitializer());
      return O;
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E))
    {
      O["k"] = "delete";
      O["e"] = ex(X->getArgument());
      return O;
    }
    if (auto *X = dyn_cast<StmtExpr>(E))
    {
      O["k"] = "stmtexpr";
      O["s"] = st(X->getSubStmt());
      return O;
    }
    if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E))
    {
      O["k"] = "zero";
      if (E->getType()->isPointerType())
        O["k"] = "null";
      addCv(O, E);
      return O;
    }
    if (auto *X = dyn_cast<PseudoObjectExpr>(E))
      return ex(X->getResultExpr());
    if (auto *X = dyn_cast<ChooseExpr>(E))
      return ex(X->getChosenSubExpr());
    O["cn"] = E->getStmtClassName();
    addCv(O, E);
    json::Array ch;
    for (auto *S : E->children())
      if (S)
        ch.push_back(isa<Expr>(S) ? ex(cast<Expr>(S)) : st(S));
    O["ch"] = std::move(ch);
    return O;
  }
  void allBases(const CXXRecordDecl *RD, json::Array &bs)
  {
    bs.push_back(qname(RD));
    if (!RD->hasDefinition())
      return;
    for (auto &B : RD->bases())
      if (auto *BR = B.getType()->getAsCXXRecordDecl())
        allBases(BR, bs);
  }
  json::Value varDecl(const VarDecl *VD)
  {
    json::Object O = node("vd", VD->getLocation());
    O["id"] = varId(VD->getCanonicalDecl());
    O["n"] = VD->getNameAsString();
    O["t"] = ty(VD->getType());
    O["ref"] = VD->getType()->isReferenceType();
    if (auto *RD = VD->getType().getNonReferenceType()->getAsCXXRecordDecl())
      O["rq"] = qname(RD);
    if (VD->getTLSKind() != VarDecl::TLS_None)
      O["tls"] = true;
    else if (VD->isStaticLocal())
      O["static"] = true;
    if (VD->needsDestruction(C))
      O["dtor"] = true;
    if (VD->getInit())
      O["init"] = ex(VD->getInit());
    return O;
  }
  json::Value st(const Stmt *S)
  {
    if (!S)
      return nullptr;
    if (auto *E = dyn_cast<Expr>(S))
      return ex(E);
    json::Object O = node("other", S->getBeginLoc());
    O["stmt"] = true;
    if (auto *X = dyn_cast<CompoundStmt>(S))
    {
      O["k"] = "block";
      json::Array A;
      for (auto *B : X->body())
        A.push_back(st(B));
      O["s"] = std::move(A);
      O["le"] = lineOf(X->getRBracLoc());
      return O;
    }
    if (auto *X = dyn_cast<DeclStmt>(S))
    {
      O["k"] = "decl";
      json::Array A;
      for (auto *D : X->decls())
        if (auto *VD = dyn_cast<VarDecl>(D))
          A.push_back(varDecl(VD));
      O["v"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<IfStmt>(S))
    {
      O["k"] = "if";
      if (X->getInit())
        O["init"] = st(X->getInit());
      if (X->getConditionVariable())
        O["var"] = varDecl(X->getConditionVariable());
      if (X->isConstexpr())
      {
        Expr::EvalResult R;
        if (!X->getCond()->isValueDependent() && X->getCond()->EvaluateAsInt(R, C))
        {
          const Stmt *Live = R.Val.getInt().getBoolValue() ? X->getThen() : X->getElse();
          if (Live)
            return st(Live);
          O["k"] = "empty";
          return O;
        }
      }
      O["c"] = ex(X->getCond());
      O["th"] = st(X->getThen());
      O["el"] = st(X->getElse());
      return O;
    }
    if (auto *X = dyn_cast<WhileStmt>(S))
    {
      O["k"] = "while";
      if (X->getConditionVariable())
        O["var"] = varDecl(X->getConditionVariable());
      O["c"] = ex(X->getCond());
      O["b"] = st(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<DoStmt>(S))
    {
      O["k"] = "do";
      O["c"] = ex(X->getCond());
      O["b"] = st(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<ForStmt>(S))
    {
      O["k"] = "for";
      O["init"] = st(X->getInit());
      if (X->getConditionVariable())
        O["var"] = varDecl(X->getConditionVariable());
      O["c"] = ex(X->getCond());
      O["inc"] = ex(X->getInc());
      O["b"] = st(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S))
    {
      O["k"] = "rfor";
      O["var"] = varDecl(X->getLoopVariable());
      O["range"] = ex(X->getRangeInit());
      O["b"] = st(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<SwitchStmt>(S))
    {
      O["k"] = "switch";
      if (X->getInit())
        O["init"] = st(X->getInit());
      if (X->getConditionVariable())
        O["var"] = varDecl(X->getConditionVariable());
      O["c"] = ex(X->getCond());
      O["allenum"] = X->isAllEnumCasesCovered();
      O["b"] = st(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<CaseStmt>(S))
    {
      O["k"] = "case";
      O["v"] = ex(X->getLHS());
      O["b"] = st(X->getSubStmt());
      return O;
    }
    if (auto *X = dyn_cast<DefaultStmt>(S))
    {
      O["k"] = "default";
      O["b"] = st(X->getSubStmt());
      return O;
    }
    if (auto *X = dyn_cast<ReturnStmt>(S))
    {
      O["k"] = "ret";
      O["e"] = ex(X->getRetValue());
      return O;
    }
    if (isa<BreakStmt>(S))
    {
      O["k"] = "break";
      return O;
    }
    if (isa<ContinueStmt>(S))
    {
      O["k"] = "continue";
      return O;
    }
    if (isa<NullStmt>(S))
    {
      O["k"] = "empty";
      return O;
    }
    if (auto *X = dyn_cast<CXXTryStmt>(S))
    {
      O["k"] = "try";
      O["b"] = st(X->getTryBlock());
      json::Array H;
      for (unsigned i = 0; i < X->getNumHandlers(); i++)
      {
        auto *CS = X->getHandler(i);
        json::Object HO = node("catch", CS->getBeginLoc());
        QualType CT = CS->getCaughtType();
        if (!CT.isNull())
        {
          QualType U = CT.getNonReferenceType().getUnqualifiedType();
          if (auto *RD = U->getAsCXXRecordDecl())
            HO["ct"] = qname(RD);
          else
            HO["ct"] = ty(U);
        }
        if (CS->getExceptionDecl())
          HO["var"] = varDecl(CS->getExceptionDecl());
        HO["b"] = st(CS->getHandlerBlock());
        H.push_back(std::move(HO));
      }
      O["h"] = std::move(H);
      return O;
    }
    if (auto *X = dyn_cast<AttributedStmt>(S))
      return st(X->getSubStmt());
    if (auto *X = dyn_cast<LabelStmt>(S))
    {
      O["k"] = "label";
      O["n"] = X->getDecl()->getNameAsString();
      O["b"] = st(X->getSubStmt());
      return O;
    }
    if (auto *X = dyn_cast<GotoStmt>(S))
    {
      O["k"] = "goto";
      O["n"] = X->getLabel()->getNameAsString();
      return O;
    }
    if (auto *A = dyn_cast<GCCAsmStmt>(S))
    {
      O["k"] = "asm";
      O["v"] = A->getAsmString()->getString().str();
      return O;
    }
    O["cn"] = S->getStmtClassName();
    json::Array ch;
    for (auto *B : S->children())
      if (B)
        ch.push_back(st(B));
    O["ch"] = std::move(ch);
    return O;
  }

  bool VisitFunctionDecl(FunctionDecl *FD)
  {
    if (!FD->doesThisDeclarationHaveABody())
      return true;
    if (FD->isDependentContext() || FD->isTemplated())
      return true;
    if (!inRoots(FD->getLocation()))
      return true;
    if (!Seen.insert(FD).second)
      return true;
    emit(FD);
    return true;
  }
  bool VisitLambdaExpr(LambdaExpr *L)
  {
    auto *M = L->getCallOperator();
    if (M)
    {
      if (L->isGenericLambda())
      {
        if (auto *FT = M->getDescribedFunctionTemplate())
          for (auto *S : FT->specializations())
            if (S->hasBody())
              VisitFunctionDecl(S);
      }
      else
        VisitFunctionDecl(M);
    }
    return true;
  }
  void emit(FunctionDecl *FD)
  {
    CurFile = fileOf(FD->getLocation());
    json::Object O;
    O["usr"] = usr(FD);
    O["q"] = qname(FD);
    O["n"] = FD->getNameAsString();
    O["file"] = CurFile;
    O["line"] = lineOf(FD->getLocation());
    O["endline"] = lineOf(FD->getEndLoc());
    O["rt"] = ty(FD->getReturnType());
    O["static"] = FD->isStatic() || (isa<CXXMethodDecl>(FD) && cast<CXXMethodDecl>(FD)->isStatic());
    O["internal"] = FD->getFormalLinkage() == Linkage::Internal;
    O["implicit"] = FD->isImplicit();
    if (FD->isTemplateInstantiation())
      O["inst"] = true;
    if (auto *FPT = FD->getType()->getAs<FunctionProtoType>())
      if (!isUnresolvedExceptionSpec(FPT->getExceptionSpecType()) && FPT->isNothrow())
        O["nothrow"] = true;
    json::Array Ps;
    for (auto *P : FD->parameters())
    {
      json::Object PO;
      PO["id"] = varId(cast<ValueDecl>(P->getCanonicalDecl()));
      PO["n"] = P->getNameAsString();
      PO["t"] = ty(P->getType());
      PO["ref"] = P->getType()->isReferenceType();
      Ps.push_back(std::move(PO));
    }
    O["p"] = std::move(Ps);
    O["kind"] = "func";
    if (auto *M = dyn_cast<CXXMethodDecl>(FD))
    {
      O["kind"] = isa<CXXConstructorDecl>(M) ? "ctor" : isa<CXXDestructorDecl>(M) ? "dtor" : "method";
      O["cls"] = qname(M->getParent());
      O["clst"] = ty(C.getRecordType(M->getParent()));
      O["const"] = M->isConst();
      O["virt"] = M->isVirtual();
      O["access"] = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private";
      json::Array Ov;
      collectOverrides(M, Ov);
      O["over"] = std::move(Ov);
      if (M->getParent()->isLambda())
        O["kind"] = "lambda";
      if (auto *CD = dyn_cast<CXXConstructorDecl>(M))
      {
        if (CD->isCopyOrMoveConstructor())
          O["copymove"] = true;
        json::Array In;
        for (auto *I : CD->inits())
        {
          json::Object IO = node("init", I->getSourceLocation());
          if (I->isAnyMemberInitializer())
            IO["f"] = qname(I->getAnyMember());
          else if (I->isDelegatingInitializer())
            IO["deleg"] = true;
          else if (I->isBaseInitializer())
            IO["base"] = ty(QualType(I->getBaseClass(), 0));
          IO["e"] = ex(I->getInit());
          IO["written"] = I->isWritten() || I->isInClassMemberInitializer();
          In.push_back(std::move(IO));
        }
        O["inits"] = std::move(In);
      }
    }
    O["body"] = st(FD->getBody());
    if (FD->getBody() && isa<CXXTryStmt>(FD->getBody()))
      O["fntry"] = true;
    Functions.push_back(std::move(O));
  }
  void collectOverrides(const CXXMethodDecl *M, json::Array &Ov)
  {
    for (auto *B : M->overridden_methods())
    {
      Ov.push_back(usr(B));
      collectOverrides(B, Ov);
    }
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *RD)
  {
    if (!RD->isThisDeclarationADefinition() || RD->isDependentContext() || RD->isLambda())
      return true;
    if (!inRoots(RD->getLocation()))
      return true;
    if (!SeenRec.insert(RD).second)
      return true;
    json::Object O;
    O["q"] = qname(RD);
    O["t"] = ty(C.getRecordType(RD));
    O["file"] = fileOf(RD->getLocation());
    O["line"] = lineOf(RD->getLocation());
    json::Array Fs, Bs, Ms;
    for (auto *F : RD->fields())
    {
      json::Object FO;
      FO["f"] = qname(F);
      FO["n"] = F->getNameAsString();
      FO["t"] = ty(F->getType());
      FO["tt"] = F->getType().getAsString(PP);
      FO["line"] = lineOf(F->getLocation());
      FO["init"] = F->hasInClassInitializer();
      FO["access"] = F->getAccess() == AS_public ? "public" : F->getAccess() == AS_protected ? "protected" : "private";
      FO["const"] = F->getType().isConstQualified();
      FO["scalar"] = F->getType()->isScalarType();
      CurFile = fileOf(F->getLocation());
      if (F->hasInClassInitializer() && F->getInClassInitializer())
        FO["inite"] = ex(F->getInClassInitializer());
      Fs.push_back(std::move(FO));
    }
    for (auto &B : RD->bases())
      if (auto *BR = B.getType()->getAsCXXRecordDecl())
        Bs.push_back(qname(BR));
    for (auto *M : RD->methods())
    {
      json::Object MO;
      MO["n"] = M->getNameAsString();
      MO["usr"] = usr(M);
      MO["deleted"] = M->isDeleted();
      MO["access"] = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private";
      Ms.push_back(std::move(MO));
    }
    O["fields"] = std::move(Fs);
    O["bases"] = std::move(Bs);
    O["methods"] = std::move(Ms);
    O["copyable"] = RD->hasSimpleCopyConstructor() || RD->hasUserDeclaredCopyConstructor();
    json::Array ab;
    allBases(RD, ab);
    O["allbases"] = std::move(ab);
    Records.push_back(std::move(O));
    return true;
  }
  bool VisitVarDecl(VarDecl *VD)
  {
    if (VD->isLocalVarDeclOrParm() || !VD->hasGlobalStorage())
      return true;
    if (VD->getDeclContext()->isDependentContext())
      return true;
    if (!inRoots(VD->getLocation()) || !VD->isThisDeclarationADefinition())
      return true;
    CurFile = fileOf(VD->getLocation());
    json::Object O;
    O["q"] = qname(VD);
    O["n"] = VD->getNameAsString();
    O["t"] = ty(VD->getType());
    O["file"] = CurFile;
    O["line"] = lineOf(VD->getLocation());
    if (VD->getTLSKind() != VarDecl::TLS_None)
      O["tls"] = true;
    O["const"] = VD->getType().isConstQualified();
    if (VD->getInit())
    {
      if (!VD->getType()->isArrayType())
        O["init"] = ex(VD->getInit());
    }
    Globals.push_back(std::move(O));
    return true;
  }
  bool VisitEnumDecl(EnumDecl *ED)
  {
    if (!inRoots(ED->getLocation()) || !ED->isThisDeclarationADefinition() || ED->getDeclContext()->isDependentContext())
      return true;
    json::Object O;
    O["q"] = qname(ED);
    json::Array A;
    for (auto *E : ED->enumerators())
    {
      json::Object EO;
      EO["n"] = E->getNameAsString();
      llvm::SmallString<32> S;
      E->getInitVal().toString(S, 10);
      EO["v"] = std::string(S.str());
      A.push_back(std::move(EO));
    }
    O["e"] = std::move(A);
    Enums.push_back(std::move(O));
    return true;
  }
};

struct Consumer : ASTConsumer
{
  std::string In;
  explicit Consumer(std::string I) : In(std::move(I)) {}
  void HandleTranslationUnit(ASTContext &Ctx) override
  {
    if (Ctx.getDiagnostics().hasErrorOccurred())
      return;
    Extractor X(Ctx);
    X.TraverseDecl(Ctx.getTranslationUnitDecl());
    json::Object Out;
    Out["tu"] = In;
    Out["functions"] = std::move(X.Functions);
    Out["records"] = std::move(X.Records);
    Out["globals"] = std::move(X.Globals);
    Out["enums"] = std::move(X.Enums);
    json::Array files;
    auto &SM = Ctx.getSourceManager();
    for (auto it = SM.fileinfo_begin(); it != SM.fileinfo_end(); ++it)
      files.push_back(it->first.getFileEntry().tryGetRealPathName().str());
    Out["files"] = std::move(files);
    llvm::outs() << json::Value(std::move(Out)) << "\n";
  }
};
struct Action : ASTFrontendAction
{
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef F) override
  {
    return std::make_unique<Consumer>(F.str());
  }
};
struct Factory : tooling::FrontendActionFactory
{
  std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
};
}  // namespace

// usage: extract ROOT[:ROOT...] FILE -- FLAGS...
int main(int argc, const char **argv)
{
  if (argc < 4)
    return 2;
  std::string roots = argv[1];
  size_t p = 0;
  while (p <= roots.size())
  {
    size_t q = roots.find(':', p);
    if (q == std::string::npos)
      q = roots.size();
    Roots.push_back(roots.substr(p, q - p));
    p = q + 1;
  }
  std::vector<std::string> flags(argv + 4, argv + argc);
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool Tool(DB, {argv[2]});
  Factory F;
  return Tool.run(&F);
}
