// vx: dumps the type-checked program (functions with their clang CFGs, classes,
// enums, globals) of one translation unit as JSON.  Only declarations whose
// (expansion) location lies below --root are dumped; callees outside it are
// referred to by name.  Nothing is decided here.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/xxhash.h"
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;

static llvm::cl::OptionCategory Cat("vx");
static llvm::cl::opt<std::string> Root("root", llvm::cl::cat(Cat));
static llvm::cl::opt<std::string> Root2("root2", llvm::cl::cat(Cat)); // second root (witness programs)
static llvm::cl::opt<std::string> Out("out", llvm::cl::cat(Cat));
// Classes whose full name matches are not dumped (one representative element
// type is enough for the level classes, which are instantiated for 15 types).
static llvm::cl::opt<std::string> SkipCls("skip", llvm::cl::cat(Cat));

namespace {

class Dumper {
  ASTContext &Ctx;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const Decl *, std::string> idCache;
  std::map<std::string, int> typeTab;
  json::Array types;

public:
  json::Array funcs, classes, enums, globals;
  std::set<std::string> seenF, seenC, seenE, seenG;

  Dumper(ASTContext &C) : Ctx(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.Bool = true;
  }

  json::Array takeTypes() { return std::move(types); }

  int type(QualType T) {
    if (T.isNull()) return -1;
    std::string s = T.getCanonicalType().getAsString(PP);
    auto it = typeTab.find(s);
    if (it != typeTab.end()) return it->second;
    int n = typeTab.size();
    typeTab[s] = n;
    types.push_back(s);
    return n;
  }

  std::string fileOf(SourceLocation L) {
    if (L.isInvalid()) return "";
    L = SM.getExpansionLoc(L);
    const FileEntry *FE = SM.getFileEntryForID(SM.getFileID(L));
    if (!FE) return "";
    StringRef n = FE->tryGetRealPathName();
    return n.str();
  }
  unsigned lineOf(SourceLocation L) {
    return L.isInvalid() ? 0 : SM.getExpansionLineNumber(L);
  }
  unsigned colOf(SourceLocation L) {
    return L.isInvalid() ? 0 : SM.getExpansionColumnNumber(L);
  }
  static bool under(const std::string &f, const std::string &R) {
    return f.size() > R.size() && f.compare(0, R.size(), R) == 0 && f[R.size()] == '/';
  }
  bool inRoot(SourceLocation L) {
    std::string f = fileOf(L);
    return under(f, Root) || (!Root2.empty() && under(f, Root2));
  }
  std::string rel(SourceLocation L) {
    std::string f = fileOf(L);
    if (f.size() > Root.size() && f.compare(0, Root.size(), Root) == 0)
      return f.substr(Root.size() + 1);
    return f;
  }

  std::string id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = idCache.find(D);
    if (it != idCache.end()) return it->second;
    std::string r;
    llvm::SmallString<128> buf;
    if (auto *V = dyn_cast<VarDecl>(D); V && (V->isLocalVarDeclOrParm() || isa<ParmVarDecl>(V))) {
      r = "v" + std::to_string(V->getLocation().getRawEncoding()) + ":" + V->getNameAsString() + ":" +
          std::to_string((uintptr_t)V % 1000003);
    } else if (!index::generateUSRForDecl(D, buf)) {
      r = "u" + llvm::utohexstr(llvm::xxh3_64bits(buf.str()));
    } else {
      r = "d" + std::to_string((uintptr_t)D);
    }
    idCache[D] = r;
    return r;
  }

  // qualified name without template arguments
  std::string plain(const NamedDecl *D) {
    std::string s = D->getNameAsString();
    if (isa<CXXConstructorDecl>(D) || isa<CXXDestructorDecl>(D)) {
      s = cast<NamedDecl>(D->getDeclContext())->getNameAsString();
      if (isa<CXXDestructorDecl>(D)) s = "~" + s;
    }
    const DeclContext *DC = D->getDeclContext();
    while (DC && !DC->isTranslationUnit()) {
      if (auto *N = dyn_cast<NamespaceDecl>(DC)) {
        if (!N->isInline()) s = (N->isAnonymousNamespace() ? std::string("(anon)") : N->getNameAsString()) + "::" + s;
      } else if (auto *N = dyn_cast<NamedDecl>(DC)) {
        if (!isa<EnumDecl>(DC) || cast<EnumDecl>(DC)->isScoped()) s = N->getNameAsString() + "::" + s;
      }
      DC = DC->getParent();
    }
    return s;
  }
  bool skipped(const CXXRecordDecl *R) {
    if (SkipCls.empty() || !R) return false;
    auto it = skipCache.find(R);
    if (it != skipCache.end()) return it->second;
    static llvm::Regex re(SkipCls);
    return skipCache[R] = re.match(clsFull(R));
  }
  std::map<const CXXRecordDecl *, bool> skipCache;

  std::string qname(const NamedDecl *D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    D->printQualifiedName(os, PP);
    return os.str();
  }

  // qualified name of the class without template arguments
  std::string clsBase(const CXXRecordDecl *R) {
    if (!R) return "";
    return plain(R);
  }
  std::string clsFull(const RecordDecl *R) {
    if (!R) return "";
    return Ctx.getTypeDeclType(R).getCanonicalType().getAsString(PP);
  }

  // ---- expressions ----
  struct FnCtx {
    std::map<const Stmt *, int> elem; // emitted CFG elements
    std::map<const Stmt *, std::pair<std::string, json::Value>> target;
  };
  FnCtx *F = nullptr;

  static const Stmt *skip(const Stmt *S) {
    for (;;) {
      if (!S) return S;
      if (auto *E = dyn_cast<ParenExpr>(S)) S = E->getSubExpr();
      else if (auto *E = dyn_cast<ExprWithCleanups>(S)) S = E->getSubExpr();
      else if (auto *E = dyn_cast<CXXBindTemporaryExpr>(S)) S = E->getSubExpr();
      else if (auto *E = dyn_cast<ConstantExpr>(S)) S = E->getSubExpr();
      else if (auto *E = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) S = E->getReplacement();
      else if (auto *E = dyn_cast<CXXDefaultArgExpr>(S)) S = E->getExpr();
      else if (auto *E = dyn_cast<CXXDefaultInitExpr>(S)) S = E->getExpr();
      else if (auto *E = dyn_cast<MaterializeTemporaryExpr>(S)) {
        return S;
      } else return S;
    }
  }

  json::Value sub(const Stmt *S0) {
    // reference to an emitted element if there is one, else nested
    const Stmt *S = S0;
    for (;;) {
      if (!S) return nullptr;
      auto it = F ? F->elem.find(S) : std::map<const Stmt *, int>::iterator();
      if (F && it != F->elem.end()) return json::Object{{"r", it->second}};
      const Stmt *N = S;
      if (auto *E = dyn_cast<ParenExpr>(S)) N = E->getSubExpr();
      else if (auto *E = dyn_cast<ExprWithCleanups>(S)) N = E->getSubExpr();
      else if (auto *E = dyn_cast<CXXBindTemporaryExpr>(S)) N = E->getSubExpr();
      else if (auto *E = dyn_cast<ConstantExpr>(S)) N = E->getSubExpr();
      else if (auto *E = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) N = E->getReplacement();
      else if (auto *E = dyn_cast<CXXDefaultArgExpr>(S)) N = E->getExpr();
      else if (auto *E = dyn_cast<CXXDefaultInitExpr>(S)) N = E->getExpr();
      if (N == S) return expr(S);
      S = N;
    }
  }

  std::string macroName(SourceLocation L) {
    if (L.isInvalid() || !L.isMacroID()) return "";
    // outermost macro whose expansion is in a file
    std::string last;
    while (L.isMacroID()) {
      if (SM.isMacroArgExpansion(L)) { L = SM.getImmediateSpellingLoc(L); continue; }
      last = Lexer::getImmediateMacroName(L, SM, Ctx.getLangOpts()).str();
      L = SM.getImmediateExpansionRange(L).getBegin();
    }
    return last;
  }

  json::Array args(llvm::ArrayRef<const Expr *> A) {
    json::Array r;
    for (auto *E : A) r.push_back(sub(E));
    return r;
  }

  void fnref(json::Object &o, const FunctionDecl *FD) {
    if (!FD) { o["fn"] = nullptr; return; }
    const FunctionDecl *P = FD;
    o["fn"] = id(FD);
    o["n"] = nameOf(FD);
    if (auto *M = dyn_cast<CXXMethodDecl>(FD)) {
      o["cls"] = clsBase(M->getParent());
    }
    (void)P;
    json::Array pt;
    for (auto *Q : FD->parameters()) pt.push_back(type(Q->getType()));
    o["pt"] = std::move(pt);
    if (auto *M = dyn_cast<CXXMethodDecl>(FD)) if (M->isConst()) o["cm"] = true;
    if (auto *TA = FD->getTemplateSpecializationArgs()) {
      json::Array a;
      for (auto &A : TA->asArray()) { std::string s; llvm::raw_string_ostream os(s); A.print(PP, os, true); a.push_back(os.str()); }
      o["targs"] = std::move(a);
    }
    if (FD->isNoReturn()) o["noret"] = true;
    noteFn(FD);
  }
  std::string nameOf(const FunctionDecl *FD) {
    return plain(FD);
  }

  std::vector<const FunctionDecl *> pending;
  void noteFn(const FunctionDecl *FD) { pending.push_back(FD); }

  json::Value expr(const Stmt *S) {
    S = skip(S);
    if (!S) return nullptr;
    json::Object o;
    o["l"] = lineOf(S->getBeginLoc());
    if (auto *E = dyn_cast<Expr>(S)) {
      o["t"] = type(E->getType());
      if (E->isGLValue()) o["lv"] = true;
      if (!E->isTypeDependent() && !E->isValueDependent() && !E->isGLValue() &&
          (E->getType()->isIntegralOrEnumerationType())) {
        Expr::EvalResult R;
        if (!isa<CallExpr>(E) && E->EvaluateAsInt(R, Ctx) && !R.HasSideEffects)
          o["cv"] = toI(R.Val.getInt());
      }
      std::string m = macroName(E->getBeginLoc());
      if (!m.empty()) o["mac"] = m;
    }
    if (auto *E = dyn_cast<MaterializeTemporaryExpr>(S)) {
      o["k"] = "mat"; o["e"] = sub(E->getSubExpr());
    } else if (auto *E = dyn_cast<DeclRefExpr>(S)) {
      o["k"] = "ref";
      const ValueDecl *D = E->getDecl();
      o["d"] = id(D);
      o["n"] = isa<FunctionDecl>(D) ? nameOf(cast<FunctionDecl>(D)) : plain(D);
      if (auto *V = dyn_cast<VarDecl>(D)) {
        o["vk"] = isa<ParmVarDecl>(V) ? "param" : (V->isStaticLocal() ? "slocal" : V->isLocalVarDecl() ? "local" : "global");
        if (V->getType()->isReferenceType()) o["isref"] = true;
        if (!V->isLocalVarDeclOrParm()) var(V);
      } else if (isa<FunctionDecl>(D)) { o["vk"] = "func"; noteFn(cast<FunctionDecl>(D)); }
      else if (isa<EnumConstantDecl>(D)) o["vk"] = "enum";
      else o["vk"] = "other";
    } else if (auto *E = dyn_cast<MemberExpr>(S)) {
      const ValueDecl *D = E->getMemberDecl();
      if (auto *V = dyn_cast<VarDecl>(D)) { // static data member
        o["k"] = "ref"; o["d"] = id(V); o["n"] = plain(V); o["vk"] = "global";
        if (V->getType()->isReferenceType()) o["isref"] = true;
        var(V);
      } else {
        o["k"] = "mem";
        o["b"] = sub(E->getBase());
        o["arrow"] = E->isArrow();
        o["f"] = D->getNameAsString();
        if (auto *FD = dyn_cast<FieldDecl>(D)) {
          o["c"] = plain(FD->getParent());
          if (FD->getType()->isReferenceType()) o["isref"] = true;
        } else o["meth"] = true;
      }
    } else if (isa<CXXThisExpr>(S)) {
      o["k"] = "this";
    } else if (auto *E = dyn_cast<IntegerLiteral>(S)) {
      o["k"] = "int"; o["v"] = toI(llvm::APSInt(E->getValue(), !E->getType()->isSignedIntegerType()));
    } else if (auto *E = dyn_cast<CharacterLiteral>(S)) {
      o["k"] = "int"; o["v"] = (int64_t)E->getValue();
    } else if (auto *E = dyn_cast<CXXBoolLiteralExpr>(S)) {
      o["k"] = "int"; o["v"] = (int64_t)E->getValue();
    } else if (auto *E = dyn_cast<FloatingLiteral>(S)) {
      o["k"] = "flt"; o["v"] = E->getValueAsApproximateDouble();
    } else if (auto *E = dyn_cast<StringLiteral>(S)) {
      o["k"] = "str"; o["v"] = E->getCharByteWidth() == 1 ? json::fixUTF8(E->getString()) : std::string("?");
    } else if (isa<CXXNullPtrLiteralExpr>(S) || isa<GNUNullExpr>(S)) {
      o["k"] = "null";
    } else if (auto *E = dyn_cast<UnaryOperator>(S)) {
      o["k"] = "un"; o["op"] = UnaryOperator::getOpcodeStr(E->getOpcode()).str();
      if (E->isPostfix()) o["post"] = true;
      o["e"] = sub(E->getSubExpr());
    } else if (auto *E = dyn_cast<CompoundAssignOperator>(S)) {
      std::string op = BinaryOperator::getOpcodeStr(E->getOpcode()).str();
      op.pop_back();
      o["k"] = "asg"; o["op"] = op; o["a"] = sub(E->getLHS()); o["b"] = sub(E->getRHS());
    } else if (auto *E = dyn_cast<BinaryOperator>(S)) {
      if (E->getOpcode() == BO_Assign) { o["k"] = "asg"; o["op"] = ""; }
      else if (E->isLogicalOp()) { o["k"] = "logic"; o["op"] = E->getOpcode() == BO_LAnd ? "&&" : "||"; }
      else { o["k"] = "bin"; o["op"] = BinaryOperator::getOpcodeStr(E->getOpcode()).str(); }
      o["a"] = sub(E->getLHS()); o["b"] = sub(E->getRHS());
    } else if (auto *E = dyn_cast<AbstractConditionalOperator>(S)) {
      o["k"] = "cond"; o["c"] = sub(E->getCond()); o["a"] = sub(E->getTrueExpr()); o["b"] = sub(E->getFalseExpr());
    } else if (auto *E = dyn_cast<OpaqueValueExpr>(S)) {
      return E->getSourceExpr() ? sub(E->getSourceExpr()) : json::Value(std::move(o));
    } else if (auto *E = dyn_cast<ArraySubscriptExpr>(S)) {
      o["k"] = "idx"; o["b"] = sub(E->getBase()); o["ix"] = sub(E->getIdx());
    } else if (auto *E = dyn_cast<CastExpr>(S)) {
      o["k"] = "cast"; o["ck"] = E->getCastKindName(); o["e"] = sub(E->getSubExpr());
      if (isa<ExplicitCastExpr>(E)) o["x"] = true;
    } else if (auto *E = dyn_cast<CXXMemberCallExpr>(S)) {
      o["k"] = "call";
      const CXXMethodDecl *M = E->getMethodDecl();
      fnref(o, M);
      if (!M) o["callee"] = sub(E->getCallee());
      const Expr *obj = E->getImplicitObjectArgument();
      if (obj) {
        o["obj"] = sub(obj);
        if (obj->getType()->isPointerType()) o["objptr"] = true;
        QualType OT = obj->getType(); if (OT->isPointerType()) OT = OT->getPointeeType();
        if (auto *R = OT->getAsCXXRecordDecl()) o["objcls"] = clsFull(R);
      }
      if (M) {
        bool virt = M->isVirtual();
        if (auto *ME = dyn_cast<MemberExpr>(E->getCallee()->IgnoreParens()))
          if (ME->hasQualifier()) virt = false;
        if (M->hasAttr<FinalAttr>()) virt = false;
        if (virt) o["virt"] = true;
      }
      o["args"] = args(llvm::ArrayRef<const Expr *>(E->getArgs(), E->getNumArgs()));
    } else if (auto *E = dyn_cast<CXXOperatorCallExpr>(S)) {
      o["k"] = "call"; o["oper"] = getOperatorSpelling(E->getOperator());
      const FunctionDecl *FD = E->getDirectCallee();
      fnref(o, FD);
      unsigned st = 0;
      if (FD && isa<CXXMethodDecl>(FD) && !cast<CXXMethodDecl>(FD)->isStatic()) {
        o["obj"] = sub(E->getArg(0)); st = 1;
        if (cast<CXXMethodDecl>(FD)->isVirtual()) o["virt"] = true;
      }
      o["args"] = args(llvm::ArrayRef<const Expr *>(E->getArgs() + st, E->getNumArgs() - st));
    } else if (auto *E = dyn_cast<CallExpr>(S)) {
      o["k"] = "call";
      const FunctionDecl *FD = E->getDirectCallee();
      fnref(o, FD);
      if (!FD) o["callee"] = sub(E->getCallee());
      o["args"] = args(llvm::ArrayRef<const Expr *>(E->getArgs(), E->getNumArgs()));
    } else if (auto *E = dyn_cast<CXXConstructExpr>(S)) {
      o["k"] = "ctor";
      fnref(o, E->getConstructor());
      if (E->getConstructor()->isCopyOrMoveConstructor()) o["copy"] = true;
      if (E->getConstructor()->isTrivial()) o["triv"] = true;
      o["args"] = args(llvm::ArrayRef<const Expr *>(E->getArgs(), E->getNumArgs()));
      auto it = F ? F->target.find(S) : std::map<const Stmt *, std::pair<std::string, json::Value>>::iterator();
      if (F && it != F->target.end()) { o["tk"] = it->second.first; o["tgt"] = it->second.second; }
    } else if (auto *E = dyn_cast<CXXNewExpr>(S)) {
      o["k"] = "new"; o["at"] = type(E->getAllocatedType());
      if (E->isArray() && E->getArraySize()) o["size"] = sub(*E->getArraySize());
      if (E->isArray()) o["arr"] = true;
      if (E->getInitializer()) o["init"] = sub(E->getInitializer());
      if (auto *R = E->getAllocatedType()->getAsCXXRecordDecl()) { o["cls"] = clsBase(R); o["clsfull"] = clsFull(R); }
    } else if (auto *E = dyn_cast<CXXDeleteExpr>(S)) {
      o["k"] = "delete"; o["arr"] = E->isArrayForm(); o["e"] = sub(E->getArgument());
      QualType T = E->getDestroyedType();
      if (!T.isNull()) if (auto *R = T->getAsCXXRecordDecl()) {
        o["clsfull"] = clsFull(R);
        if (R->hasDefinition() && R->getDestructor()) { json::Object d; fnref(d, R->getDestructor()); if (R->getDestructor()->isVirtual()) d["virt"] = true; o["dtor"] = std::move(d); }
      }
    } else if (auto *E = dyn_cast<InitListExpr>(S)) {
      o["k"] = "list";
      json::Array a;
      for (auto *I : E->inits()) a.push_back(sub(I));
      o["a"] = std::move(a);
    } else if (isa<ImplicitValueInitExpr>(S) || isa<CXXScalarValueInitExpr>(S)) {
      o["k"] = "zero";
    } else if (auto *E = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
      o["k"] = "sizeof";
      if (E->isArgumentType()) o["of"] = type(E->getArgumentType());
      else o["of"] = type(E->getArgumentExpr()->getType());
    } else if (auto *E = dyn_cast<ReturnStmt>(S)) {
      o["k"] = "ret"; if (E->getRetValue()) o["e"] = sub(E->getRetValue());
    } else if (auto *E = dyn_cast<DeclStmt>(S)) {
      o["k"] = "decl";
      json::Array a;
      for (auto *D : E->decls())
        if (auto *V = dyn_cast<VarDecl>(D)) {
          json::Object v{{"d", id(V)}, {"n", V->getNameAsString()}, {"t", type(V->getType())}};
          if (V->getType()->isReferenceType()) v["isref"] = true;
          if (V->isStaticLocal()) v["static"] = true;
          if (V->getInit()) v["init"] = sub(V->getInit());
          if (auto *AT = Ctx.getAsVariableArrayType(V->getType()))
            if (AT->getSizeExpr()) v["vla"] = sub(AT->getSizeExpr());
          if (auto *AT = Ctx.getAsConstantArrayType(V->getType()))
            v["asz"] = (int64_t)AT->getSize().getZExtValue();
          a.push_back(std::move(v));
        }
      o["v"] = std::move(a);
    } else if (isa<LambdaExpr>(S)) {
      auto *E = cast<LambdaExpr>(S);
      o["k"] = "lambda"; o["cls"] = clsFull(E->getLambdaClass());
      if (E->getCallOperator()) { o["fn"] = id(E->getCallOperator()); noteFn(E->getCallOperator()); }
      json::Array caps;
      for (auto &C : E->captures()) {
        if (C.capturesVariable()) caps.push_back(json::Object{{"d", id(C.getCapturedVar())}, {"byref", C.getCaptureKind() == LCK_ByRef}});
        else if (C.capturesThis()) caps.push_back(json::Object{{"this", true}});
      }
      o["caps"] = std::move(caps);
    } else if (auto *E = dyn_cast<CXXThrowExpr>(S)) {
      o["k"] = "throw"; if (E->getSubExpr()) o["e"] = sub(E->getSubExpr());
    } else {
      o["k"] = "other"; o["s"] = S->getStmtClassName();
      json::Array a;
      for (auto *C : S->children()) if (C) if (isa<Expr>(C)) a.push_back(sub(C));
      o["a"] = std::move(a);
    }
    return o;
  }

  static json::Value toI(const llvm::APSInt &V) {
    if (V.isSigned()) return (int64_t)V.getSExtValue();
    if (V.getActiveBits() > 63) return json::Value((uint64_t)V.getZExtValue());
    return (int64_t)V.getZExtValue();
  }

  void var(const VarDecl *V) {
    V = V->getCanonicalDecl();
    if (V->isStaticDataMember()) if (auto *R = dyn_cast<CXXRecordDecl>(V->getDeclContext())) if (skipped(R)) return;
    std::string i = id(V);
    if (!seenG.insert(i).second) return;
    const VarDecl *D = V;
    const Expr *init = V->getAnyInitializer(D);
    json::Object o{{"id", i}, {"n", plain(V)}, {"t", type(V->getType())},
                   {"file", rel(V->getLocation())}, {"line", lineOf(V->getLocation())}};
    if (V->isStaticDataMember()) o["static_member"] = true;
    if (init && inRoot(init->getBeginLoc()) && !init->isValueDependent()) {
      FnCtx *sv = F; F = nullptr; o["init"] = sub(init); F = sv;
    }
    globals.push_back(std::move(o));
  }

  void function(const FunctionDecl *FD0) {
    const FunctionDecl *FD = nullptr;
    if (!FD0->hasBody(FD)) return;
    if (!inRoot(FD->getLocation())) return;
    if (FD->isDependentContext()) return;
    if (auto *M = dyn_cast<CXXMethodDecl>(FD)) if (skipped(M->getParent())) return;
    std::string i = id(FD);
    if (!seenF.insert(i).second) return;

    json::Object o{{"id", i}, {"n", nameOf(FD)}, {"sn", FD->getNameAsString()},
                   {"full", qname(FD)}, {"file", rel(FD->getLocation())}, {"line", lineOf(FD->getLocation())},
                   {"end", lineOf(FD->getBodyRBrace())}, {"ret", type(FD->getReturnType())}};
    if (FD->isExternC()) o["externC"] = true;
    json::Array ps;
    for (auto *P : FD->parameters()) {
      json::Object p{{"d", id(P)}, {"n", P->getNameAsString()}, {"t", type(P->getType())}};
      if (P->getType()->isReferenceType()) p["isref"] = true;
      ps.push_back(std::move(p));
    }
    o["params"] = std::move(ps);
    if (FD->isDefaulted()) o["defaulted"] = true;
    if (auto *M = dyn_cast<CXXMethodDecl>(FD)) {
      o["cls"] = clsBase(M->getParent()); o["clsfull"] = clsFull(M->getParent());
      if (M->isVirtual()) o["virtual"] = true;
      if (M->isStatic()) o["static"] = true;
      if (M->isConst()) o["const"] = true;
      o["access"] = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private";
      if (isa<CXXConstructorDecl>(M)) { o["kind"] = "ctor"; if (cast<CXXConstructorDecl>(M)->isCopyConstructor()) o["copyctor"] = true; if (M->isImplicit()) o["implicit"] = true; }
      if (isa<CXXDestructorDecl>(M)) o["kind"] = "dtor";
      json::Array ov;
      for (auto *O : M->overridden_methods()) { ov.push_back(id(O)); }
      o["overrides"] = std::move(ov);
      if (M->getParent()) record(M->getParent());
    }
    if (FD->isTemplateInstantiation() || (isa<CXXMethodDecl>(FD) && isa<ClassTemplateSpecializationDecl>(FD->getParent()))) o["inst"] = true;
    if (auto *TA = FD->getTemplateSpecializationArgs()) {
      json::Array a;
      for (auto &A : TA->asArray()) { std::string s; llvm::raw_string_ostream os(s); A.print(PP, os, true); a.push_back(os.str()); }
      o["targs"] = std::move(a);
    }

    CFG::BuildOptions BO;
    BO.AddImplicitDtors = true;
    BO.AddTemporaryDtors = true;
    BO.AddInitializers = true;
    BO.AddCXXDefaultInitExprInCtors = true;
    BO.PruneTriviallyFalseEdges = true;
    BO.AddRichCXXConstructors = true;
    BO.setAllAlwaysAdd();
    std::unique_ptr<CFG> G = CFG::buildCFG(FD, FD->getBody(), &Ctx, BO);
    if (!G) { o["nocfg"] = true; funcs.push_back(std::move(o)); return; }
    FnCtx fc; FnCtx *saved = F; F = &fc;
    int n = 0;
    // pass 1: number elements
    for (CFGBlock *B : *G)
      for (auto &E : *B) {
        if (auto S = E.getAs<CFGStmt>()) {
          const Stmt *st = S->getStmt();
          if (!fc.elem.count(st)) fc.elem[st] = n++;
        }
        if (auto C = E.getAs<CFGConstructor>()) {
          const ConstructionContext *CC = C->getConstructionContext();
          const Stmt *key = C->getStmt();
          if (auto *V = dyn_cast<VariableConstructionContext>(CC)) {
            if (auto *DS = V->getDeclStmt()) if (DS->isSingleDecl()) if (auto *VD = dyn_cast<VarDecl>(DS->getSingleDecl()))
              fc.target.emplace(key, std::make_pair(std::string("var"), json::Value(id(VD))));
          } else if (auto *V = dyn_cast<ConstructorInitializerConstructionContext>(CC)) {
            auto *I = V->getCXXCtorInitializer();
            if (I->isAnyMemberInitializer()) fc.target.emplace(key, std::make_pair(std::string("field"), json::Value(I->getAnyMember()->getNameAsString())));
            else fc.target.emplace(key, std::make_pair(std::string("base"), json::Value(nullptr)));
          } else if (isa<NewAllocatedObjectConstructionContext>(CC)) {
            auto *V = cast<NewAllocatedObjectConstructionContext>(CC);
            // the new expression is numbered later: resolved in pass 2 by statement
            newOf[key] = V->getCXXNewExpr();
          } else if (isa<ReturnedValueConstructionContext>(CC)) {
            fc.target.emplace(key, std::make_pair(std::string("return"), json::Value(nullptr)));
          } else {
            fc.target.emplace(key, std::make_pair(std::string("temp"), json::Value(nullptr)));
          }
        }
      }
    for (auto &kv : newOf) {
      auto it = fc.elem.find(kv.second);
      if (it != fc.elem.end()) fc.target.emplace(kv.first, std::make_pair(std::string("new"), json::Value(it->second)));
    }
    newOf.clear();
    json::Array blocks;
    for (CFGBlock *B : *G) {
      json::Object b{{"id", (int64_t)B->getBlockID()}};
      json::Array els;
      for (auto &E : *B) {
        switch (E.getKind()) {
        case CFGElement::Statement:
        case CFGElement::Constructor:
        case CFGElement::CXXRecordTypedCall: {
          const Stmt *st = E.castAs<CFGStmt>().getStmt();
          int num = fc.elem[st];
          // expand this node itself, not as a reference
          fc.elem.erase(st);
          const Stmt *sk = st;
          json::Value v = nullptr;
          if (isa<ParenExpr>(st) || isa<ExprWithCleanups>(st) || isa<CXXBindTemporaryExpr>(st) || isa<ConstantExpr>(st) ||
              isa<SubstNonTypeTemplateParmExpr>(st) || isa<CXXDefaultArgExpr>(st) || isa<CXXDefaultInitExpr>(st)) {
            const Stmt *ch = nullptr;
            if (auto *X = dyn_cast<ParenExpr>(st)) ch = X->getSubExpr();
            else if (auto *X = dyn_cast<ExprWithCleanups>(st)) ch = X->getSubExpr();
            else if (auto *X = dyn_cast<CXXBindTemporaryExpr>(st)) ch = X->getSubExpr();
            else if (auto *X = dyn_cast<ConstantExpr>(st)) ch = X->getSubExpr();
            else if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(st)) ch = X->getReplacement();
            else if (auto *X = dyn_cast<CXXDefaultArgExpr>(st)) ch = X->getExpr();
            else if (auto *X = dyn_cast<CXXDefaultInitExpr>(st)) ch = X->getExpr();
            v = json::Object{{"k", "pass"}, {"e", sub(ch)}, {"l", lineOf(st->getBeginLoc())}};
          } else v = expr(sk);
          fc.elem[st] = num;
          if (auto *O = v.getAsObject()) {
            if (O->getString("k") || !O->getInteger("r")) { (*O)["i"] = num; els.push_back(std::move(v)); }
            else els.push_back(json::Object{{"k", "pass"}, {"e", std::move(v)}, {"i", num}, {"l", lineOf(st->getBeginLoc())}});
          }
          break;
        }
        case CFGElement::Initializer: {
          auto *I = E.castAs<CFGInitializer>().getInitializer();
          json::Object e{{"k", "init"}, {"l", lineOf(I->getSourceLocation())}};
          if (I->isAnyMemberInitializer()) { e["f"] = I->getAnyMember()->getNameAsString(); e["c"] = plain(I->getAnyMember()->getParent()); e["ft"] = type(I->getAnyMember()->getType()); if (I->getAnyMember()->getType()->isReferenceType()) e["isref"] = true; }
          else if (I->isBaseInitializer()) e["base"] = type(QualType(I->getBaseClass(), 0));
          else e["delegating"] = true;
          e["e"] = sub(I->getInit());
          els.push_back(std::move(e));
          break;
        }
        case CFGElement::AutomaticObjectDtor: {
          auto X = E.castAs<CFGAutomaticObjDtor>();
          json::Object e{{"k", "adtor"}, {"d", id(X.getVarDecl())}, {"n", X.getVarDecl()->getNameAsString()}, {"l", lineOf(X.getTriggerStmt()->getEndLoc())}};
          if (auto *D = X.getDestructorDecl(Ctx)) fnref(e, D);
          els.push_back(std::move(e));
          break;
        }
        case CFGElement::TemporaryDtor: {
          auto X = E.castAs<CFGTemporaryDtor>();
          json::Object e{{"k", "tdtor"}, {"l", lineOf(X.getBindTemporaryExpr()->getBeginLoc())}};
          e["e"] = sub(X.getBindTemporaryExpr()->getSubExpr());
          if (auto *D = X.getDestructorDecl(Ctx)) fnref(e, D);
          els.push_back(std::move(e));
          break;
        }
        case CFGElement::BaseDtor: {
          auto X = E.castAs<CFGBaseDtor>();
          json::Object e{{"k", "bdtor"}, {"base", type(X.getBaseSpecifier()->getType())}};
          if (auto *D = X.getDestructorDecl(Ctx)) fnref(e, D);
          els.push_back(std::move(e));
          break;
        }
        case CFGElement::MemberDtor: {
          auto X = E.castAs<CFGMemberDtor>();
          json::Object e{{"k", "mdtor"}, {"f", X.getFieldDecl()->getNameAsString()}};
          if (auto *D = X.getDestructorDecl(Ctx)) fnref(e, D);
          els.push_back(std::move(e));
          break;
        }
        default: break;
        }
      }
      b["e"] = std::move(els);
      if (const Stmt *T = B->getTerminatorStmt()) {
        json::Object t{{"s", T->getStmtClassName()}, {"l", lineOf(T->getBeginLoc())}};
        auto it = fc.elem.find(T);
        if (it != fc.elem.end()) t["i"] = it->second;
        if (auto *C = B->getLastCondition()) t["c"] = sub(C);
        if (isa<SwitchStmt>(T)) t["c"] = sub(cast<SwitchStmt>(T)->getCond());
        else if (!B->getTerminator().isTemporaryDtorsBranch()) {
          // the condition is a full expression whose temporaries died in between: the block that branches is empty
          const Expr *C2 = nullptr;
          if (auto *X = dyn_cast<IfStmt>(T)) C2 = X->getCond();
          else if (auto *X = dyn_cast<WhileStmt>(T)) C2 = X->getCond();
          else if (auto *X = dyn_cast<DoStmt>(T)) C2 = X->getCond();
          else if (auto *X = dyn_cast<ForStmt>(T)) C2 = X->getCond();
          else if (auto *X = dyn_cast<ConditionalOperator>(T)) C2 = X->getCond();
          if (C2 && !t.get("c")) t["c"] = sub(C2->IgnoreParenImpCasts());
        }
        if (B->getTerminator().isTemporaryDtorsBranch()) {
          t["tmpdtor"] = true;
          if (auto *X = dyn_cast<CXXBindTemporaryExpr>(T)) t["e"] = sub(X->getSubExpr());
        }
        b["t"] = std::move(t);
      }
      if (B->hasNoReturnElement()) b["noret"] = true;
      if (const Stmt *L = B->getLabel()) {
        if (auto *C = dyn_cast<CaseStmt>(L)) {
          Expr::EvalResult R;
          if (C->getLHS()->EvaluateAsInt(R, Ctx)) b["case"] = toI(R.Val.getInt());
        } else if (isa<DefaultStmt>(L)) b["default"] = true;
      }
      if (const Stmt *L = B->getLoopTarget()) (void)L, b["looptgt"] = true;
      json::Array su;
      for (auto &A : B->succs()) {
        if (CFGBlock *R = A.getReachableBlock()) su.push_back((int64_t)R->getBlockID());
        else su.push_back(-1);
      }
      b["s"] = std::move(su);
      blocks.push_back(std::move(b));
    }
    o["entry"] = (int64_t)G->getEntry().getBlockID();
    o["exit"] = (int64_t)G->getExit().getBlockID();
    o["blocks"] = std::move(blocks);
    F = saved;
    funcs.push_back(std::move(o));
  }
  std::map<const Stmt *, const Stmt *> newOf;

  void record(const CXXRecordDecl *R0) {
    const CXXRecordDecl *R = R0->getDefinition();
    if (!R || R->isDependentContext() || skipped(R)) return;
    if (!inRoot(R->getLocation())) return;
    std::string full = clsFull(R);
    if (!seenC.insert(full).second) return;
    json::Object o{{"n", clsBase(R)}, {"full", full}, {"file", rel(R->getLocation())}, {"line", lineOf(R->getLocation())}};
    json::Array bs, fs, ms;
    for (auto &B : R->bases()) {
      if (auto *BR = B.getType()->getAsCXXRecordDecl()) { bs.push_back(clsFull(BR)); record(BR); }
    }
    for (auto *Fd : R->fields()) {
      json::Object f{{"n", Fd->getNameAsString()}, {"t", type(Fd->getType())}, {"line", lineOf(Fd->getLocation())}};
      if (Fd->isMutable()) f["mutable"] = true;
      f["access"] = Fd->getAccess() == AS_public ? "public" : Fd->getAccess() == AS_protected ? "protected" : "private";
      if (auto *AT = Ctx.getAsConstantArrayType(Fd->getType())) f["asz"] = (int64_t)AT->getSize().getZExtValue();
      if (auto *FR = Fd->getType()->getAsCXXRecordDecl()) { f["cls"] = clsFull(FR); record(FR); }
      fs.push_back(std::move(f));
    }
    for (auto *M : R->methods()) {
      json::Object m{{"id", id(M)}, {"n", M->getNameAsString()}};
      if (M->isVirtual()) m["virtual"] = true;
      if (M->isPureVirtual()) m["pure"] = true;
      if (M->isImplicit()) m["implicit"] = true;
      if (isa<CXXDestructorDecl>(M)) m["kind"] = "dtor";
      if (isa<CXXConstructorDecl>(M)) m["kind"] = "ctor";
      json::Array ov;
      for (auto *O : M->overridden_methods()) ov.push_back(id(O));
      m["overrides"] = std::move(ov);
      m["access"] = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private";
      ms.push_back(std::move(m));
    }
    if (auto *D = R->getDestructor()) if (D->isVirtual()) o["vdtor"] = true;
    for (auto *D : R->decls()) if (auto *V = dyn_cast<VarDecl>(D)) var(V);
    if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
      json::Array a;
      for (auto &A : S->getTemplateArgs().asArray()) { std::string s; llvm::raw_string_ostream os(s); A.print(PP, os, true); a.push_back(os.str()); }
      o["targs"] = std::move(a);
    }
    o["bases"] = std::move(bs); o["fields"] = std::move(fs); o["methods"] = std::move(ms);
    classes.push_back(std::move(o));
  }

  void enumd(const EnumDecl *E) {
    E = E->getDefinition();
    if (!E || !inRoot(E->getLocation())) return;
    std::string i = id(E);
    if (!seenE.insert(i).second) return;
    json::Object o{{"n", plain(E)}, {"file", rel(E->getLocation())}, {"line", lineOf(E->getLocation())}};
    if (auto *T = E->getTypedefNameForAnonDecl()) o["td"] = T->getNameAsString();
    json::Array cs;
    for (auto *C : E->enumerators()) cs.push_back(json::Array{C->getNameAsString(), toI(C->getInitVal())});
    o["c"] = std::move(cs);
    enums.push_back(std::move(o));
  }

  void drain() {
    while (!pending.empty()) {
      auto *FD = pending.back();
      pending.pop_back();
      function(FD);
    }
  }
};

class V : public RecursiveASTVisitor<V> {
  Dumper &D;
public:
  V(Dumper &D) : D(D) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isThisDeclarationADefinition() || F->isDefaulted()) { D.function(F); D.drain(); }
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) { if (R->isThisDeclarationADefinition()) D.record(R); return true; }
  bool VisitEnumDecl(EnumDecl *E) { D.enumd(E); return true; }
  bool VisitVarDecl(VarDecl *X) {
    if (!X->isLocalVarDeclOrParm() && !X->getDeclContext()->isDependentContext() && D.inRoot(X->getLocation())) D.var(X);
    return true;
  }
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &Ctx) override {
    if (Ctx.getDiagnostics().hasErrorOccurred()) return;
    Dumper D(Ctx);
    V v(D);
    for (Decl *X : Ctx.getTranslationUnitDecl()->decls())
      if (D.inRoot(X->getLocation())) v.TraverseDecl(X);
    D.drain();
    std::error_code EC;
    llvm::raw_fd_ostream os(Out, EC);
    json::Object o;
    o["funcs"] = std::move(D.funcs); o["classes"] = std::move(D.classes); o["enums"] = std::move(D.enums); o["globals"] = std::move(D.globals);
    o["types"] = D.takeTypes();
    os << json::Value(std::move(o));
  }
};

class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
    return std::make_unique<Consumer>();
  }
};

} // namespace

int main(int argc, const char **argv) {
  auto P = tooling::CommonOptionsParser::create(argc, argv, Cat);
  if (!P) { llvm::errs() << llvm::toString(P.takeError()); return 2; }
  tooling::ClangTool T(P->getCompilations(), P->getSourcePathList());
  return T.run(tooling::newFrontendActionFactory<Action>().get());
}
