// Program extractor: parses one translation unit with the real flags and dumps, for every function
// defined under the analysed root (including template instantiations and lambdas), its resolved
// expression trees and clang control-flow graph, plus the records and enums. JSON on stdout / -o.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include <set>
#include <map>

using namespace clang;
namespace json = llvm::json;

static llvm::cl::OptionCategory Cat("extract");
static llvm::cl::list<std::string> Roots("root", llvm::cl::cat(Cat));
static llvm::cl::list<std::string> Excl("exclude", llvm::cl::cat(Cat));
static llvm::cl::opt<std::string> OutFile("o", llvm::cl::cat(Cat));

namespace {

struct Dumper {
  ASTContext& Ctx;
  const SourceManager& SM;
  PrintingPolicy PP;
  json::Array Functions, Records, Enums, Globals;
  std::map<const Decl*, int> DeclIds;
  std::set<std::string> SeenFn;
  std::set<const Decl*> SeenFnDecl;
  std::set<const Decl*> SeenRec, SeenEnum;
  std::vector<const FunctionDecl*> Work;
  std::map<FileID, int> RootCache;
  explicit Dumper(ASTContext& C) : Ctx(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
  }

  int declId(const Decl* D) {
    D = D->getCanonicalDecl();
    auto it = DeclIds.find(D);
    if (it != DeclIds.end()) return it->second;
    int n = DeclIds.size() + 1;
    DeclIds[D] = n;
    return n;
  }

  std::string fileOf(SourceLocation L) {
    PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L));
    if (P.isInvalid()) return std::string();
    std::string N = P.getFilename();
    for (size_t i; (i = N.find("/./")) != std::string::npos;) N.erase(i, 2);
    return N;
  }
  int lineOf(SourceLocation L) {
    if (L.isInvalid()) return 0;
    return SM.getExpansionLineNumber(L);
  }
  int colOf(SourceLocation L) {
    if (L.isInvalid()) return 0;
    return SM.getExpansionColumnNumber(L);
  }
  bool inRoot(SourceLocation L) {
    if (L.isInvalid()) return false;
    FileID F = SM.getFileID(SM.getExpansionLoc(L));
    auto it = RootCache.find(F);
    if (it != RootCache.end()) return it->second;
    std::string N = fileOf(L);
    bool ok = false;
    for (auto& R : Roots)
      if (N.rfind(R, 0) == 0) ok = true;
    for (auto& R : Excl)
      if (N.find(R) != std::string::npos) ok = false;
    RootCache[F] = ok;
    return ok;
  }
  std::string usr(const Decl* D) {
    llvm::SmallString<128> B;
    if (index::generateUSRForDecl(D, B)) return "";
    return B.str().str();
  }
  std::string typeStr(QualType T) {
    if (T.isNull()) return "";
    std::string s = T.getCanonicalType().getAsString(PP);
    if (s.size() > 400) s.resize(400);
    return s;
  }
  std::string qname(const NamedDecl* D) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    D->printQualifiedName(OS, PP);
    return OS.str();
  }
  std::string recKey(const CXXRecordDecl* R) {
    return typeStr(QualType(R->getTypeForDecl(), 0));
  }
  std::string fnKey(const FunctionDecl* F) {
    std::string U = usr(F);
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->getParent()->isLambda()) {
        U = "lambda@" + fileOf(F->getLocation()) + ":" + std::to_string(lineOf(M->getParent()->getBeginLoc())) + ":" +
            std::to_string(colOf(M->getParent()->getBeginLoc())) + "#" + std::to_string(declId(F));
      }
    }
    return U;
  }
  static const char* accessStr(AccessSpecifier A) {
    switch (A) {
      case AS_public: return "public";
      case AS_protected: return "protected";
      case AS_private: return "private";
      default: return "none";
    }
  }

  // ---------------------------------------------------------------- expressions
  struct FnState {
    std::map<const Stmt*, int> Ids;
    json::Array Nodes;
  };

  const Stmt* strip(const Stmt* S) {
    while (S) {
      if (auto* E = dyn_cast<ImplicitCastExpr>(S)) {
        if (E->getCastKind() == CK_UserDefinedConversion || E->getCastKind() == CK_ConstructorConversion) {
          S = E->getSubExpr();
          continue;
        }
        S = E->getSubExpr();
      } else if (auto* E = dyn_cast<ParenExpr>(S)) S = E->getSubExpr();
      else if (auto* E = dyn_cast<FullExpr>(S)) S = E->getSubExpr();
      else if (auto* E = dyn_cast<MaterializeTemporaryExpr>(S)) S = E->getSubExpr();
      else if (auto* E = dyn_cast<CXXBindTemporaryExpr>(S)) S = E->getSubExpr();
      else if (auto* E = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) S = E->getReplacement();
      else if (auto* E = dyn_cast<CXXDefaultArgExpr>(S)) S = E->getExpr();
      else if (auto* E = dyn_cast<CXXDefaultInitExpr>(S)) S = E->getExpr();
      else break;
    }
    return S;
  }

  void calleeInfo(json::Object& O, const FunctionDecl* F) {
    if (!F) return;
    O["fk"] = fnKey(F);
    O["fn"] = qname(F);
    if (F->isNoReturn()) O["noret"] = true;
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
      O["rec"] = recKey(M->getParent());
      if (M->isConst()) O["cm"] = true;
      if (M->isStatic()) O["static"] = true;
      if (M->isVirtual()) O["virt"] = true;
      if (M->getParent()->isLambda()) O["lambda"] = true;
    }
    // by-value / by-reference classification of parameters
    std::string modes;
    for (auto* P : F->parameters()) {
      QualType T = P->getType();
      if (T->isLValueReferenceType()) modes += T->getPointeeType().isConstQualified() ? 'c' : 'r';
      else if (T->isRValueReferenceType()) modes += 'm';
      else if (T->isPointerType()) modes += T->getPointeeType().isConstQualified() ? 'q' : 'p';
      else modes += 'v';
    }
    O["pm"] = modes;
    if (inRoot(F->getLocation())) O["repo"] = true;
    const FunctionDecl* Def = nullptr;
    if (F->hasBody(Def) && Def && inRoot(Def->getLocation()) && !Def->isDependentContext()) Work.push_back(Def);
    if (auto* L = dyn_cast<CXXMethodDecl>(F)) (void)L;
  }

  int add(FnState& FS, const Stmt* S0) {
    const Stmt* S = strip(S0);
    if (!S) return -1;
    auto it = FS.Ids.find(S);
    if (it != FS.Ids.end()) return it->second;
    json::Object O;
    int id;
    {
      id = FS.Nodes.size();
      FS.Ids[S] = id;
      FS.Nodes.push_back(nullptr);
    }
    O["k"] = S->getStmtClassName();
    O["l"] = lineOf(S->getBeginLoc());
    if (SM.getExpansionLineNumber(S->getEndLoc()) != SM.getExpansionLineNumber(S->getBeginLoc())) O["le"] = lineOf(S->getEndLoc());
    json::Array C;
    bool kids = true;
    if (auto* E = dyn_cast<Expr>(S)) {
      O["t"] = typeStr(E->getType());
      if (E->isLValue()) O["lv"] = true;
    }
    // location file if not the function's own file (macros / includes)
    if (auto* E = dyn_cast<DeclRefExpr>(S)) {
      const ValueDecl* D = E->getDecl();
      O["n"] = D->getNameAsString();
      O["d"] = declId(D);
      if (isa<ParmVarDecl>(D)) O["dk"] = "param";
      else if (auto* V = dyn_cast<VarDecl>(D)) {
        O["dk"] = V->isLocalVarDecl() ? (V->isStaticLocal() ? "static" : "local") : "global";
        if (!V->isLocalVarDecl()) O["q"] = qname(V);
        if (!V->isLocalVarDecl() || V->getType().isConstQualified()) {
          if (V->getType().isConstQualified() && V->getType()->isIntegralOrEnumerationType()) {
            const VarDecl* DV = nullptr;
            const Expr* I = V->getAnyInitializer(DV);
            Expr::EvalResult R;
            if (I && !I->isValueDependent() && I->EvaluateAsInt(R, Ctx)) {
              llvm::SmallString<32> B;
              R.Val.getInt().toString(B);
              O["cv"] = B.str().str();
            }
          }
        }
      } else if (auto* EC = dyn_cast<EnumConstantDecl>(D)) {
        O["dk"] = "enumc";
        O["q"] = qname(EC);
        llvm::SmallString<32> B;
        EC->getInitVal().toString(B);
        O["cv"] = B.str().str();
      } else if (auto* F = dyn_cast<FunctionDecl>(D)) {
        O["dk"] = "func";
        calleeInfo(O, F);
      } else if (auto* BD = dyn_cast<BindingDecl>(D)) {
        (void)BD;
        O["dk"] = "binding";
      } else
        O["dk"] = "other";
    } else if (auto* E = dyn_cast<MemberExpr>(S)) {
      const ValueDecl* D = E->getMemberDecl();
      O["n"] = D->getNameAsString();
      if (auto* F = dyn_cast<FieldDecl>(D)) {
        O["mk"] = "field";
        O["rec"] = recKey(cast<CXXRecordDecl>(F->getParent()));
        O["repo"] = inRoot(F->getLocation());
      } else if (auto* V = dyn_cast<VarDecl>(D)) {
        O["mk"] = "staticfield";
        O["q"] = qname(V);
        const VarDecl* DV = nullptr;
        const Expr* I = V->getAnyInitializer(DV);
        Expr::EvalResult R;
        if (V->getType().isConstQualified() && I && !I->isValueDependent() && V->getType()->isIntegralOrEnumerationType() && I->EvaluateAsInt(R, Ctx)) {
          llvm::SmallString<32> B;
          R.Val.getInt().toString(B);
          O["cv"] = B.str().str();
        }
      } else if (auto* M = dyn_cast<CXXMethodDecl>(D)) {
        O["mk"] = "method";
        calleeInfo(O, M);
        if (E->hasQualifier()) O["qual"] = true;
      } else
        O["mk"] = "other";
      if (E->isArrow()) O["arrow"] = true;
      C.push_back(add(FS, E->getBase()));
      kids = false;
    } else if (auto* E = dyn_cast<CXXThisExpr>(S)) {
      (void)E;
    } else if (auto* E = dyn_cast<CallExpr>(S)) {
      const FunctionDecl* F = E->getDirectCallee();
      calleeInfo(O, F);
      if (auto* Op = dyn_cast<CXXOperatorCallExpr>(E)) {
        O["op"] = getOperatorSpelling(Op->getOperator());
      }
      if (F && F->getBuiltinID()) O["builtin"] = true;
      C.push_back(add(FS, E->getCallee()));
      for (auto* A : E->arguments()) C.push_back(add(FS, A));
      kids = false;
    } else if (auto* E = dyn_cast<CXXConstructExpr>(S)) {
      const CXXConstructorDecl* CD = E->getConstructor();
      calleeInfo(O, CD);
      if (CD->isCopyConstructor()) O["cc"] = "copy";
      else if (CD->isMoveConstructor()) O["cc"] = "move";
      else if (CD->isDefaultConstructor()) O["cc"] = "default";
      if (E->isListInitialization()) O["list"] = true;
      for (auto* A : E->arguments()) C.push_back(add(FS, A));
      kids = false;
    } else if (auto* E = dyn_cast<UnaryOperator>(S)) {
      O["op"] = UnaryOperator::getOpcodeStr(E->getOpcode()).str();
      if (E->isPostfix()) O["post"] = true;
    } else if (auto* E = dyn_cast<BinaryOperator>(S)) {
      O["op"] = E->getOpcodeStr().str();
    } else if (auto* E = dyn_cast<IntegerLiteral>(S)) {
      llvm::SmallString<32> B;
      E->getValue().toString(B, 10, false);
      O["v"] = B.str().str();
    } else if (auto* E = dyn_cast<CharacterLiteral>(S)) {
      O["v"] = std::to_string(E->getValue());
    } else if (auto* E = dyn_cast<FloatingLiteral>(S)) {
      llvm::SmallString<32> B;
      E->getValue().toString(B);
      O["v"] = B.str().str();
    } else if (auto* E = dyn_cast<CXXBoolLiteralExpr>(S)) {
      O["v"] = E->getValue() ? "1" : "0";
    } else if (auto* E = dyn_cast<StringLiteral>(S)) {
      O["v"] = E->isOrdinary() ? E->getString().str() : "";
      kids = false;
    } else if (auto* E = dyn_cast<PredefinedExpr>(S)) {
      (void)E;
      kids = false;
    } else if (auto* E = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
      Expr::EvalResult R;
      if (!E->isValueDependent() && E->EvaluateAsInt(R, Ctx)) {
        llvm::SmallString<32> B;
        R.Val.getInt().toString(B);
        O["cv"] = B.str().str();
      }
      O["ut"] = typeStr(E->getTypeOfArgument());
      kids = false;
    } else if (auto* E = dyn_cast<CXXNewExpr>(S)) {
      O["arr"] = E->isArray();
      O["at"] = typeStr(E->getAllocatedType());
      if (E->isArray() && E->getArraySize() && *E->getArraySize()) C.push_back(add(FS, *E->getArraySize()));
      if (E->getInitializer()) C.push_back(add(FS, E->getInitializer()));
      if (E->getNumPlacementArgs()) O["placement"] = true;
      kids = false;
    } else if (auto* E = dyn_cast<CXXDeleteExpr>(S)) {
      O["arr"] = E->isArrayForm();
    } else if (auto* E = dyn_cast<ExplicitCastExpr>(S)) {
      O["ck"] = E->getCastKindName();
      O["tw"] = typeStr(E->getTypeAsWritten());
    } else if (auto* E = dyn_cast<LambdaExpr>(S)) {
      O["fk"] = fnKey(E->getCallOperator());
      json::Array Caps;
      for (auto& Cp : E->captures()) {
        json::Object CO;
        if (Cp.capturesThis()) CO["this"] = true;
        else if (Cp.capturesVariable()) {
          CO["d"] = declId(Cp.getCapturedVar());
          CO["n"] = Cp.getCapturedVar()->getNameAsString();
        }
        CO["ref"] = Cp.getCaptureKind() == LCK_ByRef || Cp.getCaptureKind() == LCK_This;
        Caps.push_back(std::move(CO));
      }
      O["caps"] = std::move(Caps);
      Work.push_back(E->getCallOperator());
      for (auto* I : E->capture_inits()) if (I) C.push_back(add(FS, I));
      kids = false;
    } else if (auto* E = dyn_cast<DeclStmt>(S)) {
      json::Array Ds;
      for (auto* D : E->decls()) {
        if (auto* V = dyn_cast<VarDecl>(D)) {
          json::Object DO;
          DO["d"] = declId(V);
          DO["n"] = V->getNameAsString();
          DO["t"] = typeStr(V->getType());
          QualType T = V->getType();
          DO["ref"] = T->isReferenceType();
          if (T->isReferenceType() ? T->getPointeeType().isConstQualified() : T.isConstQualified()) DO["const"] = true;
          if (V->isStaticLocal()) DO["static"] = true;
          if (V->getTLSKind() != VarDecl::TLS_None) DO["tls"] = true;
          if (V->isCXXForRangeDecl()) DO["rangevar"] = true;
          if (V->isImplicit()) DO["impl"] = true;
          DO["l"] = lineOf(V->getLocation());
          if (V->getInit()) {
            int c = add(FS, V->getInit());
            DO["init"] = c;
            C.push_back(c);
          }
          if (auto* DD = dyn_cast<DecompositionDecl>(V)) (void)DD;
          Ds.push_back(std::move(DO));
        }
      }
      O["decls"] = std::move(Ds);
      kids = false;
    } else if (auto* E = dyn_cast<ReturnStmt>(S)) {
      (void)E;
    } else if (isa<GotoStmt>(S) || isa<LabelStmt>(S)) {
    } else if (auto* E = dyn_cast<CaseStmt>(S)) {
      C.push_back(add(FS, E->getLHS()));
      kids = false;
    } else if (isa<DefaultStmt>(S)) {
      kids = false;
    } else if (auto* E = dyn_cast<SwitchStmt>(S)) {
      C.push_back(add(FS, E->getCond()));
      O["allenum"] = E->isAllEnumCasesCovered();
      kids = false;
    } else if (auto* E = dyn_cast<CXXTypeidExpr>(S)) {
      if (E->isTypeOperand()) O["ut"] = typeStr(E->getTypeOperand(Ctx));
    } else if (isa<CXXTryStmt>(S) || isa<CXXCatchStmt>(S) || isa<IfStmt>(S) || isa<WhileStmt>(S) || isa<ForStmt>(S) ||
               isa<DoStmt>(S) || isa<CXXForRangeStmt>(S) || isa<CompoundStmt>(S)) {
      kids = false;
    } else if (auto* E = dyn_cast<InitListExpr>(S)) {
      const InitListExpr* Sem = E->isSemanticForm() ? E : E->getSemanticForm();
      if (!Sem) Sem = E;
      for (auto* I : Sem->inits()) C.push_back(add(FS, I));
      kids = false;
    }
    if (kids)
      for (const Stmt* K : S->children())
        if (K) C.push_back(add(FS, K));
    O["c"] = std::move(C);
    if (S->getBeginLoc().isMacroID()) {
      // outermost macro name
      SourceLocation L = S->getBeginLoc();
      std::string M;
      while (L.isMacroID()) {
        M = Lexer::getImmediateMacroName(L, SM, Ctx.getLangOpts()).str();
        L = SM.getImmediateMacroCallerLoc(L);
        if (L.isMacroID() && SM.isMacroArgExpansion(L)) {
        }
      }
      O["m"] = M;
    }
    FS.Nodes[id] = std::move(O);
    return id;
  }

  // ---------------------------------------------------------------- functions
  void function(const FunctionDecl* F) {
    const FunctionDecl* Def = nullptr;
    if (!F->hasBody(Def)) return;
    F = Def;
    if (F->isDependentContext() || F->isInvalidDecl()) return;
    if (!inRoot(F->getLocation())) return;
    if (!SeenFnDecl.insert(F).second) return;
    std::string Key = fnKey(F);
    if (!SeenFn.insert(Key).second) return;
    json::Object O;
    O["key"] = Key;
    O["name"] = qname(F);
    O["file"] = fileOf(F->getLocation());
    O["line"] = lineOf(F->getLocation());
    {
      const FunctionDecl* Pat = F->getTemplateInstantiationPattern();
      O["dfile"] = fileOf((Pat ? Pat : F)->getCanonicalDecl()->getLocation());
    }
    O["ret"] = typeStr(F->getReturnType());
    O["access"] = accessStr(F->getAccess());
    if (auto* MS = dyn_cast<CXXMethodDecl>(F) ? cast<CXXMethodDecl>(F) : nullptr) {
      if (MS->isStatic()) O["static"] = true;
    } else if (F->isStatic()) {
      O["static"] = true;
    }
    if (F->isDefaulted()) O["defaulted"] = true;
    if (F->isImplicit()) O["implicit"] = true;
    if (F->isTemplateInstantiation()) O["inst"] = true;
    if (F->isNoReturn()) O["noret"] = true;
    std::string kind = "function";
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
      kind = "method";
      O["rec"] = recKey(M->getParent());
      if (M->isConst()) O["const"] = true;
      if (M->isVirtual()) O["virtual"] = true;
      json::Array Ov;
      for (auto* B : M->overridden_methods()) Ov.push_back(fnKey(B));
      if (!Ov.empty()) O["overrides"] = std::move(Ov);
      if (isa<CXXConstructorDecl>(M)) {
        kind = "ctor";
        auto* CD = cast<CXXConstructorDecl>(M);
        if (CD->isCopyConstructor()) O["cc"] = "copy";
        else if (CD->isMoveConstructor()) O["cc"] = "move";
      } else if (isa<CXXDestructorDecl>(M)) kind = "dtor";
      else if (M->isCopyAssignmentOperator()) O["cc"] = "copyassign";
      else if (M->isMoveAssignmentOperator()) O["cc"] = "moveassign";
      if (M->getParent()->isLambda()) kind = "lambda";
    }
    if (F->isOverloadedOperator()) O["operator"] = getOperatorSpelling(F->getOverloadedOperator());
    O["kind"] = kind;
    json::Array Ps;
    for (auto* P : F->parameters()) {
      json::Object PO;
      PO["d"] = declId(P);
      PO["n"] = P->getNameAsString();
      PO["t"] = typeStr(P->getType());
      QualType T = P->getType();
      if (T->isReferenceType()) PO["ref"] = true;
      if (T->isReferenceType() ? T->getPointeeType().isConstQualified() : T.isConstQualified()) PO["const"] = true;
      if (T->isPointerType()) {
        PO["ptr"] = true;
        if (T->getPointeeType().isConstQualified()) PO["pconst"] = true;
      }
      if (P->hasDefaultArg()) PO["def"] = true;
      Ps.push_back(std::move(PO));
    }
    O["params"] = std::move(Ps);

    FnState FS;
    CFG::BuildOptions BO;
    BO.setAllAlwaysAdd();
    BO.AddImplicitDtors = true;
    BO.AddTemporaryDtors = true;
    BO.AddInitializers = true;
    BO.AddCXXDefaultInitExprInCtors = true;
    BO.AddLifetime = false;
    BO.PruneTriviallyFalseEdges = true;
    std::unique_ptr<CFG> G = CFG::buildCFG(F, F->getBody(), &Ctx, BO);
    if (!G) {
      O["nocfg"] = true;
      O["nodes"] = json::Array();
      Functions.push_back(std::move(O));
      return;
    }
    json::Array Blocks;
    for (const CFGBlock* B : *G) {
      json::Object BOb;
      BOb["id"] = (int)B->getBlockID();
      json::Array Els;
      int last = -2;
      for (const CFGElement& E : *B) {
        if (auto CS = E.getAs<CFGStmt>()) {
          int id = add(FS, CS->getStmt());
          if (id == last) continue;
          last = id;
          Els.push_back(id);
        } else if (auto I = E.getAs<CFGInitializer>()) {
          const CXXCtorInitializer* CI = I->getInitializer();
          json::Object IO;
          if (CI->isAnyMemberInitializer()) {
            IO["init"] = CI->getAnyMember()->getNameAsString();
            IO["rec"] = recKey(cast<CXXRecordDecl>(CI->getAnyMember()->getParent()));
          } else if (CI->isBaseInitializer())
            IO["base"] = typeStr(QualType(CI->getBaseClass(), 0));
          else
            IO["delegating"] = true;
          IO["e"] = add(FS, CI->getInit());
          IO["written"] = CI->isWritten();
          Els.push_back(std::move(IO));
          last = -2;
        } else if (auto D = E.getAs<CFGAutomaticObjDtor>()) {
          json::Object DO;
          DO["dtor"] = declId(D->getVarDecl());
          DO["n"] = D->getVarDecl()->getNameAsString();
          DO["t"] = typeStr(D->getVarDecl()->getType());
          DO["l"] = lineOf(D->getTriggerStmt() ? D->getTriggerStmt()->getEndLoc() : SourceLocation());
          const FunctionDecl* DD = D->getDestructorDecl(Ctx);
          if (DD) {
            DO["fk"] = fnKey(DD);
            const FunctionDecl* DDef = nullptr;
            if (DD->hasBody(DDef) && inRoot(DDef->getLocation())) Work.push_back(DDef);
          }
          Els.push_back(std::move(DO));
          last = -2;
        } else if (auto D = E.getAs<CFGTemporaryDtor>()) {
          const FunctionDecl* DD = D->getDestructorDecl(Ctx);
          if (DD) {
            std::string rn = recKey(cast<CXXMethodDecl>(DD)->getParent());
            json::Object DO;
            DO["tdtor"] = rn;
            DO["e"] = add(FS, D->getBindTemporaryExpr());
            Els.push_back(std::move(DO));
            last = -2;
          }
        }
      }
      BOb["el"] = std::move(Els);
      if (B->hasNoReturnElement()) BOb["noret"] = true;
      if (const Stmt* L = B->getLabel()) {
        json::Object LO;
        if (auto* CSt = dyn_cast<CaseStmt>(L)) {
          LO["k"] = "case";
          LO["e"] = add(FS, CSt->getLHS());
          Expr::EvalResult R;
          if (CSt->getLHS()->EvaluateAsInt(R, Ctx)) {
            llvm::SmallString<32> Bf;
            R.Val.getInt().toString(Bf);
            LO["v"] = Bf.str().str();
          }
        } else if (isa<DefaultStmt>(L)) LO["k"] = "default";
        else if (isa<CXXCatchStmt>(L)) {
          LO["k"] = "catch";
          auto* VD = cast<CXXCatchStmt>(L)->getExceptionDecl();
          LO["t"] = VD ? typeStr(VD->getType()) : std::string("...");
          LO["n"] = add(FS, cast<CXXCatchStmt>(L));
        } else LO["k"] = "label";
        BOb["label"] = std::move(LO);
      }
      if (const Stmt* T = B->getTerminatorStmt()) {
        json::Object TO;
        TO["k"] = T->getStmtClassName();
        TO["l"] = lineOf(T->getBeginLoc());
        if (const Expr* Cnd = B->getLastCondition()) TO["cond"] = add(FS, Cnd);
        else if (B->succ_size() == 2 && !B->getTerminator().isTemporaryDtorsBranch()) {
          // temporaries are destroyed between the condition and the branch
          if (auto* Whole = dyn_cast_or_null<Expr>(B->getTerminatorCondition())) TO["cond"] = add(FS, Whole);
        }
        if (auto* SW = dyn_cast<SwitchStmt>(T)) {
          TO["cond"] = add(FS, SW->getCond());
          TO["allenum"] = SW->isAllEnumCasesCovered();
          QualType QT = SW->getCond()->IgnoreParenImpCasts()->getType();
          TO["st"] = typeStr(QT);
        }
        if (B->getTerminator().isTemporaryDtorsBranch()) TO["tmpdtor"] = true;
        BOb["term"] = std::move(TO);
      }
      json::Array Succ;
      for (auto I = B->succ_begin(); I != B->succ_end(); ++I) {
        if (const CFGBlock* SB = I->getReachableBlock()) Succ.push_back((int)SB->getBlockID());
        else Succ.push_back(nullptr);
      }
      BOb["succ"] = std::move(Succ);
      Blocks.push_back(std::move(BOb));
    }
    O["entry"] = (int)G->getEntry().getBlockID();
    O["exit"] = (int)G->getExit().getBlockID();
    O["blocks"] = std::move(Blocks);
    json::Array Tries;
    tries(FS, F->getBody(), Tries);
    if (!Tries.empty()) O["tries"] = std::move(Tries);
    O["nodes"] = std::move(FS.Nodes);
    O["end"] = lineOf(F->getEndLoc());
    Functions.push_back(std::move(O));
  }

  // the expressions below every try and the types its handlers catch
  void below(FnState& FS, const Stmt* S, json::Array& Out) {
    if (!S || isa<LambdaExpr>(S)) return;
    auto it = FS.Ids.find(S);
    if (it != FS.Ids.end()) Out.push_back(it->second);
    for (const Stmt* K : S->children()) below(FS, K, Out);
  }
  void tries(FnState& FS, const Stmt* S, json::Array& Out) {
    if (!S || isa<LambdaExpr>(S)) return;
    if (auto* T = dyn_cast<CXXTryStmt>(S)) {
      json::Object O;
      json::Array In, Types;
      below(FS, T->getTryBlock(), In);
      for (unsigned i = 0; i < T->getNumHandlers(); ++i) {
        auto* VD = T->getHandler(i)->getExceptionDecl();
        json::Object H;
        H["t"] = VD ? typeStr(VD->getType()) : std::string("...");
        json::Array HIn;
        below(FS, T->getHandler(i)->getHandlerBlock(), HIn);
        H["in"] = std::move(HIn);
        auto HI = FS.Ids.find(T->getHandler(i));
        if (HI != FS.Ids.end()) H["n"] = HI->second;
        Types.push_back(std::move(H));
      }
      O["in"] = std::move(In);
      O["handlers"] = std::move(Types);
      Out.push_back(std::move(O));
    }
    for (const Stmt* K : S->children()) tries(FS, K, Out);
  }

  void record(const CXXRecordDecl* R) {
    if (!R->isCompleteDefinition() || R->isDependentContext() || R->isLambda()) return;
    if (!inRoot(R->getLocation())) return;
    if (!SeenRec.insert(R->getCanonicalDecl()).second) return;
    json::Object O;
    O["key"] = recKey(R);
    O["name"] = qname(R);
    O["file"] = fileOf(R->getLocation());
    O["line"] = lineOf(R->getLocation());
    O["poly"] = R->isPolymorphic();
      if (R->isUnion()) O["union"] = true;
    O["abstract"] = R->isAbstract();
    if (R->getDestructor()) O["vdtor"] = R->getDestructor()->isVirtual();
    json::Array Bases;
    for (auto& B : R->bases()) Bases.push_back(typeStr(B.getType()));
    O["bases"] = std::move(Bases);
    json::Array Fs;
    for (auto* F : R->fields()) {
      json::Object FO;
      FO["n"] = F->getNameAsString();
      FO["t"] = typeStr(F->getType());
      FO["access"] = accessStr(F->getAccess());
      if (F->isMutable()) FO["mutable"] = true;
      if (F->getType().isConstQualified()) FO["const"] = true;
      if (F->getType().isVolatileQualified()) FO["volatile"] = true;
      if (F->getType()->isReferenceType()) FO["ref"] = true;
      if (F->hasInClassInitializer()) FO["init"] = true;
      FO["l"] = lineOf(F->getLocation());
      Fs.push_back(std::move(FO));
    }
    O["fields"] = std::move(Fs);
    json::Array SFs;
    for (auto* D : R->decls())
      if (auto* V = dyn_cast<VarDecl>(D)) {
        json::Object FO;
        FO["n"] = V->getNameAsString();
        FO["t"] = typeStr(V->getType());
        FO["q"] = qname(V);
        const VarDecl* DV = nullptr;
        const Expr* I = V->getAnyInitializer(DV);
        Expr::EvalResult ER;
        if (I && !I->isValueDependent() && V->getType().isConstQualified() && V->getType()->isIntegralOrEnumerationType() && I->EvaluateAsInt(ER, Ctx)) {
          llvm::SmallString<32> Bf;
          ER.Val.getInt().toString(Bf);
          FO["cv"] = Bf.str().str();
        }
        SFs.push_back(std::move(FO));
      }
    O["statics"] = std::move(SFs);
    json::Array Ms;
    for (auto* M : R->methods()) {
      json::Object MO;
      MO["n"] = M->getNameAsString();
      MO["key"] = fnKey(M);
      MO["access"] = accessStr(M->getAccess());
      if (M->isConst()) MO["const"] = true;
      if (M->isStatic()) MO["static"] = true;
      if (M->isVirtual()) MO["virtual"] = true;
      if (M->isPureVirtual()) MO["pure"] = true;
      if (M->isDeleted()) MO["deleted"] = true;
      if (M->isImplicit()) MO["implicit"] = true;
      if (M->isDefaulted()) MO["defaulted"] = true;
      MO["l"] = lineOf(M->getLocation());
      MO["ret"] = typeStr(M->getReturnType());
      json::Array Ov;
      for (auto* B : M->overridden_methods()) Ov.push_back(fnKey(B));
      if (!Ov.empty()) MO["overrides"] = std::move(Ov);
      if (auto* CD = dyn_cast<CXXConstructorDecl>(M)) {
        MO["ctor"] = true;
        if (CD->isCopyConstructor()) MO["cc"] = "copy";
        else if (CD->isMoveConstructor()) MO["cc"] = "move";
        else if (CD->isDefaultConstructor()) MO["cc"] = "default";
      }
      if (isa<CXXDestructorDecl>(M)) MO["dtor"] = true;
      if (M->isCopyAssignmentOperator()) MO["cc"] = "copyassign";
      if (M->isMoveAssignmentOperator()) MO["cc"] = "moveassign";
      MO["user"] = M->isUserProvided();
      const FunctionDecl* Def = nullptr;
      MO["body"] = M->hasBody(Def);
      json::Array Pt;
      for (auto* P : M->parameters()) Pt.push_back(typeStr(P->getType()));
      MO["pt"] = std::move(Pt);
      Ms.push_back(std::move(MO));
    }
    O["methods"] = std::move(Ms);
    if (auto* CTS = dyn_cast<ClassTemplateSpecializationDecl>(R)) O["tmpl"] = qname(CTS->getSpecializedTemplate());
    Records.push_back(std::move(O));
  }

  void enumd(const EnumDecl* E) {
    if (!inRoot(E->getLocation()) || !SeenEnum.insert(E->getCanonicalDecl()).second) return;
    if (!E->isCompleteDefinition()) return;
    json::Object O;
    O["key"] = typeStr(QualType(E->getTypeForDecl(), 0));
    O["file"] = fileOf(E->getLocation());
    O["line"] = lineOf(E->getLocation());
    O["scoped"] = E->isScoped();
    json::Array V;
    for (auto* C : E->enumerators()) {
      json::Object CO;
      CO["n"] = C->getNameAsString();
      CO["q"] = qname(C);
      llvm::SmallString<32> B;
      C->getInitVal().toString(B);
      CO["v"] = B.str().str();
      V.push_back(std::move(CO));
    }
    O["consts"] = std::move(V);
    Enums.push_back(std::move(O));
  }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
  Dumper& D;
  json::Array TemplatePatterns;
  explicit Visitor(Dumper& D) : D(D) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl* F) {
    if (F->doesThisDeclarationHaveABody() && D.inRoot(F->getLocation())) {
      if (F->isDependentContext()) {
        json::Object O;
        O["name"] = D.qname(F);
        O["file"] = D.fileOf(F->getLocation());
        O["line"] = D.lineOf(F->getLocation());
        TemplatePatterns.push_back(std::move(O));
      } else
        D.function(F);
    }
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* R) {
    D.record(R);
    return true;
  }
  bool VisitEnumDecl(EnumDecl* E) {
    D.enumd(E);
    return true;
  }
  bool VisitVarDecl(VarDecl* V) {
    if (!V->isLocalVarDeclOrParm() && D.inRoot(V->getLocation()) && !V->getDeclContext()->isDependentContext()) {
      json::Object O;
      O["q"] = D.qname(V);
      O["t"] = D.typeStr(V->getType());
      O["file"] = D.fileOf(V->getLocation());
      O["line"] = D.lineOf(V->getLocation());
      if (auto* I = V->getInit()) {
        Expr::EvalResult R;
        if (!I->isValueDependent() && I->getType()->isIntegralOrEnumerationType() && I->EvaluateAsInt(R, D.Ctx)) {
          llvm::SmallString<32> B;
          R.Val.getInt().toString(B);
          O["cv"] = B.str().str();
        }
        llvm::APFloat AF(0.0);
        if (!I->isValueDependent() && V->getType().isConstQualified() && I->getType()->isRealFloatingType() &&
            I->EvaluateAsFloat(AF, D.Ctx)) {
          llvm::SmallString<32> B;
          AF.toString(B);
          O["fv"] = B.str().str();
        }
        // string initialisers
        struct SV : RecursiveASTVisitor<SV> {
          std::string S;
          bool VisitStringLiteral(StringLiteral* L) {
            if (S.empty() && L->isOrdinary()) S = L->getString().str();
            return true;
          }
        } sv;
        sv.TraverseStmt(const_cast<Expr*>(I));
        if (!sv.S.empty()) O["str"] = sv.S;
        // tables of constants
        if (V->getType()->isConstantArrayType() && V->getType().isConstQualified() == false
                ? D.Ctx.getBaseElementType(V->getType()).isConstQualified()
                : V->getType()->isConstantArrayType()) {
          const APValue* A = I->isValueDependent() ? nullptr : V->evaluateValue();
          if (A && A->isArray()) {
            json::Array L;
            bool ok = A->getArraySize() <= 4096;
            for (unsigned i = 0; ok && i < A->getArraySize(); ++i) {
              const APValue& E = i < A->getArrayInitializedElts() ? A->getArrayInitializedElt(i) : A->getArrayFiller();
              if (!E.isInt()) {
                ok = false;
                break;
              }
              L.push_back(E.getInt().getExtValue());
            }
            if (ok) O["vals"] = std::move(L);
          }
        }
      }
      if (V->getTLSKind() != VarDecl::TLS_None) O["tls"] = true;
      D.Globals.push_back(std::move(O));
    }
    return true;
  }
};

// a driver outside the roots: everything of the roots it instantiates or calls
struct DriverVisitor : RecursiveASTVisitor<DriverVisitor> {
  Dumper& D;
  explicit DriverVisitor(Dumper& D) : D(D) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  void ref(const FunctionDecl* F) {
    const FunctionDecl* Def = nullptr;
    if (F && F->hasBody(Def) && Def && D.inRoot(Def->getLocation()) && !Def->isDependentContext()) D.Work.push_back(Def);
  }
  bool VisitFunctionDecl(FunctionDecl* F) {
    ref(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* R) {
    if (D.inRoot(R->getLocation())) D.record(R);
    return true;
  }
  bool VisitDeclRefExpr(DeclRefExpr* E) {
    ref(dyn_cast<FunctionDecl>(E->getDecl()));
    return true;
  }
  bool VisitMemberExpr(MemberExpr* E) {
    ref(dyn_cast<FunctionDecl>(E->getMemberDecl()));
    return true;
  }
  bool VisitCXXConstructExpr(CXXConstructExpr* E) {
    ref(E->getConstructor());
    return true;
  }
};

struct Consumer : ASTConsumer {
  CompilerInstance& CI;
  explicit Consumer(CompilerInstance& CI) : CI(CI) {}
  void HandleTranslationUnit(ASTContext& C) override {
    Dumper D(C);
    Visitor V(D);
    // Only walk top-level declarations that live in (or may instantiate into) the roots; template
    // instantiations of repository templates are reached through the templates themselves.
    for (Decl* TD : C.getTranslationUnitDecl()->decls()) {
      if (auto* NS = dyn_cast<NamespaceDecl>(TD)) {
        // namespaces re-open per file: skip those outside the roots except std (specialisations inside are in root files)
        if (!D.inRoot(NS->getLocation())) {
          if (D.SM.isInMainFile(NS->getLocation())) DriverVisitor(D).TraverseDecl(TD);
          continue;
        }
      } else if (!D.inRoot(TD->getLocation())) {
        if (D.SM.isInMainFile(TD->getLocation())) {
          DriverVisitor(D).TraverseDecl(TD);
          if (auto* CS = dyn_cast<ClassTemplateSpecializationDecl>(TD))
            for (auto* M : CS->decls()) DriverVisitor(D).TraverseDecl(M);
        }
        continue;
      }
      V.TraverseDecl(TD);
    }
    for (size_t i = 0; i < D.Work.size(); ++i) D.function(D.Work[i]);
    json::Object O;
    O["functions"] = std::move(D.Functions);
    O["records"] = std::move(D.Records);
    O["enums"] = std::move(D.Enums);
    O["globals"] = std::move(D.Globals);
    O["templates"] = std::move(V.TemplatePatterns);
    O["errors"] = (int64_t)CI.getDiagnostics().getClient()->getNumErrors();
    std::error_code EC;
    if (OutFile.empty()) llvm::outs() << json::Value(std::move(O)) << "\n";
    else {
      llvm::raw_fd_ostream OS(OutFile, EC);
      OS << json::Value(std::move(O)) << "\n";
    }
  }
};

struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, StringRef) override {
    return std::make_unique<Consumer>(CI);
  }
};

}  // namespace

int main(int argc, const char** argv) {
  auto P = tooling::CommonOptionsParser::create(argc, argv, Cat, llvm::cl::OneOrMore);
  if (!P) {
    llvm::errs() << P.takeError();
    return 2;
  }
  tooling::ClangTool T(P->getCompilations(), P->getSourcePathList());
  return T.run(tooling::newFrontendActionFactory<Action>().get());
}
