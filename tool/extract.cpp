// Fact extractor: parses one translation unit of /repo and writes, for every function
// defined under the given source roots, its control-flow graph over resolved expressions.
//   extract OUT ROOTS(:-separated) SRC -- clang flags
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Analysis/CFG.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Lex/Preprocessor.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>
#include <sstream>
using namespace clang;

static std::vector<std::string> Roots;
static std::string OutPath;
static std::set<std::string> Deps;

static std::string jstr(llvm::StringRef s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    switch (c) {
    case '"': o += "\\\""; break;
    case '\\': o += "\\\\"; break;
    case '\n': o += "\\n"; break;
    case '\t': o += "\\t"; break;
    default:
      if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
      else o += c;
    }
  }
  return o + "\"";
}

static bool inRoots(const std::string &f) {
  for (auto &r : Roots) if (f.compare(0, r.size(), r) == 0) return true;
  return false;
}

struct Namer {
  ASTContext &C;
  PrintingPolicy PP;
  std::map<const Decl *, std::string> lambdaIds;
  std::map<std::string, int> lambdaCount;
  Namer(ASTContext &C) : C(C), PP(C.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.PrintCanonicalTypes = true;
    PP.SuppressInlineNamespace = true; PP.SuppressUnwrittenScope = false; PP.Bool = true;
  }
  std::string file(SourceLocation L) {
    SourceManager &SM = C.getSourceManager();
    L = SM.getExpansionLoc(L);
    PresumedLoc P = SM.getPresumedLoc(L, false);
    auto FE = SM.getFileEntryRefForID(SM.getFileID(L));
    if (FE) { llvm::SmallString<256> s(FE->getFileEntry().tryGetRealPathName()); if (!s.empty()) return s.str().str(); }
    return P.isValid() ? P.getFilename() : "";
  }
  unsigned line(SourceLocation L) { return C.getSourceManager().getExpansionLineNumber(L); }
  std::string type(QualType T) { if (T.isNull()) return ""; return T.getCanonicalType().getAsString(PP); }
  // qualified name with template arguments and inline namespaces stripped
  std::string qn(const NamedDecl *D) {
    if (!D) return "";
    std::vector<std::string> parts;
    auto nameOf = [&](const NamedDecl *N) -> std::string {
      if (auto *CD = dyn_cast<CXXConstructorDecl>(N)) return CD->getParent()->getNameAsString();
      if (auto *DD = dyn_cast<CXXDestructorDecl>(N)) return "~" + DD->getParent()->getNameAsString();
      if (isa<CXXConversionDecl>(N)) return "operator " + type(cast<CXXConversionDecl>(N)->getConversionType());
      std::string s = N->getNameAsString();
      if (s.empty()) return isa<NamespaceDecl>(N) ? "(anon)" : "(unnamed)";
      return s;
    };
    if (auto *RD = dyn_cast<CXXRecordDecl>(D)) if (RD->isLambda()) return lambdaId(RD);
    parts.push_back(nameOf(D));
    const DeclContext *DC = D->getDeclContext();
    while (DC && !DC->isTranslationUnit()) {
      if (auto *NS = dyn_cast<NamespaceDecl>(DC)) { if (!NS->isInline() && !NS->isAnonymousNamespace()) parts.push_back(nameOf(NS)); }
      else if (auto *RD = dyn_cast<CXXRecordDecl>(DC)) {
        if (RD->isLambda()) { std::string s = lambdaId(RD); for (size_t i = parts.size(); i-- > 0;) s += "::" + parts[i]; return s; }
        parts.push_back(nameOf(RD));
      }
      else if (auto *FD = dyn_cast<FunctionDecl>(DC)) parts.push_back(nameOf(FD));
      else if (auto *ED = dyn_cast<EnumDecl>(DC)) { if (ED->isScoped()) parts.push_back(nameOf(ED)); }
      DC = DC->getParent();
    }
    std::string s;
    for (size_t i = parts.size(); i-- > 0;) { s += parts[i]; if (i) s += "::"; }
    return s;
  }
  const FunctionDecl *enclosing(const DeclContext *DC) {
    while (DC && !DC->isTranslationUnit()) {
      if (auto *FD = dyn_cast<FunctionDecl>(DC)) return FD;
      DC = DC->getParent();
    }
    return nullptr;
  }
  std::string lambdaId(const CXXRecordDecl *RD) {
    auto it = lambdaIds.find(RD);
    if (it != lambdaIds.end()) return it->second;
    const FunctionDecl *F = enclosing(RD->getDeclContext());
    std::string p = F ? fid(F) : "global:" + file(RD->getLocation());
    std::string id = p + "::$lambda" + std::to_string(lambdaCount[p]++);
    lambdaIds[RD] = id;
    return id;
  }
  std::map<const FunctionDecl *, std::string> fids;
  std::string fid(const FunctionDecl *F) {
    if (!F) return "";
    F = F->getCanonicalDecl();
    auto it = fids.find(F);
    if (it != fids.end()) return it->second;
    std::string s;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->getParent()->isLambda()) {
        s = lambdaId(M->getParent());
        if (M->getOverloadedOperator() != OO_Call) s += "::" + M->getNameAsString();
        return fids[F] = s;
      }
    }
    llvm::raw_string_ostream os(s);
    F->getNameForDiagnostic(os, PP, true);
    os << "(";
    for (unsigned i = 0; i < F->getNumParams(); i++) { if (i) os << ","; os << type(F->getParamDecl(i)->getType()); }
    os << ")";
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->isConst()) os << "const";
    os.flush();
    if (F->getFormalLinkage() == Linkage::Internal || F->isInAnonymousNamespace()) {
      std::string f = file(F->getLocation());
      size_t p = f.rfind('/');
      s = "[" + f.substr(p == std::string::npos ? 0 : p + 1) + "]" + s;
    }
    return fids[F] = s;
  }
};

struct FnDump {
  Namer &N;
  ASTContext &C;
  const FunctionDecl *F;
  std::vector<std::string> exprs;
  std::map<const Stmt *, int> eid;
  std::map<std::string, int> types; std::vector<std::string> typeList;
  std::map<const ValueDecl *, int> vars; std::vector<std::string> varList;
  std::set<std::string> callees;
  std::vector<const CXXRecordDecl *> lambdas;
  FnDump(Namer &N, ASTContext &C, const FunctionDecl *F) : N(N), C(C), F(F) {}

  int ty(QualType T) {
    std::string s = N.type(T);
    auto it = types.find(s);
    if (it != types.end()) return it->second;
    int i = typeList.size(); types[s] = i; typeList.push_back(s); return i;
  }
  int var(const ValueDecl *V) {
    V = cast<ValueDecl>(V->getCanonicalDecl());
    auto it = vars.find(V);
    if (it != vars.end()) return it->second;
    int i = varList.size(); vars[V] = i; varList.push_back("");
    const char *k = "l";
    auto *P = dyn_cast<ParmVarDecl>(V);
    if (P) k = "p";
    else if (auto *VD = dyn_cast<VarDecl>(V)) if (VD->isStaticLocal()) k = "s";
    const FunctionDecl *E = N.enclosing(V->getDeclContext());
    bool mine = E && E->getCanonicalDecl() == F->getCanonicalDecl();
    int idx = P ? (int)P->getFunctionScopeIndex() : -1;
    std::string key = std::to_string(N.C.getSourceManager().getFileOffset(N.C.getSourceManager().getExpansionLoc(V->getLocation())));
    key = V->getNameAsString() + "@" + key;
    varList[i] = "[" + jstr(V->getNameAsString()) + "," + std::to_string(ty(V->getType())) + "," + jstr(mine ? k : "c") + "," + std::to_string(idx) + "," + jstr(key) + "]";
    return i;
  }
  const Expr *strip(const Expr *E) {
    for (;;) {
      if (!E) return E;
      E = E->IgnoreParens();
      if (auto *X = dyn_cast<ExprWithCleanups>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<ConstantExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = X->getReplacement(); continue; }
      if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) { E = X->getExpr(); continue; }
      if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) { E = X->getExpr(); continue; }
      if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<ImplicitCastExpr>(E)) {
        switch (X->getCastKind()) {
        case CK_IntegralCast: case CK_FloatingToIntegral: case CK_IntegralToFloating: {
          QualType A = X->getSubExpr()->getType(), B = X->getType();
          if (A->isBooleanType() || !A->isIntegerType() || !B->isIntegerType() || C.getTypeSize(A) > C.getTypeSize(B)) return E;
          break;
        }
        default: break;
        }
        E = X->getSubExpr(); continue;
      }
      return E;
    }
  }
  std::string num(const llvm::APSInt &v) { llvm::SmallString<40> s; v.toString(s, 10); return s.str().str(); }
  std::string ids(const std::vector<int> &v) {
    std::string s = "[";
    for (size_t i = 0; i < v.size(); i++) { if (i) s += ","; s += std::to_string(v[i]); }
    return s + "]";
  }
  int expr(const Expr *E0) {
    const Expr *E = strip(E0);
    if (!E) return -1;
    auto it = eid.find(E);
    if (it != eid.end()) return it->second;
    std::string h = std::to_string(ty(E->getType())) + "," + std::to_string(N.line(E->getExprLoc())) + ",";
    std::string r = body(E, h);
    int i = exprs.size();
    exprs.push_back(r);
    eid[E] = i;
    return i;
  }
  template <class R> std::vector<int> list(R args) { std::vector<int> v; for (const Expr *a : args) v.push_back(expr(a)); return v; }
  std::string call(const FunctionDecl *FD, int obj, const std::vector<int> &args, const std::string &h, bool virt, int calleeExpr) {
    std::string f = FD ? N.fid(FD) : "", q = FD ? N.qn(FD) : "";
    if (FD) callees.insert(f);
    return "[\"c\"," + h + jstr(f) + "," + jstr(q) + "," + std::to_string(obj) + "," + ids(args) + "," + (virt ? "1" : "0") + "," + std::to_string(calleeExpr) + "]";
  }
  std::string body(const Expr *E, const std::string &h) {
    if (auto *X = dyn_cast<IntegerLiteral>(E)) return "[\"i\"," + h + "\"" + num(llvm::APSInt(X->getValue(), X->getType()->isUnsignedIntegerType())) + "\"]";
    if (auto *X = dyn_cast<CharacterLiteral>(E)) return "[\"i\"," + h + "\"" + std::to_string(X->getValue()) + "\"]";
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) return "[\"B\"," + h + (X->getValue() ? "1" : "0") + "]";
    if (auto *X = dyn_cast<StringLiteral>(E)) return "[\"s\"," + h + jstr(X->getCharByteWidth() == 1 ? X->getString() : "") + "]";
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return "[\"n\"," + h + "0]";
    if (auto *X = dyn_cast<FloatingLiteral>(E)) { return "[\"f\"," + h + jstr(std::to_string(X->getValueAsApproximateDouble())) + "]"; }
    if (isa<CXXThisExpr>(E)) return "[\"t\"," + h + "0]";
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = X->getDecl();
      if (auto *FD = dyn_cast<FunctionDecl>(D)) { callees.insert(N.fid(FD)); return "[\"F\"," + h + jstr(N.fid(FD)) + "," + jstr(N.qn(FD)) + "]"; }
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) return "[\"e\"," + h + jstr(N.qn(EC)) + "," + jstr(num(EC->getInitVal())) + "]";
      if (auto *VD = dyn_cast<VarDecl>(D)) {
        if (VD->hasGlobalStorage() && !VD->isStaticLocal()) {
          std::string val = "null";
          Expr::EvalResult R;
          if (!E->isValueDependent() && E->getType()->isIntegralOrEnumerationType() && E->EvaluateAsInt(R, C)) val = jstr(num(R.Val.getInt()));
          return "[\"g\"," + h + jstr(N.qn(VD)) + "," + val + "]";
        }
        // a local of integral type with a constant initialiser is kept as a variable
        return "[\"v\"," + h + std::to_string(var(VD)) + "]";
      }
      if (isa<BindingDecl>(D)) return "[\"v\"," + h + std::to_string(var(D)) + "]";
      return "[\"o\"," + h + "\"declref\",[]]";
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      const ValueDecl *D = X->getMemberDecl();
      if (auto *FD = dyn_cast<FieldDecl>(D)) {
        int b = expr(X->getBase());
        return "[\"m\"," + h + std::to_string(b) + "," + jstr(N.qn(FD)) + "]";
      }
      if (auto *VD = dyn_cast<VarDecl>(D)) {
        std::string val = "null"; Expr::EvalResult R;
        if (!E->isValueDependent() && E->getType()->isIntegralOrEnumerationType() && E->EvaluateAsInt(R, C)) val = jstr(num(R.Val.getInt()));
        return "[\"g\"," + h + jstr(N.qn(VD)) + "," + val + "]";
      }
      if (auto *FD = dyn_cast<FunctionDecl>(D)) { expr(X->getBase()); return "[\"F\"," + h + jstr(N.fid(FD)) + "," + jstr(N.qn(FD)) + "]"; }
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) return "[\"e\"," + h + jstr(N.qn(EC)) + "," + jstr(num(EC->getInitVal())) + "]";
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      const CXXMethodDecl *MD = X->getMethodDecl();
      const Expr *O = X->getImplicitObjectArgument();
      int o = O ? expr(O) : -1;
      auto a = list(X->arguments());
      bool virt = false; int ce = -1;
      if (MD) {
        virt = MD->isVirtual();
        if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) if (ME->hasQualifier()) virt = false;
      } else ce = expr(X->getCallee());
      return call(MD, o, a, h, virt, ce);
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      const FunctionDecl *FD = X->getDirectCallee();
      std::vector<int> a = list(X->arguments());
      int o = -1;
      if (FD && isa<CXXMethodDecl>(FD) && !cast<CXXMethodDecl>(FD)->isStatic() && !a.empty()) { o = a[0]; a.erase(a.begin()); }
      bool virt = FD && isa<CXXMethodDecl>(FD) && cast<CXXMethodDecl>(FD)->isVirtual();
      return call(FD, o, a, h, virt, FD ? -1 : expr(X->getCallee()));
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      const FunctionDecl *FD = X->getDirectCallee();
      int ce = FD ? -1 : expr(X->getCallee());
      return call(FD, -1, list(X->arguments()), h, false, ce);
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      const CXXConstructorDecl *CD = X->getConstructor();
      const char *k = CD->isCopyConstructor() ? "c" : CD->isMoveConstructor() ? "m" : "";
      callees.insert(N.fid(CD));
      return "[\"k\"," + h + jstr(N.qn(CD->getParent())) + "," + jstr(N.fid(CD)) + "," + ids(list(X->arguments())) + "," + jstr(k) + "]";
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) return "[\"k\"," + h + jstr(N.qn(X->getConstructor()->getParent())) + "," + jstr(N.fid(X->getConstructor())) + ",[],\"\"]";
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      int l = expr(X->getLHS()), r = expr(X->getRHS());
      return "[\"b\"," + h + jstr(X->getOpcodeStr()) + "," + std::to_string(l) + "," + std::to_string(r) + "]";
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      std::string op = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix()) op = "p" + op;
      return "[\"u\"," + h + jstr(op) + "," + std::to_string(expr(X->getSubExpr())) + "]";
    }
    if (auto *X = dyn_cast<ConditionalOperator>(E)) {
      int c = expr(X->getCond()), a = expr(X->getTrueExpr()), b = expr(X->getFalseExpr());
      return "[\"q\"," + h + std::to_string(c) + "," + std::to_string(a) + "," + std::to_string(b) + "]";
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      int b = expr(X->getBase()), i = expr(X->getIdx());
      return "[\"x\"," + h + std::to_string(b) + "," + std::to_string(i) + "]";
    }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      std::vector<int> a;
      if (X->getConstructExpr()) a.push_back(expr(X->getConstructExpr()));
      else if (X->getInitializer()) a.push_back(expr(X->getInitializer()));
      int sz = -1;
      if (X->isArray() && X->getArraySize() && *X->getArraySize()) sz = expr(*X->getArraySize());
      return "[\"N\"," + h + std::to_string(ty(X->getAllocatedType())) + "," + ids(a) + "," + std::to_string(sz) + "]";
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) return "[\"D\"," + h + std::to_string(expr(X->getArgument())) + "]";
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) return "[\"T\"," + h + std::to_string(X->getSubExpr() ? expr(X->getSubExpr()) : -1) + "]";
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      lambdas.push_back(X->getLambdaClass());
      std::string s = "[\"L\"," + h + jstr(N.lambdaId(X->getLambdaClass())) + ",[";
      bool first = true;
      auto ii = X->capture_init_begin();
      for (auto &cp : X->captures()) {
        const Expr *init = *ii++;
        if (!first) s += ",";
        first = false;
        if (cp.capturesThis()) s += "[-1,0,-1]";
        else if (cp.capturesVariable()) s += "[" + std::to_string(var(cp.getCapturedVar())) + "," + (cp.getCaptureKind() == LCK_ByRef ? "1" : "0") + "," + std::to_string(init ? expr(init) : -1) + "]";
        else s += "[-2,0,-1]";
      }
      callees.insert(N.lambdaId(X->getLambdaClass()));
      return s + "]]";
    }
    if (auto *X = dyn_cast<ExplicitCastExpr>(E)) return "[\"z\"," + h + std::to_string(expr(X->getSubExpr())) + "]";
    if (auto *X = dyn_cast<ImplicitCastExpr>(E)) return "[\"y\"," + h + std::to_string(expr(X->getSubExpr())) + "]";
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      if (X->getSemanticForm()) X = X->getSemanticForm();
      std::vector<int> v; for (auto *i : X->inits()) v.push_back(expr(i));
      return "[\"I\"," + h + ids(v) + "]";
    }
    if (auto *X = dyn_cast<CXXTypeidExpr>(E)) {
      if (X->isTypeOperand()) return "[\"o\"," + h + jstr("typeid:" + N.type(X->getTypeOperand(C))) + ",[]]";
      return "[\"o\"," + h + "\"typeid\"," + ids({expr(X->getExprOperand())}) + "]";
    }
    Expr::EvalResult R;
    if (!E->isValueDependent() && !E->isTypeDependent() && E->getType()->isIntegralOrEnumerationType() && E->EvaluateAsInt(R, C))
      return "[\"i\"," + h + jstr(num(R.Val.getInt())) + "]";
    std::vector<int> v;
    if (isa<UnaryExprOrTypeTraitExpr>(E) || isa<CXXTypeidExpr>(E)) {}
    else for (const Stmt *S : E->children()) if (auto *c = dyn_cast_or_null<Expr>(S)) v.push_back(expr(c));
    return "[\"o\"," + h + jstr(E->getStmtClassName()) + "," + ids(v) + "]";
  }
  bool eventful(const std::string &r) {
    char k = r[2];
    if (k == 'c' || k == 'k' || k == 'N' || k == 'D' || k == 'T' || k == 'L') return true;
    if (k == 'b' || k == 'u') return true; // filtered below
    return false;
  }
  bool isEvent(const Expr *E) {
    E = strip(E);
    if (isa<CallExpr>(E) || isa<CXXConstructExpr>(E) || isa<CXXNewExpr>(E) || isa<CXXDeleteExpr>(E) || isa<CXXThrowExpr>(E) || isa<LambdaExpr>(E) || isa<CXXInheritedCtorInitExpr>(E)) return true;
    if (auto *B = dyn_cast<BinaryOperator>(E)) return B->isAssignmentOp();
    if (auto *U = dyn_cast<UnaryOperator>(E)) return U->isIncrementDecrementOp();
    return false;
  }
  std::string dump() {
    std::string o;
    const Stmt *Body = F->getBody();
    CFG::BuildOptions BO;
    BO.AddImplicitDtors = true; BO.AddInitializers = true; BO.AddEHEdges = true; BO.AddTemporaryDtors = false;
    BO.PruneTriviallyFalseEdges = true; BO.AddCXXNewAllocator = false; BO.AddCXXDefaultInitExprInCtors = true;
    BO.setAllAlwaysAdd();
    // parameters first so that their indexes are stable
    for (auto *P : F->parameters()) var(P);
    std::unique_ptr<CFG> G = CFG::buildCFG(F, const_cast<Stmt *>(Body), &C, BO);
    if (!G) return "";
    std::string bl = "[";
    bool fb = true;
    for (const CFGBlock *B : *G) {
      if (!fb) bl += ",";
      fb = false;
      bl += "[" + std::to_string(B->getBlockID()) + ",[";
      bool fe = true;
      auto add = [&](const std::string &s) { if (!fe) bl += ","; fe = false; bl += s; };
      for (const CFGElement &El : *B) {
        if (auto S = El.getAs<CFGStmt>()) {
          const Stmt *St = S->getStmt();
          if (auto *E = dyn_cast<Expr>(St)) {
            const Expr *T = strip(E);
            if (T != E) continue; // the stripped node is its own element
            if (isEvent(E)) add("[\"E\"," + std::to_string(expr(E)) + "]");
          } else if (auto *DS = dyn_cast<DeclStmt>(St)) {
            for (auto *D : DS->decls())
              if (auto *VD = dyn_cast<VarDecl>(D)) {
                int v = var(VD);
                add("[\"d\"," + std::to_string(v) + "," + std::to_string(VD->getInit() ? expr(VD->getInit()) : -1) + "," + std::to_string(N.line(VD->getLocation())) + "]");
              }
          } else if (auto *RS = dyn_cast<ReturnStmt>(St)) {
            add("[\"r\"," + std::to_string(RS->getRetValue() ? expr(RS->getRetValue()) : -1) + "," + std::to_string(N.line(RS->getBeginLoc())) + "]");
          }
        } else if (auto I = El.getAs<CFGInitializer>()) {
          const CXXCtorInitializer *CI = I->getInitializer();
          int e = CI->getInit() ? expr(CI->getInit()) : -1;
          if (CI->isAnyMemberInitializer()) add("[\"f\"," + jstr(N.qn(CI->getAnyMember())) + "," + std::to_string(e) + "," + std::to_string(N.line(CI->getSourceLocation())) + "]");
          else add("[\"bi\"," + std::to_string(e) + "]");
        } else if (auto D = El.getAs<CFGAutomaticObjDtor>()) {
          add("[\"~\"," + std::to_string(var(D->getVarDecl())) + "," + std::to_string(N.line(D->getTriggerStmt() ? D->getTriggerStmt()->getEndLoc() : SourceLocation())) + "]");
        }
      }
      bl += "],";
      const Stmt *T = B->getTerminatorStmt();
      std::string tk = T ? T->getStmtClassName() : "";
      int cond = -1; int whole = -1; unsigned tl = 0;
      if (T) {
        tl = N.line(T->getBeginLoc());
        if (auto *BOp = dyn_cast<BinaryOperator>(T)) { tk = BOp->getOpcodeStr().str(); cond = expr(BOp->getLHS()); whole = expr(BOp); }
        else if (auto *CO = dyn_cast<ConditionalOperator>(T)) { tk = "?:"; cond = expr(CO->getCond()); whole = expr(CO); }
        else if (auto *cs = dyn_cast_or_null<Expr>(B->getTerminatorCondition(false))) cond = expr(cs);
      }
      bl += jstr(tk) + "," + std::to_string(cond) + "," + std::to_string(whole) + "," + std::to_string(tl) + ",[";
      bool fs = true;
      for (auto &S : B->succs()) {
        if (!fs) bl += ",";
        fs = false;
        const CFGBlock *R = S.getReachableBlock();
        bl += R ? std::to_string(R->getBlockID()) : "null";
      }
      bl += "],";
      const Stmt *L = B->getLabel();
      if (auto *CS = dyn_cast_or_null<CaseStmt>(L)) bl += "[\"case\"," + std::to_string(expr(CS->getLHS())) + "," + std::to_string(CS->getRHS() ? expr(CS->getRHS()) : -1) + "]";
      else if (isa_and_nonnull<DefaultStmt>(L)) bl += "[\"default\"]";
      else if (auto *CS = dyn_cast_or_null<CXXCatchStmt>(L)) bl += "[\"catch\"," + jstr(CS->getCaughtType().isNull() ? "..." : N.type(CS->getCaughtType())) + "]";
      else bl += "0";
      bl += B->hasNoReturnElement() ? ",1]" : ",0]";
    }
    bl += "]";
    const CXXMethodDecl *M = dyn_cast<CXXMethodDecl>(F);
    std::string id = N.fid(F);
    o += "{\"id\":" + jstr(id) + ",\"qn\":" + jstr(N.qn(F)) + ",\"file\":" + jstr(N.file(F->getLocation())) + ",\"line\":" + std::to_string(N.line(F->getLocation())) + ",\"end\":" + std::to_string(N.line(F->getEndLoc()));
    o += ",\"ret\":" + std::to_string(ty(F->getReturnType()));
    o += ",\"cls\":" + jstr(M ? N.qn(M->getParent()) : "");
    o += ",\"static\":" + std::string(M && M->isStatic() ? "1" : "0");
    o += ",\"const\":" + std::string(M && M->isConst() ? "1" : "0");
    o += ",\"access\":" + std::to_string((int)F->getAccess());
    o += ",\"virtual\":" + std::string(M && M->isVirtual() ? "1" : "0");
    o += ",\"kind\":" + jstr(isa<CXXConstructorDecl>(F) ? "ctor" : isa<CXXDestructorDecl>(F) ? "dtor" : (M && M->getParent()->isLambda()) ? "lambda" : "fn");
    o += ",\"over\":[";
    if (M) {
      std::set<std::string> ov; std::vector<const CXXMethodDecl *> st(M->begin_overridden_methods(), M->end_overridden_methods());
      while (!st.empty()) { auto *x = st.back(); st.pop_back(); ov.insert(N.fid(x)); for (auto *y : x->overridden_methods()) st.push_back(y); }
      bool f1 = true; for (auto &s : ov) { if (!f1) o += ","; f1 = false; o += jstr(s); }
    }
    o += "],\"parent\":";
    const FunctionDecl *P = (M && M->getParent()->isLambda()) ? N.enclosing(M->getParent()->getDeclContext()) : nullptr;
    o += jstr(P ? N.fid(P) : "");
    o += ",\"np\":" + std::to_string(F->getNumParams());
    o += ",\"entry\":" + std::to_string(G->getEntry().getBlockID()) + ",\"exit\":" + std::to_string(G->getExit().getBlockID());
    o += ",\"vars\":["; for (size_t i = 0; i < varList.size(); i++) { if (i) o += ","; o += varList[i]; }
    o += "],\"types\":["; for (size_t i = 0; i < typeList.size(); i++) { if (i) o += ","; o += jstr(typeList[i]); }
    o += "],\"ex\":["; for (size_t i = 0; i < exprs.size(); i++) { if (i) o += ","; o += exprs[i]; }
    o += "],\"bl\":" + bl + ",\"calls\":[";
    bool f1 = true; for (auto &s : callees) { if (!f1) o += ","; f1 = false; o += jstr(s); }
    o += "]}";
    return o;
  }
};

class V : public RecursiveASTVisitor<V> {
public:
  ASTContext &C; Namer N; std::ofstream out; std::set<const FunctionDecl *> seen; unsigned nfun = 0;
  V(ASTContext &C) : C(C), N(C), out(OutPath) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool shouldVisitLambdaBody() const { return true; }
  void emit(const FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody() || F->isDependentContext() || F->isInvalidDecl()) return;
    if (F->isDeleted()) return;
    if (!inRoots(N.file(F->getLocation()))) return;
    if (!seen.insert(F->getCanonicalDecl()).second) return;
    if (F->isDefaulted() && !F->isUserProvided()) return;
    FnDump D(N, C, F);
    std::string s = D.dump();
    if (s.empty()) { llvm::errs() << "no CFG: " << N.fid(F) << "\n"; return; }
    out << s << "\n"; nfun++;
    for (auto *L : D.lambdas) if (auto *Op = L->getLambdaCallOperator()) {
      if (!L->isGenericLambda()) emit(Op);
      else if (auto *FT = L->getDependentLambdaCallOperator()) for (auto *S : FT->specializations()) emit(S);
    }
  }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true; // emitted by parent
    emit(F); return true;
  }
  bool VisitVarDecl(VarDecl *D) {
    if (D->hasGlobalStorage() && D->isThisDeclarationADefinition() && D->getInit() && !D->getDeclContext()->isDependentContext() && !D->isStaticLocal() && !D->getType()->isDependentType() && !D->getInit()->isValueDependent() && !D->getInit()->isTypeDependent()) {
      if (!inRoots(N.file(D->getLocation()))) return true;
      GlobalDump(D);
    } else if (D->getInit() && !D->hasExternalStorage() && (D->isStaticLocal() || D->hasLocalStorage()) && !D->getDeclContext()->isDependentContext() && D->getType()->isRecordType() && !D->getInit()->isTypeDependent() && !D->getInit()->isValueDependent() && inRoots(N.file(D->getLocation()))) {
      // a dispatch table declared inside a function: its initialiser names at least two member functions
      struct Cnt : RecursiveASTVisitor<Cnt> {
        int n = 0;
        bool VisitDeclRefExpr(DeclRefExpr *E) { if (auto *M = dyn_cast<CXXMethodDecl>(E->getDecl())) if (!M->isStatic() && !M->isOverloadedOperator()) n++; return true; }
        bool TraverseLambdaExpr(LambdaExpr *) { return true; }
      } k;
      k.TraverseStmt(D->getInit());
      if (k.n >= 2) GlobalDump(D);
    }
    return true;
  }
  void GlobalDump(VarDecl *D) {
    // dispatch tables etc.: list every function / enum / string mentioned in the initialiser, in order
    struct W : RecursiveASTVisitor<W> {
      Namer &N; ASTContext &C; std::vector<std::string> items; W(Namer &N, ASTContext &C) : N(N), C(C) {}
      bool VisitDeclRefExpr(DeclRefExpr *E) {
        if (auto *F = dyn_cast<FunctionDecl>(E->getDecl())) items.push_back("[\"F\"," + jstr(N.fid(F)) + "," + jstr(N.qn(F)) + "]");
        else items.push_back("[\"g\"," + jstr(N.qn(E->getDecl())) + "]");
        return true;
      }
      bool VisitStringLiteral(StringLiteral *S) { if (S->getCharByteWidth() == 1) items.push_back("[\"s\"," + jstr(S->getString()) + "]"); return true; }
      bool VisitIntegerLiteral(IntegerLiteral *S) { llvm::SmallString<40> s; S->getValue().toStringUnsigned(s); items.push_back("[\"i\",\"" + s.str().str() + "\"]"); return true; }
      bool VisitCXXBoolLiteralExpr(CXXBoolLiteralExpr *S) { items.push_back(std::string("[\"B\",") + (S->getValue() ? "1]" : "0]")); return true; }
      bool VisitLambdaExpr(LambdaExpr *S) { items.push_back("[\"L\"," + jstr(N.lambdaId(S->getLambdaClass())) + "]"); return true; }
    } w(N, C);
    w.TraverseStmt(const_cast<Expr *>(D->getInit()));
    std::string val = "null";
    if (D->getType()->isIntegralOrEnumerationType()) if (auto *v = D->evaluateValue()) if (v->isInt()) { llvm::SmallString<40> s; v->getInt().toString(s, 10); val = jstr(s.str()); }
    std::string s = "{\"global\":" + jstr(N.qn(D)) + ",\"file\":" + jstr(N.file(D->getLocation())) + ",\"line\":" + std::to_string(N.line(D->getLocation())) + ",\"type\":" + jstr(N.type(D->getType())) + ",\"val\":" + val + ",\"items\":[";
    for (size_t i = 0; i < w.items.size(); i++) { if (i) s += ","; s += w.items[i]; }
    out << s << "]}\n";
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda() || R->isInvalidDecl()) return true;
    if (!inRoots(N.file(R->getLocation()))) return true;
    std::string s = "{\"record\":" + jstr(N.qn(R)) + ",\"file\":" + jstr(N.file(R->getLocation())) + ",\"line\":" + std::to_string(N.line(R->getLocation())) + ",\"type\":" + jstr(N.type(C.getRecordType(R))) + ",\"bases\":[";
    bool f = true;
    for (auto &b : R->bases()) { if (!f) s += ","; f = false; s += jstr(N.type(b.getType())); }
    s += "],\"fields\":["; f = true;
    for (auto *x : R->fields()) { if (!f) s += ","; f = false; s += "[" + jstr(N.qn(x)) + "," + jstr(N.type(x->getType())) + "," + std::to_string((int)x->getAccess()) + "," + (x->hasInClassInitializer() ? "1" : "0") + "]"; }
    s += "],\"methods\":["; f = true;
    for (auto *x : R->methods()) { if (x->isImplicit()) continue; if (!f) s += ","; f = false; s += "[" + jstr(N.fid(x)) + "," + std::to_string((int)x->getAccess()) + "," + (x->isVirtual() ? "1" : "0") + "]"; }
    s += "]}";
    out << s << "\n";
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!E->isThisDeclarationADefinition() || E->isDependentContext()) return true;
    if (!inRoots(N.file(E->getLocation()))) return true;
    std::string s = "{\"enum\":" + jstr(N.qn(E)) + ",\"vals\":["; bool f = true;
    for (auto *x : E->enumerators()) { if (!f) s += ","; f = false; llvm::SmallString<40> n; x->getInitVal().toString(n, 10); s += "[" + jstr(N.qn(x)) + "," + jstr(n.str()) + "]"; }
    out << s << "]}\n";
    return true;
  }
};

class DepCB : public PPCallbacks {
  SourceManager &SM;
public:
  DepCB(SourceManager &SM) : SM(SM) {}
  void FileChanged(SourceLocation L, FileChangeReason R, SrcMgr::CharacteristicKind, FileID) override {
    if (R != EnterFile) return;
    if (auto FE = SM.getFileEntryRefForID(SM.getFileID(L))) Deps.insert(FE->getFileEntry().tryGetRealPathName().str());
  }
};
class Cons : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    V v(C);
    v.TraverseDecl(C.getTranslationUnitDecl());
    v.out << "{\"end\":" << v.nfun << "}\n";
  }
};
class Act : public ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef) override {
    CI.getPreprocessor().addPPCallbacks(std::make_unique<DepCB>(CI.getSourceManager()));
    return std::make_unique<Cons>();
  }
};

int main(int argc, char **argv) {
  if (argc < 5) return 2;
  OutPath = argv[1];
  std::stringstream ss(argv[2]); std::string r;
  while (std::getline(ss, r, ':')) Roots.push_back(r);
  std::string src = argv[3];
  std::vector<std::string> args;
  for (int i = 5; i < argc; i++) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB("/", args);
  tooling::ClangTool T(DB, {src});
  class F : public tooling::FrontendActionFactory { public: std::unique_ptr<FrontendAction> create() override { return std::make_unique<Act>(); } } fac;
  int rc = T.run(&fac);
  std::ofstream d(OutPath + ".d");
  for (auto &x : Deps) if (!x.empty()) d << x << "\n";
  return rc;
}
