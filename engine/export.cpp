// AST exporter: dumps the type-resolved, template-instantiated bodies of every
// function reachable from the main file (or the witness file) that is defined
// under the configured source roots.  Purely syntactic/semantic information from
// the compiler; nothing is executed.
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendPluginRegistry.h"
#include "clang/Sema/Sema.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <deque>
#include <set>
#include <string>
#include <unordered_map>

using namespace clang;
namespace json = llvm::json;

namespace {

struct Exporter {
  ASTContext &C;
  Sema &S;
  SourceManager &SM;
  std::vector<std::string> roots;
  std::string out;
  PrintingPolicy PP;

  std::unordered_map<const Decl *, int> funIds;
  std::deque<const FunctionDecl *> work;
  std::vector<const FunctionDecl *> funList;
  std::map<const void *, int> typeIds;
  std::vector<QualType> typeList;
  std::unordered_map<const Decl *, int> clsIds;
  std::vector<const CXXRecordDecl *> clsList;
  std::unordered_map<const Decl *, int> varIds;
  std::map<int, json::Value> globals; // var id -> info
  std::unordered_map<std::string, int> locIds;
  std::vector<std::string> locList;
  std::set<std::string> unknownKinds;

  Exporter(CompilerInstance &CI, std::vector<std::string> r, std::string o)
      : C(CI.getASTContext()), S(CI.getSema()), SM(C.getSourceManager()), roots(r), out(o),
        PP(C.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
  }

  std::string fileOf(SourceLocation L) {
    if (L.isInvalid()) return "";
    auto P = SM.getPresumedLoc(SM.getExpansionLoc(L));
    if (P.isInvalid()) return "";
    return P.getFilename();
  }
  bool inRepo(const Decl *D) {
    std::string f = fileOf(D->getLocation());
    for (auto &r : roots)
      if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }
  int loc(SourceLocation L) {
    std::string s;
    if (L.isValid()) {
      auto P = SM.getPresumedLoc(SM.getExpansionLoc(L));
      if (P.isValid()) s = std::string(P.getFilename()) + ":" + std::to_string(P.getLine());
    }
    auto it = locIds.find(s);
    if (it != locIds.end()) return it->second;
    int id = locList.size();
    locList.push_back(s);
    locIds[s] = id;
    return id;
  }

  int cls(const CXXRecordDecl *D) {
    if (!D) return -1;
    if (auto *Def = D->getDefinition()) D = Def;
    D = cast<CXXRecordDecl>(D->getCanonicalDecl());
    auto it = clsIds.find(D);
    if (it != clsIds.end()) return it->second;
    int id = clsList.size();
    clsIds[D] = id;
    clsList.push_back(D->getDefinition() ? D->getDefinition() : D);
    return id;
  }
  int type(QualType T) {
    if (T.isNull()) return -1;
    T = T.getCanonicalType();
    auto it = typeIds.find(T.getAsOpaquePtr());
    if (it != typeIds.end()) return it->second;
    int id = typeList.size();
    typeIds[T.getAsOpaquePtr()] = id;
    typeList.push_back(T);
    return id;
  }
  int fun(const FunctionDecl *F) {
    if (!F) return -1;
    const FunctionDecl *Def = nullptr;
    if (F->hasBody(Def) && Def) F = Def;
    const FunctionDecl *K = F->getCanonicalDecl();
    auto it = funIds.find(K);
    if (it != funIds.end()) return it->second;
    int id = funList.size();
    funIds[K] = id;
    funList.push_back(F);
    return id;
  }
  int var(const ValueDecl *V) {
    const Decl *K = V->getCanonicalDecl();
    auto it = varIds.find(K);
    if (it != varIds.end()) return it->second;
    int id = varIds.size();
    varIds[K] = id;
    if (auto *VD = dyn_cast<VarDecl>(V)) {
      if (VD->hasGlobalStorage() && !VD->isStaticLocal()) {
        globals.emplace(id, nullptr);
        const VarDecl *Def = nullptr;
        const Expr *I = VD->getAnyInitializer(Def);
        json::Object o;
        o["name"] = VD->getQualifiedNameAsString();
        o["type"] = type(VD->getType());
        o["loc"] = loc(VD->getLocation());
        o["repo"] = inRepo(VD);
        if (I && !I->isValueDependent() && (inRepo(VD) || VD->getType().isConstQualified()))
          o["init"] = expr(I);
        globals.erase(id);
        globals.emplace(id, std::move(o));
      }
    }
    return id;
  }

  json::Array exprs(llvm::ArrayRef<const Expr *> A) {
    json::Array r;
    for (auto *e : A) r.push_back(expr(e));
    return r;
  }

  template <class It> json::Array args(It b, It e) {
    json::Array r;
    for (; b != e; ++b) r.push_back(expr(*b));
    return r;
  }

  static std::string apstr(const llvm::APSInt &v) { return llvm::toString(v, 10); }

  json::Value lambdaE(const LambdaExpr *L) {
    const CXXRecordDecl *R = L->getLambdaClass();
    json::Array caps;
    auto fit = R->field_begin();
    auto init = L->capture_init_begin();
    for (auto cap = L->capture_begin(); cap != L->capture_end(); ++cap, ++init, ++fit) {
      json::Array c;
      if (cap->capturesThis()) {
        c.push_back("this");
        c.push_back(-1);
        c.push_back(cap->getCaptureKind() == LCK_StarThis ? 0 : 1);
      } else if (cap->capturesVariable()) {
        c.push_back("var");
        c.push_back(var(cap->getCapturedVar()));
        c.push_back(cap->getCaptureKind() == LCK_ByRef ? 1 : 0);
      } else {
        c.push_back("vla");
        c.push_back(-1);
        c.push_back(0);
      }
      c.push_back(*init ? expr(*init) : json::Value(nullptr));
      caps.push_back(std::move(c));
    }
    int fid = -1;
    json::Array insts;
    CXXMethodDecl *M = L->getCallOperator();
    if (auto *FT = L->getDependentCallOperator() ? L->getDependentCallOperator() : nullptr) {
      for (auto *Sp : FT->specializations()) insts.push_back(fun(Sp));
    } else
      fid = fun(M);
    return json::Array{"lambda", cls(R), fid, std::move(caps), std::move(insts),
                       loc(L->getBeginLoc())};
  }

  bool constFold(const Expr *E, json::Value &res) {
    if (E->isValueDependent() || E->isTypeDependent()) return false;
    QualType T = E->getType();
    if (!(T->isIntegralOrEnumerationType())) return false;
    Expr::EvalResult R;
    if (!E->EvaluateAsRValue(R, C) || R.HasSideEffects || !R.Val.isInt()) return false;
    if (T->isBooleanType()) {
      res = json::Array{"bool", R.Val.getInt().getBoolValue() ? 1 : 0};
      return true;
    }
    if (auto *ET = T->getAs<EnumType>()) {
      std::string nm;
      for (auto *ec : ET->getDecl()->enumerators())
        if (llvm::APSInt::isSameValue(ec->getInitVal(), R.Val.getInt())) {
          nm = ec->getQualifiedNameAsString();
          break;
        }
      res = json::Array{"enum", nm, apstr(R.Val.getInt()), type(T)};
      return true;
    }
    res = json::Array{"int", apstr(R.Val.getInt()), type(T)};
    return true;
  }

  json::Value expr(const Expr *E0) {
    const Expr *E = E0;
    if (!E) return nullptr;
    // strip
    for (;;) {
      if (auto *P = dyn_cast<ParenExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<FullExpr>(E)) { // ConstantExpr, ExprWithCleanups
        E = P->getSubExpr();
        continue;
      }
      if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = P->getReplacement(); continue; }
      if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) { E = P->getExpr(); continue; }
      if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) { E = P->getExpr(); continue; }
      if (auto *P = dyn_cast<CXXRewrittenBinaryOperator>(E)) { E = P->getSemanticForm(); continue; }
      if (auto *P = dyn_cast<GenericSelectionExpr>(E)) { E = P->getResultExpr(); continue; }
      if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) {
        const Expr *s = P->getSubExpr()->IgnoreImplicit();
        if (auto *IL = dyn_cast<InitListExpr>(s)) {
          json::Array el;
          for (auto *x : IL->inits()) el.push_back(expr(x));
          return json::Array{"stdil", std::move(el)};
        }
        E = P->getSubExpr();
        continue;
      }
      break;
    }
    if (auto *M = dyn_cast<MaterializeTemporaryExpr>(E))
      return json::Array{"mat", expr(M->getSubExpr()), type(M->getType())};

    if (auto *L = dyn_cast<IntegerLiteral>(E))
      return json::Array{"int", llvm::toString(L->getValue(), 10, L->getType()->isSignedIntegerType()), type(L->getType())};
    if (auto *L = dyn_cast<CXXBoolLiteralExpr>(E)) return json::Array{"bool", L->getValue() ? 1 : 0};
    if (auto *L = dyn_cast<CharacterLiteral>(E))
      return json::Array{"int", std::to_string(L->getValue()), type(L->getType())};
    if (auto *L = dyn_cast<FloatingLiteral>(E)) {
      llvm::SmallString<32> s;
      L->getValue().toString(s, 0, 0);
      return json::Array{"flt", s.str().str()};
    }
    if (auto *L = dyn_cast<clang::StringLiteral>(E)) {
      std::string s = L->getCharByteWidth() == 1 ? L->getString().str() : std::string("?");
      return json::Array{"str", json::isUTF8(s) ? s : json::fixUTF8(s)};
    }
    if (isa<PredefinedExpr>(E)) return json::Array{"str", "__func__"};
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return json::Array{"null"};

    {
      // fold type traits, sizeof, constexpr refs
      json::Value r = nullptr;
      if (isa<UnaryExprOrTypeTraitExpr>(E) || isa<TypeTraitExpr>(E) || isa<CXXNoexceptExpr>(E) ||
          isa<SizeOfPackExpr>(E) || isa<OffsetOfExpr>(E)) {
        if (constFold(E, r)) {
          if (isa<UnaryExprOrTypeTraitExpr>(E)) {
            auto *U = cast<UnaryExprOrTypeTraitExpr>(E);
            if (U->getKind() == UETT_SizeOf)
              return json::Array{"sizeof", type(U->getTypeOfArgument()), std::move(r)};
          }
          return r;
        }
      }
      if (auto *D = dyn_cast<DeclRefExpr>(E)) {
        if (auto *VD = dyn_cast<VarDecl>(D->getDecl()))
          if ((VD->isConstexpr() || (VD->getType().isConstQualified() && VD->hasGlobalStorage())) &&
              VD->getType()->isIntegralOrEnumerationType()) {
            if (constFold(E, r)) return r;
          }
      }
      if (auto *M = dyn_cast<MemberExpr>(E)) {
        if (auto *VD = dyn_cast<VarDecl>(M->getMemberDecl()))
          if (VD->getType().isConstQualified() && constFold(E, r)) return r;
      }
    }

    if (auto *D = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *V = D->getDecl();
      if (auto *EC = dyn_cast<EnumConstantDecl>(V))
        return json::Array{"enum", EC->getQualifiedNameAsString(), apstr(EC->getInitVal()), type(E->getType())};
      if (auto *F = dyn_cast<FunctionDecl>(V)) return json::Array{"fn", fun(F)};
      if (auto *B = dyn_cast<BindingDecl>(V)) {
        if (auto *HV = B->getHoldingVar()) return json::Array{"var", var(HV)};
        if (B->getBinding()) return expr(B->getBinding());
      }
      return json::Array{"var", var(V)};
    }
    if (auto *M = dyn_cast<MemberExpr>(E)) {
      const ValueDecl *V = M->getMemberDecl();
      if (auto *F = dyn_cast<FunctionDecl>(V)) return json::Array{"fn", fun(F)};
      if (auto *VD = dyn_cast<VarDecl>(V)) return json::Array{"var", var(VD)};
      std::string nm = V->getNameAsString();
      if (nm.empty()) nm = "<anon>";
      return json::Array{"mem", expr(M->getBase()), nm, M->isArrow() ? 1 : 0};
    }
    if (isa<CXXThisExpr>(E)) return json::Array{"this"};

    if (auto *O = dyn_cast<CXXOperatorCallExpr>(E)) {
      const FunctionDecl *F = O->getDirectCallee();
      if (F) {
        if (auto *MD = dyn_cast<CXXMethodDecl>(F)) {
          if (!MD->isStatic()) {
            json::Array a;
            for (unsigned i = 1; i < O->getNumArgs(); ++i) a.push_back(expr(O->getArg(i)));
            return json::Array{"mcall", fun(F), expr(O->getArg(0)), 0, std::move(a),
                               MD->isVirtual() ? 1 : 0, loc(O->getExprLoc()), type(O->getType())};
          }
        }
        return json::Array{"call", fun(F), args(O->arg_begin(), O->arg_end()), loc(O->getExprLoc()),
                           type(O->getType())};
      }
    }
    if (auto *MC = dyn_cast<CXXMemberCallExpr>(E)) {
      const CXXMethodDecl *F = MC->getMethodDecl();
      if (F) {
        const Expr *callee = MC->getCallee()->IgnoreParenImpCasts();
        bool virt = F->isVirtual();
        bool arrow = false;
        if (auto *ME = dyn_cast<MemberExpr>(callee)) {
          arrow = ME->isArrow();
          if (ME->hasQualifier()) virt = false;
        }
        if (isa<CXXDestructorDecl>(F))
          return json::Array{"dtorcall", expr(MC->getImplicitObjectArgument())};
        return json::Array{"mcall", fun(F), expr(MC->getImplicitObjectArgument()), arrow ? 1 : 0,
                           args(MC->arg_begin(), MC->arg_end()), virt ? 1 : 0,
                           loc(MC->getExprLoc()), type(MC->getType())};
      }
    }
    if (auto *CE = dyn_cast<CallExpr>(E)) {
      if (const FunctionDecl *F = CE->getDirectCallee())
        return json::Array{"call", fun(F), args(CE->arg_begin(), CE->arg_end()), loc(CE->getBeginLoc()),
                           type(CE->getType())};
      return json::Array{"icall", expr(CE->getCallee()), args(CE->arg_begin(), CE->arg_end()),
                         loc(CE->getBeginLoc()), type(CE->getType())};
    }
    if (auto *CE = dyn_cast<CXXConstructExpr>(E)) {
      const CXXConstructorDecl *D = CE->getConstructor();
      const char *k = "plain";
      if (D->isCopyConstructor()) k = "copy";
      else if (D->isMoveConstructor()) k = "move";
      else if (D->isDefaultConstructor()) k = "default";
      return json::Array{"ctor", fun(D), type(E->getType()), args(CE->arg_begin(), CE->arg_end()), k,
                         loc(CE->getBeginLoc()), CE->requiresZeroInitialization() ? 1 : 0};
    }
    if (auto *CE = dyn_cast<CXXInheritedCtorInitExpr>(E))
      return json::Array{"unknown", "CXXInheritedCtorInitExpr", type(CE->getType())};
    if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E))
      return json::Array{"vinit", type(E->getType())};
    if (auto *IL = dyn_cast<InitListExpr>(E)) {
      if (IL->isSyntacticForm() && IL->getSemanticForm()) IL = IL->getSemanticForm();
      json::Array el;
      QualType T = IL->getType();
      for (auto *x : IL->inits()) el.push_back(x ? expr(x) : json::Value(nullptr));
      json::Value filler = nullptr;
      if (T->isArrayType() && IL->hasArrayFiller()) filler = expr(IL->getArrayFiller());
      json::Array fn;
      if (auto *RD = T->getAsCXXRecordDecl()) {
        for (auto &b : RD->bases()) { (void)b; fn.push_back("<base>"); }
        for (auto *f : RD->fields()) {
          if (f->isUnnamedBitfield()) continue;
          fn.push_back(f->getNameAsString());
        }
      }
      return json::Array{"ilist", type(T), std::move(el), std::move(fn), std::move(filler)};
    }
    if (auto *PL = dyn_cast<CXXParenListInitExpr>(E)) {
      json::Array el;
      for (auto *x : PL->getInitExprs()) el.push_back(expr(x));
      return json::Array{"unknown", "CXXParenListInit", type(E->getType())};
    }
    if (auto *B = dyn_cast<BinaryOperator>(E)) {
      if (B->isAssignmentOp()) {
        json::Value ct = nullptr;
        if (auto *CA = dyn_cast<CompoundAssignOperator>(B)) ct = type(CA->getComputationResultType());
        return json::Array{"asg", BinaryOperator::getOpcodeStr(B->getOpcode()).str(), expr(B->getLHS()),
                           expr(B->getRHS()), type(B->getLHS()->getType()), loc(B->getOperatorLoc()), std::move(ct)};
      }
      if (B->isPtrMemOp())
        return json::Array{"ptrmem", expr(B->getLHS()), expr(B->getRHS())};
      return json::Array{"bin", BinaryOperator::getOpcodeStr(B->getOpcode()).str(), expr(B->getLHS()),
                         expr(B->getRHS()), type(B->getType()), loc(B->getOperatorLoc()),
                         type(B->getLHS()->getType())};
    }
    if (auto *U = dyn_cast<UnaryOperator>(E)) {
      switch (U->getOpcode()) {
      case UO_AddrOf: return json::Array{"addr", expr(U->getSubExpr())};
      case UO_Deref: return json::Array{"deref", expr(U->getSubExpr())};
      case UO_PreInc: return json::Array{"inc", "pre", 1, expr(U->getSubExpr()), type(U->getType())};
      case UO_PreDec: return json::Array{"inc", "pre", -1, expr(U->getSubExpr()), type(U->getType())};
      case UO_PostInc: return json::Array{"inc", "post", 1, expr(U->getSubExpr()), type(U->getType())};
      case UO_PostDec: return json::Array{"inc", "post", -1, expr(U->getSubExpr()), type(U->getType())};
      case UO_Extension: return expr(U->getSubExpr());
      default:
        return json::Array{"un", UnaryOperator::getOpcodeStr(U->getOpcode()).str(), expr(U->getSubExpr()),
                           type(U->getType())};
      }
    }
    if (auto *CO = dyn_cast<ConditionalOperator>(E))
      return json::Array{"cond", expr(CO->getCond()), expr(CO->getTrueExpr()), expr(CO->getFalseExpr()),
                         type(CO->getType())};
    if (auto *A = dyn_cast<ArraySubscriptExpr>(E))
      return json::Array{"sub", expr(A->getBase()), expr(A->getIdx())};
    if (auto *L = dyn_cast<LambdaExpr>(E)) return lambdaE(L);
    if (auto *N = dyn_cast<CXXNewExpr>(E)) {
      json::Value ini = nullptr;
      if (N->getInitializer()) ini = expr(N->getInitializer());
      json::Value sz = nullptr;
      if (N->isArray() && N->getArraySize() && *N->getArraySize()) sz = expr(*N->getArraySize());
      return json::Array{"new", type(N->getAllocatedType()), std::move(ini), std::move(sz), loc(N->getBeginLoc())};
    }
    if (auto *D = dyn_cast<CXXDeleteExpr>(E)) return json::Array{"del", expr(D->getArgument())};
    if (auto *T = dyn_cast<CXXThrowExpr>(E)) {
      if (!T->getSubExpr()) return json::Array{"throw", nullptr, -1, loc(T->getThrowLoc())};
      return json::Array{"throw", expr(T->getSubExpr()),
                         cls(T->getSubExpr()->getType()->getAsCXXRecordDecl()), loc(T->getThrowLoc())};
    }
    if (auto *T = dyn_cast<CXXTypeidExpr>(E)) { (void)T; return json::Array{"str", "typeid"}; }
    if (auto *CA = dyn_cast<CastExpr>(E)) {
      const Expr *sub = CA->getSubExpr();
      switch (CA->getCastKind()) {
      case CK_LValueToRValue: {
        json::Value r = nullptr;
        const Expr *b = sub->IgnoreParens();
        if (isa<MemberExpr>(b) || isa<DeclRefExpr>(b)) {
          // integral constants already folded in expr(sub)
        }
        return json::Array{"rv", expr(sub)};
      }
      case CK_NoOp:
      case CK_FunctionToPointerDecay:
      case CK_UserDefinedConversion:
      case CK_ConstructorConversion:
      case CK_BuiltinFnToFnPtr:
      case CK_LValueBitCast:
      case CK_AtomicToNonAtomic:
      case CK_NonAtomicToAtomic:
        return expr(sub);
      case CK_BitCast:
      case CK_ReinterpretMemberPointer:
        return json::Array{"bitcast", type(CA->getType()), expr(sub)};
      case CK_ArrayToPointerDecay: return json::Array{"decay", expr(sub)};
      case CK_DerivedToBase:
      case CK_UncheckedDerivedToBase:
      case CK_BaseToDerived:
      case CK_Dynamic: {
        bool isptr = CA->getType()->isPointerType();
        QualType T = isptr ? CA->getType()->getPointeeType() : CA->getType();
        return json::Array{"upcast", cls(T->getAsCXXRecordDecl()), expr(sub), isptr ? 1 : 0,
                           CA->getCastKindName()};
      }
      case CK_ToVoid: return json::Array{"tovoid", expr(sub)};
      case CK_NullToPointer: return json::Array{"null"};
      default:
        return json::Array{"cast", CA->getCastKindName(), type(CA->getType()), expr(sub), type(sub->getType())};
      }
    }
    if (auto *P = dyn_cast<CXXPseudoDestructorExpr>(E)) { (void)P; return json::Array{"null"}; }
    if (auto *O = dyn_cast<OpaqueValueExpr>(E)) {
      if (O->getSourceExpr()) return expr(O->getSourceExpr());
    }
    if (auto *AI = dyn_cast<ArrayInitLoopExpr>(E)) {
      return json::Array{"arraycopy", expr(AI->getCommonExpr()), type(AI->getType())};
    }
    if (auto *SE = dyn_cast<StmtExpr>(E)) return json::Array{"stmtexpr", stmt(SE->getSubStmt())};
    if (auto *CL = dyn_cast<CompoundLiteralExpr>(E)) return expr(CL->getInitializer());
    unknownKinds.insert(E->getStmtClassName());
    json::Array ch;
    for (auto *c : E->children())
      if (c && isa<Expr>(c)) ch.push_back(expr(cast<Expr>(c)));
    return json::Array{"unknown", E->getStmtClassName(), type(E->getType()), std::move(ch)};
  }

  json::Value vardecl(const VarDecl *V) {
    json::Array bind;
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
      for (auto *B : DD->bindings())
        if (auto *HV = B->getHoldingVar())
          bind.push_back(json::Array{var(HV), HV->getNameAsString(), type(HV->getType()),
                                     HV->getInit() ? expr(HV->getInit()) : json::Value(nullptr)});
    }
    return json::Array{var(V), V->getNameAsString(), type(V->getType()),
                       V->getInit() ? expr(V->getInit()) : json::Value(nullptr),
                       V->isStaticLocal() ? 1 : 0, std::move(bind), loc(V->getLocation())};
  }

  void flattenSwitch(const Stmt *B, json::Array &r) {
    if (!B) return;
    if (auto *CS = dyn_cast<CompoundStmt>(B)) {
      for (auto *c : CS->body()) flattenSwitch1(c, r);
    } else
      flattenSwitch1(B, r);
  }
  void flattenSwitch1(const Stmt *c, json::Array &r) {
    if (auto *K = dyn_cast<CaseStmt>(c)) {
      json::Value v = nullptr;
      if (!constFold(K->getLHS(), v)) v = expr(K->getLHS());
      r.push_back(json::Array{"case", std::move(v)});
      flattenSwitch1(K->getSubStmt(), r);
    } else if (auto *D = dyn_cast<DefaultStmt>(c)) {
      r.push_back(json::Array{"default"});
      flattenSwitch1(D->getSubStmt(), r);
    } else
      r.push_back(stmt(c));
  }

  json::Value stmt(const Stmt *St) {
    if (!St) return nullptr;
    if (auto *X = dyn_cast<CompoundStmt>(St)) {
      json::Array a;
      for (auto *c : X->body()) a.push_back(stmt(c));
      return json::Array{"block", std::move(a)};
    }
    if (auto *X = dyn_cast<DeclStmt>(St)) {
      json::Array a;
      for (auto *d : X->decls())
        if (auto *V = dyn_cast<VarDecl>(d)) a.push_back(vardecl(V));
      return json::Array{"decl", std::move(a), loc(X->getBeginLoc())};
    }
    if (auto *X = dyn_cast<IfStmt>(St)) {
      if (X->isConstexpr()) {
        if (auto nd = X->getNondiscardedCase(C)) {
          json::Array a;
          if (X->getInit()) a.push_back(stmt(X->getInit()));
          if (*nd) a.push_back(stmt(*nd));
          return json::Array{"block", std::move(a)};
        }
      }
      json::Value cv = nullptr;
      if (X->getConditionVariable()) cv = vardecl(X->getConditionVariable());
      return json::Array{"if", stmt(X->getInit()), std::move(cv), expr(X->getCond()), stmt(X->getThen()),
                         stmt(X->getElse()), loc(X->getBeginLoc())};
    }
    if (auto *X = dyn_cast<WhileStmt>(St)) {
      json::Value cv = nullptr;
      if (X->getConditionVariable()) cv = vardecl(X->getConditionVariable());
      return json::Array{"while", std::move(cv), expr(X->getCond()), stmt(X->getBody()), loc(X->getBeginLoc())};
    }
    if (auto *X = dyn_cast<DoStmt>(St))
      return json::Array{"do", stmt(X->getBody()), expr(X->getCond()), loc(X->getBeginLoc())};
    if (auto *X = dyn_cast<ForStmt>(St))
      return json::Array{"for", stmt(X->getInit()), X->getCond() ? expr(X->getCond()) : json::Value(nullptr),
                         X->getInc() ? expr(X->getInc()) : json::Value(nullptr), stmt(X->getBody()),
                         loc(X->getBeginLoc())};
    if (auto *X = dyn_cast<CXXForRangeStmt>(St)) {
      return json::Array{"foreach", stmt(X->getInit()), stmt(X->getRangeStmt()), stmt(X->getBeginStmt()),
                         stmt(X->getEndStmt()), vardecl(X->getLoopVariable()), stmt(X->getBody()),
                         loc(X->getBeginLoc()), X->getInc() ? expr(X->getInc()) : json::Value(nullptr), X->getCond() ? expr(X->getCond()) : json::Value(nullptr)};
    }
    if (auto *X = dyn_cast<SwitchStmt>(St)) {
      json::Array a;
      flattenSwitch(X->getBody(), a);
      return json::Array{"switch", stmt(X->getInit()), expr(X->getCond()), std::move(a), loc(X->getBeginLoc())};
    }
    if (isa<BreakStmt>(St)) return json::Array{"break"};
    if (isa<ContinueStmt>(St)) return json::Array{"continue"};
    if (auto *X = dyn_cast<ReturnStmt>(St))
      return json::Array{"ret", X->getRetValue() ? expr(X->getRetValue()) : json::Value(nullptr),
                         loc(X->getBeginLoc())};
    if (isa<NullStmt>(St)) return json::Array{"null"};
    if (auto *X = dyn_cast<AttributedStmt>(St)) return stmt(X->getSubStmt());
    if (auto *X = dyn_cast<LabelStmt>(St)) return stmt(X->getSubStmt());
    if (auto *X = dyn_cast<CXXTryStmt>(St)) {
      json::Array hs;
      for (unsigned i = 0; i < X->getNumHandlers(); ++i) {
        auto *H = X->getHandler(i);
        json::Array h;
        QualType T = H->getCaughtType();
        if (T.isNull()) h.push_back(nullptr);
        else h.push_back(cls(T.getNonReferenceType()->getAsCXXRecordDecl()));
        h.push_back(H->getExceptionDecl() ? vardecl(H->getExceptionDecl()) : json::Value(nullptr));
        h.push_back(stmt(H->getHandlerBlock()));
        hs.push_back(std::move(h));
      }
      return json::Array{"try", stmt(X->getTryBlock()), std::move(hs), loc(X->getBeginLoc())};
    }
    if (auto *E = dyn_cast<Expr>(St)) return json::Array{"expr", expr(E), loc(E->getBeginLoc())};
    unknownKinds.insert(St->getStmtClassName());
    return json::Array{"unknownstmt", St->getStmtClassName(), loc(St->getBeginLoc())};
  }

  json::Value targJson(const TemplateArgument &A) {
    switch (A.getKind()) {
    case TemplateArgument::Type: return json::Array{"t", type(A.getAsType())};
    case TemplateArgument::Integral: {
      std::string nm;
      if (auto *ET = A.getIntegralType()->getAs<EnumType>())
        for (auto *ec : ET->getDecl()->enumerators())
          if (llvm::APSInt::isSameValue(ec->getInitVal(), A.getAsIntegral())) nm = ec->getNameAsString();
      return json::Array{"i", apstr(A.getAsIntegral()), nm};
    }
    case TemplateArgument::Pack: {
      json::Array p;
      for (auto &x : A.pack_elements()) p.push_back(targJson(x));
      return json::Array{"p", std::move(p)};
    }
    default: return json::Array{"o"};
    }
  }

  json::Value dumpFun(const FunctionDecl *F, int id) {
    json::Object o;
    o["name"] = F->getQualifiedNameAsString();
    o["short"] = F->getNameAsString();
    bool repo = inRepo(F);
    o["repo"] = repo;
    o["loc"] = loc(F->getLocation());
    json::Array ps;
    for (auto *p : F->parameters())
      ps.push_back(json::Array{var(p), p->getNameAsString(), type(p->getType())});
    o["params"] = std::move(ps);
    o["ret"] = type(F->getReturnType());
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      json::Array ta;
      for (auto &a : TA->asArray()) ta.push_back(targJson(a));
      o["targs"] = std::move(ta);
    }
    if (auto *MD = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = cls(MD->getParent());
      o["static"] = MD->isStatic();
      o["virtual"] = MD->isVirtual();
      o["const"] = MD->isConst();
      if (MD->isCopyAssignmentOperator()) o["special"] = "copyasg";
      else if (MD->isMoveAssignmentOperator()) o["special"] = "moveasg";
      if (MD->getParent()->isLambda() && MD->isLambdaStaticInvoker()) o["special"] = "invoker";
    }
    if (isa<CXXConversionDecl>(F)) o["conv"] = true;
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      o["ctor"] = CD->isCopyConstructor() ? "copy" : CD->isMoveConstructor() ? "move"
                                         : CD->isDefaultConstructor() ? "default" : "plain";
    }
    o["defaulted"] = F->isDefaulted();
    o["implicit"] = F->isImplicit();
    const FunctionDecl *Def = nullptr;
    bool hasBody = F->hasBody(Def);
    if (hasBody && Def) F = Def;
    if (repo && !F->isDependentContext() && hasBody && F->getBody()) {
      // defaulted special members are handled structurally
      if (!(F->isDefaulted() && (o["special"] != nullptr || isa<CXXConstructorDecl>(F)))) {
        if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
          json::Array in;
          for (auto *I : CD->inits()) {
            if (I->isAnyMemberInitializer())
              in.push_back(json::Array{"field", I->getAnyMember()->getNameAsString(), expr(I->getInit()),
                                       I->isWritten() ? 1 : 0});
            else if (I->isBaseInitializer())
              in.push_back(json::Array{"base", cls(I->getBaseClass()->getAsCXXRecordDecl()), expr(I->getInit())});
            else if (I->isDelegatingInitializer())
              in.push_back(json::Array{"deleg", -1, expr(I->getInit())});
          }
          o["inits"] = std::move(in);
        }
        o["body"] = stmt(F->getBody());
      }
    }
    o["hasbody"] = hasBody;
    (void)id;
    return std::move(o);
  }

  json::Value dumpCls(const CXXRecordDecl *D) {
    json::Object o;
    o["name"] = D->getQualifiedNameAsString();
    o["repo"] = inRepo(D);
    o["lambda"] = D->isLambda();
    o["loc"] = loc(D->getLocation());
    if (auto *CT = dyn_cast<ClassTemplateSpecializationDecl>(D)) {
      json::Array ta;
      for (auto &a : CT->getTemplateArgs().asArray()) ta.push_back(targJson(a));
      o["targs"] = std::move(ta);
    }
    if (D->hasDefinition()) {
      bool repo = inRepo(D);
      json::Array fs;
      for (auto *f : D->fields()) {
        json::Value di = nullptr;
        if (repo && f->hasInClassInitializer() && f->getInClassInitializer())
          di = expr(f->getInClassInitializer());
        fs.push_back(json::Array{f->getNameAsString(), type(f->getType()), std::move(di)});
      }
      o["fields"] = std::move(fs);
      json::Array bs;
      for (auto &b : D->bases()) bs.push_back(cls(b.getType()->getAsCXXRecordDecl()));
      o["bases"] = std::move(bs);
      o["aggregate"] = D->isAggregate();
      o["abstract"] = D->isAbstract();
      if (repo) {
        if (auto *DD = D->getDestructor())
          if (DD->isUserProvided() && !DD->isDependentContext()) o["dtor"] = fun(DD);
        json::Array ms;
        for (auto *m : D->methods())
          if (m->isVirtual()) ms.push_back(json::Array{m->getNameAsString(), fun(m)});
        o["virts"] = std::move(ms);
        if (!D->isDependentContext() ) {
          // offsets for layout
          if (D->isCompleteDefinition() && !D->isInvalidDecl()) {
          }
        }
      }
      // member begin()/end() of repo classes are reachable through range-for calls
    }
    return std::move(o);
  }

  json::Value dumpType(QualType T) {
    json::Object o;
    o["s"] = T.getAsString(PP);
    o["const"] = T.isConstQualified();
    const Type *t = T.getTypePtr();
    auto sz = [&](QualType q) {
      if (!q->isIncompleteType() && !q->isDependentType() && !q->isFunctionType() && !q->isUndeducedType() && !q->isSizelessType())
        o["size"] = (int64_t)C.getTypeSizeInChars(q).getQuantity();
    };
    if (t->isReferenceType()) {
      o["k"] = t->isRValueReferenceType() ? "rref" : "ref";
      o["p"] = type(t->getPointeeType());
    } else if (t->isPointerType()) {
      o["k"] = "ptr";
      o["p"] = type(t->getPointeeType());
    } else if (t->isMemberPointerType()) {
      o["k"] = "mptr";
    } else if (t->isBooleanType()) o["k"] = "bool";
    else if (t->isEnumeralType()) {
      o["k"] = "enum";
      o["name"] = t->getAs<EnumType>()->getDecl()->getQualifiedNameAsString();
      json::Array es;
      for (auto *ec : t->getAs<EnumType>()->getDecl()->enumerators())
        es.push_back(json::Array{ec->getNameAsString(), apstr(ec->getInitVal())});
      o["enumerators"] = std::move(es);
      sz(T);
    } else if (t->isIntegralType(C)) {
      o["k"] = "int";
      o["signed"] = t->isSignedIntegerType();
      sz(T);
    } else if (t->isRealFloatingType()) { o["k"] = "flt"; sz(T); }
    else if (t->isAnyComplexType()) { o["k"] = "cpx"; sz(T); }
    else if (t->isVoidType()) o["k"] = "void";
    else if (auto *RD = t->getAsCXXRecordDecl()) {
      o["k"] = "rec";
      o["cls"] = cls(RD);
      if (RD->getDefinition()) sz(T);
    } else if (t->isArrayType()) {
      o["k"] = "arr";
      o["p"] = type(C.getAsArrayType(T)->getElementType());
      if (auto *CA = C.getAsConstantArrayType(T)) o["n"] = (int64_t)CA->getSize().getZExtValue();
    } else if (t->isFunctionType()) o["k"] = "fun";
    else o["k"] = "other";
    return std::move(o);
  }

  void instantiateIfNeeded(const FunctionDecl *F) {
    // special members / constexpr functions used only in unevaluated code may lack a definition
    if (!F->hasBody() && F->isTemplateInstantiation() && F->isUsed(false)) {}
  }

  void run() {
    // roots: every non-dependent function definition in the main file
    struct V : RecursiveASTVisitor<V> {
      Exporter &X;
      json::Array rootIds;
      V(Exporter &x) : X(x) {}
      bool shouldVisitTemplateInstantiations() const { return true; }
      bool shouldVisitImplicitCode() const { return false; }
      bool VisitFunctionDecl(FunctionDecl *F) {
        if (F->isDependentContext() || !F->doesThisDeclarationHaveABody()) return true;
        if (F->isImplicit()) return true;
        if (auto *M = dyn_cast<CXXMethodDecl>(F))
          if (M->getParent()->isLambda()) return true;
        std::string f = X.fileOf(F->getLocation());
        if (X.inRepo(F)) rootIds.push_back(X.fun(F));
        return true;
      }
    } v(*this);
    v.TraverseDecl(C.getTranslationUnitDecl());

    json::Array funs;
    json::Array clss, types;
    size_t fi = 0, ci = 0, ti = 0;
    while (fi < funList.size() || ci < clsList.size() || ti < typeList.size()) {
      while (fi < funList.size()) { const FunctionDecl *F = funList[fi]; funs.push_back(dumpFun(F, fi)); ++fi; }
      while (ci < clsList.size()) { const CXXRecordDecl *D = clsList[ci]; clss.push_back(dumpCls(D)); ++ci; }
      while (ti < typeList.size()) { QualType T = typeList[ti]; types.push_back(dumpType(T)); ++ti; }
    }
    json::Object top;
    json::Array gl;
    for (auto &g : globals) gl.push_back(json::Array{g.first, g.second});
    json::Array lc;
    for (auto &l : locList) lc.push_back(l);
    json::Array uk;
    for (auto &l : unknownKinds) uk.push_back(l);
    top["roots"] = std::move(v.rootIds);
    top["funs"] = std::move(funs);
    top["classes"] = std::move(clss);
    top["types"] = std::move(types);
    top["globals"] = std::move(gl);
    top["locs"] = std::move(lc);
    top["unknown"] = std::move(uk);
    std::error_code ec;
    llvm::raw_fd_ostream os(out, ec);
    os << json::Value(std::move(top));
  }
};

class Consumer : public ASTConsumer {
public:
  CompilerInstance &CI;
  std::vector<std::string> roots;
  std::string out;
  Consumer(CompilerInstance &ci, std::vector<std::string> r, std::string o) : CI(ci), roots(r), out(o) {}
  void HandleTranslationUnit(ASTContext &Ctx) override {
    if (CI.getDiagnostics().hasErrorOccurred()) return;
    Exporter X(CI, roots, out);
    X.run();
  }
};

class Action : public PluginASTAction {
  std::vector<std::string> roots;
  std::string out = "out.json";

protected:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef) override {
    return std::make_unique<Consumer>(CI, roots, out);
  }
  bool ParseArgs(const CompilerInstance &CI, const std::vector<std::string> &a) override {
    for (auto &s : a) {
      if (s.rfind("root=", 0) == 0) roots.push_back(s.substr(5));
      if (s.rfind("out=", 0) == 0) out = s.substr(4);
    }
    return true;
  }
  PluginASTAction::ActionType getActionType() override { return ReplaceAction; }
};
} // namespace

static FrontendPluginRegistry::Add<Action> X("nlcgx", "export resolved bodies");
