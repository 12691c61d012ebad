// cxxdump: mechanical extraction of the verified code.
//
// Reads one translation unit (the contract file, which #includes the real headers / .cpp files of /repo), lets clang
// parse, type-check and instantiate it, and prints every function reachable from the functions whose name starts with
// "vp_lemma_" as a typed AST in JSON.  Nothing is rewritten: templates are printed as instantiated, implicit casts,
// default arguments, default member initialisers, constructor initialisers and resolved overloads are explicit.
//
// What the dump drops: comments, source formatting, declarations that no lemma reaches, `static_assert`, exception
// specifications, and cv-qualifiers on types; integer constant expressions are printed as their value.
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Sema/Sema.h"
#include "clang/Sema/SemaConsumer.h"
#include "clang/Sema/Template.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <map>
#include <set>
#include <string>

using namespace clang;
namespace J = llvm::json;

static std::string OutPath;

struct Dumper {
  ASTContext &C;
  SourceManager &SM;
  Sema &S;
  PrintingPolicy PP;
  J::Array types;
  std::map<const void *, int> typeIds;
  J::Object records, functions, globals;
  std::map<const Decl *, std::string> fids;
  std::map<const Decl *, int> declIds;
  std::deque<const FunctionDecl *> work;
  std::set<const FunctionDecl *> queued;
  std::set<std::string> recDone;
  std::set<const Decl *> globDone;
  std::string err;

  Dumper(ASTContext &C, Sema &S) : C(C), SM(C.getSourceManager()), S(S), PP(C.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true;
    PP.SuppressUnwrittenScope = false;
    PP.TerseOutput = true;
    PP.PrintCanonicalTypes = true;
    PP.FullyQualifiedName = true;
  }

  int declId(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = declIds.find(D);
    if (it != declIds.end()) return it->second;
    int n = (int)declIds.size() + 1;
    declIds[D] = n;
    return n;
  }

  std::string typeName(QualType T) {
    return T.getCanonicalType().getUnqualifiedType().getAsString(PP);
  }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    PresumedLoc P = SM.getPresumedLoc(L);
    return P.isValid() ? std::string(P.getFilename()) : "";
  }
  unsigned lineOf(SourceLocation L) {
    PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L));
    return P.isValid() ? P.getLine() : 0;
  }
  // Is this declared in the C++ standard library (modelled by the engine's trusted contracts)?
  bool isStd(const Decl *D) {
    if (SM.isInSystemHeader(D->getLocation())) return true;
    return false;
  }
  // libstdc++ algorithm headers whose bodies we do execute (they are ordinary loops)
  bool stdBodyWanted(const FunctionDecl *F) {
    std::string f = fileOf(F->getLocation());
    auto has = [&](const char *s) { return f.find(s) != std::string::npos; };
    return has("bits/stl_algo.h") || has("bits/stl_numeric.h") || has("bits/stl_algobase.h") || has("bits/predefined_ops.h") || has("bits/stl_function.h") || has("bits/stl_iterator_base_funcs.h")
      || has("bits/invoke.h");
  }

  int type(QualType QT) {
    QT = QT.getCanonicalType().getUnqualifiedType();
    const Type *T = QT.getTypePtr();
    auto it = typeIds.find(T);
    if (it != typeIds.end()) return it->second;
    int id = (int)types.size();
    typeIds[T] = id;
    types.push_back(nullptr);
    J::Object o;
    if (auto *B = dyn_cast<BuiltinType>(T)) {
      if (B->isBooleanType()) o["k"] = "bool";
      else if (B->isInteger()) {
        o["k"] = "int";
        o["w"] = (int64_t)C.getTypeSize(QT);
        o["s"] = B->isSignedInteger();
      } else if (B->isFloatingPoint()) {
        o["k"] = "float";
        o["w"] = (int64_t)C.getTypeSize(QT);
      } else if (B->isVoidType()) o["k"] = "void";
      else if (B->isNullPtrType()) o["k"] = "nullptr";
      else o["k"] = "other";
      o["n"] = typeName(QT);
    } else if (auto *E = dyn_cast<EnumType>(T)) {
      o["k"] = "enum";
      o["n"] = typeName(QT);
      QualType U = E->getDecl()->getIntegerType();
      o["w"] = (int64_t)C.getTypeSize(U);
      o["s"] = U->isSignedIntegerType();
      o["u"] = type(U);
      J::Array vals;
      for (auto *ec : E->getDecl()->enumerators()) {
        J::Array p;
        p.push_back(ec->getNameAsString());
        p.push_back((int64_t)ec->getInitVal().getExtValue());
        vals.push_back(std::move(p));
      }
      o["vals"] = std::move(vals);
    } else if (auto *R = dyn_cast<RecordType>(T)) {
      o["k"] = "rec";
      o["n"] = typeName(QT);
      o["id"] = record(cast<CXXRecordDecl>(R->getDecl()));
    } else if (auto *R = dyn_cast<ReferenceType>(T)) {
      o["k"] = R->isRValueReferenceType() ? "rref" : "ref";
      o["t"] = type(R->getPointeeType());
    } else if (auto *P = dyn_cast<PointerType>(T)) {
      o["k"] = "ptr";
      o["t"] = type(P->getPointeeType());
    } else if (auto *A = dyn_cast<ConstantArrayType>(T)) {
      o["k"] = "arr";
      o["t"] = type(A->getElementType());
      o["len"] = (int64_t)A->getSize().getZExtValue();
    } else if (auto *F = dyn_cast<FunctionProtoType>(T)) {
      o["k"] = "fn";
      o["n"] = typeName(QT);
      o["r"] = type(F->getReturnType());
    } else if (auto *M = dyn_cast<MemberPointerType>(T)) {
      o["k"] = "memptr";
      o["n"] = typeName(QT);
      (void)M;
    } else {
      o["k"] = "other";
      o["n"] = QT.getAsString(PP);
    }
    types[id] = std::move(o);
    return id;
  }

  std::string recId(const CXXRecordDecl *R) {
    R = R->getCanonicalDecl();
    auto it = fids.find(R);
    if (it != fids.end()) return it->second;
    std::string n;
    if (R->isLambda()) n = "lambda#" + std::to_string(declId(R)) + "@" + std::to_string(lineOf(R->getLocation()));
    else n = typeName(C.getRecordType(R));
    fids[R] = n;
    return n;
  }

  J::Value targ(const TemplateArgument &A) {
    switch (A.getKind()) {
    case TemplateArgument::Type: return J::Object{{"t", type(A.getAsType())}};
    case TemplateArgument::Integral: {
      llvm::SmallString<32> s;
      A.getAsIntegral().toString(s);
      return J::Object{{"i", std::string(s.str())}};
    }
    case TemplateArgument::Pack: {
      J::Array a;
      for (auto &x : A.pack_elements()) a.push_back(targ(x));
      return J::Object{{"p", std::move(a)}};
    }
    default: return J::Object{{"o", true}};
    }
  }

  std::string record(const CXXRecordDecl *R) {
    std::string id = recId(R);
    if (recDone.count(id)) return id;
    recDone.insert(id);
    J::Object o;
    bool st = isStd(R);
    o["std"] = st;
    o["n"] = id;
    o["qn"] = R->getQualifiedNameAsString();
    if (auto *CT = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
      J::Array a;
      for (auto &x : CT->getTemplateArgs().asArray()) a.push_back(targ(x));
      o["targs"] = std::move(a);
    }
    if (!R->hasDefinition()) {
      // try to instantiate
      if (auto *CT = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
        if (!CT->isDependentType())
          S.InstantiateClassTemplateSpecialization(SourceLocation(), const_cast<ClassTemplateSpecializationDecl *>(CT), TSK_ImplicitInstantiation, false);
      }
    }
    if (R->hasDefinition()) {
      R = R->getDefinition();
      o["union"] = R->isUnion();
      o["poly"] = R->isPolymorphic();
      o["agg"] = R->isAggregate();
      o["empty"] = R->isEmpty();
      J::Array fs, bs;
      if (!st || R->isLambda() || o["qn"] == J::Value("std::pair")) {
        for (auto *F : R->fields()) {
          J::Object f;
          f["n"] = fieldName(F);
          f["t"] = type(F->getType());
          if (F->hasInClassInitializer() && F->getInClassInitializer()) { fieldInit[F->getCanonicalDecl()] = 1; f["init"] = expr(F->getInClassInitializer()); }
          fs.push_back(std::move(f));
        }
      }
      for (auto &B : R->bases()) {
        J::Object b;
        b["t"] = type(B.getType());
        b["virt"] = B.isVirtual();
        bs.push_back(std::move(b));
      }
      o["fields"] = std::move(fs);
      o["bases"] = std::move(bs);
      if (R->isLambda()) {
        o["lambda"] = true;
        if (auto *op = R->getLambdaCallOperator()) {
          // the generic case is resolved at call sites
          if (!R->isGenericLambda()) o["op"] = func(op);
          else if (auto *FT = op->getDescribedFunctionTemplate())
            for (auto *sp : FT->specializations()) if (!sp->isDependentContext()) func(sp);
        }
      }
      if (!st) {
        if (auto *D = R->getDestructor()) if (!D->isTrivial()) o["dtor"] = func(D);
        J::Array vm;
        for (auto *M : R->methods())
          if (M->isVirtual() && !isa<CXXDestructorDecl>(M)) {
            J::Object m;
            m["f"] = func(M);
            J::Array ov;
            for (auto *b : M->overridden_methods()) ov.push_back(func(b));
            m["ov"] = std::move(ov);
            m["pure"] = M->isPureVirtual();
            vm.push_back(std::move(m));
          }
        o["vm"] = std::move(vm);
      }
    }
    records[id] = std::move(o);
    return id;
  }
  std::map<const Decl *, int> fieldInit;

  std::string fieldName(const FieldDecl *F) {
    if (F->getDeclName().isEmpty()) return "#" + std::to_string(F->getFieldIndex());
    return F->getNameAsString();
  }

  std::string func(const FunctionDecl *F) {
    F = F->getCanonicalDecl();
    auto it = fids.find(F);
    if (it == fids.end()) {
      std::string n = "f" + std::to_string(fids.size()) + ":" + F->getQualifiedNameAsString();
      fids[F] = n;
      it = fids.find(F);
    }
    if (!queued.count(F)) {
      queued.insert(F);
      work.push_back(F);
    }
    return it->second;
  }

  void emitFunc(const FunctionDecl *F0) {
    const FunctionDecl *F = F0;
    std::string id = fids[F0->getCanonicalDecl()];
    J::Object o;
    o["qn"] = F->getQualifiedNameAsString();
    o["n"] = F->getNameAsString();
    bool st = isStd(F);
    o["std"] = st;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["rec"] = record(M->getParent());
      o["static"] = M->isStatic();
      o["const"] = M->isConst();
      o["virtual"] = M->isVirtual();
      if (isa<CXXConstructorDecl>(M)) o["mk"] = "ctor";
      else if (isa<CXXDestructorDecl>(M)) o["mk"] = "dtor";
      else if (isa<CXXConversionDecl>(M)) o["mk"] = "conv";
      else o["mk"] = "method";
      if (auto *CD = dyn_cast<CXXConstructorDecl>(M)) {
        if (CD->isCopyConstructor()) o["special"] = "copy";
        else if (CD->isMoveConstructor()) o["special"] = "move";
        else if (CD->isDefaultConstructor()) o["special"] = "default";
      } else if (M->isCopyAssignmentOperator()) o["special"] = "copyassign";
      else if (M->isMoveAssignmentOperator()) o["special"] = "moveassign";
      if (M->isDefaulted()) o["defaulted"] = true;
      if (M->isUserProvided()) o["userprov"] = true;
    }
    o["ret"] = type(F->getReturnType());
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      J::Array a;
      for (auto &x : TA->asArray()) a.push_back(targ(x));
      o["targs"] = std::move(a);
    }
    bool want = !st || stdBodyWanted(F);
    if (want && !F->isDefined()) {
      // force instantiation of the body when it is a template specialisation
      FunctionDecl *MF = const_cast<FunctionDecl *>(F);
      if (auto *PT = F->getTemplateInstantiationPattern()) {
        if (PT->isDefined()) S.InstantiateFunctionDefinition(SourceLocation(), MF, true, true, true);
      }
      else if (auto *CD = dyn_cast<CXXConstructorDecl>(MF)) {
        if (CD->isDefaulted() && !CD->isDeleted()) {
          if (CD->isDefaultConstructor()) S.DefineImplicitDefaultConstructor(SourceLocation(), CD);
          else if (CD->isCopyConstructor()) S.DefineImplicitCopyConstructor(SourceLocation(), CD);
          else if (CD->isMoveConstructor()) S.DefineImplicitMoveConstructor(SourceLocation(), CD);
        }
      } else if (auto *MD = dyn_cast<CXXMethodDecl>(MF)) {
        if (MD->isDefaulted() && !MD->isDeleted()) {
          if (MD->isCopyAssignmentOperator()) S.DefineImplicitCopyAssignment(SourceLocation(), MD);
          else if (MD->isMoveAssignmentOperator()) S.DefineImplicitMoveAssignment(SourceLocation(), MD);
        }
      }
    }
    const FunctionDecl *Def = nullptr;
    if (want) F->isDefined(Def);
    if (Def) F = Def;
    J::Array ps;
    for (auto *P : F->parameters()) {
      J::Object p;
      p["id"] = declId(P);
      p["n"] = P->getNameAsString();
      p["t"] = type(P->getType());
      ps.push_back(std::move(p));
    }
    o["params"] = std::move(ps);
    o["variadic"] = F->isVariadic();
    o["file"] = fileOf(F->getLocation());
    o["line"] = lineOf(F->getLocation());
    if (want && Def) {
      if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
        J::Array is;
        for (auto *I : CD->inits()) {
          J::Object i;
          if (I->isDelegatingInitializer()) i["deleg"] = true;
          else if (I->isBaseInitializer()) i["base"] = type(QualType(I->getBaseClass(), 0));
          else if (I->isAnyMemberInitializer()) {
            i["field"] = fieldName(I->getAnyMember());
          }
          i["e"] = expr(I->getInit());
          is.push_back(std::move(i));
        }
        o["inits"] = std::move(is);
      }
      if (F->getBody()) {
        o["body"] = stmt(F->getBody());
        o["end"] = lineOf(F->getBody()->getEndLoc());
      }
    }
    functions[id] = std::move(o);
  }

  J::Value apval(const APValue &V, QualType T) {
    if (V.isInt()) {
      llvm::SmallString<32> s;
      V.getInt().toString(s);
      return std::string(s.str());
    }
    if (V.isFloat()) {
      // exact: hexadecimal rendering is parsed by python float.fromhex
      llvm::SmallString<64> s;
      char buf[128];
      llvm::APFloat f = V.getFloat();
      bool lose;
      if (f.isInfinity()) return std::string(f.isNegative() ? "-inf" : "inf");
      if (f.isNaN()) return std::string("nan");
      f.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &lose);
      f.convertToHexString(buf, 0, false, llvm::APFloat::rmNearestTiesToEven);
      return std::string(buf);
    }
    return nullptr;
  }

  bool hasLambdaOrThrow(const Stmt *E) {
    if (!E) return false;
    if (isa<LambdaExpr>(E) || isa<CXXThrowExpr>(E) ) return true;
    for (auto *c : E->children()) if (hasLambdaOrThrow(c)) return true;
    return false;
  }

  J::Value tryConst(const Expr *E, bool &ok) {
    ok = false;
    QualType T = E->getType();
    if (E->isValueDependent() || E->isTypeDependent() || E->isGLValue()) return nullptr;
    if (!(T->isIntegralOrEnumerationType() || T->isRealFloatingType())) return nullptr;
    if (hasLambdaOrThrow(E)) return nullptr;
    Expr::EvalResult R;
    if (E->EvaluateAsRValue(R, C) && !R.HasSideEffects && !R.HasUndefinedBehavior && (R.Val.isInt() || R.Val.isFloat())) {
      J::Value v = apval(R.Val, T);
      if (v.kind() != J::Value::Null) {
        ok = true;
        return J::Object{{"k", "const"}, {"t", type(T)}, {"v", v}};
      }
    }
    return nullptr;
  }

  J::Value exprs(ArrayRef<const Expr *> es) {
    J::Array a;
    for (auto *e : es) a.push_back(expr(e));
    return a;
  }
  template <class It> J::Array exprRange(It b, It e) {
    J::Array a;
    for (; b != e; ++b) a.push_back(expr(*b));
    return a;
  }

  J::Value varDecl(const VarDecl *V) {
    J::Object v;
    v["k"] = "var";
    v["id"] = declId(V);
    v["n"] = V->getNameAsString();
    v["t"] = type(V->getType());
    if (V->isStaticLocal() || V->hasGlobalStorage()) v["static"] = true;
    if (V->getType().isConstQualified()) v["const"] = true;
    if (V->getInit()) v["init"] = expr(V->getInit());
    v["line"] = lineOf(V->getLocation());
    if (auto *D = dyn_cast<DecompositionDecl>(V)) {
      J::Array bs;
      for (auto *B : D->bindings()) {
        J::Object b;
        b["id"] = declId(B);
        b["n"] = B->getNameAsString();
        if (auto *HV = B->getHoldingVar()) {
          b["hold"] = varDecl(HV);
        } else if (B->getBinding()) b["e"] = expr(B->getBinding());
        bs.push_back(std::move(b));
      }
      v["bindings"] = std::move(bs);
    }
    return v;
  }

  void global(const VarDecl *V) {
    const VarDecl *CV = V->getCanonicalDecl();
    if (globDone.count(CV)) return;
    globDone.insert(CV);
    const VarDecl *D = nullptr;
    const Expr *I = V->getAnyInitializer(D);
    if (!I && V->getTemplateInstantiationPattern()) {
      S.InstantiateVariableDefinition(SourceLocation(), const_cast<VarDecl *>(V), true, true, true);
      I = V->getAnyInitializer(D);
    }
    J::Object g;
    g["n"] = V->getQualifiedNameAsString();
    g["t"] = type(V->getType());
    g["const"] = V->getType().isConstQualified() || V->isConstexpr();
    g["std"] = isStd(V);
    if (I && !isStd(V)) g["init"] = expr(I);
    globals[std::to_string(declId(V))] = std::move(g);
  }

  J::Value expr(const Expr *E0) {
    if (!E0) return nullptr;
    const Expr *E = E0;
    // peel
    while (true) {
      if (auto *P = dyn_cast<ParenExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<ExprWithCleanups>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = P->getReplacement(); continue; }
      if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) { E = P->getExpr(); continue; }
      if (auto *P = dyn_cast<GenericSelectionExpr>(E)) { E = P->getResultExpr(); continue; }
      if (auto *P = dyn_cast<ChooseExpr>(E)) { E = P->getChosenSubExpr(); continue; }
      if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) { break; }
      break;
    }
    bool ok;
    J::Value cv = tryConst(E, ok);
    if (ok) return cv;
    if (auto *P = dyn_cast<ConstantExpr>(E)) return expr(P->getSubExpr());
    J::Object o;
    o["t"] = type(E->getType());
    if (E->isGLValue()) o["lv"] = true;
    o["line"] = lineOf(E->getExprLoc());
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = X->getDecl();
      o["k"] = "ref";
      o["n"] = D->getNameAsString();
      if (auto *F = dyn_cast<FunctionDecl>(D)) { o["fn"] = func(F); }
      else if (auto *V = dyn_cast<VarDecl>(D)) {
        o["id"] = declId(V);
        if (V->hasGlobalStorage() && !V->isStaticLocal()) { global(V); o["glob"] = true; }
        else if (V->isStaticLocal()) { global(V); o["glob"] = true; }
      } else if (auto *FD = dyn_cast<FieldDecl>(D)) { o["f"] = fieldName(FD);
      } else if (isa<BindingDecl>(D)) { o["id"] = declId(D); o["bind"] = true; }
      else { o["id"] = declId(D); o["what"] = D->getDeclKindName(); }
    } else if (auto *X = dyn_cast<MemberExpr>(E)) {
      const ValueDecl *D = X->getMemberDecl();
      if (auto *V = dyn_cast<VarDecl>(D)) {
        o["k"] = "ref"; o["id"] = declId(V); o["glob"] = true; o["n"] = V->getNameAsString();
        global(V);
      } else if (auto *M = dyn_cast<CXXMethodDecl>(D)) {
        o["k"] = "memfn"; o["fn"] = func(M); o["b"] = expr(X->getBase()); o["arrow"] = X->isArrow();
      } else {
        o["k"] = "member";
        o["f"] = fieldName(cast<FieldDecl>(D));
        o["rec"] = record(cast<CXXRecordDecl>(cast<FieldDecl>(D)->getParent()));
        o["b"] = expr(X->getBase());
        o["arrow"] = X->isArrow();
      }
    } else if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      o["k"] = "mcall";
      const Expr *callee = X->getCallee()->IgnoreParens();
      if (auto *ME = dyn_cast<MemberExpr>(callee)) {
        auto *M = cast<CXXMethodDecl>(ME->getMemberDecl());
        o["fn"] = func(M);
        o["b"] = expr(ME->getBase());
        o["arrow"] = ME->isArrow();
        o["virt"] = M->isVirtual() && !ME->hasQualifier();
      } else {
        o["calleeptr"] = expr(callee);
      }
      o["args"] = exprRange(X->arg_begin(), X->arg_end());
    } else if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      const FunctionDecl *F = X->getDirectCallee();
      if (F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) {
        o["k"] = "mcall";
        o["fn"] = func(F);
        o["b"] = expr(X->getArg(0));
        o["arrow"] = false;
        o["virt"] = cast<CXXMethodDecl>(F)->isVirtual();
        o["op"] = getOperatorSpelling(X->getOperator());
        o["args"] = exprRange(X->arg_begin() + 1, X->arg_end());
      } else {
        o["k"] = "call";
        if (F) o["fn"] = func(F);
        o["op"] = getOperatorSpelling(X->getOperator());
        o["args"] = exprRange(X->arg_begin(), X->arg_end());
      }
    } else if (auto *X = dyn_cast<CallExpr>(E)) {
      o["k"] = "call";
      if (auto *F = X->getDirectCallee()) {
        o["fn"] = func(F);
        if (F->getNameAsString() == "__assert_fail") o["assertfail"] = true;
      } else o["callee"] = expr(X->getCallee());
      o["args"] = exprRange(X->arg_begin(), X->arg_end());
    } else if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      o["k"] = "inhctor";
      o["ctor"] = func(X->getConstructor());
    } else if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      o["k"] = "ctor";
      o["fn"] = func(X->getConstructor());
      o["zero"] = X->requiresZeroInitialization();
      o["list"] = X->isListInitialization();
      o["stdlist"] = X->isStdInitListInitialization();
      o["args"] = exprRange(X->arg_begin(), X->arg_end());
    } else if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) {
      o["k"] = "mat";
      o["e"] = expr(X->getSubExpr());
    } else if (auto *X = dyn_cast<CastExpr>(E)) {
      o["k"] = "cast";
      o["ck"] = X->getCastKindName();
      o["e"] = expr(X->getSubExpr());
      if (X->getCastKind() == CK_DerivedToBase || X->getCastKind() == CK_UncheckedDerivedToBase || X->getCastKind() == CK_BaseToDerived) {
        J::Array path;
        for (auto *B : X->path()) path.push_back(type(B->getType()));
        o["path"] = std::move(path);
      }
      if (isa<CXXDynamicCastExpr>(X)) o["dyn"] = true;
    } else if (auto *X = dyn_cast<UnaryOperator>(E)) {
      o["k"] = "un";
      o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      o["post"] = X->isPostfix();
      o["e"] = expr(X->getSubExpr());
    } else if (auto *X = dyn_cast<CompoundAssignOperator>(E)) {
      o["k"] = "cassign";
      o["op"] = BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(X->getOpcode())).str();
      o["l"] = expr(X->getLHS());
      o["r"] = expr(X->getRHS());
      o["ct"] = type(X->getComputationResultType());
      o["clt"] = type(X->getComputationLHSType());
    } else if (auto *X = dyn_cast<BinaryOperator>(E)) {
      o["k"] = "bin";
      o["op"] = X->getOpcodeStr().str();
      o["l"] = expr(X->getLHS());
      o["r"] = expr(X->getRHS());
    } else if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E)) {
      return expr(X->getSemanticForm());
    } else if (auto *X = dyn_cast<ConditionalOperator>(E)) {
      o["k"] = "cond";
      o["c"] = expr(X->getCond());
      o["a"] = expr(X->getTrueExpr());
      o["b"] = expr(X->getFalseExpr());
    } else if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      o["k"] = "sub";
      o["b"] = expr(X->getBase());
      o["i"] = expr(X->getIdx());
    } else if (auto *X = dyn_cast<InitListExpr>(E)) {
      const InitListExpr *IL = X->isSemanticForm() ? X : (X->getSemanticForm() ? X->getSemanticForm() : X);
      if (IL->isTransparent() && IL->getNumInits() == 1) return expr(IL->getInit(0));
      o["k"] = "ilist";
      J::Array a;
      for (unsigned i = 0; i < IL->getNumInits(); i++) a.push_back(expr(IL->getInit(i)));
      o["e"] = std::move(a);
      if (IL->hasArrayFiller()) o["filler"] = expr(IL->getArrayFiller());
      if (IL->getInitializedFieldInUnion()) o["uf"] = fieldName(IL->getInitializedFieldInUnion());
      if (auto *RD = E->getType()->getAsCXXRecordDecl()) {
        if (RD->hasDefinition()) {
          J::Array fl;
          for (auto *F : RD->fields()) fl.push_back(fieldName(F));
          o["fl"] = std::move(fl);
          o["nb"] = (int64_t)RD->getNumBases();
        }
      }
    } else if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) {
      o["k"] = "stdil";
      o["e"] = expr(X->getSubExpr());
    } else if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) {
      o["k"] = "defini";
      o["e"] = expr(X->getExpr());
    } else if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) {
      o["k"] = "zero";
    } else if (isa<CXXThisExpr>(E)) {
      o["k"] = "this";
    } else if (auto *X = dyn_cast<StringLiteral>(E)) {
      o["k"] = "str";
      o["v"] = X->isOrdinary() ? J::fixUTF8(X->getString()) : std::string("?");
    } else if (auto *X = dyn_cast<PredefinedExpr>(E)) {
      o["k"] = "str";
      o["v"] = "__func__";
      (void)X;
    } else if (auto *X = dyn_cast<CharacterLiteral>(E)) {
      o["k"] = "const"; o["v"] = std::to_string(X->getValue());
    } else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
      o["k"] = "null";
    } else if (auto *X = dyn_cast<LambdaExpr>(E)) {
      o["k"] = "lambda";
      o["rec"] = record(X->getLambdaClass());
      J::Array caps;
      auto fi = X->getLambdaClass()->field_begin();
      auto ii = X->capture_init_begin();
      for (auto &c : X->captures()) {
        J::Object cc;
        if (fi != X->getLambdaClass()->field_end()) { cc["f"] = "#" + std::to_string(fi->getFieldIndex()); ++fi; }
        if (c.capturesThis()) { cc["this"] = true; cc["byref"] = c.getCaptureKind() == LCK_This; }
        else if (c.capturesVariable()) {
          cc["id"] = declId(c.getCapturedVar());
          cc["n"] = c.getCapturedVar()->getNameAsString();
          cc["byref"] = c.getCaptureKind() == LCK_ByRef;
          cc["t"] = type(c.getCapturedVar()->getType());
        }
        cc["e"] = expr(*ii);
        ++ii;
        caps.push_back(std::move(cc));
      }
      o["caps"] = std::move(caps);
    } else if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      o["k"] = "throw";
      if (X->getSubExpr()) { o["e"] = expr(X->getSubExpr()); o["tt"] = type(X->getSubExpr()->getType()); }
    } else if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      o["k"] = "new";
      o["at"] = type(X->getAllocatedType());
      if (X->getInitializer()) o["e"] = expr(X->getInitializer());
    } else if (auto *X = dyn_cast<OpaqueValueExpr>(E)) {
      return expr(X->getSourceExpr());
    } else if (auto *X = dyn_cast<UserDefinedLiteral>(E)) {
      o["k"] = "call";
      o["fn"] = func(X->getDirectCallee());
      o["args"] = exprRange(X->arg_begin(), X->arg_end());
    } else if (isa<CXXTypeidExpr>(E)) {
      o["k"] = "typeid";
      auto *T = cast<CXXTypeidExpr>(E);
      if (T->isTypeOperand()) o["tt"] = type(T->getTypeOperand(C));
    } else if (auto *X = dyn_cast<ArrayInitLoopExpr>(E)) {
      o["k"] = "arrinitloop";
      o["src"] = expr(X->getCommonExpr()->getSourceExpr());
    } else if (isa<CXXPseudoDestructorExpr>(E)) {
      o["k"] = "pseudodtor";
    } else {
      o["k"] = "unsup";
      o["what"] = E->getStmtClassName();
    }
    return o;
  }

  J::Value stmt(const Stmt *St) {
    if (!St) return nullptr;
    if (auto *E = dyn_cast<Expr>(St)) {
      J::Object o;
      o["k"] = "expr";
      o["e"] = expr(E);
      o["line"] = lineOf(E->getExprLoc());
      return o;
    }
    J::Object o;
    o["line"] = lineOf(St->getBeginLoc());
    if (auto *X = dyn_cast<CompoundStmt>(St)) {
      o["k"] = "block";
      J::Array a;
      for (auto *s : X->body()) a.push_back(stmt(s));
      o["b"] = std::move(a);
    } else if (auto *X = dyn_cast<DeclStmt>(St)) {
      o["k"] = "decl";
      J::Array a;
      for (auto *d : X->decls())
        if (auto *V = dyn_cast<VarDecl>(d)) { if (V->isStaticLocal()) global(V); a.push_back(varDecl(V)); }
      o["d"] = std::move(a);
    } else if (auto *X = dyn_cast<IfStmt>(St)) {
      o["k"] = "if";
      if (X->getInit()) o["init"] = stmt(X->getInit());
      if (X->getConditionVariable()) o["var"] = varDecl(X->getConditionVariable());
      if (X->isConsteval()) o["k"] = "unsup";
      else o["c"] = expr(X->getCond());
      if (X->isConstexpr()) {
        auto nd = X->getNondiscardedCase(C);
        o["constexpr"] = true;
        if (nd) {
          if (*nd == X->getThen()) o["a"] = stmt(X->getThen());
          else if (*nd) o["b"] = stmt(*nd);
          if (!*nd) { }
        } else { o["a"] = stmt(X->getThen()); o["b"] = stmt(X->getElse()); }
      } else {
        o["a"] = stmt(X->getThen());
        if (X->getElse()) o["b"] = stmt(X->getElse());
      }
    } else if (auto *X = dyn_cast<ForStmt>(St)) {
      o["k"] = "for";
      if (X->getInit()) o["init"] = stmt(X->getInit());
      if (X->getCond()) o["c"] = expr(X->getCond());
      if (X->getConditionVariable()) o["var"] = varDecl(X->getConditionVariable());
      if (X->getInc()) o["inc"] = expr(X->getInc());
      o["b"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<WhileStmt>(St)) {
      o["k"] = "while";
      if (X->getConditionVariable()) o["var"] = varDecl(X->getConditionVariable());
      o["c"] = expr(X->getCond());
      o["b"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<DoStmt>(St)) {
      o["k"] = "do";
      o["c"] = expr(X->getCond());
      o["b"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<CXXForRangeStmt>(St)) {
      o["k"] = "rfor";
      if (X->getInit()) o["init"] = stmt(X->getInit());
      o["range"] = stmt(X->getRangeStmt());
      o["begin"] = stmt(X->getBeginStmt());
      o["end"] = stmt(X->getEndStmt());
      o["c"] = expr(X->getCond());
      o["inc"] = expr(X->getInc());
      o["var"] = stmt(X->getLoopVarStmt());
      o["b"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<ReturnStmt>(St)) {
      o["k"] = "ret";
      if (X->getRetValue()) o["e"] = expr(X->getRetValue());
    } else if (isa<BreakStmt>(St)) o["k"] = "break";
    else if (isa<ContinueStmt>(St)) o["k"] = "cont";
    else if (isa<NullStmt>(St)) o["k"] = "null";
    else if (auto *X = dyn_cast<SwitchStmt>(St)) {
      o["k"] = "switch";
      if (X->getInit()) o["init"] = stmt(X->getInit());
      o["c"] = expr(X->getCond());
      // flatten the body into items
      J::Array items;
      std::vector<const Stmt *> body;
      if (auto *CS = dyn_cast<CompoundStmt>(X->getBody())) for (auto *s : CS->body()) body.push_back(s);
      else body.push_back(X->getBody());
      for (auto *s : body) {
        while (s) {
          if (auto *CS = dyn_cast<CaseStmt>(s)) {
            Expr::EvalResult R;
            CS->getLHS()->EvaluateAsInt(R, C);
            llvm::SmallString<32> v;
            R.Val.getInt().toString(v);
            J::Object it{{"k", "case"}, {"v", std::string(v.str())}};
            if (CS->getRHS()) {
              Expr::EvalResult R2;
              CS->getRHS()->EvaluateAsInt(R2, C);
              llvm::SmallString<32> v2;
              R2.Val.getInt().toString(v2);
              it["v2"] = std::string(v2.str());
            }
            items.push_back(std::move(it));
            s = CS->getSubStmt();
          } else if (auto *DS = dyn_cast<DefaultStmt>(s)) {
            items.push_back(J::Object{{"k", "default"}});
            s = DS->getSubStmt();
          } else {
            items.push_back(stmt(s));
            break;
          }
        }
      }
      o["items"] = std::move(items);
    } else if (auto *X = dyn_cast<CXXTryStmt>(St)) {
      o["k"] = "try";
      o["b"] = stmt(X->getTryBlock());
      J::Array hs;
      for (unsigned i = 0; i < X->getNumHandlers(); i++) {
        auto *H = X->getHandler(i);
        J::Object h;
        if (H->getExceptionDecl()) { h["var"] = varDecl(H->getExceptionDecl()); h["t"] = type(H->getCaughtType()); }
        h["b"] = stmt(H->getHandlerBlock());
        hs.push_back(std::move(h));
      }
      o["h"] = std::move(hs);
    } else if (auto *X = dyn_cast<AttributedStmt>(St)) {
      return stmt(X->getSubStmt());
    } else if (auto *X = dyn_cast<LabelStmt>(St)) {
      return stmt(X->getSubStmt());
    } else {
      o["k"] = "unsup";
      o["what"] = St->getStmtClassName();
    }
    return o;
  }

  void run() {
    std::vector<const FunctionDecl *> roots;
    collect(C.getTranslationUnitDecl(), roots);
    J::Array rs;
    for (auto *F : roots) rs.push_back(func(F));
    while (!work.empty()) {
      auto *F = work.front();
      work.pop_front();
      emitFunc(F);
    }
    J::Object top;
    top["roots"] = std::move(rs);
    top["types"] = std::move(types);
    top["records"] = std::move(records);
    top["functions"] = std::move(functions);
    top["globals"] = std::move(globals);
    std::error_code ec;
    llvm::raw_fd_ostream os(OutPath, ec);
    os << J::Value(std::move(top)) << "\n";
  }
  void collect(const DeclContext *DC, std::vector<const FunctionDecl *> &out) {
    for (auto *D : DC->decls()) {
      if (SM.isInSystemHeader(D->getLocation())) continue;
      if (auto *F = dyn_cast<FunctionDecl>(D)) {
        if (F->getIdentifier() && F->isThisDeclarationADefinition() &&
            (F->getName().starts_with("vp_lemma_") || F->getName().starts_with("vp_contract_"))) out.push_back(F);
      } else if (isa<NamespaceDecl>(D) || isa<LinkageSpecDecl>(D)) {
        collect(cast<DeclContext>(D), out);
      }
    }
  }
};

class Consumer : public SemaConsumer {
  Sema *S = nullptr;
public:
  void InitializeSema(Sema &s) override { S = &s; }
  void ForgetSema() override {}
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Dumper d(C, *S);
    d.run();
  }
};
class Action : public ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};

int main(int argc, char **argv) {
  if (argc < 4) { llvm::errs() << "usage: cxxdump OUT.json SOURCE.cpp -- flags\n"; return 2; }
  OutPath = argv[1];
  std::string src = argv[2];
  std::vector<std::string> flags;
  for (int i = 4; i < argc; i++) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, {src});
  int rc = tool.run(tooling::newFrontendActionFactory<Action>().get());
  return rc;
}
