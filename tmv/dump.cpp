// tmv-dump: mechanical extraction of C++ class templates (and the small
// constexpr / message functions around them) into JSON, using clang's AST.
//
// Usage: tmv-dump OUT.json [-- clang args...] FILE
//
// Roots: every declaration whose expansion location lies in a "repo" file
// (path given by --root PREFIX, may be repeated).  Declarations outside the
// roots are emitted when they are (transitively) referenced.
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/ASTUnit.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;

struct Dumper {
  ASTContext &Ctx;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const Decl *, int> Ids;
  std::deque<const Decl *> Work;
  json::Object Decls;
  json::Array Names;

  Dumper(ASTContext &C) : Ctx(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {}

  static const Decl *canon(const Decl *D) { return D->getCanonicalDecl(); }

  int id(const Decl *D) {
    D = canon(D);
    auto It = Ids.find(D);
    if (It != Ids.end()) return It->second;
    int N = Ids.size() + 1;
    Ids[D] = N;
    Work.push_back(D);
    return N;
  }

  std::string loc(const Decl *D) {
    PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(D->getLocation()));
    if (P.isInvalid()) return "";
    return std::string(P.getFilename()) + ":" + std::to_string(P.getLine());
  }
  bool inRoot(const Decl *D) {
    PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(D->getLocation()));
    if (P.isInvalid()) return false;
    std::string F = P.getFilename();
    for (auto &R : Roots)
      if (F.compare(0, R.size(), R) == 0) return true;
    return false;
  }

  // number of template parameter lists enclosing (and including, for a
  // pattern) this declaration context
  static unsigned depthOf(const DeclContext *DC) {
    unsigned N = 0;
    while (DC && !DC->isFileContext()) {
      if (auto *R = dyn_cast<CXXRecordDecl>(DC)) {
        if (auto *PS = dyn_cast<ClassTemplatePartialSpecializationDecl>(R)) {
          (void)PS;
          ++N;
        } else if (isa<ClassTemplateSpecializationDecl>(R)) {
        } else if (R->getDescribedClassTemplate())
          ++N;
      } else if (auto *F = dyn_cast<FunctionDecl>(DC)) {
        if (F->getDescribedFunctionTemplate()) ++N;
      }
      DC = DC->getParent();
    }
    return N;
  }

  json::Value str(const std::string &S) {
    if (json::isUTF8(S)) return S;
    return json::fixUTF8(S);
  }

  // ---- template names ----
  json::Value tmplDecl(const TemplateDecl *TD) {
    if (auto *P = dyn_cast<TemplateTemplateParmDecl>(TD))
      return json::Object{{"k", "parm"}, {"d", P->getDepth()}, {"i", P->getIndex()}, {"pack", P->isParameterPack()}};
    const DeclContext *DC = TD->getDeclContext();
    if (auto *Spec = dyn_cast<ClassTemplateSpecializationDecl>(DC))
      if (!isa<ClassTemplatePartialSpecializationDecl>(Spec) &&
          Spec->getSpecializationKind() != TSK_ExplicitSpecialization)
        return json::Object{{"k", "member"}, {"q", type(Ctx.getRecordType(Spec))}, {"name", TD->getNameAsString()}};
    if (auto *R = dyn_cast<CXXRecordDecl>(DC))
      if (R->isDependentContext() == false && !R->getDescribedClassTemplate())
        // member template of a nested class of an implicit instantiation
        if (enclosedByImplicitInst(R))
          return json::Object{{"k", "member"}, {"q", type(Ctx.getRecordType(R))}, {"name", TD->getNameAsString()}};
    if (isa<ClassTemplateDecl>(TD) || isa<TypeAliasTemplateDecl>(TD))
      return json::Object{{"k", "decl"}, {"id", id(TD)}};
    return json::Object{{"k", "unsupported"}, {"what", std::string("template ") + TD->getNameAsString() + " " + TD->getDeclKindName()}};
  }
  static bool enclosedByImplicitInst(const DeclContext *DC) {
    while (DC && !DC->isFileContext()) {
      if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(DC))
        if (!isa<ClassTemplatePartialSpecializationDecl>(S) &&
            S->getSpecializationKind() != TSK_ExplicitSpecialization)
          return true;
      DC = DC->getParent();
    }
    return false;
  }
  json::Value nns(const NestedNameSpecifier *N) {
    if (!N) return nullptr;
    switch (N->getKind()) {
    case NestedNameSpecifier::TypeSpec:
    case NestedNameSpecifier::TypeSpecWithTemplate:
      return type(QualType(N->getAsType(), 0));
    case NestedNameSpecifier::Identifier:
      return json::Object{{"k", "dep"}, {"q", nns(N->getPrefix())}, {"name", N->getAsIdentifier()->getName()}};
    default:
      return nullptr;
    }
  }
  json::Value tmpl(TemplateName TN) {
    if (auto *D = TN.getAsTemplateDecl()) return tmplDecl(D);
    if (auto *DT = TN.getAsDependentTemplateName()) {
      if (DT->isIdentifier())
        return json::Object{{"k", "depname"}, {"q", nns(DT->getQualifier())}, {"name", DT->getIdentifier()->getName()}};
    }
    return json::Object{{"k", "unsupported"}, {"what", "template name"}};
  }

  json::Value args(llvm::ArrayRef<TemplateArgument> As) {
    json::Array R;
    for (auto &A : As) R.push_back(arg(A));
    return R;
  }
  json::Value arg(const TemplateArgument &A) {
    switch (A.getKind()) {
    case TemplateArgument::Type:
      return json::Object{{"k", "type"}, {"v", type(A.getAsType())}};
    case TemplateArgument::Integral: {
      llvm::SmallString<32> S;
      A.getAsIntegral().toString(S, 10);
      return json::Object{{"k", "int"}, {"v", std::string(S.str())}, {"t", type(A.getIntegralType())}};
    }
    case TemplateArgument::Expression:
      return json::Object{{"k", "expr"}, {"v", expr(A.getAsExpr())}};
    case TemplateArgument::Template:
      return json::Object{{"k", "tmpl"}, {"v", tmpl(A.getAsTemplate())}};
    case TemplateArgument::TemplateExpansion:
      return json::Object{{"k", "tmplexpand"}, {"v", tmpl(A.getAsTemplateOrTemplatePattern())}};
    case TemplateArgument::Pack: {
      json::Array R;
      for (auto &X : A.pack_elements()) R.push_back(arg(X));
      return json::Object{{"k", "pack"}, {"v", std::move(R)}};
    }
    case TemplateArgument::NullPtr:
    case TemplateArgument::Declaration:
    default:
      return json::Object{{"k", "unsupported"}, {"what", "template argument kind"}};
    }
  }

  // ---- types ----
  json::Value recordRef(const CXXRecordDecl *R) {
    if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
      if (!isa<ClassTemplatePartialSpecializationDecl>(S))
        return json::Object{{"k", "tst"},
                            {"t", tmplDecl(S->getSpecializedTemplate())},
                            {"args", args(S->getTemplateArgs().asArray())}};
    }
    const DeclContext *DC = R->getDeclContext();
    if (DC->isRecord() && enclosedByImplicitInst(DC)) {
      return json::Object{{"k", "dep"}, {"q", type(Ctx.getRecordType(cast<RecordDecl>(DC)))}, {"name", R->getNameAsString()}};
    }
    return json::Object{{"k", "rec"}, {"id", id(R)}};
  }
  json::Value type(QualType QT) {
    QT = QT.getCanonicalType();
    if (QT.hasLocalQualifiers()) {
      json::Object O{{"k", "qual"}, {"v", type(QT.getLocalUnqualifiedType())}};
      if (QT.isLocalConstQualified()) O["const"] = true;
      if (QT.isLocalVolatileQualified()) O["volatile"] = true;
      return O;
    }
    const Type *T = QT.getTypePtr();
    switch (T->getTypeClass()) {
    case Type::Builtin:
      return json::Object{{"k", "builtin"}, {"n", cast<BuiltinType>(T)->getName(PP)}};
    case Type::TemplateTypeParm: {
      auto *P = cast<TemplateTypeParmType>(T);
      return json::Object{{"k", "parm"}, {"d", P->getDepth()}, {"i", P->getIndex()}, {"pack", P->isParameterPack()}};
    }
    case Type::TemplateSpecialization: {
      auto *P = cast<TemplateSpecializationType>(T);
      return json::Object{{"k", "tst"}, {"t", tmpl(P->getTemplateName())}, {"args", args(P->template_arguments())}};
    }
    case Type::InjectedClassName: {
      auto *P = cast<InjectedClassNameType>(T);
      return json::Object{{"k", "inj"}, {"id", id(P->getDecl())}, {"depth", depthOf(P->getDecl())}};
    }
    case Type::Record:
      if (auto *R = dyn_cast<CXXRecordDecl>(cast<RecordType>(T)->getDecl())) return recordRef(R);
      break;
    case Type::DependentName: {
      auto *P = cast<DependentNameType>(T);
      return json::Object{{"k", "dep"}, {"q", nns(P->getQualifier())}, {"name", P->getIdentifier()->getName()}};
    }
    case Type::DependentTemplateSpecialization: {
      auto *P = cast<DependentTemplateSpecializationType>(T);
      return json::Object{{"k", "deptst"}, {"q", nns(P->getQualifier())}, {"name", P->getIdentifier()->getName()}, {"args", args(P->template_arguments())}};
    }
    case Type::PackExpansion:
      return json::Object{{"k", "expand"}, {"v", type(cast<PackExpansionType>(T)->getPattern())}};
    case Type::Pointer:
      return json::Object{{"k", "ptr"}, {"v", type(T->getPointeeType())}};
    case Type::LValueReference:
    case Type::RValueReference:
      return json::Object{{"k", T->getTypeClass() == Type::LValueReference ? "lref" : "rref"}, {"v", type(T->getPointeeType())}};
    case Type::ConstantArray: {
      auto *A = cast<ConstantArrayType>(T);
      return json::Object{{"k", "array"}, {"v", type(A->getElementType())}, {"n", (int64_t)A->getSize().getZExtValue()}};
    }
    case Type::DependentSizedArray: {
      auto *A = cast<DependentSizedArrayType>(T);
      json::Object O{{"k", "array"}, {"v", type(A->getElementType())}};
      if (A->getSizeExpr()) O["e"] = expr(A->getSizeExpr());
      return O;
    }
    case Type::IncompleteArray:
      return json::Object{{"k", "array"}, {"v", type(cast<IncompleteArrayType>(T)->getElementType())}};
    case Type::Enum:
      return json::Object{{"k", "enum"}, {"n", cast<EnumType>(T)->getDecl()->getQualifiedNameAsString()}};
    case Type::FunctionProto: {
      auto *F = cast<FunctionProtoType>(T);
      json::Array A;
      for (auto P : F->param_types()) A.push_back(type(P));
      return json::Object{{"k", "fn"}, {"ret", type(F->getReturnType())}, {"args", std::move(A)}};
    }
    case Type::Decltype: {
      auto *D = cast<DecltypeType>(T);
      return json::Object{{"k", "decltype"}, {"e", expr(D->getUnderlyingExpr())}};
    }
    default:
      break;
    }
    return json::Object{{"k", "unsupported"}, {"what", std::string("type ") + T->getTypeClassName()}};
  }

  // ---- expressions ----
  json::Value unsup(const Stmt *E) {
    return json::Object{{"k", "unsupported"}, {"what", std::string(E->getStmtClassName())}};
  }
  json::Value exprs(llvm::ArrayRef<const Expr *> Es) {
    json::Array R;
    for (auto *E : Es) R.push_back(expr(E));
    return R;
  }
  json::Value templArgsAsWritten(llvm::ArrayRef<TemplateArgumentLoc> As) {
    json::Array R;
    for (auto &A : As) R.push_back(arg(Ctx.getCanonicalTemplateArgument(A.getArgument())));
    return R;
  }
  json::Value varRef(const ValueDecl *D) {
    if (auto *P = dyn_cast<NonTypeTemplateParmDecl>(D))
      return json::Object{{"k", "parm"}, {"d", P->getDepth()}, {"i", P->getIndex()}, {"pack", P->isParameterPack()}, {"t", type(P->getType())}};
    if (auto *P = dyn_cast<ParmVarDecl>(D))
      return json::Object{{"k", "local"}, {"name", P->getNameAsString()}, {"t", type(P->getType())}};
    if (auto *V = dyn_cast<VarDecl>(D)) {
      if (V->isLocalVarDecl())
        return json::Object{{"k", "local"}, {"name", V->getNameAsString()}, {"t", type(V->getType())}};
      if (V->isStaticDataMember()) {
        auto *R = cast<CXXRecordDecl>(V->getDeclContext());
        return json::Object{{"k", "depref"}, {"q", curOrType(R)}, {"name", V->getNameAsString()}};
      }
      return json::Object{{"k", "global"}, {"name", V->getQualifiedNameAsString()}};
    }
    if (auto *E = dyn_cast<EnumConstantDecl>(D)) {
      const DeclContext *DC = E->getDeclContext()->getParent();
      if (auto *R = dyn_cast<CXXRecordDecl>(DC))
        return json::Object{{"k", "depref"}, {"q", curOrType(R)}, {"name", E->getNameAsString()}};
      llvm::SmallString<32> S;
      E->getInitVal().toString(S, 10);
      return json::Object{{"k", "int"}, {"v", std::string(S.str())}, {"t", type(E->getType())}};
    }
    if (auto *F = dyn_cast<FunctionDecl>(D)) return fnRef(F, {}, nullptr);
    return json::Object{{"k", "unsupported"}, {"what", std::string("ref ") + D->getDeclKindName() + " " + D->getNameAsString()}};
  }
  json::Value curOrType(const CXXRecordDecl *R) {
    if (R->getDescribedClassTemplate() || isa<ClassTemplatePartialSpecializationDecl>(R))
      return json::Object{{"k", "inj"}, {"id", id(R)}, {"depth", depthOf(R)}};
    return recordRef(R);
  }
  json::Value fnRef(const FunctionDecl *F, llvm::ArrayRef<TemplateArgumentLoc> TA, const Expr *) {
    json::Object O{{"k", "fn"}, {"name", F->getQualifiedNameAsString()}};
    const FunctionDecl *P = F;
    if (auto *TI = F->getTemplateSpecializationInfo()) {
      if (TI->getTemplateSpecializationKind() != TSK_ExplicitSpecialization) {
        O["targs"] = args(TI->TemplateArguments->asArray());
        if (inRoot(TI->getTemplate())) O["id"] = id(TI->getTemplate());
        return O;
      }
    }
    if (auto *M = F->getInstantiatedFromMemberFunction()) {
      if (auto *R = dyn_cast<CXXRecordDecl>(F->getDeclContext())) {
        O["q"] = recordRef(R);
        O["mname"] = F->getNameAsString();
        P = M;
      }
    } else if (auto *R = dyn_cast<CXXRecordDecl>(F->getDeclContext())) {
      O["q"] = curOrType(R);
      O["mname"] = F->getNameAsString();
    }
    if (!O.get("q")) {
      if (inRoot(P)) O["id"] = id(P);
    }
    return O;
  }
  json::Value expr(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<ImplicitCastExpr>(S)) {
      if (E->getCastKind() == CK_IntegralCast || E->getCastKind() == CK_IntegralToBoolean)
        return json::Object{{"k", "cast"}, {"t", type(E->getType())}, {"e", expr(E->getSubExpr())}};
      return expr(E->getSubExpr());
    }
    if (auto *E = dyn_cast<ConstantExpr>(S)) return expr(E->getSubExpr());
    if (auto *E = dyn_cast<FullExpr>(S)) return expr(E->getSubExpr());
    if (auto *E = dyn_cast<ParenExpr>(S)) return expr(E->getSubExpr());
    if (auto *E = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) return expr(E->getReplacement());
    if (auto *E = dyn_cast<MaterializeTemporaryExpr>(S)) return expr(E->getSubExpr());
    if (auto *E = dyn_cast<CXXBindTemporaryExpr>(S)) return expr(E->getSubExpr());
    if (auto *E = dyn_cast<CXXDefaultArgExpr>(S)) { (void)E; return json::Object{{"k", "defaultarg"}}; }
    if (auto *E = dyn_cast<IntegerLiteral>(S)) {
      llvm::SmallString<32> B;
      E->getValue().toString(B, 10, E->getType()->isSignedIntegerType());
      return json::Object{{"k", "int"}, {"v", std::string(B.str())}, {"t", type(E->getType())}};
    }
    if (auto *E = dyn_cast<CharacterLiteral>(S)) {
      int64_t V = E->getValue();
      if (E->getKind() == CharacterLiteralKind::Ascii) V = (signed char)V;
      return json::Object{{"k", "int"}, {"v", std::to_string(V)}, {"t", type(E->getType())}};
    }
    if (auto *E = dyn_cast<CXXBoolLiteralExpr>(S))
      return json::Object{{"k", "int"}, {"v", E->getValue() ? "1" : "0"}, {"t", type(E->getType())}};
    if (auto *E = dyn_cast<clang::StringLiteral>(S)) {
      json::Array A;
      for (unsigned I = 0; I < E->getLength(); ++I) A.push_back((int64_t)(signed char)E->getCodeUnit(I));
      return json::Object{{"k", "strlit"}, {"v", std::move(A)}};
    }
    if (auto *E = dyn_cast<DeclRefExpr>(S)) {
      if (auto *F = dyn_cast<FunctionDecl>(E->getDecl())) return fnRef(F, E->template_arguments(), E);
      return varRef(E->getDecl());
    }
    if (auto *E = dyn_cast<DependentScopeDeclRefExpr>(S)) {
      json::Object O{{"k", "depref"}, {"q", nns(E->getQualifier())}, {"name", E->getDeclName().getAsString()}};
      if (E->hasExplicitTemplateArgs()) O["targs"] = templArgsAsWritten(E->template_arguments());
      return O;
    }
    if (auto *E = dyn_cast<UnresolvedLookupExpr>(S)) {
      json::Object O{{"k", "fnlookup"}, {"name", E->getName().getAsString()}};
      json::Array C;
      for (auto *D : E->decls()) {
        const NamedDecl *U = D->getUnderlyingDecl();
        if (inRoot(U) && (isa<FunctionDecl>(U) || isa<FunctionTemplateDecl>(U))) C.push_back(id(U));
      }
      O["cands"] = std::move(C);
      if (E->getQualifier()) O["q"] = nns(E->getQualifier());
      if (E->hasExplicitTemplateArgs()) O["targs"] = templArgsAsWritten(E->template_arguments());
      return O;
    }
    if (auto *E = dyn_cast<CXXOperatorCallExpr>(S)) {
      json::Array A;
      for (auto *X : E->arguments()) A.push_back(expr(X));
      return json::Object{{"k", "opcall"}, {"op", getOperatorSpelling(E->getOperator())}, {"args", std::move(A)}};
    }
    if (auto *E = dyn_cast<CXXMemberCallExpr>(S)) {
      json::Array A;
      for (auto *X : E->arguments()) A.push_back(expr(X));
      std::string N;
      if (E->getMethodDecl()) N = E->getMethodDecl()->getNameAsString();
      return json::Object{{"k", "memcall"}, {"name", N}, {"obj", expr(E->getImplicitObjectArgument())}, {"args", std::move(A)}};
    }
    if (auto *E = dyn_cast<CallExpr>(S)) {
      json::Array A;
      for (auto *X : E->arguments()) A.push_back(expr(X));
      return json::Object{{"k", "call"}, {"f", expr(E->getCallee())}, {"args", std::move(A)}};
    }
    if (auto *E = dyn_cast<CXXDependentScopeMemberExpr>(S)) {
      if (E->isImplicitAccess() && E->getQualifier())
        return json::Object{{"k", "depref"}, {"q", nns(E->getQualifier())}, {"name", E->getMember().getAsString()}};
      json::Object O{{"k", "depmember"}, {"name", E->getMember().getAsString()}};
      if (!E->isImplicitAccess()) O["obj"] = expr(E->getBase());
      return O;
    }
    if (auto *E = dyn_cast<UnresolvedMemberExpr>(S)) {
      json::Object O{{"k", "depmember"}, {"name", E->getMemberName().getAsString()}};
      if (!E->isImplicitAccess()) O["obj"] = expr(E->getBase());
      return O;
    }
    if (auto *E = dyn_cast<MemberExpr>(S)) {
      if (isa<VarDecl>(E->getMemberDecl()) || isa<EnumConstantDecl>(E->getMemberDecl())) return varRef(E->getMemberDecl());
      if (isa<CXXThisExpr>(E->getBase()->IgnoreParenImpCasts()) && isa<CXXMethodDecl>(E->getMemberDecl())) return varRef(E->getMemberDecl());
      return json::Object{{"k", "depmember"}, {"name", E->getMemberDecl()->getNameAsString()}, {"obj", expr(E->getBase())}};
    }
    if (auto *E = dyn_cast<CompoundAssignOperator>(S))
      return json::Object{{"k", "binop"}, {"op", E->getOpcodeStr()}, {"a", expr(E->getLHS())}, {"b", expr(E->getRHS())}};
    if (auto *E = dyn_cast<BinaryOperator>(S))
      return json::Object{{"k", "binop"}, {"op", E->getOpcodeStr()}, {"a", expr(E->getLHS())}, {"b", expr(E->getRHS())}};
    if (auto *E = dyn_cast<UnaryOperator>(S))
      return json::Object{{"k", "unop"}, {"op", UnaryOperator::getOpcodeStr(E->getOpcode())}, {"post", E->isPostfix()}, {"e", expr(E->getSubExpr())}};
    if (auto *E = dyn_cast<ConditionalOperator>(S))
      return json::Object{{"k", "cond"}, {"c", expr(E->getCond())}, {"a", expr(E->getTrueExpr())}, {"b", expr(E->getFalseExpr())}};
    if (auto *E = dyn_cast<SizeOfPackExpr>(S)) {
      json::Object O{{"k", "sizeofpack"}};
      const NamedDecl *P = E->getPack();
      if (auto *T = dyn_cast<TemplateTypeParmDecl>(P)) { O["d"] = T->getDepth(); O["i"] = T->getIndex(); }
      else if (auto *T = dyn_cast<NonTypeTemplateParmDecl>(P)) { O["d"] = T->getDepth(); O["i"] = T->getIndex(); }
      else if (auto *T = dyn_cast<TemplateTemplateParmDecl>(P)) { O["d"] = T->getDepth(); O["i"] = T->getIndex(); }
      else return unsup(S);
      return O;
    }
    if (auto *E = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
      if (E->getKind() == UETT_SizeOf) {
        if (E->isArgumentType()) return json::Object{{"k", "sizeof"}, {"t", type(E->getArgumentType())}};
        return json::Object{{"k", "sizeofexpr"}, {"e", expr(E->getArgumentExpr())}};
      }
      return unsup(S);
    }
    if (auto *E = dyn_cast<PackExpansionExpr>(S)) return json::Object{{"k", "expand"}, {"e", expr(E->getPattern())}};
    if (auto *E = dyn_cast<CXXFoldExpr>(S)) {
      json::Object O{{"k", "fold"}, {"op", BinaryOperator::getOpcodeStr(E->getOperator())}, {"pattern", expr(E->getPattern())}, {"right", E->isRightFold()}};
      if (E->getInit()) O["init"] = expr(E->getInit());
      return O;
    }
    if (auto *E = dyn_cast<ArraySubscriptExpr>(S))
      return json::Object{{"k", "index"}, {"a", expr(E->getBase())}, {"i", expr(E->getIdx())}};
    if (auto *E = dyn_cast<InitListExpr>(S)) {
      const InitListExpr *Syn = E->isSemanticForm() && E->getSyntacticForm() ? E->getSyntacticForm() : E;
      json::Array A;
      for (auto *X : Syn->inits()) A.push_back(expr(X));
      return json::Object{{"k", "initlist"}, {"v", std::move(A)}};
    }
    if (auto *E = dyn_cast<ParenListExpr>(S)) {
      json::Array A;
      for (unsigned I = 0; I < E->getNumExprs(); ++I) A.push_back(expr(E->getExpr(I)));
      return json::Object{{"k", "parenlist"}, {"v", std::move(A)}};
    }
    if (auto *E = dyn_cast<ExplicitCastExpr>(S))
      return json::Object{{"k", "cast"}, {"t", type(E->getTypeAsWritten())}, {"e", expr(E->getSubExpr())}, {"explicit", true}};
    if (auto *E = dyn_cast<CXXScalarValueInitExpr>(S))
      return json::Object{{"k", "zero"}, {"t", type(E->getType())}};
    if (auto *E = dyn_cast<ImplicitValueInitExpr>(S))
      return json::Object{{"k", "zero"}, {"t", type(E->getType())}};
    if (auto *E = dyn_cast<CXXUnresolvedConstructExpr>(S)) {
      json::Array A;
      for (auto *X : E->arguments()) A.push_back(expr(X));
      return json::Object{{"k", "construct"}, {"t", type(E->getTypeAsWritten())}, {"args", std::move(A)}};
    }
    if (auto *E = dyn_cast<CXXConstructExpr>(S)) {
      json::Array A;
      for (auto *X : E->arguments()) A.push_back(expr(X));
      return json::Object{{"k", "construct"}, {"t", type(E->getType())}, {"args", std::move(A)}};
    }
    if (auto *E = dyn_cast<TypeTraitExpr>(S)) {
      json::Array A;
      for (auto *T : E->getArgs()) A.push_back(type(T->getType()));
      return json::Object{{"k", "typetrait"}, {"n", getTraitSpelling(E->getTrait())}, {"args", std::move(A)}};
    }
    if (auto *E = dyn_cast<CXXNullPtrLiteralExpr>(S)) { (void)E; return json::Object{{"k", "nullptr"}}; }
    if (auto *E = dyn_cast<CXXThisExpr>(S)) { (void)E; return json::Object{{"k", "this"}}; }
    return unsup(S);
  }
  json::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *C = dyn_cast<CompoundStmt>(S)) {
      json::Array A;
      for (auto *X : C->body()) A.push_back(stmt(X));
      return json::Object{{"k", "block"}, {"v", std::move(A)}};
    }
    if (auto *R = dyn_cast<ReturnStmt>(S)) return json::Object{{"k", "return"}, {"e", expr(R->getRetValue())}};
    if (auto *I = dyn_cast<IfStmt>(S))
      return json::Object{{"k", "if"}, {"c", expr(I->getCond())}, {"a", stmt(I->getThen())}, {"b", stmt(I->getElse())}};
    if (auto *F = dyn_cast<ForStmt>(S))
      return json::Object{{"k", "for"}, {"init", stmt(F->getInit())}, {"c", expr(F->getCond())}, {"inc", expr(F->getInc())}, {"body", stmt(F->getBody())}};
    if (auto *F = dyn_cast<WhileStmt>(S))
      return json::Object{{"k", "while"}, {"c", expr(F->getCond())}, {"body", stmt(F->getBody())}};
    if (auto *F = dyn_cast<CXXForRangeStmt>(S))
      return json::Object{{"k", "forrange"}, {"var", F->getLoopVariable()->getNameAsString()}, {"range", expr(F->getRangeInit())}, {"body", stmt(F->getBody())}};
    if (isa<NullStmt>(S)) return json::Object{{"k", "block"}, {"v", json::Array{}}};
    if (isa<BreakStmt>(S)) return json::Object{{"k", "break"}};
    if (isa<ContinueStmt>(S)) return json::Object{{"k", "continue"}};
    if (auto *D = dyn_cast<DeclStmt>(S)) {
      json::Array A;
      for (auto *X : D->decls()) {
        if (auto *V = dyn_cast<VarDecl>(X)) {
          json::Object O{{"k", "var"}, {"name", V->getNameAsString()}, {"t", type(V->getType())}};
          if (V->getInit()) O["init"] = expr(V->getInit());
          A.push_back(std::move(O));
        } else if (auto *T = dyn_cast<TypedefNameDecl>(X)) {
          A.push_back(json::Object{{"k", "typedef"}, {"name", T->getNameAsString()}, {"t", type(T->getUnderlyingType())}});
        } else if (isa<UsingDecl>(X) || isa<UsingDirectiveDecl>(X)) {
        } else if (auto *SA = dyn_cast<StaticAssertDecl>(X)) {
          A.push_back(json::Object{{"k", "static_assert"}, {"e", expr(SA->getAssertExpr())}});
        } else
          A.push_back(json::Object{{"k", "unsupported"}, {"what", X->getDeclKindName()}});
      }
      return json::Object{{"k", "decls"}, {"v", std::move(A)}};
    }
    if (auto *E = dyn_cast<Expr>(S)) return json::Object{{"k", "expr"}, {"e", expr(E)}};
    return json::Object{{"k", "unsupported"}, {"what", S->getStmtClassName()}};
  }

  // ---- declarations ----
  json::Value params(const TemplateParameterList *TPL) {
    json::Array R;
    for (const NamedDecl *P : *TPL) {
      json::Object O{{"name", P->getNameAsString()}};
      if (auto *T = dyn_cast<TemplateTypeParmDecl>(P)) {
        O["k"] = "type"; O["pack"] = T->isParameterPack();
        if (T->hasDefaultArgument()) O["def"] = json::Object{{"k", "type"}, {"v", type(T->getDefaultArgument())}};
      } else if (auto *T = dyn_cast<NonTypeTemplateParmDecl>(P)) {
        O["k"] = "int"; O["pack"] = T->isParameterPack(); O["t"] = type(T->getType());
        if (T->hasDefaultArgument()) O["def"] = json::Object{{"k", "expr"}, {"v", expr(T->getDefaultArgument())}};
      } else if (auto *T = dyn_cast<TemplateTemplateParmDecl>(P)) {
        O["k"] = "tmpl"; O["pack"] = T->isParameterPack();
        O["params"] = params(T->getTemplateParameters());
        if (T->hasDefaultArgument()) O["def"] = arg(T->getDefaultArgument().getArgument());
      }
      R.push_back(std::move(O));
    }
    return R;
  }

  json::Value fnBody(const FunctionDecl *F) {
    json::Object O{{"name", F->getNameAsString()}, {"ret", type(F->getReturnType())}, {"static", F->isStatic()}, {"constexpr", F->isConstexpr()}};
    json::Array P;
    for (auto *X : F->parameters()) P.push_back(json::Object{{"name", X->getNameAsString()}, {"t", type(X->getType())}});
    O["params"] = std::move(P);
    const FunctionDecl *Def = nullptr;
    if (F->hasBody(Def) && Def) {
      json::Array P2;
      for (auto *X : Def->parameters()) P2.push_back(json::Object{{"name", X->getNameAsString()}, {"t", type(X->getType())}});
      O["params"] = std::move(P2);
      O["body"] = stmt(Def->getBody());
    }
    O["ctor"] = isa<CXXConstructorDecl>(F);
    return O;
  }

  json::Value record(const CXXRecordDecl *R0) {
    const CXXRecordDecl *R = R0->getDefinition();
    json::Object O{{"kind", "record"}, {"name", R0->getNameAsString()}, {"qname", R0->getQualifiedNameAsString()},
                   {"loc", loc(R ? R : R0)}, {"depth", depthOf(R0)}, {"root", inRoot(R ? R : R0)}};
    if (auto *P = dyn_cast<CXXRecordDecl>(R0->getDeclContext())) O["parent"] = id(P);
    if (auto *CT = R0->getDescribedClassTemplate()) O["template"] = id(CT);
    if (auto *PS = dyn_cast<ClassTemplatePartialSpecializationDecl>(R0)) O["template"] = id(PS->getSpecializedTemplate());
    if (!R) { O["complete"] = false; return O; }
    O["complete"] = true;
    json::Array B;
    for (auto &Bs : R->bases()) B.push_back(json::Object{{"t", type(Bs.getType())}, {"expand", Bs.isPackExpansion()}});
    O["bases"] = std::move(B);
    json::Array M;
    for (const Decl *D : R->decls()) {
      if (D->isImplicit()) continue;
      if (auto *T = dyn_cast<TypedefNameDecl>(D)) {
        if (T->getDescribedTemplate()) continue;
        M.push_back(json::Object{{"k", "typedef"}, {"name", T->getNameAsString()}, {"t", type(T->getUnderlyingType())}});
      } else if (auto *T = dyn_cast<TypeAliasTemplateDecl>(D)) {
        M.push_back(json::Object{{"k", "tmpl"}, {"name", T->getNameAsString()}, {"id", id(T)}});
      } else if (auto *T = dyn_cast<ClassTemplateDecl>(D)) {
        M.push_back(json::Object{{"k", "tmpl"}, {"name", T->getNameAsString()}, {"id", id(T)}});
      } else if (isa<ClassTemplateSpecializationDecl>(D)) {
      } else if (auto *T = dyn_cast<CXXRecordDecl>(D)) {
        M.push_back(json::Object{{"k", "rec"}, {"name", T->getNameAsString()}, {"id", id(T)}});
      } else if (auto *V = dyn_cast<VarDecl>(D)) {
        json::Object X{{"k", "var"}, {"name", V->getNameAsString()}, {"t", type(V->getType())}, {"static", V->isStaticDataMember()}};
        const Expr *I = V->getAnyInitializer();
        if (I) X["init"] = expr(I);
        for (auto *RD : V->redecls())
          if (RD->getInit() && !I) X["init"] = expr(RD->getInit());
        M.push_back(std::move(X));
      } else if (auto *E = dyn_cast<EnumDecl>(D)) {
        json::Array C;
        for (auto *X : E->enumerators()) {
          json::Object Y{{"name", X->getNameAsString()}};
          // the value of an enumerator that depends on nothing, with the type it promotes to
          if (!E->isDependentType() && E->isComplete() && !E->getPromotionType().isNull() && !(X->getInitExpr() && (X->getInitExpr()->isValueDependent() || X->getInitExpr()->isTypeDependent()))) {
            llvm::SmallString<32> S;
            X->getInitVal().toString(S, 10);
            Y["init"] = json::Object{{"k", "int"}, {"v", std::string(S.str())}, {"t", type(E->getPromotionType())}};
          } else
          if (X->getInitExpr()) Y["init"] = expr(X->getInitExpr());
          C.push_back(std::move(Y));
        }
        M.push_back(json::Object{{"k", "enum"}, {"v", std::move(C)}});
      } else if (!inRoot(R) && (isa<FunctionDecl>(D) || isa<FunctionTemplateDecl>(D))) {
        M.push_back(json::Object{{"k", "fn"}, {"name", cast<NamedDecl>(D)->getNameAsString()}});
      } else if (auto *F = dyn_cast<FunctionDecl>(D)) {
        M.push_back(json::Object{{"k", "fn"}, {"name", F->getNameAsString()}, {"f", fnBody(F)}});
      } else if (auto *FT = dyn_cast<FunctionTemplateDecl>(D)) {
        M.push_back(json::Object{{"k", "fntmpl"}, {"name", FT->getNameAsString()}, {"params", params(FT->getTemplateParameters())}, {"f", fnBody(FT->getTemplatedDecl())}});
      } else if (auto *S = dyn_cast<StaticAssertDecl>(D)) {
        M.push_back(json::Object{{"k", "static_assert"}, {"e", expr(S->getAssertExpr())}});
      } else if (isa<AccessSpecDecl>(D) || isa<EmptyDecl>(D)) {
      } else if (auto *U = dyn_cast<UnresolvedUsingTypenameDecl>(D)) {
        M.push_back(json::Object{{"k", "typedef"}, {"name", U->getNameAsString()}, {"t", json::Object{{"k", "dep"}, {"q", nns(U->getQualifier())}, {"name", U->getNameAsString()}}}});
      } else if (auto *U = dyn_cast<UsingDecl>(D)) {
        for (auto *Sh : U->shadows()) {
          if (auto *TT = dyn_cast<TypeDecl>(Sh->getTargetDecl()))
            M.push_back(json::Object{{"k", "typedef"}, {"name", U->getNameAsString()}, {"t", type(Ctx.getTypeDeclType(TT))}});
          else if (isa<ClassTemplateDecl>(Sh->getTargetDecl()) || isa<TypeAliasTemplateDecl>(Sh->getTargetDecl()))
            M.push_back(json::Object{{"k", "usingtmpl"}, {"name", U->getNameAsString()}, {"t", tmplDecl(cast<TemplateDecl>(Sh->getTargetDecl()))}});
        }
      } else {
        M.push_back(json::Object{{"k", "other"}, {"what", D->getDeclKindName()}});
      }
    }
    O["members"] = std::move(M);
    return O;
  }

  json::Value decl(const Decl *D) {
    if (auto *CT = dyn_cast<ClassTemplateDecl>(D)) {
      const ClassTemplateDecl *C = cast<ClassTemplateDecl>(CT->getCanonicalDecl());
      const CXXRecordDecl *Pat = C->getTemplatedDecl();
      const TemplateParameterList *TPL = C->getTemplateParameters();
      if (auto *Def = Pat->getDefinition())
        if (auto *DT = Def->getDescribedClassTemplate()) TPL = DT->getTemplateParameters();
      json::Object O{{"kind", "classtemplate"}, {"name", C->getNameAsString()}, {"qname", C->getQualifiedNameAsString()},
                     {"loc", loc(Pat->getDefinition() ? Pat->getDefinition() : Pat)}, {"params", params(TPL)},
                     {"depth", TPL->getDepth()}, {"root", inRoot(Pat->getDefinition() ? Pat->getDefinition() : Pat)}};
      if (auto *P = dyn_cast<CXXRecordDecl>(C->getDeclContext())) O["parent"] = id(P);
      O["pattern"] = id(Pat);
      // default args may sit on another redeclaration
      json::Array Defs;
      for (auto *RD : C->redecls()) Defs.push_back(params(cast<ClassTemplateDecl>(RD)->getTemplateParameters()));
      O["redecl_params"] = std::move(Defs);
      json::Array Ps;
      llvm::SmallVector<ClassTemplatePartialSpecializationDecl *, 8> PSs;
      const_cast<ClassTemplateDecl *>(C)->getPartialSpecializations(PSs);
      for (auto *PS : PSs) {
        Ps.push_back(json::Object{{"params", params(PS->getTemplateParameters())},
                                  {"args", args(PS->getTemplateArgs().asArray())},
                                  {"id", id(PS)}, {"root", inRoot(PS)}});
      }
      O["partials"] = std::move(Ps);
      json::Array Es;
      for (auto *S : C->specializations()) {
        if (S->getSpecializationKind() == TSK_ExplicitSpecialization)
          Es.push_back(json::Object{{"args", args(S->getTemplateArgs().asArray())}, {"id", id(S)}, {"root", inRoot(S)}});
      }
      O["explicits"] = std::move(Es);
      return O;
    }
    if (auto *A = dyn_cast<TypeAliasTemplateDecl>(D)) {
      json::Object O{{"kind", "aliastemplate"}, {"name", A->getNameAsString()}, {"qname", A->getQualifiedNameAsString()},
                     {"loc", loc(A)}, {"params", params(A->getTemplateParameters())}, {"depth", A->getTemplateParameters()->getDepth()},
                     {"t", type(A->getTemplatedDecl()->getUnderlyingType())}, {"root", inRoot(A)}};
      if (auto *P = dyn_cast<CXXRecordDecl>(A->getDeclContext())) O["parent"] = id(P);
      return O;
    }
    if (auto *R = dyn_cast<CXXRecordDecl>(D)) return record(R);
    if (auto *F = dyn_cast<FunctionTemplateDecl>(D)) {
      const FunctionTemplateDecl *Def = F;
      for (auto *RD : F->redecls())
        if (cast<FunctionTemplateDecl>(RD)->getTemplatedDecl()->doesThisDeclarationHaveABody()) Def = cast<FunctionTemplateDecl>(RD);
      return json::Object{{"kind", "fntmpl"}, {"qname", F->getQualifiedNameAsString()}, {"loc", loc(F)},
                          {"params", params(Def->getTemplateParameters())}, {"depth", F->getTemplateParameters()->getDepth()}, {"f", fnBody(Def->getTemplatedDecl())}};
    }
    if (auto *F = dyn_cast<FunctionDecl>(D))
      return json::Object{{"kind", "fn"}, {"qname", F->getQualifiedNameAsString()}, {"loc", loc(F)}, {"f", fnBody(F)}};
    return json::Object{{"kind", "unsupported"}, {"what", D->getDeclKindName()}};
  }

  void names(const DeclContext *DC) {
    for (const Decl *D : DC->decls()) {
      if (auto *NS = dyn_cast<NamespaceDecl>(D)) { names(NS); continue; }
      if (auto *L = dyn_cast<LinkageSpecDecl>(D)) { names(L); continue; }
      if (!inRoot(D)) continue;
      if (D->isImplicit()) continue;
      auto *N = dyn_cast<NamedDecl>(D);
      if (!N) continue;
      json::Object O{{"loc", loc(D)}};
      if (auto *U = dyn_cast<UsingDecl>(D)) {
        for (auto *Sh : U->shadows()) {
          json::Object P{{"name", U->getQualifiedNameAsString()}, {"using", Sh->getTargetDecl()->getQualifiedNameAsString()}, {"loc", loc(D)}};
          Names.push_back(std::move(P));
        }
        continue;
      }
      O["name"] = N->getQualifiedNameAsString();
      if (auto *T = dyn_cast<TypedefNameDecl>(D)) {
        if (T->getDescribedTemplate()) continue;
        O["k"] = "typedef"; O["t"] = type(T->getUnderlyingType());
      } else if (auto *T = dyn_cast<ClassTemplateDecl>(D)) { O["k"] = "classtemplate"; O["id"] = id(T); }
      else if (auto *T = dyn_cast<TypeAliasTemplateDecl>(D)) { O["k"] = "aliastemplate"; O["id"] = id(T); }
      else if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(D)) { id(S->getSpecializedTemplate()); continue; }
      else if (auto *T = dyn_cast<CXXRecordDecl>(D)) { O["k"] = "record"; O["id"] = id(T); }
      else if (auto *T = dyn_cast<FunctionTemplateDecl>(D)) { O["k"] = "fntmpl"; O["id"] = id(T); }
      else if (auto *T = dyn_cast<FunctionDecl>(D)) { O["k"] = "fn"; O["id"] = id(T); }
      else { O["k"] = "other"; O["what"] = D->getDeclKindName(); }
      Names.push_back(std::move(O));
    }
  }
  json::Value run() {
    names(Ctx.getTranslationUnitDecl());
    while (!Work.empty()) {
      const Decl *D = Work.front();
      Work.pop_front();
      Decls[std::to_string(Ids[D])] = decl(D);
    }
    return json::Object{{"decls", std::move(Decls)}, {"names", std::move(Names)}};
  }
};

int main(int argc, char **argv) {
  std::string Out, In;
  std::vector<std::string> Args;
  for (int I = 1; I < argc; ++I) {
    std::string A = argv[I];
    if (A == "--root") Roots.push_back(argv[++I]);
    else if (A == "--out") Out = argv[++I];
    else if (A == "--in") In = argv[++I];
    else Args.push_back(A);
  }
  std::ifstream F(In);
  std::stringstream SS;
  SS << F.rdbuf();
  std::unique_ptr<ASTUnit> AU = tooling::buildASTFromCodeWithArgs(SS.str(), Args, In, "tmv-dump");
  if (!AU) { llvm::errs() << "no AST\n"; return 2; }
  bool Err = AU->getDiagnostics().hasErrorOccurred();
  Dumper D(AU->getASTContext());
  json::Value V = D.run();
  std::error_code EC;
  llvm::raw_fd_ostream OS(Out, EC);
  OS << V;
  OS.close();
  return Err ? 3 : 0;
}
