// Facts about the resolved program, one JSON object per translation unit: data members, variables of static storage
// duration, random engines, allocations, casts that drop const, explicit instantiation declarations, function signatures.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
namespace json = llvm::json;

static std::string repo;
struct V : RecursiveASTVisitor<V> {
    ASTContext &C;
    SourceManager &SM;
    PrintingPolicy PP;
    std::unique_ptr<MangleContext> MC;
    json::Array records, statics, engines, casts, externs, funcs, allocs, calls, frees, flows, holds, copies, mutuses, prints;
    std::map<const Decl *, std::vector<const DeclRefExpr *>> uses;
    std::vector<const FunctionDecl *> fn;
    std::set<std::string> seen;

    V(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy())
    {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
        MC.reset(ItaniumMangleContext::create(C, C.getDiagnostics()));
    }
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }

    std::string file(SourceLocation L)
    {
        L = SM.getExpansionLoc(L);
        auto P = SM.getPresumedLoc(L);
        if (P.isInvalid()) return "";
        std::string f = P.getFilename();
        llvm::SmallString<256> p(f);
        if (auto r = SM.getFileManager().getFileRef(f)) {
            f = SM.getFileManager().getCanonicalName(*r).str();
        }
        return f;
    }
    bool mine(SourceLocation L)
    {
        auto f = file(L);
        return f.rfind(repo, 0) == 0 && f.find("/thirdparties/cereal/") == std::string::npos;
    }
    std::string loc(SourceLocation L)
    {
        auto f = file(L);
        if (f.rfind(repo, 0) == 0) f = f.substr(repo.size() + 1);
        return f + ":" + std::to_string(SM.getExpansionLineNumber(L));
    }
    std::string ty(QualType T) { return T.getCanonicalType().getAsString(PP); }
    std::string name(const NamedDecl *D)
    {
        std::string s;
        llvm::raw_string_ostream o(s);
        D->getNameForDiagnostic(o, PP, true);
        return s;
    }
    bool once(const std::string &k) { return seen.insert(k).second; }
    std::string cur() { return fn.empty() ? "" : name(fn.back()); }

    bool TraverseDecl(Decl *D)
    {
        if (D && isa<NamespaceDecl>(D) && cast<NamespaceDecl>(D)->isStdNamespace()) return true;
        if (auto *F = dyn_cast_or_null<FunctionDecl>(D)) {
            fn.push_back(F);
            bool r = RecursiveASTVisitor::TraverseDecl(D);
            fn.pop_back();
            return r;
        }
        return RecursiveASTVisitor::TraverseDecl(D);
    }

    // is every subobject reached by value immutable?
    bool hasMutable(QualType T, int d = 0)
    {
        if (d > 8) return false;
        T = T.getCanonicalType();
        if (auto *A = C.getAsArrayType(T)) return hasMutable(A->getElementType(), d + 1);
        auto *R = T->getAsCXXRecordDecl();
        if (!R || !R->hasDefinition()) return false;
        for (auto *F : R->getDefinition()->fields())
            if (F->isMutable() || hasMutable(F->getType(), d + 1)) return true;
        for (auto &B : R->getDefinition()->bases())
            if (hasMutable(B.getType(), d + 1)) return true;
        return false;
    }
    // mutable objects reachable through pointers and smart pointers stored in it
    bool pointsToMutable(QualType T, int d = 0)
    {
        if (d > 4) return false;
        T = T.getCanonicalType();
        if (T->isPointerType() || T->isReferenceType())
            return !T->getPointeeType().isConstQualified() && !T->getPointeeType()->isFunctionType();
        if (auto *A = C.getAsArrayType(T)) return pointsToMutable(A->getElementType(), d + 1);
        auto *R = T->getAsCXXRecordDecl();
        if (!R || !R->hasDefinition()) return false;
        if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
            auto n = S->getName();
            if (n == "unique_ptr" || n == "shared_ptr") {
                auto &A = S->getTemplateArgs()[0];
                return A.getKind() == TemplateArgument::Type && !A.getAsType().isConstQualified();
            }
        }
        for (auto *F : R->getDefinition()->fields())
            if (pointsToMutable(F->getType(), d + 1)) return true;
        for (auto &B : R->getDefinition()->bases())
            if (pointsToMutable(B.getType(), d + 1)) return true;
        return false;
    }

    std::string vname(const VarDecl *D)
    {
        // locals are told apart by their declaration
        if (D->hasGlobalStorage()) return name(D);
        return D->getNameAsString() + "@" + loc(D->getLocation()) + ":" + std::to_string(SM.getExpansionColumnNumber(D->getLocation()));
    }
    // an engine stored by value inside an object of another type
    bool holdsEngine(QualType T, int d = 0)
    {
        if (d > 6) return false;
        T = T.getCanonicalType();
        if (T->isReferenceType() || T->isPointerType()) return false;
        if (isEngine(T)) return true;
        if (auto *A = C.getAsArrayType(T)) return holdsEngine(A->getElementType(), d + 1);
        auto *R = T->getAsCXXRecordDecl();
        if (!R || !R->hasDefinition()) return false;
        for (auto *F : R->getDefinition()->fields())
            if (holdsEngine(F->getType(), d + 1)) return true;
        for (auto &B : R->getDefinition()->bases())
            if (!B.getType()->isDependentType() && holdsEngine(B.getType(), d + 1)) return true;
        return false;
    }
    bool shallow = false;   // objects reached through pointers stored in the object do not count
    // how an lvalue (or pointer value) is used: "" when only read, otherwise what may change it
    std::string mutUse(const Expr *E, int depth)
    {
        if (depth > 40) return "deep expression";
        if (E->isTypeDependent()) return "";
        auto T = E->getType();
        if (T.isConstQualified() && !T->isPointerType() && !T->getAsCXXRecordDecl()) return "";
        auto ps = C.getParents(*E);
        if (ps.empty()) return "";
        auto &p = ps[0];
        if (auto *D = p.get<VarDecl>()) {
            auto V = D->getType();
            if (V->isReferenceType() ? V->getPointeeType().isConstQualified() : (!V->isPointerType() && !pointsToMutable(V))) return "";
            if (V->isPointerType() && V->getPointeeType().isConstQualified()) return "";
            for (auto *X : uses[D->getCanonicalDecl()])
                if (auto w = mutUse(X, depth + 1); !w.empty()) return w;
            return "";
        }
        auto *S = p.get<Stmt>();
        if (!S) return "";
        if (isa<ParenExpr>(S) || isa<MaterializeTemporaryExpr>(S) || isa<ExprWithCleanups>(S) || isa<CXXBindTemporaryExpr>(S)) return mutUse(cast<Expr>(S), depth + 1);
        if (auto *K = dyn_cast<CastExpr>(S)) {
            auto k = K->getType();
            if (K->getCastKind() == CK_LValueToRValue && !k->isPointerType()) return "";
            if (K->getCastKind() == CK_LValueToRValue && shallow && !isa<DeclRefExpr>(K->getSubExpr()->IgnoreParens())) return "";
            if (k->isPointerType() && k->getPointeeType().isConstQualified()) return "";
            if (!k->isPointerType() && K->isLValue() && k.isConstQualified() && !pointsToMutable(k)) return "";
            return mutUse(K, depth + 1);
        }
        if (auto *M = dyn_cast<MemberExpr>(S)) return mutUse(M, depth + 1);
        if (auto *A = dyn_cast<ArraySubscriptExpr>(S)) return A->getIdx()->IgnoreParenImpCasts() == E->IgnoreParenImpCasts() ? "" : mutUse(A, depth + 1);
        if (auto *U = dyn_cast<UnaryOperator>(S)) {
            if (U->isIncrementDecrementOp()) return "increment";
            if (U->getOpcode() == UO_Deref || U->getOpcode() == UO_AddrOf) return mutUse(U, depth + 1);
            return "";
        }
        if (auto *B = dyn_cast<BinaryOperator>(S)) {
            if (B->isAssignmentOp()) return B->getLHS()->IgnoreParens() == E->IgnoreParens() ? "assignment" : (E->getType()->isPointerType() ? "stored pointer" : "");
            if (B->isAdditiveOp() && B->getType()->isPointerType()) return mutUse(B, depth + 1);
            return "";
        }
        if (auto *Cn = dyn_cast<ConditionalOperator>(S)) return Cn->getCond() == E ? "" : mutUse(Cn, depth + 1);
        auto result = [&](const Expr *X) -> std::string {
            auto t = X->getType();
            if (X->isLValue()) return t.isConstQualified() && !pointsToMutable(t) ? "" : mutUse(X, depth + 1);
            if (t->isPointerType()) return t->getPointeeType().isConstQualified() ? "" : mutUse(X, depth + 1);
            if (pointsToMutable(t)) return mutUse(X, depth + 1);
            return "";
        };
        if (auto *X = dyn_cast<CallExpr>(S)) {
            const FunctionDecl *F = X->getDirectCallee();
            bool object = false;
            if (auto *O = dyn_cast<CXXOperatorCallExpr>(X); O && F && isa<CXXMethodDecl>(F) && O->getNumArgs() && O->getArg(0)->IgnoreParenImpCasts() == E->IgnoreParenImpCasts()) object = true;
            if (auto *M = dyn_cast<CXXMemberCallExpr>(X); M && M->getCallee() == E) object = true;
            if (object) {
                auto *M = dyn_cast_or_null<CXXMethodDecl>(F);
                if (auto *MC2 = dyn_cast<CXXMemberCallExpr>(X); !M && MC2) M = MC2->getMethodDecl();
                if (!M) { auto *G = fnOf(S); return G && G->isDependentContext() ? "" : "unresolved call"; }
                if (!M->isConst() && !M->isStatic()) {
                    auto n = M->getNameAsString();
                    if (n != "operator[]" && n != "begin" && n != "end" && n != "data" && n != "at" && n != "front" && n != "back") return "call of the non-const " + n;
                }
                return result(X);
            }
            if (!F) { auto *G = fnOf(S); return G && G->isDependentContext() ? "" : "unresolved call"; }
            unsigned off = isa<CXXOperatorCallExpr>(X) && isa<CXXMethodDecl>(F) ? 1 : 0;
            for (unsigned i = off; i < X->getNumArgs(); i++) {
                if (X->getArg(i)->IgnoreParenImpCasts() != E->IgnoreParenImpCasts()) continue;
                if (i - off >= F->getNumParams()) return "variadic argument";
                auto P = F->getParamDecl(i - off)->getType();
                if (P->isReferenceType() || P->isPointerType())
                    return P->getPointeeType().isConstQualified() && !pointsToMutable(P->getPointeeType()) ? "" : "passed as a modifiable argument of " + F->getNameAsString();
                return pointsToMutable(P) ? "passed to " + F->getNameAsString() : "";
            }
            return "";
        }
        if (auto *X = dyn_cast<CXXConstructExpr>(S)) {
            for (unsigned i = 0; i < X->getNumArgs() && i < X->getConstructor()->getNumParams(); i++)
                if (X->getArg(i)->IgnoreParenImpCasts() == E->IgnoreParenImpCasts()) {
                    auto P = X->getConstructor()->getParamDecl(i)->getType();
                    if (P->isReferenceType() && !P->getPointeeType().isConstQualified()) return "passed to a constructor";
                }
            return "";
        }
        if (isa<ReturnStmt>(S)) {
            auto *F = fnOf(S);
            if (!F) return "";
            auto R = F->getReturnType();
            if ((R->isReferenceType() || R->isPointerType()) && !R->getPointeeType().isConstQualified()) return "returned for modification";
            return "";
        }
        return "";
    }
    const FunctionDecl *fnOf(const Stmt *S)
    {
        DynTypedNode n = DynTypedNode::create(*S);
        for (int i = 0; i < 200; i++) {
            auto ps = C.getParents(n);
            if (ps.empty()) return nullptr;
            n = ps[0];
            if (auto *F = n.get<FunctionDecl>()) return F;
        }
        return nullptr;
    }
    // where a value comes from: allocation, call, variable, field
    json::Object origin(const Expr *E)
    {
        json::Object o;
        for (;;) {
            E = E->IgnoreParenImpCasts();
            if (auto *K = dyn_cast<ExplicitCastExpr>(E)) { E = K->getSubExpr(); continue; }
            if (auto *K = dyn_cast<ExprWithCleanups>(E)) { E = K->getSubExpr(); continue; }
            if (auto *K = dyn_cast<InitListExpr>(E); K && K->getNumInits() == 1) { E = K->getInit(0); continue; }
            break;
        }
        if (auto *N = dyn_cast<CXXNewExpr>(E)) { o["kind"] = N->isArray() ? "new[]" : "new"; o["type"] = ty(N->getAllocatedType()); }
        else if (auto *X = dyn_cast<CXXMemberCallExpr>(E); X && X->getMethodDecl() && (X->getMethodDecl()->getNameAsString() == "get" || X->getMethodDecl()->getNameAsString() == "release" || X->getMethodDecl()->getNameAsString() == "data")) {
            o["kind"] = "inner"; o["name"] = X->getMethodDecl()->getNameAsString();
        }
        else if (auto *X = dyn_cast<CallExpr>(E)) { auto *F = X->getDirectCallee(); o["kind"] = "call"; o["name"] = F ? F->getQualifiedNameAsString() : ""; }
        else if (auto *R = dyn_cast<DeclRefExpr>(E)) {
            if (auto *D = dyn_cast<VarDecl>(R->getDecl())) {
                o["kind"] = "var"; o["name"] = vname(D);
                if (auto *P = dyn_cast<ParmVarDecl>(D)) { o["param"] = (int64_t)P->getFunctionScopeIndex(); }
            }
        }
        else if (auto *M = dyn_cast<MemberExpr>(E)) {
            if (auto *F = dyn_cast<FieldDecl>(M->getMemberDecl())) { o["kind"] = "field"; o["name"] = fname(F); o["base"] = origin(M->getBase()); }
        }
        else if (isa<CXXThisExpr>(E)) o["kind"] = "this";
        if (!o.get("kind")) { o["kind"] = "other"; o["class"] = E->getStmtClassName(); }
        return o;
    }
    std::string fname(const FieldDecl *F) { return name(F->getParent()) + "::" + F->getNameAsString(); }
    void flow(const std::string &kind, const std::string &to, const Expr *from)
    {
        if (!from || from->isTypeDependent()) return;
        auto o = origin(from);
        auto k = o.getString("kind");
        if (!k || *k == "other") return;
        json::Object x;
        x["to"] = kind; x["name"] = to; x["from"] = std::move(o); x["function"] = cur(); x["qual"] = fn.empty() ? "" : fn.back()->getQualifiedNameAsString(); x["at"] = loc(from->getBeginLoc());
        flows.push_back(std::move(x));
    }
    bool VisitBinaryOperator(BinaryOperator *B)
    {
        if (B->getOpcode() != BO_Assign || !mine(B->getBeginLoc()) || B->isTypeDependent() || !B->getType()->isPointerType()) return true;
        auto o = origin(B->getLHS());
        auto k = o.getString("kind"), n = o.getString("name");
        if (k && n && (*k == "var" || *k == "field")) flow(k->str(), n->str(), B->getRHS());
        else flow("unknown", "", B->getRHS());
        return true;
    }
    bool VisitReturnStmt(ReturnStmt *R)
    {
        if (!mine(R->getBeginLoc()) || !R->getRetValue() || R->getRetValue()->isTypeDependent() || !R->getRetValue()->getType()->isPointerType()) return true;
        flow("return", fn.empty() ? "" : fn.back()->getQualifiedNameAsString(), R->getRetValue());
        return true;
    }
    bool TraverseConstructorInitializer(CXXCtorInitializer *I)
    {
        if (I->isMemberInitializer() && I->getInit() && mine(I->getSourceLocation()) && I->getMember()->getType()->isPointerType())
            flow("field", fname(I->getMember()), I->getInit());
        return RecursiveASTVisitor::TraverseConstructorInitializer(I);
    }
    // the thing an allocating expression ends up in
    json::Object sink(const Expr *E)
    {
        json::Object o;
        DynTypedNode n = DynTypedNode::create(*E);
        const Expr *prev = E;
        for (int i = 0; i < 30; i++) {
            auto ps = C.getParents(n);
            if (ps.empty()) break;
            n = ps[0];
            if (auto *D = n.get<VarDecl>()) {
                auto *R = D->getType()->getAsCXXRecordDecl();
                if (R) { o["kind"] = "smart"; o["type"] = ty(D->getType()); }
                else { o["kind"] = "var"; o["name"] = vname(D); }
                return o;
            }
            if (n.get<CXXCtorInitializer>()) { auto *I = n.get<CXXCtorInitializer>(); if (I->isMemberInitializer()) { o["kind"] = "field"; o["name"] = fname(I->getMember()); } return o; }
            auto *S = n.get<Stmt>();
            if (!S) break;
            if (auto *X = dyn_cast<CXXConstructExpr>(S)) {
                if (X->getType()->getAsCXXRecordDecl()) { o["kind"] = "smart"; o["type"] = ty(X->getType()); o["args"] = (int64_t)X->getNumArgs(); return o; }
            }
            if (auto *X = dyn_cast<CXXMemberCallExpr>(S)) {
                auto *M = X->getMethodDecl();
                o["kind"] = M && M->getNameAsString() == "reset" ? "smart" : "argument";
                o["type"] = ty(X->getImplicitObjectArgument()->getType().getNonReferenceType());
                o["name"] = M ? M->getQualifiedNameAsString() : "";
                o["args"] = (int64_t)X->getNumArgs();
                return o;
            }
            if (auto *X = dyn_cast<CallExpr>(S)) { o["kind"] = "argument"; o["name"] = X->getDirectCallee() ? X->getDirectCallee()->getQualifiedNameAsString() : ""; return o; }
            if (auto *B = dyn_cast<BinaryOperator>(S)) {
                if (B->getOpcode() == BO_Assign) {
                    auto q = origin(B->getLHS());
                    return q;
                }
                return o;
            }
            if (isa<ReturnStmt>(S)) { o["kind"] = "return"; o["name"] = fn.empty() ? "" : fn.back()->getQualifiedNameAsString(); return o; }
            if (isa<CastExpr>(S) || isa<ParenExpr>(S) || isa<ExprWithCleanups>(S) || isa<InitListExpr>(S) || isa<CXXBindTemporaryExpr>(S) || isa<MaterializeTemporaryExpr>(S) || isa<ConditionalOperator>(S)) continue;
            if (isa<CXXNewExpr>(S) || isa<CompoundStmt>(S) || isa<ForStmt>(S) || isa<IfStmt>(S)) { o["kind"] = "discarded"; return o; }
            if (isa<DeclStmt>(S)) continue;
            break;
        }
        (void)prev;
        o["kind"] = "other";
        return o;
    }
    // is the statement executed whenever its function body is?
    bool unconditional(const Stmt *E)
    {
        DynTypedNode n = DynTypedNode::create(*E);
        for (int i = 0; i < 60; i++) {
            auto ps = C.getParents(n);
            if (ps.empty()) return true;
            n = ps[0];
            if (n.get<FunctionDecl>()) return true;
            auto *S = n.get<Stmt>();
            if (S && (isa<IfStmt>(S) || isa<ForStmt>(S) || isa<WhileStmt>(S) || isa<DoStmt>(S) || isa<SwitchStmt>(S) || isa<CXXForRangeStmt>(S) || isa<ConditionalOperator>(S) || isa<LambdaExpr>(S))) return false;
        }
        return true;
    }
    // is a loop between the statement and its function body?
    bool inLoop(const Stmt *E)
    {
        DynTypedNode n = DynTypedNode::create(*E);
        for (int i = 0; i < 60; i++) {
            auto ps = C.getParents(n);
            if (ps.empty()) return false;
            n = ps[0];
            if (n.get<FunctionDecl>()) return false;
            auto *S = n.get<Stmt>();
            if (S && (isa<ForStmt>(S) || isa<WhileStmt>(S) || isa<DoStmt>(S) || isa<CXXForRangeStmt>(S))) return true;
        }
        return false;
    }
    struct UseCollector : RecursiveASTVisitor<UseCollector> {
        std::map<const Decl *, std::vector<const DeclRefExpr *>> &m;
        UseCollector(std::map<const Decl *, std::vector<const DeclRefExpr *>> &m) : m(m) {}
        bool shouldVisitTemplateInstantiations() const { return true; }
        bool VisitDeclRefExpr(DeclRefExpr *E) { if (isa<VarDecl>(E->getDecl())) m[E->getDecl()->getCanonicalDecl()].push_back(E); return true; }
    };

    struct Refs : RecursiveASTVisitor<Refs> {
        std::set<std::string> r;
        std::set<const Decl *> own;
        const VarDecl *self;
        bool VisitVarDecl(VarDecl *D) { own.insert(D); return true; }
        bool VisitDeclRefExpr(DeclRefExpr *E)
        {
            auto *D = dyn_cast<VarDecl>(E->getDecl());
            if (D && D != self && !own.count(D) && D->hasLocalStorage()) r.insert(D->getNameAsString());
            return true;
        }
        bool VisitCXXThisExpr(CXXThisExpr *E) { if (!lambda) r.insert("this"); return true; }
        int lambda = 0;
    };

    bool VisitVarDecl(VarDecl *D)
    {
        if (!mine(D->getLocation())) return true;
        if (!D->getType()->isDependentType() && !isEngine(D->getType()) && holdsEngine(D->getType())) {
            json::Object o;
            o["what"] = "variable " + name(D); o["type"] = ty(D->getType()); o["at"] = loc(D->getLocation()); o["function"] = cur();
            holds.push_back(std::move(o));
        }
        if (isa<ParmVarDecl>(D)) return true;
        if (!D->hasGlobalStorage()) {
            if (D->hasInit() && !D->getType()->isDependentType()) flow("var", vname(D), D->getInit());
            return true;
        }
        json::Object o;
        o["dependent"] = D->getType()->isDependentType();
        std::string fnn = D->isStaticLocal() ? cur() : "";
        o["name"] = name(D); o["at"] = loc(D->getLocation()); o["type"] = ty(D->getType());
        if (!once("v" + name(D) + loc(D->getLocation()) + ty(D->getType()))) return true;
        o["function"] = fnn;
        o["constexpr"] = D->isConstexpr();
        o["const"] = D->getType().isConstQualified() || (C.getAsArrayType(D->getType()) && C.getBaseElementType(D->getType()).isConstQualified());
        bool dep = D->getType()->isDependentType();
        o["mutable_part"] = !dep && hasMutable(D->getType());
        o["points_to_mutable"] = !dep && pointsToMutable(D->getType());
        std::string why;
        if (!dep && !D->getTLSKind() && pointsToMutable(D->getType()))
            for (auto *E : uses[D->getCanonicalDecl()])
                if (auto w = mutUse(E, 0); !w.empty()) { why = w + " at " + loc(E->getBeginLoc()); break; }
        o["written_through"] = why;
        o["written"] = D->getType().getAsString(C.getPrintingPolicy());
        o["tls"] = D->getTLSKind() != VarDecl::TLS_None;
        o["local"] = D->isStaticLocal();
        o["constinit"] = D->hasInit() && !dep && !D->getInit()->isValueDependent() && D->hasConstantInitialization();
        if (D->hasInit() && !dep)
            if (auto *K = dyn_cast<CXXConstructExpr>(D->getInit()->IgnoreImplicit())) {
                json::Array a;
                for (auto *A : K->arguments()) {
                    Expr::EvalResult R;
                    if (!A->isValueDependent() && A->EvaluateAsInt(R, C)) a.push_back(R.Val.getInt().getExtValue());
                    else a.push_back(nullptr);
                }
                o["ctor_args"] = std::move(a);
            }
        if (D->hasInit()) {
            Refs R; R.self = D;
            R.TraverseStmt(const_cast<Expr *>(D->getInit()));
            json::Array a;
            for (auto &x : R.r) a.push_back(x);
            o["captures"] = std::move(a);
        }
        statics.push_back(std::move(o));
        return true;
    }

    bool VisitCXXRecordDecl(CXXRecordDecl *D)
    {
        if (!D->isThisDeclarationADefinition() || D->isDependentType() || !mine(D->getLocation()) || D->isLambda()) return true;
        if (!once("r" + name(D))) return true;
        if (D->isInvalidDecl()) return true;
        auto &L = C.getASTRecordLayout(D);
        json::Object o;
        o["name"] = name(D); o["at"] = loc(D->getLocation());
        json::Array fs;
        for (auto *F : D->fields()) {
            json::Object f;
            f["name"] = F->getNameAsString();
            f["type"] = ty(F->getType());
            f["written"] = F->getType().getAsString(C.getPrintingPolicy());
            f["offset"] = (int64_t)L.getFieldOffset(F->getFieldIndex()) / 8;
            f["size"] = (int64_t)C.getTypeSizeInChars(F->getType()).getQuantity();
            f["mutable"] = F->isMutable();
            f["at"] = loc(F->getLocation());
            auto *R = F->getType()->getAsCXXRecordDecl();
            f["lib_record"] = R && mine(R->getLocation()) ? name(R) : "";
            f["access"] = F->getAccess() == AS_public ? "public" : "other";
            fs.push_back(std::move(f));
        }
        o["fields"] = std::move(fs);
        o["size"] = (int64_t)L.getSize().getQuantity();
        json::Array ms;
        for (auto *M : D->decls()) {
            if (auto *T = dyn_cast<FunctionTemplateDecl>(M)) ms.push_back(T->getNameAsString());
            else if (auto *F = dyn_cast<CXXMethodDecl>(M)) ms.push_back(F->getNameAsString());
        }
        o["methods"] = std::move(ms);
        o["user_dtor"] = D->hasUserDeclaredDestructor();
        bool copyable = D->hasSimpleCopyConstructor() || D->hasUserDeclaredCopyConstructor();
        for (auto *K : D->ctors())
            if (K->isCopyConstructor() && K->isDeleted()) copyable = false;
        o["copyable"] = copyable;
        json::Array bs;
        for (auto &B : D->bases()) bs.push_back(ty(B.getType()));
        o["bases"] = std::move(bs);
        records.push_back(std::move(o));
        return true;
    }

    // a uniform random bit generator: result_type, min(), max() and operator()()
    bool isEngine(QualType T)
    {
        T = T.getNonReferenceType().getUnqualifiedType().getCanonicalType();
        auto *R = T->getAsCXXRecordDecl();
        if (!R || !R->hasDefinition()) return false;
        bool mn = false, mx = false, call = false, rt = false;
        for (auto *M : R->getDefinition()->methods()) {
            auto n = M->getNameAsString();
            if (n == "min" && M->isStatic()) mn = true;
            if (n == "max" && M->isStatic()) mx = true;
            if (n == "operator()" && M->getNumParams() == 0) call = true;
        }
        for (auto *X : R->getDefinition()->decls())
            if (auto *N = dyn_cast<TypedefNameDecl>(X); N && N->getNameAsString() == "result_type") rt = true;
        return mn && mx && call && rt;
    }
    bool VisitCXXConstructExpr(CXXConstructExpr *E)
    {
        if (!mine(E->getBeginLoc())) return true;
        if (E->getConstructor()->isCopyOrMoveConstructor() && !E->isElidable() && mine(E->getConstructor()->getParent()->getLocation())) {
            json::Object o;
            o["type"] = name(E->getConstructor()->getParent()); o["at"] = loc(E->getBeginLoc()); o["function"] = cur();
            copies.push_back(std::move(o));
        }
        if (!isEngine(E->getType())) {
            if (holdsEngine(E->getType())) {
                json::Object o;
                o["what"] = "object"; o["type"] = ty(E->getType()); o["at"] = loc(E->getBeginLoc()); o["function"] = cur();
                holds.push_back(std::move(o));
            }
            return true;
        }
        json::Object o;
        o["type"] = ty(E->getType()); o["at"] = loc(E->getBeginLoc()); o["function"] = cur();
        o["copy"] = E->getConstructor()->isCopyOrMoveConstructor();
        json::Array a;
        for (auto *A : E->arguments()) {
            auto *X = A->IgnoreParenImpCasts();
            json::Object q;
            q["type"] = ty(X->getType());
            if (auto *R = dyn_cast<DeclRefExpr>(X)) {
                q["ref"] = name(R->getDecl());
                if (auto *VD = dyn_cast<VarDecl>(R->getDecl())) q["shared"] = VD->hasGlobalStorage() && VD->getTLSKind() == VarDecl::TLS_None;
            }
            q["lvalue"] = X->isLValue();
            q["default"] = isa<CXXDefaultArgExpr>(A);
            a.push_back(std::move(q));
        }
        o["args"] = std::move(a);
        engines.push_back(std::move(o));
        return true;
    }
    // functions and operators that matter for some rule
    bool VisitCallExpr(CallExpr *E)
    {
        if (!mine(E->getBeginLoc())) return true;
        auto *F = E->getDirectCallee();
        if (!F) return true;
        if (!E->isTypeDependent() && !isEngine(E->getType()) && !E->isLValue() && holdsEngine(E->getType())) {
            json::Object o;
            o["what"] = "result of " + F->getNameAsString(); o["type"] = ty(E->getType()); o["at"] = loc(E->getBeginLoc()); o["function"] = cur();
            holds.push_back(std::move(o));
        }
        if (auto n = F->getNameAsString(); (n == "malloc" || n == "calloc" || n == "realloc" || n == "aligned_alloc" || n == "posix_memalign" || n == "memalign" || n == "_mm_malloc" || n == "fftw_malloc" || n == "mmap") && !F->isCXXClassMember()) {
            json::Object o;
            o["kind"] = n; o["type"] = ""; o["at"] = loc(E->getBeginLoc()); o["function"] = cur(); o["sink"] = sink(E); o["loop"] = inLoop(E);
            o["qual"] = fn.empty() ? "" : fn.back()->getQualifiedNameAsString();
            allocs.push_back(std::move(o));
        }
        else if ((n == "free" || n == "_mm_free" || n == "fftw_free" || n == "munmap") && !F->isCXXClassMember() && E->getNumArgs()) {
            json::Object o;
            o["kind"] = n; o["type"] = ""; o["at"] = loc(E->getBeginLoc()); o["function"] = cur(); o["operand"] = origin(E->getArg(0)); o["always"] = unconditional(E);
            o["qual"] = fn.empty() ? "" : fn.back()->getQualifiedNameAsString();
            frees.push_back(std::move(o));
        }
        else if (mine(F->getLocation()) || (F->getTemplateInstantiationPattern() && mine(F->getTemplateInstantiationPattern()->getLocation()))) {
            // pointers handed to library functions
            for (unsigned i = 0; i < E->getNumArgs() && i < F->getNumParams(); i++)
                if (F->getParamDecl(i)->getType()->isPointerType()) {
                    auto q = origin(E->getArg(i));
                    auto k = q.getString("kind");
                    if (!k || *k == "other" || *k == "new" || *k == "new[]") continue;
                    json::Object x;
                    x["to"] = "arg"; x["name"] = F->getQualifiedNameAsString(); x["index"] = (int64_t)i; x["from"] = std::move(q); x["function"] = cur();
                    x["qual"] = fn.empty() ? "" : fn.back()->getQualifiedNameAsString(); x["at"] = loc(E->getBeginLoc()); x["always"] = unconditional(E);
                    flows.push_back(std::move(x));
                }
        }
        // what is printed or written to a file
        {
            auto n = F->getNameAsString();
            bool out = n == "printf" || n == "fprintf" || n == "fwrite" || n == "write" || n == "puts" || n == "fputs" || n == "snprintf" || n == "sprintf";
            bool ostr = (n == "operator<<" || n == "write" || n == "put") && E->getNumArgs() + F->isCXXClassMember() >= 2;
            if (ostr) {
                QualType T;
                if (auto *M = dyn_cast<CXXMemberCallExpr>(E)) T = M->getImplicitObjectArgument()->getType();
                else if (E->getNumArgs()) T = E->getArg(0)->getType();
                out = !T.isNull() && ty(T).find("ostream") != std::string::npos;
            }
            if (out) {
                struct Tys : RecursiveASTVisitor<Tys> {
                    V *v; json::Array a;
                    bool VisitDeclRefExpr(DeclRefExpr *R) { if (isa<VarDecl>(R->getDecl())) a.push_back(R->getType().getAsString(v->C.getPrintingPolicy())); return true; }
                    bool VisitMemberExpr(MemberExpr *R) { a.push_back(R->getType().getAsString(v->C.getPrintingPolicy())); return true; }
                } q;
                q.v = this;
                q.TraverseStmt(E);
                json::Object o;
                o["callee"] = name(F); o["at"] = loc(E->getBeginLoc()); o["function"] = cur(); o["types"] = std::move(q.a);
                prints.push_back(std::move(o));
            }
        }
        static const std::set<std::string> names = {"rand", "srand", "random", "srandom", "drand48", "lrand48", "mrand48", "erand48", "nrand48", "jrand48", "arc4random", "arc4random_uniform", "rand_r", "time", "clock", "gettimeofday", "getpid",
            "malloc", "calloc", "realloc", "free", "aligned_alloc", "posix_memalign", "memalign", "_mm_malloc", "_mm_free", "fftw_malloc", "fftw_free",
            "setenv", "putenv", "getenv", "system", "printf", "fprintf", "puts", "putchar", "fputs", "fwrite", "fopen", "open", "write", "now",
            "memcpy", "memset", "seed"};
        auto n = F->getNameAsString();
        if (auto *M = dyn_cast<CXXMethodDecl>(F); M && isEngine(C.getRecordType(M->getParent()))) {
            if (n == "seed" || n == "reseed" || n == "discard" || n == "operator=") {
                json::Object o;
                o["callee"] = name(F); o["at"] = loc(E->getBeginLoc()); o["function"] = cur(); o["engine"] = true;
                calls.push_back(std::move(o));
            }
            return true;
        }
        if (!names.count(n)) return true;
        json::Object o;
        o["callee"] = name(F); o["at"] = loc(E->getBeginLoc()); o["function"] = cur(); o["engine"] = false;
        calls.push_back(std::move(o));
        return true;
    }
    // references to an engine object: which variable
    bool VisitDeclRefExpr(DeclRefExpr *E)
    {
        if (!mine(E->getBeginLoc())) return true;
        auto *D = dyn_cast<VarDecl>(E->getDecl());
        if (D && isEngine(D->getType())) {
            json::Object o;
            o["use"] = name(D); o["at"] = loc(E->getBeginLoc()); o["function"] = cur(); o["type"] = ty(D->getType());
            o["tls"] = D->getTLSKind() != VarDecl::TLS_None; o["param"] = isa<ParmVarDecl>(D); o["shared"] = D->hasGlobalStorage() && D->getTLSKind() == VarDecl::TLS_None; o["local"] = D->hasLocalStorage();
            engines.push_back(std::move(o));
        }
        // the streams
        if (D && !D->hasLocalStorage()) {
            auto n = D->getQualifiedNameAsString();
            if (n == "std::cout" || n == "std::cerr" || n == "std::clog" || n == "stdout" || n == "stderr") {
                json::Object o;
                o["callee"] = n; o["at"] = loc(E->getBeginLoc()); o["function"] = cur(); o["engine"] = false;
                calls.push_back(std::move(o));
            }
        }
        return true;
    }
    bool VisitCastExpr(CastExpr *E)
    {
        if (!mine(E->getBeginLoc())) return true;
        if (!isa<ExplicitCastExpr>(E)) return true;
        QualType a = E->getSubExpr()->getType(), b = E->getType();
        bool drop = false;
        auto pt = [](QualType T) { return T->isPointerType() || T->isReferenceType() ? T->getPointeeType() : QualType(); };
        auto *X = cast<ExplicitCastExpr>(E);
        QualType w = X->getTypeAsWritten();
        if (w->isReferenceType()) { a = E->getSubExpr()->getType(); drop = a.isConstQualified() && !w->getPointeeType().isConstQualified() && !w->getPointeeType()->isDependentType() && !w->isRValueReferenceType(); }
        else if (!pt(a).isNull() && !pt(b).isNull()) drop = pt(a).isConstQualified() && !pt(b).isConstQualified();
        if (drop) {
            json::Object o;
            o["at"] = loc(E->getBeginLoc()); o["function"] = cur(); o["from"] = ty(a); o["to"] = ty(w);
            shallow = true;
            o["use"] = mutUse(X, 0);
            shallow = false;
            casts.push_back(std::move(o));
        }
        return true;
    }
    bool VisitFunctionDecl(FunctionDecl *D)
    {
        if (!mine(D->getLocation())) return true;
        if (!D->isDependentContext() && !isa<CXXDeductionGuideDecl>(D) && !D->isDeleted() && !D->isDefaulted()) {
            auto K = D->getTemplateSpecializationKind();
            // "needs": declared here, to be defined by some translation unit of the library; "gives": defined by this unit for others
            bool plain = K == TSK_Undeclared && !D->isTemplated();
            bool needs = K == TSK_ExplicitInstantiationDeclaration || (plain && !D->isDefined() && D->isExternallyVisible());
            bool gives = K == TSK_ExplicitInstantiationDefinition || (plain && D->isThisDeclarationADefinition() && D->isExternallyVisible());
            if (needs || gives) {
                std::string s;
                llvm::raw_string_ostream o(s);
                if (auto *X = dyn_cast<CXXConstructorDecl>(D)) MC->mangleName(GlobalDecl(X, Ctor_Complete), o);
                else if (auto *X = dyn_cast<CXXDestructorDecl>(D)) MC->mangleName(GlobalDecl(X, Dtor_Complete), o);
                else if (MC->shouldMangleDeclName(D)) MC->mangleName(GlobalDecl(D), o);
                else o << D->getNameAsString();
                o.flush();
                if (once((needs ? "e" : "g") + s)) {
                    json::Object x;
                    x["name"] = name(D); x["mangled"] = s; x["needs"] = needs;
                    x["at"] = loc(K == TSK_Undeclared ? D->getLocation() : D->getPointOfInstantiation());
                    externs.push_back(std::move(x));
                }
            }
        }
        if (!D->isDependentContext() && !once("f" + name(D) + ty(D->getType()))) return true;
        if (D->isDependentContext() && !once("F" + loc(D->getLocation()))) return true;
        json::Object o;
        o["name"] = D->getQualifiedNameAsString(); o["at"] = loc(D->getLocation());
        o["template"] = D->isDependentContext();
        o["body"] = D->hasBody();
        json::Array ps;
        for (auto *P : D->parameters()) ps.push_back(P->getType().getAsString(C.getPrintingPolicy()));
        o["params"] = std::move(ps);
        o["ret"] = D->getReturnType().getAsString(C.getPrintingPolicy());
        funcs.push_back(std::move(o));
        return true;
    }
    bool VisitCXXNewExpr(CXXNewExpr *E)
    {
        if (!mine(E->getBeginLoc()) || E->isTypeDependent()) return true;
        json::Object o;
        o["kind"] = E->isArray() ? "new[]" : "new";
        o["type"] = ty(E->getAllocatedType()); o["at"] = loc(E->getBeginLoc()); o["function"] = cur();
        if (auto *F = E->getOperatorNew()) {
            json::Array ps;
            for (auto *P : F->parameters()) ps.push_back(ty(P->getType()));
            o["params"] = std::move(ps);
        }
        bool al = false;
        if (!E->getAllocatedType()->isDependentType() && !E->getAllocatedType()->isIncompleteType())
            al = C.getTypeAlignIfKnown(E->getAllocatedType()) > C.getTargetInfo().getNewAlign();
        o["overaligned"] = al;
        o["sink"] = sink(E);
        o["loop"] = inLoop(E);
        o["qual"] = fn.empty() ? "" : fn.back()->getQualifiedNameAsString();
        o["placement"] = (int64_t)E->getNumPlacementArgs();
        allocs.push_back(std::move(o));
        return true;
    }
    bool VisitCXXDeleteExpr(CXXDeleteExpr *E)
    {
        if (!mine(E->getBeginLoc()) || E->isTypeDependent()) return true;
        json::Object o;
        o["kind"] = E->isArrayForm() ? "delete[]" : "delete";
        auto D = E->getDestroyedType();
        o["type"] = ty(D.isNull() ? E->getArgument()->getType() : D.getUnqualifiedType()); o["at"] = loc(E->getBeginLoc()); o["function"] = cur();
        o["operand"] = origin(E->getArgument()); o["always"] = unconditional(E);
        o["qual"] = fn.empty() ? "" : fn.back()->getQualifiedNameAsString();
        frees.push_back(std::move(o));
        return true;
    }
};

struct Consumer : ASTConsumer {
    void HandleTranslationUnit(ASTContext &C) override
    {
        V v(C);
        V::UseCollector(v.uses).TraverseDecl(C.getTranslationUnitDecl());
        v.TraverseDecl(C.getTranslationUnitDecl());
        json::Object o;
        o["records"] = std::move(v.records); o["statics"] = std::move(v.statics); o["engines"] = std::move(v.engines);
        o["casts"] = std::move(v.casts); o["externs"] = std::move(v.externs); o["functions"] = std::move(v.funcs); o["prints"] = std::move(v.prints);
        o["allocs"] = std::move(v.allocs); o["calls"] = std::move(v.calls);
        o["frees"] = std::move(v.frees); o["flows"] = std::move(v.flows); o["holds"] = std::move(v.holds); o["copies"] = std::move(v.copies);
        llvm::outs() << json::Value(std::move(o)) << "\n";
    }
};
struct Action : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override { return std::make_unique<Consumer>(); }
};
int main(int argc, char **argv)
{
    // astfacts REPO FILE -- flags
    repo = argv[1];
    std::vector<std::string> args{"clang++-18"};
    for (int i = 4; i < argc; i++) args.push_back(argv[i]);
    args.push_back("-fsyntax-only");
    args.push_back(argv[2]);
    llvm::IntrusiveRefCntPtr<FileManager> FM(new FileManager(FileSystemOptions()));
    tooling::ToolInvocation T(args, std::make_unique<Action>(), FM.get());
    return T.run() ? 0 : 1;
}
