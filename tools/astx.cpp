// astx: facts about the type-checked program that the IR no longer shows.
//   astx out.json file.cpp -- flags
// classes: fields, bases, how copying and destruction are provided
// formats: boost::format chains - the literal, how many arguments are fed to it, where
// debug:   effects and calls written inside the arguments of debug-only macros
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/Mangle.h>
#include <clang/AST/ParentMapContext.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/VTableBuilder.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendActions.h>
#include <clang/Lex/Lexer.h>
#include <clang/Sema/Sema.h>
#include <clang/Sema/SemaConsumer.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <set>

using namespace clang;
namespace json = llvm::json;

static json::Array classes, formats, deletes, debug, vcalls;
static int64_t ndebug;
static std::set<std::string> seenAst;

struct V : RecursiveASTVisitor<V> {
    ASTContext &C;
    Sema &S;
    SourceManager &SM;
    std::vector<FunctionDecl *> fstack;
    V(ASTContext &c, Sema &s) : C(c), S(s), SM(c.getSourceManager()) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }

    std::string file(SourceLocation l) {
        auto p = SM.getPresumedLoc(SM.getExpansionLoc(l));
        return p.isValid() ? p.getFilename() : "";
    }
    int line(SourceLocation l) {
        auto p = SM.getPresumedLoc(SM.getExpansionLoc(l));
        return p.isValid() ? p.getLine() : 0;
    }
    static bool sys(const std::string &f) { return f.compare(0, 5, "/usr/") == 0 || f.empty() || f[0] == '<'; }

    std::string tname(QualType t) {
        PrintingPolicy pp(C.getLangOpts());
        pp.FullyQualifiedName = true; pp.PrintCanonicalTypes = true; pp.SuppressTagKeyword = true;
        return t.getCanonicalType().getAsString(pp);
    }

    bool VisitCXXRecordDecl(CXXRecordDecl *d) {
        if (!d->isThisDeclarationADefinition() || d->isDependentType() || d->isLambda()) return true;
        std::string f = file(d->getLocation());
        if (sys(f)) return true;
        if (!seenAst.insert(tname(C.getRecordType(d))).second) return true;
        S.ForceDeclarationOfImplicitMembers(d);
        json::Object o;
        o["name"] = tname(C.getRecordType(d));
        o["file"] = f; o["line"] = line(d->getLocation());
        auto how = [](const CXXMethodDecl *m) -> std::string {
            if (!m) return "none";
            if (m->isDeleted()) return "deleted";
            if (m->isImplicit() || m->isDefaulted()) return "implicit";
            if (m->getAccess() == AS_private) return "private";
            return "user";
        };
        const CXXMethodDecl *cc = nullptr, *ca = nullptr, *mc = nullptr, *ma = nullptr;
        for (auto *c : d->ctors()) { if (c->isCopyConstructor()) cc = c; if (c->isMoveConstructor()) mc = c; }
        for (auto *m : d->methods()) { if (m->isCopyAssignmentOperator()) ca = m; if (m->isMoveAssignmentOperator()) ma = m; }
        o["copy_ctor"] = how(cc); o["copy_assign"] = how(ca); o["move_ctor"] = how(mc); o["move_assign"] = how(ma);
        o["dtor"] = d->getDestructor() ? (d->getDestructor()->isImplicit() ? "implicit" : "user") : "none";
        bool uc = false; for (auto *c : d->ctors()) if (c->isUserProvided()) uc = true;
        o["user_ctor"] = uc;
        o["polymorphic"] = d->isPolymorphic();
        o["abstract"] = d->isAbstract();
        o["vdtor"] = d->getDestructor() && d->getDestructor()->isVirtual();
        json::Array bs;
        for (auto &b : d->bases()) bs.push_back(tname(b.getType()));
        o["bases"] = std::move(bs);
        json::Array fs;
        for (auto *fd : d->fields()) {
            json::Object x;
            x["name"] = fd->getNameAsString(); x["type"] = tname(fd->getType());
            x["mutable"] = fd->isMutable(); x["init"] = fd->hasInClassInitializer();
            x["ptr"] = fd->getType()->isPointerType(); x["scalar"] = fd->getType()->isScalarType();
            x["line"] = line(fd->getLocation());
            fs.push_back(std::move(x));
        }
        o["fields"] = std::move(fs);
        json::Array pm;
        for (auto *m : d->methods()) if (m->getAccess() == AS_private) pm.push_back(m->getNameAsString());
        o["private_methods"] = std::move(pm);
        classes.push_back(std::move(o));
        return true;
    }

    bool TraverseFunctionDecl(FunctionDecl *d) { fstack.push_back(d); bool r = RecursiveASTVisitor::TraverseFunctionDecl(d); fstack.pop_back(); return r; }
    bool TraverseCXXMethodDecl(CXXMethodDecl *d) { fstack.push_back(d); bool r = RecursiveASTVisitor::TraverseCXXMethodDecl(d); fstack.pop_back(); return r; }
    bool TraverseCXXConstructorDecl(CXXConstructorDecl *d) { fstack.push_back(d); bool r = RecursiveASTVisitor::TraverseCXXConstructorDecl(d); fstack.pop_back(); return r; }
    bool TraverseCXXDestructorDecl(CXXDestructorDecl *d) { fstack.push_back(d); bool r = RecursiveASTVisitor::TraverseCXXDestructorDecl(d); fstack.pop_back(); return r; }
    std::string fn() { return fstack.empty() ? "" : fstack.back()->getQualifiedNameAsString(); }

    // virtual calls of member functions that may change the object
    bool VisitCXXMemberCallExpr(CXXMemberCallExpr *e) {
        const CXXMethodDecl *m = e->getMethodDecl();
        if (!m || !m->isVirtual() || m->isConst()) return true;
        if (auto *me = dyn_cast<MemberExpr>(e->getCallee()->IgnoreParens())) if (me->hasQualifier()) return true;
        std::string f = file(e->getExprLoc());
        if (sys(f)) return true;
        json::Object o;
        o["file"] = f; o["line"] = line(e->getExprLoc()); o["line2"] = line(e->getBeginLoc()); o["fn"] = fn(); o["callee"] = m->getQualifiedNameAsString();
        if (auto *vt = dyn_cast<ItaniumVTableContext>(C.getVTableContext())) o["slot"] = (int64_t)vt->getMethodVTableIndex(m) * 8;
        vcalls.push_back(std::move(o));
        return true;
    }

    bool VisitCXXDeleteExpr(CXXDeleteExpr *e) {
        std::string f = file(e->getBeginLoc());
        if (sys(f)) return true;
        json::Object o;
        o["file"] = f; o["line"] = line(e->getBeginLoc()); o["fn"] = fn(); o["array"] = e->isArrayForm();
        deletes.push_back(std::move(o));
        return true;
    }

    // -- debug-only macros -----------------------------------------------------
    bool inDebugArg(SourceLocation l) {
        if (!l.isMacroID()) return false;
        SourceLocation sp = SM.getSpellingLoc(l);
        bool hit = false;
        while (l.isMacroID()) {
            StringRef n = Lexer::getImmediateMacroName(l, SM, C.getLangOpts());
            if (n.starts_with("DEBUG_")) hit = true;
            l = SM.getImmediateMacroCallerLoc(l);
        }
        StringRef f = SM.getFilename(sp);
        return hit && !f.ends_with("AssertBoost.hpp") && !sys(f.str());
    }
    void dbg(const Stmt *e, const std::string &what, const std::string &callee = "", const std::string &name = "") {
        json::Object o;
        o["file"] = file(e->getBeginLoc()); o["line"] = line(e->getBeginLoc()); o["fn"] = fn(); o["what"] = what; o["callee"] = callee; o["name"] = name;
        debug.push_back(std::move(o));
    }
    bool VisitStmt(Stmt *e) {
        if (auto *x = dyn_cast<Expr>(e)) if (x->isInstantiationDependent()) return true;
        SourceLocation l = e->getBeginLoc();
        if (auto *oc = dyn_cast<CXXOperatorCallExpr>(e)) l = oc->getOperatorLoc();
        if (!inDebugArg(l)) return true;
        ++ndebug;
        if (auto *b = dyn_cast<BinaryOperator>(e)) { if (b->isAssignmentOp()) dbg(e, "assignment"); }
        else if (auto *u = dyn_cast<UnaryOperator>(e)) { if (u->isIncrementDecrementOp()) dbg(e, "increment or decrement"); }
        else if (isa<CXXNewExpr>(e)) dbg(e, "new");
        else if (isa<CXXDeleteExpr>(e)) dbg(e, "delete");
        else if (auto *c = dyn_cast<CallExpr>(e)) {
            if (auto *fd = c->getDirectCallee()) {
                ASTNameGenerator g(C);
                std::string how = "call";
                if (auto *m = dyn_cast<CXXMethodDecl>(fd)) if (!m->isStatic() && !m->isConst()) how = "call of a non-const method";
                dbg(e, how, g.getName(fd), fd->getQualifiedNameAsString());
            }
        }
        return true;
    }

    // -- boost::format chains --------------------------------------------------
    std::set<const Expr *> inner;       // chain links already covered by a longer chain

    static const Expr *strip(const Expr *e) {
        while (true) {
            const Expr *n = e->IgnoreParenImpCasts();
            if (auto *m = dyn_cast<MaterializeTemporaryExpr>(n)) n = m->getSubExpr();
            else if (auto *b = dyn_cast<CXXBindTemporaryExpr>(n)) n = b->getSubExpr();
            else if (auto *w = dyn_cast<ExprWithCleanups>(n)) n = w->getSubExpr();
            else if (auto *f = dyn_cast<CXXFunctionalCastExpr>(n)) n = f->getSubExpr();
            else if (auto *c = dyn_cast<CXXConstructExpr>(n)) {
                if ((c->isElidable() || (c->getConstructor()->isCopyOrMoveConstructor())) && c->getNumArgs() >= 1) n = c->getArg(0);
            }
            if (n == e) return e;
            e = n;
        }
    }
    bool isFormat(QualType t) {
        t = t.getNonReferenceType();
        if (auto *r = t->getAsCXXRecordDecl()) return r->getNameAsString() == "basic_format";
        return false;
    }
    bool chain(const Expr *e, int &n, const Expr *&lit, bool &ok) {
        e = strip(e);
        if (auto *op = dyn_cast<CXXOperatorCallExpr>(e)) {
            if (op->getOperator() == OO_Percent && op->getNumArgs() == 2 && isFormat(op->getArg(0)->getType())) {
                inner.insert(strip(op->getArg(0)));
                if (!chain(op->getArg(0), n, lit, ok)) return false;
                ++n;
                return true;
            }
            return false;
        }
        if (auto *mc = dyn_cast<CXXMemberCallExpr>(e)) {
            (void)mc; ok = false;
            return false;
        }
        if (auto *c = dyn_cast<CXXConstructExpr>(e)) {
            if (isFormat(c->getType()) && c->getNumArgs() >= 1) { lit = strip(c->getArg(0)); return true; }
            return false;
        }
        return false;
    }
    bool literal(const Expr *e, std::string &out) {
        e = strip(e);
        if (auto *s = dyn_cast<StringLiteral>(e)) { if (s->getCharByteWidth() == 1) { out = s->getString().str(); return true; } return false; }
        if (auto *c = dyn_cast<CXXConstructExpr>(e)) { if (c->getNumArgs() >= 1) return literal(c->getArg(0), out); return false; }
        if (auto *o = dyn_cast<ConditionalOperator>(e)) { (void)o; return false; }
        return false;
    }
    void format(const Expr *e) {
        int n = 0; const Expr *lit = nullptr; bool ok = true;
        if (!chain(e, n, lit, ok) || !lit) return;
        std::string f = file(e->getBeginLoc());
        if (sys(f)) return;
        std::string s; bool have = literal(lit, s);
        json::Object o;
        o["file"] = f; o["line"] = line(e->getBeginLoc()); o["fn"] = fn(); o["n"] = n; o["known"] = have;
        bool ascii = true; for (char ch : s) if ((unsigned char)ch >= 0x80) ascii = false;
        if (!ascii) o["known"] = false;
        o["lit"] = ascii ? s : "";
        // is the chain the initialiser of a named object (arguments may follow later)?
        bool named = false;
        DynTypedNode node = DynTypedNode::create(*e);
        for (int k = 0; k < 12; ++k) {
            auto ps = C.getParents(node);
            if (ps.empty()) break;
            node = ps[0];
            if (auto *vd = node.get<VarDecl>()) { named = isFormat(vd->getType()); break; }
            if (node.get<CallExpr>()) break;
            if (!node.get<Expr>()) break;
        }
        o["named"] = named;
        formats.push_back(std::move(o));
    }
    bool VisitCXXOperatorCallExpr(CXXOperatorCallExpr *e) {
        if (e->isTypeDependent()) return true;
        if (e->getOperator() == OO_Percent && !inner.count(e)) { int n = 0; const Expr *l = nullptr; bool ok = true; (void)n; (void)l; (void)ok; if (isFormat(e->getArg(0)->getType())) format(e); }
        return true;
    }
    bool VisitCXXConstructExpr(CXXConstructExpr *e) {
        if (e->isTypeDependent() || !isFormat(e->getType()) || inner.count(e)) return true;
        if (e->getConstructor()->isCopyOrMoveConstructor()) return true;
        if (e->getNumArgs() < 1) return true;
        format(e);
        return true;
    }
};

struct Cons : SemaConsumer {
    Sema *S = nullptr;
    void InitializeSema(Sema &s) override { S = &s; }
    void ForgetSema() override { S = nullptr; }
    void HandleTranslationUnit(ASTContext &c) override {
        if (c.getDiagnostics().hasUncompilableErrorOccurred()) return;
        V v(c, *S);
        v.TraverseDecl(c.getTranslationUnitDecl());
    }
};
struct Act : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Cons>(); }
};

int main(int argc, const char **argv) {
    if (argc < 4) return 3;
    std::string out = argv[1], src = argv[2];
    std::vector<std::string> args;
    for (int i = 4; i < argc; ++i) args.push_back(argv[i]);
    args.push_back("-resource-dir=/usr/lib/llvm-18/lib/clang/18");
    tooling::FixedCompilationDatabase db(".", args);
    tooling::ClangTool tool(db, {src});
    if (tool.run(tooling::newFrontendActionFactory<Act>().get())) return 1;
    std::error_code ec;
    llvm::raw_fd_ostream os(out, ec);
    json::Object o;
    o["classes"] = std::move(classes); o["formats"] = std::move(formats); o["deletes"] = std::move(deletes); o["debug"] = std::move(debug); o["debug_nodes"] = ndebug; o["vcalls"] = std::move(vcalls);
    os << json::Value(std::move(o)) << "\n";
    return 0;
}
