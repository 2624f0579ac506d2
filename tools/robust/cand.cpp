// cand: lists behaviour-preserving rewrites ("r:...") and behaviour-changing mutations ("m:...") of the functions of a source.
// Usage: cand OUT REPO_ROOT SOURCE -- clang args...     one JSON record per line
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/ParentMapContext.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Lex/Lexer.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <cstdio>
#include <set>
#include <string>
#include <vector>
using namespace clang;
static std::string REPO;
static FILE* OUT;
struct Edit { unsigned off, len; std::string txt; };

struct V : RecursiveASTVisitor<V>
{
    ASTContext& A;
    SourceManager& SM;
    LangOptions LO;
    PrintingPolicy PP;
    FunctionDecl* fn = nullptr;
    int n = 0;
    explicit V(ASTContext& a) : A(a), SM(a.getSourceManager()), LO(a.getLangOpts()), PP(a.getLangOpts())
    {
        PP.SuppressTagKeyword = true; PP.Bool = true; PP.FullyQualifiedName = true; PP.PrintCanonicalTypes = true;
    }
    bool shouldVisitTemplateInstantiations() const { return false; }
    std::string file(SourceLocation l)
    {
        if (l.isInvalid() || l.isMacroID()) return "";
        auto fe = SM.getFileEntryRefForID(SM.getFileID(l));
        if (! fe) return "";
        std::string rp = fe->getFileEntry().tryGetRealPathName().str();
        if (rp.compare(0, REPO.size(), REPO)) return "";
        rp = rp.substr(REPO.size());
        if (rp.compare(0, 4, "src/") && rp.compare(0, 8, "include/")) return "";
        return rp;
    }
    bool ok(SourceRange r) { return r.isValid() && ! r.getBegin().isMacroID() && ! r.getEnd().isMacroID() && SM.getFileID(r.getBegin()) == SM.getFileID(r.getEnd()); }
    unsigned b(SourceRange r) { return SM.getFileOffset(r.getBegin()); }
    unsigned e(SourceRange r) { return SM.getFileOffset(Lexer::getLocForEndOfToken(r.getEnd(), 0, SM, LO)); }
    std::string txt(SourceRange r)
    {
        bool inv = false;
        auto buf = SM.getBufferData(SM.getFileID(r.getBegin()), &inv);
        return buf.substr(b(r), e(r) - b(r)).str();
    }
    // statement range including the semicolon
    bool stmtRange(const Stmt* s, unsigned& x, unsigned& y)
    {
        SourceRange r = s->getSourceRange();
        if (! ok(r)) return false;
        x = b(r); y = e(r);
        if (isa<CompoundStmt>(s) || isa<IfStmt>(s) || isa<ForStmt>(s) || isa<WhileStmt>(s) || isa<CXXForRangeStmt>(s) || isa<SwitchStmt>(s) || isa<CXXTryStmt>(s))
        {
            // these end with their last sub-statement
            const Stmt* last = s;
            while (true)
            {
                if (auto* i = dyn_cast<IfStmt>(last)) last = i->getElse() ? i->getElse() : i->getThen();
                else if (auto* f = dyn_cast<ForStmt>(last)) last = f->getBody();
                else if (auto* f = dyn_cast<WhileStmt>(last)) last = f->getBody();
                else if (auto* f = dyn_cast<CXXForRangeStmt>(last)) last = f->getBody();
                else if (auto* f = dyn_cast<SwitchStmt>(last)) last = f->getBody();
                else break;
            }
            if (isa<CompoundStmt>(last) || isa<CXXTryStmt>(last)) return true;
            unsigned x2;
            return stmtRange(last, x2, y);
        }
        if (isa<DeclStmt>(s)) return true;   // includes ';'
        bool inv = false;
        auto buf = SM.getBufferData(SM.getFileID(r.getBegin()), &inv);
        while (y < buf.size() && isspace((unsigned char)buf[y])) ++y;
        if (y < buf.size() && buf[y] == ';') { ++y; return true; }
        return false;
    }
    std::string stxt(const Stmt* s)
    {
        unsigned x, y;
        if (! stmtRange(s, x, y)) return "";
        bool inv = false;
        return SM.getBufferData(SM.getFileID(s->getBeginLoc()), &inv).substr(x, y - x).str();
    }
    void emit(const char* kind, SourceLocation at, std::vector<Edit> ed)
    {
        if (! fn) return;
        std::string f = file(at);
        if (f.empty()) return;
        llvm::json::Array E;
        for (auto& x : ed) E.push_back(llvm::json::Array{ (int64_t)x.off, (int64_t)x.len, x.txt });
        std::string q;
        llvm::raw_string_ostream os(q);
        fn->printQualifiedName(os);
        llvm::json::Object o{ { "k", kind }, { "f", f }, { "q", os.str() }, { "l", (int64_t)SM.getSpellingLineNumber(at) }, { "e", std::move(E) } };
        std::string s;
        llvm::raw_string_ostream os2(s);
        os2 << llvm::json::Value(std::move(o));
        fprintf(OUT, "%s\n", os2.str().c_str());
    }
    void rep(const char* kind, const Stmt* s, std::string t)
    {
        SourceRange r = s->getSourceRange();
        if (! ok(r)) return;
        emit(kind, r.getBegin(), { { b(r), e(r) - b(r), t } });
    }
    void reps(const char* kind, const Stmt* s, std::string t)
    {
        unsigned x, y;
        if (! stmtRange(s, x, y)) return;
        emit(kind, s->getBeginLoc(), { { x, y - x, t } });
    }
    static bool jumps(const Stmt* s)
    {
        if (auto* c = dyn_cast<CompoundStmt>(s)) return ! c->body_empty() && jumps(c->body_back());
        if (isa<ReturnStmt>(s) || isa<ContinueStmt>(s) || isa<BreakStmt>(s)) return true;
        if (auto* x = dyn_cast<ExprWithCleanups>(s)) return jumps(x->getSubExpr());
        if (isa<CXXThrowExpr>(s)) return true;
        return false;
    }
    template <class F>
    static bool any(const Stmt* s, F f, bool intoLambda = false)
    {
        if (! s) return false;
        if (f(s)) return true;
        if (! intoLambda && isa<LambdaExpr>(s)) return false;
        for (auto* c : s->children()) if (any(c, f, intoLambda)) return true;
        return false;
    }
    static bool hasEscape(const Stmt* s, int loop = 0, int sw = 0)   // return/break/continue leaving s
    {
        if (! s || isa<LambdaExpr>(s)) return false;
        if (isa<ReturnStmt>(s) || isa<GotoStmt>(s)) return true;
        if (isa<BreakStmt>(s)) return loop + sw == 0;
        if (isa<ContinueStmt>(s)) return loop == 0;
        int l = loop + (isa<ForStmt>(s) || isa<WhileStmt>(s) || isa<DoStmt>(s) || isa<CXXForRangeStmt>(s));
        int w = sw + isa<SwitchStmt>(s);
        for (auto* c : s->children()) if (hasEscape(c, l, w)) return true;
        return false;
    }
    static bool hasContinue(const Stmt* s)   // a continue of the enclosing loop
    {
        if (! s || isa<LambdaExpr>(s)) return false;
        if (isa<ContinueStmt>(s)) return true;
        if (isa<ForStmt>(s) || isa<WhileStmt>(s) || isa<DoStmt>(s) || isa<CXXForRangeStmt>(s)) return false;
        for (auto* c : s->children()) if (hasContinue(c)) return true;
        return false;
    }
    // no calls except const member functions / operators on builtin
    static bool pure(const Stmt* s)
    {
        return ! any(s, [](const Stmt* x) {
            if (auto* m = dyn_cast<CXXMemberCallExpr>(x)) { auto* d = m->getMethodDecl(); return ! d || ! d->isConst(); }
            if (isa<CXXOperatorCallExpr>(x))
            {
                auto* d = dyn_cast_or_null<FunctionDecl>(cast<CXXOperatorCallExpr>(x)->getCalleeDecl());
                if (! d) return true;
                if (auto* md = dyn_cast<CXXMethodDecl>(d)) return ! md->isConst();
                for (auto* p : d->parameters()) if (p->getType()->isReferenceType() && ! p->getType()->getPointeeType().isConstQualified()) return true;
                return false;
            }
            if (isa<CallExpr>(x)) return true;
            if (auto* u = dyn_cast<UnaryOperator>(x)) return u->isIncrementDecrementOp();
            if (auto* bo = dyn_cast<BinaryOperator>(x)) return bo->isAssignmentOp();
            if (isa<LambdaExpr>(x) || isa<CXXNewExpr>(x) || isa<CXXDeleteExpr>(x) || isa<CXXThrowExpr>(x)) return true;
            return false;
        });
    }
    // same without any call
    static bool plain(const Stmt* s)
    {
        return pure(s) && ! any(s, [](const Stmt* x) { return isa<CallExpr>(x) || isa<CXXConstructExpr>(x); });
    }
    static std::string braces(const std::string& s) { return "{\n" + s + "\n}"; }
    std::string block(const Stmt* s) { return isa<CompoundStmt>(s) ? stxt(s) : braces(stxt(s)); }
    std::string nm(const char* p) { char bf[64]; snprintf(bf, sizeof bf, "%s_zz%d", p, ++n); return bf; }
    const char* opp(BinaryOperatorKind k)
    {
        switch (k)
        {
        case BO_LT: return ">="; case BO_GT: return "<="; case BO_LE: return ">"; case BO_GE: return "<"; case BO_EQ: return "!="; case BO_NE: return "==";
        default: return nullptr;
        }
    }
    const char* flip(BinaryOperatorKind k)
    {
        switch (k)
        {
        case BO_LT: return ">"; case BO_GT: return "<"; case BO_LE: return ">="; case BO_GE: return "<="; case BO_EQ: return "=="; case BO_NE: return "!=";
        default: return nullptr;
        }
    }

    bool TraverseFunctionDecl(FunctionDecl* f) { return within(f, [&] { return RecursiveASTVisitor::TraverseFunctionDecl(f); }); }
    bool TraverseCXXMethodDecl(CXXMethodDecl* f) { return within(f, [&] { return RecursiveASTVisitor::TraverseCXXMethodDecl(f); }); }
    bool TraverseCXXConstructorDecl(CXXConstructorDecl* f) { return within(f, [&] { return RecursiveASTVisitor::TraverseCXXConstructorDecl(f); }); }
    template <class F>
    bool within(FunctionDecl* f, F g)
    {
        if (f->isDefaulted() || f->isImplicit() || f->isConstexpr() || ! f->doesThisDeclarationHaveABody() || file(f->getLocation()).empty()) return fn ? g() : (f->getBody() == nullptr ? g() : g());
        auto* o = fn;
        if (! fn || ! isa<CXXMethodDecl>(f) || ! cast<CXXMethodDecl>(f)->getParent()->isLambda()) fn = f;
        bool r = g();
        fn = o;
        return r;
    }
    bool isLambdaCall(FunctionDecl* f) { auto* m = dyn_cast<CXXMethodDecl>(f); return m && m->getParent()->isLambda(); }

    bool VisitIfStmt(IfStmt* s)
    {
        if (s->getConditionVariable() || s->getInit() || s->isConstexpr() || ! ok(s->getSourceRange())) return true;
        Expr* c = s->getCond();
        std::string ct = txt(c->getSourceRange());
        if (s->getElse())
        {
            if (! isa<IfStmt>(s->getElse()))
                reps("r:ifswap", s, "if (! (" + ct + "))\n" + block(s->getElse()) + "\nelse\n" + block(s->getThen()));
            auto ps = A.getParents(*s);
            if (! ps.empty() && ps[0].get<CompoundStmt>() && jumps(s->getThen()) && stxt(s->getThen()).size())
                reps("r:elsedrop", s, "if (" + ct + ")\n" + block(s->getThen()) + "\n" + block(s->getElse()));
        }
        else
        {
            if (auto* bo = dyn_cast<BinaryOperator>(c->IgnoreParens()))
                if (bo->getOpcode() == BO_LAnd)
                    reps("r:ifnest", s, "if (" + txt(bo->getLHS()->getSourceRange()) + ")\n{\nif (" + txt(bo->getRHS()->getSourceRange()) + ")\n" + block(s->getThen()) + "\n}");
        }
        // condition in a variable
        if (! any(c, [](const Stmt* x) { return isa<DeclRefExpr>(x) && false; }))
        {
            auto P = A.getParents(*s);
            if (! P.empty() && P[0].get<CompoundStmt>())
            {
                std::string v = nm("cond");
                reps("r:condvar", s, "const bool " + v + " = static_cast<bool>(" + ct + ");\nif (" + v + ")\n" + block(s->getThen()) + (s->getElse() ? "\nelse\n" + block(s->getElse()) : ""));
            }
        }
        rep("m:negcond", c, "! (" + ct + ")");
        return true;
    }
    bool VisitCompoundStmt(CompoundStmt* s)
    {
        if (! ok(s->getSourceRange()) || ! fn) return true;
        std::vector<Stmt*> B(s->body_begin(), s->body_end());
        auto par = A.getParents(*s);
        bool loopBody = false, fnBody = false;
        if (! par.empty())
        {
            if (par[0].get<ForStmt>() || par[0].get<WhileStmt>() || par[0].get<CXXForRangeStmt>()) loopBody = true;
            if (auto* d = par[0].get<FunctionDecl>()) fnBody = d->getReturnType()->isVoidType();
            else if (auto* d = par[0].get<CXXMethodDecl>()) fnBody = d->getReturnType()->isVoidType();
        }
        for (size_t i = 0; i < B.size(); ++i)
        {
            auto* f = dyn_cast<IfStmt>(B[i]);
            if (f && ! f->getElse() && ! f->getConditionVariable() && ! f->getInit() && ! f->isConstexpr() && ok(f->getSourceRange()))
            {
                std::string ct = txt(f->getCond()->getSourceRange());
                if (jumps(f->getThen()) && i + 1 < B.size())
                {
                    // guard -> else
                    unsigned x, y, x2, y2;
                    if (stmtRange(f, x, y) && stmtRange(B.back(), x2, y2))
                    {
                        bool inv = false;
                        std::string rest = SM.getBufferData(SM.getFileID(f->getBeginLoc()), &inv).substr(y, y2 - y).str();
                        emit("r:guard2else", f->getBeginLoc(), { { x, y2 - x, "if (" + ct + ")\n" + block(f->getThen()) + "\nelse\n{\n" + rest + "\n}" } });
                        std::string th = stxt(f->getThen());
                        if (auto* c = dyn_cast<CompoundStmt>(f->getThen())) if (c->size() == 1) th = stxt(c->body_back());
                        // drop "return;" / "continue;" alone
                        if ((th == "return;" && fnBody) || (th == "continue;" && loopBody))
                            emit("r:guardnest", f->getBeginLoc(), { { x, y2 - x, "if (! (" + ct + "))\n{\n" + rest + "\n}" } });
                    }
                }
                if (i + 1 == B.size() && (loopBody || fnBody) && isa<CompoundStmt>(f->getThen()))
                {
                    std::string th = stxt(f->getThen());
                    reps("r:earlyexit", f, std::string("if (! (") + ct + "))\n{\n" + (loopBody ? "continue" : "return") + ";\n}\n" + th.substr(1, th.size() - 2));
                }
                if (i + 1 < B.size())
                {
                    // if (c) return a; return b;
                    const Stmt* t = f->getThen();
                    if (auto* c = dyn_cast<CompoundStmt>(t)) if (c->size() == 1) t = c->body_back();
                    auto* r1 = dyn_cast<ReturnStmt>(t);
                    auto* r2 = dyn_cast<ReturnStmt>(B[i + 1]);
                    if (r1 && r2 && r1->getRetValue() && r2->getRetValue() && r1->getRetValue()->getType() == r2->getRetValue()->getType() && r1->getRetValue()->getType()->isScalarType())
                    {
                        unsigned x, y, x2, y2;
                        if (stmtRange(f, x, y) && stmtRange(r2, x2, y2))
                            emit("r:ret2tern", f->getBeginLoc(), { { x, y2 - x, "return (" + ct + ") ? (" + txt(r1->getRetValue()->getSourceRange()) + ") : (" + txt(r2->getRetValue()->getSourceRange()) + ");" } });
                    }
                }
            }
            // adjacent independent statements
            if (i + 1 < B.size()) swapAdj(B[i], B[i + 1]);
            // statement groups moved into a local lambda
            if (! isa<DeclStmt>(B[i]) && ! isa<NullStmt>(B[i]) && ! isa<ReturnStmt>(B[i]) && ! hasEscape(B[i]) && stxt(B[i]).size() && (isa<IfStmt>(B[i]) || isa<ForStmt>(B[i]) || isa<CXXForRangeStmt>(B[i]) || isa<WhileStmt>(B[i])))
            {
                std::string h = nm("step");
                reps("r:lambda", B[i], "auto " + h + " = [&]()\n{\n" + stxt(B[i]) + "\n};\n" + h + "();");
                helperStmt(B[i]);
            }
            // mutations: drop a statement
            if (! isa<DeclStmt>(B[i]) && ! isa<ReturnStmt>(B[i]) && ! isa<NullStmt>(B[i])) reps("m:drop", B[i], ";");
        }
        return true;
    }
    void refs(const Stmt* s, std::set<const VarDecl*>& rd, std::set<const VarDecl*>& wr, bool& other, bool isw = false)
    {
        if (! s) return;
        if (auto* d = dyn_cast<DeclRefExpr>(s))
        {
            if (auto* v = dyn_cast<VarDecl>(d->getDecl())) { rd.insert(v); if (isw) wr.insert(v); }
        }
        for (auto* c : s->children()) refs(c, rd, wr, other, isw);
    }
    void swapAdj(Stmt* a, Stmt* c)
    {
        auto* d1 = dyn_cast<DeclStmt>(a);
        auto* d2 = dyn_cast<DeclStmt>(c);
        unsigned x, y, x2, y2;
        if (! stmtRange(a, x, y) || ! stmtRange(c, x2, y2)) return;
        bool inv = false;
        auto buf = SM.getBufferData(SM.getFileID(a->getBeginLoc()), &inv);
        std::string mid = buf.substr(y, x2 - y).str();
        if (mid.find("//") != std::string::npos || mid.find('#') != std::string::npos) return;
        auto doit = [&](const char* k) { emit(k, a->getBeginLoc(), { { x, y2 - x, buf.substr(x2, y2 - x2).str() + mid + buf.substr(x, y - x).str() } }); };
        if (d1 && d2 && d1->isSingleDecl() && d2->isSingleDecl())
        {
            auto* v1 = dyn_cast<VarDecl>(d1->getSingleDecl());
            auto* v2 = dyn_cast<VarDecl>(d2->getSingleDecl());
            if (! v1 || ! v2 || isa<DecompositionDecl>(v1) || isa<DecompositionDecl>(v2)) return;
            if ((v1->getInit() && ! pure(v1->getInit())) || (v2->getInit() && ! pure(v2->getInit()))) return;
            if (v1->getType()->isDependentType() || v2->getType()->isDependentType()) return;
            std::set<const VarDecl*> r, w; bool o = false;
            refs(v2->getInit(), r, w, o);
            if (r.count(v1)) return;
            // alias: a reference to something
            doit("r:swapdecl");
            return;
        }
        // two assignments of scalars/members by plain expressions
        auto* e1 = dyn_cast<BinaryOperator>(a);
        auto* e2 = dyn_cast<BinaryOperator>(c);
        if (e1 && e2 && e1->getOpcode() == BO_Assign && e2->getOpcode() == BO_Assign && plain(e1->getRHS()) && plain(e2->getRHS()) && plain(e1->getLHS()) && plain(e2->getLHS()))
        {
            auto names = [&](const Stmt* s) {
                std::set<std::string> R;
                any(s, [&](const Stmt* z) { if (auto* m = dyn_cast<MemberExpr>(z)) R.insert(m->getMemberDecl()->getNameAsString()); if (auto* q = dyn_cast<DeclRefExpr>(z)) R.insert(q->getDecl()->getNameAsString()); return false; });
                return R;
            };
            auto last = [&](const Expr* q) -> std::string {
                q = q->IgnoreParenImpCasts();
                if (auto* m = dyn_cast<MemberExpr>(q)) return m->getMemberDecl()->getNameAsString();
                if (auto* m = dyn_cast<DeclRefExpr>(q)) return m->getDecl()->getType()->isReferenceType() ? "" : m->getDecl()->getNameAsString();
                return "";
            };
            std::string l1 = last(e1->getLHS()), l2 = last(e2->getLHS());
            if (l1.empty() || l2.empty() || l1 == l2) return;
            auto n1 = names(e1), n2 = names(e2);
            if (n2.count(l1) || n1.count(l2)) return;
            doit("r:swapassign");
        }
    }
    // real helper: the statement becomes a static function taking what it uses by reference
    struct Use { std::vector<const VarDecl*> vars; bool thisUsed = false, bad = false; };
    void uses(const Stmt* s, Use& u, std::set<const Decl*>& local)
    {
        if (! s) return;
        if (auto* d = dyn_cast<DeclStmt>(s)) for (auto* x : d->decls()) local.insert(x);
        if (auto* f = dyn_cast<CXXForRangeStmt>(s)) { local.insert(f->getLoopVariable()); }
        if (isa<CXXThisExpr>(s)) u.thisUsed = true;
        if (auto* l = dyn_cast<LambdaExpr>(s))
        {
            for (auto* p : l->getCallOperator()->parameters()) local.insert(p);
            uses(l->getBody(), u, local);
            for (auto& c : l->captures()) { if (c.capturesThis()) u.thisUsed = true; if (l->isInitCapture(&c)) u.bad = true; }
            return;
        }
        if (auto* d = dyn_cast<DeclRefExpr>(s))
        {
            if (isa<BindingDecl>(d->getDecl())) { u.bad = true; }
            if (auto* v = dyn_cast<VarDecl>(d->getDecl()))
                if (! v->hasGlobalStorage() && ! local.count(v) && std::find(u.vars.begin(), u.vars.end(), v) == u.vars.end()) u.vars.push_back(v);
        }
        for (auto* c : s->children()) uses(c, u, local);
    }
    bool namable(QualType t)
    {
        t = t.getCanonicalType();
        if (t->isDependentType()) return false;
        std::string s = t.getAsString(PP);
        return s.find("lambda") == std::string::npos && s.find("anonymous") == std::string::npos && s.find("type-parameter") == std::string::npos;
    }
    SourceLocation fnStart(FunctionDecl* f)
    {
        return f->getDescribedFunctionTemplate() ? f->getDescribedFunctionTemplate()->getBeginLoc() : f->getBeginLoc();
    }
    void helperStmt(Stmt* s) { helper(s, nullptr); }
    void helper(Stmt* s, Expr* ex)
    {
        if (! fn || fn->isDependentContext() || isLambdaCall(fn)) return;
        if (SM.getFileID(fn->getLocation()) != SM.getMainFileID()) return;
        if (isa<CXXMethodDecl>(fn) && fn->isInlined() && fn->getLexicalParent() == fn->getParent()) return;
        Use u;
        std::set<const Decl*> local;
        uses(ex ? (Stmt*)ex : s, u, local);
        if (u.bad) return;
        if (u.thisUsed) return;
        std::string ps, as;
        for (auto* v : u.vars)
        {
            QualType t = v->getType().getNonReferenceType();
            if (! namable(t)) return;
            if (t->isPointerType() && t->isFunctionPointerType()) return;
            if (ps.size()) { ps += ", "; as += ", "; }
            std::string ty = t.getCanonicalType().getAsString(PP);
            if (ty.find('[') != std::string::npos) return;
            bool byval = ex && t->isScalarType();
            ps += (ex && ! t.isConstQualified() && ! byval ? "const " + ty : ty) + (byval ? " " : "& ") + v->getNameAsString();
            as += v->getNameAsString();
        }
        std::string h = nm("helper");
        SourceLocation at = fnStart(fn);
        if (at.isMacroID()) return;
        unsigned o = SM.getFileOffset(at);
        if (ex)
        {
            QualType t = ex->getType();
            if (! namable(t) || ! t->isScalarType() || t->isDependentType()) return;
            SourceRange r = ex->getSourceRange();
            if (! ok(r)) return;
            emit("r:helperexpr", r.getBegin(), { { o, 0, "static " + t.getUnqualifiedType().getCanonicalType().getAsString(PP) + " " + h + "(" + ps + ")\n{\n    return " + txt(r) + ";\n}\n\n" }, { b(r), e(r) - b(r), h + "(" + as + ")" } });
            return;
        }
        unsigned x, y;
        if (! stmtRange(s, x, y)) return;
        emit("r:helperstmt", s->getBeginLoc(), { { o, 0, "static void " + h + "(" + ps + ")\n{\n" + stxt(s) + "\n}\n\n" }, { x, y - x, h + "(" + as + ");" } });
    }

    bool VisitCXXForRangeStmt(CXXForRangeStmt* s)
    {
        if (! fn || ! ok(s->getSourceRange()) || s->getInit()) return true;
        auto* lv = s->getLoopVariable();
        SourceRange vr = lv->getSourceRange();
        if (! ok(vr) || ! ok(s->getRangeInit()->getSourceRange())) return true;
        std::string decl = SM.getBufferData(SM.getFileID(vr.getBegin())).substr(b(vr), SM.getFileOffset(s->getColonLoc()) - b(vr)).str();
        std::string rt = txt(s->getRangeInit()->getSourceRange());
        std::string r = nm("range"), it = nm("it");
        std::string bt = block(s->getBody());
        bt = bt.substr(1, bt.size() - 2);
        QualType t = s->getRangeInit()->getType();
        reps("r:range2iter", s, "{\nauto&& " + r + " = " + rt + ";\nfor (auto " + it + " = " + r + ".begin(); " + it + " != " + r + ".end(); ++" + it + ")\n{\n" + decl + " = *" + it + ";\n" + bt + "\n}\n}");
        std::string ts = t.getCanonicalType().getAsString();
        if (ts.find("vector<") != std::string::npos || ts.find("Polygon") != std::string::npos || ts.find("Shape") != std::string::npos || ts.find("Lines") != std::string::npos || ts.find("line") != std::string::npos)
        {
            reps("r:range2index", s, "{\nauto&& " + r + " = " + rt + ";\nfor (size_t " + it + " = 0; " + it + " < " + r + ".size(); ++" + it + ")\n{\n" + decl + " = " + r + "[" + it + "];\n" + bt + "\n}\n}");
            if (isa<DeclRefExpr>(s->getRangeInit()->IgnoreParenImpCasts()) || isa<MemberExpr>(s->getRangeInit()->IgnoreParenImpCasts()))
                reps("r:range2index2", s, "for (size_t " + it + " = 0; " + it + " < " + rt + ".size(); " + it + "++)\n{\n" + decl + " = " + rt + "[" + it + "];\n" + bt + "\n}");
        }
        return true;
    }
    bool VisitForStmt(ForStmt* s)
    {
        if (! fn || ! ok(s->getSourceRange()) || s->getConditionVariable()) return true;
        if (hasContinue(s->getBody())) return true;
        std::string in = s->getInit() ? stxt(s->getInit()) : "";
        if (s->getInit() && in.empty()) in = txt(s->getInit()->getSourceRange()) + ";";
        std::string c = s->getCond() ? txt(s->getCond()->getSourceRange()) : "true";
        std::string inc = s->getInc() ? txt(s->getInc()->getSourceRange()) + ";" : "";
        std::string bt = block(s->getBody());
        reps("r:for2while", s, "{\n" + in + "\nwhile (" + c + ")\n{\n" + bt + "\n" + inc + "\n}\n}");
        return true;
    }
    bool VisitWhileStmt(WhileStmt* s)
    {
        if (! fn || ! ok(s->getSourceRange()) || s->getConditionVariable()) return true;
        std::string c = txt(s->getCond()->getSourceRange());
        reps("r:while2for", s, "for (; " + c + ";)\n" + block(s->getBody()));
        std::string bt = block(s->getBody());
        reps("r:while2true", s, "while (true)\n{\nif (! (" + c + "))\n{\nbreak;\n}\n" + bt.substr(1, bt.size() - 2) + "\n}");
        return true;
    }
    bool VisitReturnStmt(ReturnStmt* s)
    {
        if (! fn || ! s->getRetValue() || ! ok(s->getSourceRange())) return true;
        Expr* x = s->getRetValue();
        QualType t = x->getType();
        if (t->isDependentType()) return true;
        auto P = A.getParents(*s);
        bool inBlock = ! P.empty() && P[0].get<CompoundStmt>();
        std::string xt = txt(x->getSourceRange());
        if (t->isScalarType() && inBlock && ! fn->getReturnType()->isReferenceType() && xt != "nullptr" && namable(t))
        {
            std::string v = nm("res");
            reps("r:rettemp", s, "const " + t.getUnqualifiedType().getCanonicalType().getAsString(PP) + " " + v + " = " + xt + ";\nreturn " + v + ";");
        }
        if (auto* c = dyn_cast<ConditionalOperator>(x->IgnoreImpCasts()))
            if (inBlock) reps("r:tern2if", s, "if (" + txt(c->getCond()->getSourceRange()) + ")\n{\nreturn " + txt(c->getTrueExpr()->getSourceRange()) + ";\n}\nreturn " + txt(c->getFalseExpr()->getSourceRange()) + ";");
        if (t->isBooleanType() && inBlock) reps("r:retbool", s, "if (" + xt + ")\n{\nreturn true;\n}\nreturn false;");
        if (t->isBooleanType()) rep("m:retneg", x, "! (" + xt + ")");
        if (t->isIntegerType() && ! t->isBooleanType() && ! t->isEnumeralType()) rep("m:retplus", x, "(" + xt + ") + 1");
        return true;
    }
    bool VisitDeclStmt(DeclStmt* s)
    {
        if (! fn || ! s->isSingleDecl() || ! ok(s->getSourceRange())) return true;
        auto* v = dyn_cast<VarDecl>(s->getSingleDecl());
        if (! v || ! v->getInit() || isa<DecompositionDecl>(v) || v->isStaticLocal() || v->isConstexpr()) return true;
        auto P = A.getParents(*s);
        if (P.empty() || ! P[0].get<CompoundStmt>()) return true;
        QualType t = v->getType();
        if (t->isDependentType() || t->isReferenceType() || ! namable(t)) return true;
        std::string ty = t.getUnqualifiedType().getCanonicalType().getAsString(PP);
        Expr* in = v->getInit();
        if (t->isScalarType() && v->getInitStyle() == VarDecl::CInit)
        {
            std::string it = txt(in->getSourceRange());
            reps("r:declsplit", s, ty + " " + v->getNameAsString() + ";\n" + v->getNameAsString() + " = " + it + ";");
            if (auto* c = dyn_cast<ConditionalOperator>(in->IgnoreImpCasts()))
                reps("r:ternsplit", s, ty + " " + v->getNameAsString() + ";\nif (" + txt(c->getCond()->getSourceRange()) + ")\n{\n" + v->getNameAsString() + " = " + txt(c->getTrueExpr()->getSourceRange()) + ";\n}\nelse\n{\n" + v->getNameAsString() + " = " + txt(c->getFalseExpr()->getSourceRange()) + ";\n}");
            std::string m = nm("tmp");
            reps("r:decltemp", s, "const " + ty + " " + m + " = " + it + ";\n" + ty + " " + v->getNameAsString() + " = " + m + ";");
        }
        // inline a constant that is used once right in the next statement
        if (t.isConstQualified() && t->isScalarType() && v->getInitStyle() == VarDecl::CInit && pure(in))
        {
            auto* cs = P[0].get<CompoundStmt>();
            const DeclRefExpr* only = nullptr;
            int cnt = 0;
            const Stmt* next = nullptr;
            bool hit = false;
            for (auto* q : cs->body())
            {
                if (hit && ! next) next = q;
                if (q == s) hit = true;
                any(q, [&](const Stmt* z) { if (auto* d = dyn_cast<DeclRefExpr>(z)) if (d->getDecl() == v) { ++cnt; only = d; } return false; }, true);
            }
            if (cnt == 1 && next && only && ok(only->getSourceRange()))
            {
                bool here = any(next, [&](const Stmt* z) { return z == only; });
                bool simple = isa<DeclStmt>(next) || isa<ReturnStmt>(next);
                if (here && (simple || (isa<IfStmt>(next) && any(cast<IfStmt>(next)->getCond(), [&](const Stmt* z) { return z == only; }))))
                {
                    unsigned x, y;
                    if (stmtRange(s, x, y))
                        emit("r:inlineconst", s->getBeginLoc(), { { x, y - x, "" }, { b(only->getSourceRange()), e(only->getSourceRange()) - b(only->getSourceRange()), "static_cast<" + ty + ">(" + txt(in->getSourceRange()) + ")" } });
                }
            }
        }
        return true;
    }
    bool VisitBinaryOperator(BinaryOperator* s)
    {
        if (! fn || ! ok(s->getSourceRange())) return true;
        Expr *l = s->getLHS(), *r = s->getRHS();
        std::string lt = txt(l->getSourceRange()), rt = txt(r->getSourceRange());
        auto k = s->getOpcode();
        if (auto* f = flip(k))
        {
            if (pure(l) && pure(r) && ! s->isTypeDependent() && ! s->isValueDependent())
            {
                rep("r:flipcmp", s, rt + " " + f + " " + lt);
                if (l->getType()->isIntegerType() && r->getType()->isIntegerType()) rep("r:negcmp", s, "! (" + lt + " " + opp(k) + " " + rt + ")");
            }
            rep("m:cmp", s, lt + " " + (k == BO_LT ? "<=" : k == BO_LE ? "<" : k == BO_GT ? ">=" : k == BO_GE ? ">" : k == BO_EQ ? "!=" : "==") + " " + rt);
            if (pure(s)) helper(nullptr, s);
        }
        if (k == BO_LAnd) { rep("r:demorgan", s, "! (! (" + lt + ") || ! (" + rt + "))"); rep("m:and2or", s, "(" + lt + ") || (" + rt + ")"); if (pure(s)) helper(nullptr, s); }
        if (k == BO_LOr) { rep("r:demorgan", s, "! (! (" + lt + ") && ! (" + rt + "))"); rep("m:or2and", s, "(" + lt + ") && (" + rt + ")"); if (pure(s)) helper(nullptr, s); }
        if ((k == BO_Add || k == BO_Mul) && l->getType()->isArithmeticType() && r->getType()->isArithmeticType() && pure(l) && pure(r) && ! isa<BinaryOperator>(l->IgnoreImpCasts()))
            rep("r:commute", s, (isa<BinaryOperator>(r->IgnoreImpCasts()) ? "(" + rt + ")" : rt) + (k == BO_Add ? " + " : " * ") + (isa<ConditionalOperator>(l->IgnoreImpCasts()) ? "(" + lt + ")" : lt));
        if (k == BO_Add) rep("m:arith", s, lt + " - " + rt);
        if (k == BO_Sub) rep("m:arith", s, lt + " + " + rt);
        if (k == BO_Mul && l->getType()->isArithmeticType()) rep("m:arith", s, lt + " + " + rt);
        if (k == BO_Div) rep("m:arith", s, lt + " * " + rt);
        if (k == BO_Assign && l->getType()->isScalarType() && ! l->isTypeDependent())
        {
            auto P = A.getParents(*s);
            if (! P.empty() && P[0].get<CompoundStmt>())
            {
                if (auto* c = dyn_cast<ConditionalOperator>(r->IgnoreImpCasts()))
                    if (pure(l)) reps("r:ternassign", s, "if (" + txt(c->getCond()->getSourceRange()) + ")\n{\n" + lt + " = " + txt(c->getTrueExpr()->getSourceRange()) + ";\n}\nelse\n{\n" + lt + " = " + txt(c->getFalseExpr()->getSourceRange()) + ";\n}");
                QualType t = l->getType();
                if (namable(t) && pure(l) && pure(r) && ! t->isNullPtrType())
                {
                    std::string m = nm("val");
                    reps("r:assigntemp", s, "const " + t.getUnqualifiedType().getCanonicalType().getAsString(PP) + " " + m + " = " + rt + ";\n" + lt + " = " + m + ";");
                }
            }
        }
        return true;
    }
    bool VisitCompoundAssignOperator(CompoundAssignOperator* s)
    {
        if (! fn || ! ok(s->getSourceRange()) || ! pure(s->getLHS()) || ! s->getLHS()->getType()->isArithmeticType() || s->isTypeDependent()) return true;
        auto P = A.getParents(*s);
        if (P.empty() || ! P[0].get<CompoundStmt>()) return true;
        std::string op = BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(s->getOpcode())).str();
        std::string lt = txt(s->getLHS()->getSourceRange());
        rep("r:compound", s, lt + " = " + lt + " " + op + " (" + txt(s->getRHS()->getSourceRange()) + ")");
        rep("m:compound", s, lt + (op == "+" ? " -= " : op == "-" ? " += " : op == "|" ? " &= " : op == "*" ? " /= " : " = ") + txt(s->getRHS()->getSourceRange()));
        return true;
    }
    bool VisitUnaryOperator(UnaryOperator* s)
    {
        if (! fn || ! ok(s->getSourceRange()) || ! s->isIncrementDecrementOp() || ! s->getSubExpr()->getType()->isIntegerType() || s->isTypeDependent()) return true;
        auto P = A.getParents(*s);
        if (P.empty()) return true;
        bool st = P[0].get<CompoundStmt>() || (P[0].get<ForStmt>() && P[0].get<ForStmt>()->getInc() == s);
        if (st && pure(s->getSubExpr())) rep("r:incr", s, txt(s->getSubExpr()->getSourceRange()) + (s->isIncrementOp() ? " += 1" : " -= 1"));
        return true;
    }
    bool VisitConditionalOperator(ConditionalOperator* s)
    {
        if (! fn || ! ok(s->getSourceRange())) return true;
        rep("r:ternswap", s, "(! (" + txt(s->getCond()->getSourceRange()) + ")) ? " + txt(s->getFalseExpr()->getSourceRange()) + " : " + txt(s->getTrueExpr()->getSourceRange()));
        rep("m:ternswap", s, "(" + txt(s->getCond()->getSourceRange()) + ") ? " + txt(s->getFalseExpr()->getSourceRange()) + " : " + txt(s->getTrueExpr()->getSourceRange()));
        return true;
    }
    bool VisitIntegerLiteral(IntegerLiteral* s)
    {
        if (! fn || ! ok(s->getSourceRange())) return true;
        if (A.getParents(*s).size() && A.getParents(*s)[0].get<CaseStmt>()) return true;
        rep("m:int", s, "(" + txt(s->getSourceRange()) + " + 1)");
        return true;
    }
    bool VisitFloatingLiteral(FloatingLiteral* s)
    {
        if (! fn || ! ok(s->getSourceRange())) return true;
        rep("m:float", s, "(" + txt(s->getSourceRange()) + " + 0.5)");
        return true;
    }
    bool VisitCXXBoolLiteralExpr(CXXBoolLiteralExpr* s)
    {
        if (! fn || ! ok(s->getSourceRange())) return true;
        rep("m:bool", s, s->getValue() ? "false" : "true");
        return true;
    }
    bool VisitCallExpr(CallExpr* s)
    {
        if (! fn || ! ok(s->getSourceRange()) || s->isTypeDependent()) return true;
        auto* d = dyn_cast_or_null<FunctionDecl>(s->getCalleeDecl());
        if (! d) return true;
        std::string q = d->getQualifiedNameAsString();
        if (! isa<CXXOperatorCallExpr>(s) && s->getNumArgs() >= 2)
            for (unsigned i = 0; i + 1 < s->getNumArgs(); ++i)
            {
                Expr *a = s->getArg(i), *c = s->getArg(i + 1);
                if (isa<CXXDefaultArgExpr>(c) || ! ok(a->getSourceRange()) || ! ok(c->getSourceRange())) break;
                if (a->getType().getUnqualifiedType() == c->getType().getUnqualifiedType() && txt(a->getSourceRange()) != txt(c->getSourceRange()) && q != "std::max" && q != "std::min" && q != "std::swap")
                    emit("m:swapargs", a->getBeginLoc(), { { b(a->getSourceRange()), e(a->getSourceRange()) - b(a->getSourceRange()), txt(c->getSourceRange()) }, { b(c->getSourceRange()), e(c->getSourceRange()) - b(c->getSourceRange()), txt(a->getSourceRange()) } });
            }
        if ((q == "std::max" || q == "std::min") && s->getNumArgs() == 2 && s->getType()->isScalarType())
        {
            std::string x = txt(s->getArg(0)->getSourceRange()), y = txt(s->getArg(1)->getSourceRange());
            if (pure(s->getArg(0)) && pure(s->getArg(1)) && ! any(s, [](const Stmt* z) { return isa<InitListExpr>(z); }))
            {
                rep("r:minmax", s, q == "std::max" ? "(((" + x + ") < (" + y + ")) ? (" + y + ") : (" + x + "))" : "(((" + y + ") < (" + x + ")) ? (" + y + ") : (" + x + "))");
                if (s->getType()->isIntegerType()) rep("r:mmswap", s, q + "(" + y + ", " + x + ")");
            }
            emit("m:minmax", s->getBeginLoc(), { { b(s->getCallee()->getSourceRange()), e(s->getCallee()->getSourceRange()) - b(s->getCallee()->getSourceRange()), q == "std::max" ? "std::min" : "std::max" } });
        }
        if (auto* m = dyn_cast<CXXMemberCallExpr>(s))
        {
            std::string nme = d->getNameAsString();
            Expr* o = m->getImplicitObjectArgument();
            if (nme == "empty" && s->getNumArgs() == 0 && o && ok(o->getSourceRange()) && ! isa<CXXThisExpr>(o->IgnoreImpCasts()))
            {
                bool ar = o->getType()->isPointerType();
                rep("r:empty", s, "(" + txt(o->getSourceRange()) + (ar ? "->" : ".") + "size() == 0)");
            }
            if (nme == "emplace_back" && s->getNumArgs() == 1 && q.find("std::vector") == 0)
            {
                auto* me = dyn_cast<MemberExpr>(s->getCallee());
                if (me && ok(me->getMemberLoc()))
                {
                    Expr* a = s->getArg(0);
                    QualType et;
                    if (auto* rd = dyn_cast<ClassTemplateSpecializationDecl>(m->getRecordDecl())) et = rd->getTemplateArgs()[0].getAsType();
                    if (! et.isNull() && A.hasSameUnqualifiedType(et, a->getType()))
                        emit("r:pushback", s->getBeginLoc(), { { SM.getFileOffset(me->getMemberLoc()), 12, "push_back" } });
                }
            }
            if (nme == "push_back" && s->getNumArgs() == 1 && q.find("std::vector") == 0)
            {
                auto* me = dyn_cast<MemberExpr>(s->getCallee());
                if (me && ok(me->getMemberLoc()) && ! any(s->getArg(0), [](const Stmt* z) { return isa<InitListExpr>(z); }) && txt(s->getArg(0)->getSourceRange())[0] != '{')
                    emit("r:emplaceback", s->getBeginLoc(), { { SM.getFileOffset(me->getMemberLoc()), 9, "emplace_back" } });
            }
        }
        // argument into a temporary
        auto P = A.getParents(*s);
        bool st = ! P.empty() && P[0].get<CompoundStmt>();
        if (st && ! isa<CXXOperatorCallExpr>(s))
        {
            bool allpure = true;
            for (auto* a : s->arguments()) allpure = allpure && pure(a);
            if (auto* m = dyn_cast<CXXMemberCallExpr>(s)) allpure = allpure && m->getImplicitObjectArgument() && pure(m->getImplicitObjectArgument());
            if (allpure)
                for (auto* a : s->arguments())
                {
                    if (isa<CXXDefaultArgExpr>(a) || ! ok(a->getSourceRange())) break;
                    QualType t = a->getType();
                    if (a->isLValue() || ! t->isScalarType() || ! namable(t) || t->isNullPtrType()) continue;
                    if (isa<IntegerLiteral>(a->IgnoreImpCasts())) continue;
                    std::string v = nm("arg");
                    SourceRange r = a->getSourceRange();
                    emit("r:argtemp", s->getBeginLoc(), { { b(s->getSourceRange()), 0, "const " + t.getUnqualifiedType().getCanonicalType().getAsString(PP) + " " + v + " = " + txt(r) + ";\n" }, { b(r), e(r) - b(r), v } });
                }
        }
        return true;
    }
    bool ok(SourceLocation l) { return l.isValid() && ! l.isMacroID(); }
    bool VisitMemberExpr(MemberExpr* s)
    {
        if (! fn || ! ok(s->getSourceRange()) || ! s->isArrow() || s->isImplicitAccess()) return true;
        if (! s->getBase()->getType()->isPointerType()) return true;
        rep("r:arrow", s, "(*(" + txt(s->getBase()->getSourceRange()) + "))." + s->getMemberDecl()->getNameAsString());
        return true;
    }
    bool VisitSwitchStmt(SwitchStmt* s)
    {
        if (! fn || ! ok(s->getSourceRange()) || s->getInit() || s->getConditionVariable() || ! pure(s->getCond())) return true;
        auto* body = dyn_cast<CompoundStmt>(s->getBody());
        if (! body) return true;
        // groups
        struct G { std::vector<std::string> labels; bool def = false; std::string text; bool closed = false; };
        std::vector<G> gs;
        for (auto* q : body->body())
        {
            const Stmt* t = q;
            bool fresh = false;
            while (auto* c = dyn_cast<SwitchCase>(t))
            {
                if (! fresh) { if (! gs.empty() && ! gs.back().closed) return true; gs.push_back({}); fresh = true; }
                if (auto* cc = dyn_cast<CaseStmt>(c)) { if (cc->getRHS() || ! ok(cc->getLHS()->getSourceRange())) return true; gs.back().labels.push_back(txt(cc->getLHS()->getSourceRange())); }
                else gs.back().def = true;
                t = c->getSubStmt();
            }
            if (gs.empty() || gs.back().closed && ! isa<BreakStmt>(t)) return true;
            if (isa<BreakStmt>(t)) { gs.back().closed = true; continue; }
            if (auto* c = dyn_cast<CompoundStmt>(t))
            {
                // { ...; break; }
                std::string inner;
                bool brk = false;
                for (auto* z : c->body())
                {
                    if (isa<BreakStmt>(z)) { brk = true; continue; }
                    if (brk || hasEscapeBreak(z)) return true;
                    std::string zt = stxt(z);
                    if (zt.empty()) return true;
                    inner += zt + "\n";
                }
                gs.back().text += "{\n" + inner + "}\n";
                if (brk || jumps(c)) gs.back().closed = true;
                continue;
            }
            if (hasEscapeBreak(t)) return true;
            std::string tt = stxt(t);
            if (tt.empty()) return true;
            gs.back().text += tt + "\n";
            if (jumps(t)) gs.back().closed = true;
        }
        std::string v = nm("sw"), o = "{\nconst auto " + v + " = " + txt(s->getCond()->getSourceRange()) + ";\n", def;
        bool first = true;
        for (auto& g : gs)
        {
            if (g.def) { def = g.text; if (&g != &gs.back()) return true; continue; }
            o += std::string(first ? "" : "else ") + "if (";
            for (size_t i = 0; i < g.labels.size(); ++i) o += (i ? " || " : "") + v + " == " + g.labels[i];
            o += ")\n{\n" + g.text + "}\n";
            first = false;
        }
        if (first) return true;
        if (def.size()) o += "else\n{\n" + def + "}\n";
        reps("r:switch2if", s, o + "}");
        return true;
    }
    static bool hasEscapeBreak(const Stmt* s, int in = 0)
    {
        if (! s || isa<LambdaExpr>(s)) return false;
        if (isa<BreakStmt>(s)) return in == 0;
        int l = in + (isa<ForStmt>(s) || isa<WhileStmt>(s) || isa<DoStmt>(s) || isa<CXXForRangeStmt>(s) || isa<SwitchStmt>(s));
        for (auto* c : s->children()) if (hasEscapeBreak(c, l)) return true;
        return false;
    }
};
struct Consumer : ASTConsumer
{
    void HandleTranslationUnit(ASTContext& A) override { V v(A); v.TraverseDecl(A.getTranslationUnitDecl()); }
};
struct Action : ASTFrontendAction
{
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, llvm::StringRef) override { return std::make_unique<Consumer>(); }
};
int main(int argc, char** argv)
{
    REPO = argv[2];
    std::vector<std::string> args;
    for (int i = 5; i < argc; ++i) args.push_back(argv[i]);
    OUT = fopen(argv[1], "w");
    tooling::FixedCompilationDatabase db(".", args);
    tooling::ClangTool tool(db, { argv[3] });
    return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
