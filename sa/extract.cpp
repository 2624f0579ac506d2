// cura-extract: dumps the resolved AST + control-flow graph of every function of /repo that a translation unit
// defines, one JSON record per line:  <file>\t<key>\t<json>
// Usage: cura-extract OUT REPO_ROOT SOURCE -- clang args...
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Analysis/CFG.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Index/USRGeneration.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/JSON.h>
#include <cstdio>
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
using namespace clang;

static std::string REPO, MAINFILE, EXTRA; // EXTRA: directory of reference definitions, shown as "@ref/"
static FILE* OUT;

static void jstr(std::string& o, llvm::StringRef s)
{
    o += '"';
    for (unsigned char c : s)
    {
        switch (c)
        {
        case '"': o += "\\\""; break;
        case '\\': o += "\\\\"; break;
        case '\n': o += "\\n"; break;
        case '\t': o += "\\t"; break;
        case '\r': o += "\\r"; break;
        default:
            if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
            else o += (char)c;
        }
    }
    o += '"';
}

struct Ctx
{
    ASTContext& A;
    SourceManager& SM;
    PrintingPolicy PP;
    explicit Ctx(ASTContext& a) : A(a), SM(a.getSourceManager()), PP(a.getPrintingPolicy())
    {
        PP.SuppressTagKeyword = true;
        PP.Bool = true;
        PP.AnonymousTagLocations = false;
        PP.SuppressUnwrittenScope = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
    }
    std::unordered_map<unsigned, std::string> fcache;
    std::string file(SourceLocation l)
    {
        if (l.isInvalid()) return "";
        l = SM.getExpansionLoc(l);
        FileID fid = SM.getFileID(l);
        auto it = fcache.find(fid.getHashValue());
        if (it != fcache.end()) return it->second;
        std::string r;
        if (auto fe = SM.getFileEntryRefForID(fid))
        {
            r = fe->getName().str();
            llvm::SmallString<256> p;
            std::string rp = fe->getFileEntry().tryGetRealPathName().str();
            if (! rp.empty()) r = rp;
        }
        fcache[fid.getHashValue()] = r;
        return r;
    }
    // path relative to repo or "" when outside it
    std::string rel(SourceLocation l)
    {
        std::string f = file(l);
        if (f.compare(0, REPO.size(), REPO) == 0) return f.substr(REPO.size());
        if (! EXTRA.empty() && f.compare(0, EXTRA.size(), EXTRA) == 0) return "@ref/" + f.substr(EXTRA.size());
        return "";
    }
    unsigned line(SourceLocation l) { return l.isInvalid() ? 0 : SM.getExpansionLineNumber(l); }
    std::string usr(const Decl* d)
    {
        llvm::SmallString<256> b;
        if (index::generateUSRForDecl(d, b)) return "";
        return b.str().str();
    }
    std::string qname(const NamedDecl* d)
    {
        std::string s;
        llvm::raw_string_ostream os(s);
        d->printQualifiedName(os, PP);
        return s;
    }
    std::string tstr(QualType t) { return t.isNull() ? std::string() : t.getCanonicalType().getAsString(PP); }
};

struct FnDumper
{
    Ctx& C;
    std::string types, decls;
    std::map<std::string, int> tidx;
    std::map<const Decl*, int> didx;
    int nt = 0, nd = 0;
    int nodes = 0;
    std::unordered_map<const Stmt*, int> sid;
    std::vector<const LambdaExpr*> lambdas;
    bool dependent = false;
    explicit FnDumper(Ctx& c) : C(c) {}

    int type(QualType t)
    {
        if (t.isNull()) return -1;
        std::string s = C.tstr(t);
        auto it = tidx.find(s);
        if (it != tidx.end()) return it->second;
        int i = nt++;
        tidx[s] = i;
        if (i) types += ',';
        jstr(types, s);
        return i;
    }
    int decl(const Decl* d0)
    {
        if (! d0) return -1;
        const Decl* d = d0->getCanonicalDecl();
        auto it = didx.find(d);
        if (it != didx.end()) return it->second;
        int i = nd++;
        didx[d] = i;
        std::string r = "[";
        std::string k = d->getDeclKindName();
        std::string flags;
        std::string q, n;
        QualType t;
        std::string u;
        bool local = false;
        if (auto* nn = dyn_cast<NamedDecl>(d)) { n = nn->getNameAsString(); }
        if (auto* v = dyn_cast<VarDecl>(d))
        {
            t = v->getType();
            local = v->isLocalVarDeclOrParm() && ! v->isStaticLocal();
            if (v->isStaticLocal()) flags += "S";
            if (v->hasGlobalStorage()) flags += "G";
            if (isa<ParmVarDecl>(v)) flags += "P";
            if (v->isConstexpr()) flags += "X";
            if (v->getTSCSpec() != TSCS_unspecified) flags += "T";
            if (v->isInitCapture()) flags += "I";
        }
        else if (auto* v = dyn_cast<ValueDecl>(d)) t = v->getType();
        if (auto* f = dyn_cast<FieldDecl>(d)) { if (f->isMutable()) flags += "M"; }
        if (auto* f = dyn_cast<FunctionDecl>(d))
        {
            if (f->isVariadic()) flags += "V";
            if (auto* m = dyn_cast<CXXMethodDecl>(f))
            {
                if (m->isVirtual()) flags += "v";
                if (m->isConst()) flags += "c";
                if (m->isStatic()) flags += "s";
                if (m->isDefaulted()) flags += "d";
                if (m->isImplicit()) flags += "i";
            }
            if (f->isNoReturn()) flags += "N";
        }
        if (! local)
        {
            if (auto* nn = dyn_cast<NamedDecl>(d)) q = C.qname(nn);
            if (auto* ec = dyn_cast<EnumConstantDecl>(d)) { flags += "=" + llvm::toString(ec->getInitVal(), 10); }
            u = C.usr(d);
        }
        const FunctionDecl* fd = dyn_cast<FunctionDecl>(d);
        std::string pu;
        std::string targs;
        if (fd)
        {
            if (auto* tp = fd->getTemplateInstantiationPattern()) { pu = C.usr(tp->getCanonicalDecl()); }
            if (auto* ta = fd->getTemplateSpecializationArgs())
            {
                for (auto& a : ta->asArray())
                {
                    std::string s;
                    llvm::raw_string_ostream os(s);
                    a.print(C.PP, os, true);
                    if (! targs.empty()) targs += ", ";
                    targs += s;
                }
            }
        }
        r += "\"" + k + "\",";
        jstr(r, n);
        r += ",";
        jstr(r, q == n ? "" : q);
        r += "," + std::to_string(t.isNull() ? -1 : type(t)) + ",\"" + flags + "\",";
        jstr(r, u);
        std::string rl = C.rel(d->getLocation());
        r += ",";
        jstr(r, rl);
        r += "," + std::to_string(C.line(d->getLocation()));
        r += ",";
        jstr(r, pu);
        r += ",";
        jstr(r, targs);
        r += "]";
        pend.push_back({ i, r });
        return i;
    }
    std::vector<std::pair<int, std::string>> pend;

    static const Stmt* strip(const Stmt* s)
    {
        for (;;)
        {
            if (! s) return s;
            if (auto* e = dyn_cast<ParenExpr>(s)) { s = e->getSubExpr(); continue; }
            if (auto* e = dyn_cast<FullExpr>(s)) { s = e->getSubExpr(); continue; }
            if (auto* e = dyn_cast<MaterializeTemporaryExpr>(s)) { s = e->getSubExpr(); continue; }
            if (auto* e = dyn_cast<CXXBindTemporaryExpr>(s)) { s = e->getSubExpr(); continue; }
            if (auto* e = dyn_cast<SubstNonTypeTemplateParmExpr>(s)) { s = e->getReplacement(); continue; }
            if (auto* e = dyn_cast<CXXRewrittenBinaryOperator>(s)) { s = e->getSemanticForm(); continue; }
            if (auto* e = dyn_cast<ImplicitCastExpr>(s))
            {
                switch (e->getCastKind())
                {
                case CK_IntegralCast:
                case CK_IntegralToFloating:
                case CK_FloatingToIntegral:
                case CK_FloatingCast:
                case CK_IntegralToBoolean:
                case CK_FloatingToBoolean:
                case CK_PointerToBoolean:
                    return s;
                default:
                    s = e->getSubExpr();
                    continue;
                }
            }
            if (auto* e = dyn_cast<CXXFunctionalCastExpr>(s))
            {
                if (e->getCastKind() == CK_ConstructorConversion || e->getCastKind() == CK_UserDefinedConversion) { s = e->getSubExpr(); continue; }
            }
            if (auto* e = dyn_cast<CXXConstructExpr>(s))
            {
                if (e->isElidable() && e->getNumArgs() >= 1) { s = e->getArg(0); continue; }
            }
            return s;
        }
    }

    /// the constructor that an inherited constructor stands for
    static const CXXConstructorDecl* inh(const CXXConstructorDecl* c)
    {
        while (c && c->isInheritingConstructor() && c->getInheritedConstructor().getConstructor()) c = c->getInheritedConstructor().getConstructor();
        return c;
    }

    void kids(std::string& o, std::initializer_list<const Stmt*> l)
    {
        o += ",[";
        bool f = true;
        for (auto* s : l)
        {
            if (! f) o += ',';
            f = false;
            node(o, s);
        }
        o += "]";
    }
    template<class R> void kidsr(std::string& o, R&& l)
    {
        o += ",[";
        bool f = true;
        for (const Stmt* s : l)
        {
            if (! f) o += ',';
            f = false;
            node(o, s);
        }
        o += "]";
    }
    void map(const Stmt* from, const Stmt* to, int id)
    {
        // map every stripped wrapper to the node
        const Stmt* s = from;
        while (s && s != to)
        {
            sid[s] = id;
            const Stmt* n = nullptr;
            if (auto* e = dyn_cast<ParenExpr>(s)) n = e->getSubExpr();
            else if (auto* e = dyn_cast<FullExpr>(s)) n = e->getSubExpr();
            else if (auto* e = dyn_cast<MaterializeTemporaryExpr>(s)) n = e->getSubExpr();
            else if (auto* e = dyn_cast<CXXBindTemporaryExpr>(s)) n = e->getSubExpr();
            else if (auto* e = dyn_cast<SubstNonTypeTemplateParmExpr>(s)) n = e->getReplacement();
            else if (auto* e = dyn_cast<CXXRewrittenBinaryOperator>(s)) n = e->getSemanticForm();
            else if (auto* e = dyn_cast<CastExpr>(s)) n = e->getSubExpr();
            else if (auto* e = dyn_cast<CXXConstructExpr>(s)) n = e->getNumArgs() ? e->getArg(0) : nullptr;
            s = n;
        }
        if (to) sid[to] = id;
    }
    int var(std::string& o, const VarDecl* v)
    {
        // ["var", line, type, declid, [init]]
        int id = nodes++;
        o += "[\"var\"," + std::to_string(C.line(v->getLocation())) + "," + std::to_string(type(v->getType())) + "," + std::to_string(decl(v)) + ",[";
        if (v->hasInit())
            node(o, v->getInit());
        o += "]";
        if (auto* dd = dyn_cast<DecompositionDecl>(v))
        {
            o += ",[";
            bool f = true;
            for (auto* b : dd->bindings())
            {
                if (! f) o += ',';
                f = false;
                o += std::to_string(decl(b));
            }
            o += "]";
        }
        o += "]";
        return id;
    }
    void head(std::string& o, const char* k, const Stmt* s)
    {
        o += "[\"";
        o += k;
        o += "\"," + std::to_string(C.line(s->getBeginLoc())) + ",";
        if (auto* e = dyn_cast<Expr>(s)) o += std::to_string(type(e->getType()));
        else o += "-1";
        o += ",";
    }
    void node(std::string& o, const Stmt* s0)
    {
        const Stmt* s = strip(s0);
        if (! s)
        {
            o += "null";
            return;
        }
        int id = nodes++;
        map(s0, s, id);
        if (auto* e = dyn_cast<DeclRefExpr>(s))
        {
            head(o, "ref", s);
            o += std::to_string(decl(e->getDecl())) + "]";
            return;
        }
        if (auto* e = dyn_cast<MemberExpr>(s))
        {
            head(o, "mem", s);
            o += std::to_string(decl(e->getMemberDecl()));
            kids(o, { e->getBase() });
            o += e->isArrow() ? ",1]" : ",0]";
            return;
        }
        if (auto* e = dyn_cast<CXXOperatorCallExpr>(s))
        {
            head(o, "opcall", s);
            o += "[" + std::to_string(decl(e->getDirectCallee())) + ",";
            jstr(o, getOperatorSpelling(e->getOperator()));
            o += "]";
            kidsr(o, e->arguments());
            o += "]";
            return;
        }
        if (auto* e = dyn_cast<CXXMemberCallExpr>(s))
        {
            const CXXMethodDecl* md = e->getMethodDecl();
            if (md)
            {
                head(o, "mcall", s);
                int arrow = 0, qualified = 0;
                if (auto* me = dyn_cast<MemberExpr>(e->getCallee()->IgnoreParens())) { arrow = me->isArrow(); qualified = me->hasQualifier(); }
                o += "[" + std::to_string(decl(md)) + "," + std::to_string(arrow) + "," + std::to_string(qualified) + "]";
                std::vector<const Stmt*> v{ e->getImplicitObjectArgument() };
                for (auto* a : e->arguments()) v.push_back(a);
                kidsr(o, v);
                o += "]";
                return;
            }
        }
        if (auto* e = dyn_cast<CallExpr>(s))
        {
            head(o, "call", s);
            const Decl* cd = e->getDirectCallee();
            o += std::to_string(cd ? decl(cd) : -1);
            std::vector<const Stmt*> v;
            if (! cd) v.push_back(e->getCallee());
            for (auto* a : e->arguments()) v.push_back(a);
            kidsr(o, v);
            o += "]";
            return;
        }
        if (auto* e = dyn_cast<CXXConstructExpr>(s))
        {
            head(o, "ctor", s);
            o += "[" + std::to_string(decl(inh(e->getConstructor()))) + "," + (isa<CXXTemporaryObjectExpr>(e) ? "1" : "0") + "]";
            kidsr(o, e->arguments());
            o += "]";
            return;
        }
        if (auto* e = dyn_cast<CXXInheritedCtorInitExpr>(s))
        {
            head(o, "ctor", s);
            o += "[" + std::to_string(decl(inh(e->getConstructor()))) + ",0],[]]";
            return;
        }
        if (auto* e = dyn_cast<CXXDefaultArgExpr>(s))
        {
            head(o, "defarg", s);
            std::string key;
            if (auto* pf = dyn_cast_or_null<FunctionDecl>(e->getParam()->getDeclContext()))
            {
                if (auto* pt = pf->getTemplateInstantiationPattern()) pf = pt;
                key = pf->getQualifiedNameAsString() + "(" + pf->getType().getCanonicalType().getAsString() + ")#" + std::to_string(e->getParam()->getFunctionScopeIndex());
            }
            jstr(o, key);
            kids(o, { e->getExpr() });
            o += "]";
            return;
        }
        if (auto* e = dyn_cast<CXXDefaultInitExpr>(s))
        {
            head(o, "definit", s);
            o += std::to_string(decl(e->getField()));
            kids(o, { e->getExpr() });
            o += "]";
            return;
        }
        if (auto* e = dyn_cast<IntegerLiteral>(s))
        {
            head(o, "int", s);
            llvm::SmallString<24> b;
            e->getValue().toString(b, 10, e->getType()->isSignedIntegerType());
            o += "\"" + b.str().str() + "\"]";
            return;
        }
        if (auto* e = dyn_cast<FloatingLiteral>(s))
        {
            head(o, "flt", s);
            char b[64];
            snprintf(b, sizeof b, "%.17g", e->getValueAsApproximateDouble());
            o += "\"" + std::string(b) + "\"]";
            return;
        }
        if (auto* e = dyn_cast<clang::StringLiteral>(s))
        {
            head(o, "str", s);
            jstr(o, e->isOrdinary() || e->isUTF8() ? e->getString() : llvm::StringRef("?"));
            o += "]";
            return;
        }
        if (auto* e = dyn_cast<CharacterLiteral>(s))
        {
            head(o, "chr", s);
            o += std::to_string(e->getValue()) + "]";
            return;
        }
        if (auto* e = dyn_cast<CXXBoolLiteralExpr>(s))
        {
            head(o, "bool", s);
            o += e->getValue() ? "1]" : "0]";
            return;
        }
        if (isa<CXXNullPtrLiteralExpr>(s) || isa<GNUNullExpr>(s))
        {
            head(o, "null", s);
            o += "0]";
            return;
        }
        if (isa<CXXThisExpr>(s))
        {
            head(o, "this", s);
            o += "0]";
            return;
        }
        if (auto* e = dyn_cast<UnaryOperator>(s))
        {
            head(o, "un", s);
            std::string op = UnaryOperator::getOpcodeStr(e->getOpcode()).str();
            if (e->isPostfix()) op = "p" + op;
            jstr(o, op);
            kids(o, { e->getSubExpr() });
            o += "]";
            return;
        }
        if (auto* e = dyn_cast<BinaryOperator>(s))
        {
            head(o, isa<CompoundAssignOperator>(e) ? "casg" : (e->getOpcode() == BO_Assign ? "asg" : "bin"), s);
            jstr(o, e->getOpcodeStr());
            kids(o, { e->getLHS(), e->getRHS() });
            o += "]";
            return;
        }
        if (auto* e = dyn_cast<AbstractConditionalOperator>(s))
        {
            head(o, "cond", s);
            o += "0";
            kids(o, { e->getCond(), e->getTrueExpr(), e->getFalseExpr() });
            o += "]";
            return;
        }
        if (auto* e = dyn_cast<ArraySubscriptExpr>(s))
        {
            head(o, "sub", s);
            o += "0";
            kids(o, { e->getBase(), e->getIdx() });
            o += "]";
            return;
        }
        if (auto* e = dyn_cast<CastExpr>(s))
        {
            head(o, isa<ImplicitCastExpr>(e) ? "icast" : "cast", s);
            jstr(o, e->getCastKindName());
            kids(o, { e->getSubExpr() });
            o += "]";
            return;
        }
        if (auto* e = dyn_cast<InitListExpr>(s))
        {
            if (auto* sem = e->isSemanticForm() ? e : e->getSemanticForm()) e = sem;
            head(o, "init", e);
            o += "0";
            kidsr(o, e->children());
            o += "]";
            return;
        }
        if (auto* e = dyn_cast<CXXStdInitializerListExpr>(s))
        {
            head(o, "stdinit", s);
            o += "0";
            kids(o, { e->getSubExpr() });
            o += "]";
            return;
        }
        if (auto* e = dyn_cast<CXXThrowExpr>(s))
        {
            head(o, "throw", s);
            o += "0";
            kids(o, { e->getSubExpr() });
            o += "]";
            return;
        }
        if (auto* e = dyn_cast<CXXNewExpr>(s))
        {
            head(o, "new", s);
            o += e->isArray() ? "1" : "0";
            kids(o, { e->getConstructExpr() ? (const Expr*)e->getConstructExpr() : e->getInitializer(), e->isArray() && e->getArraySize() ? *e->getArraySize() : nullptr });
            o += "]";
            return;
        }
        if (auto* e = dyn_cast<CXXDeleteExpr>(s))
        {
            head(o, "delete", s);
            o += "0";
            kids(o, { e->getArgument() });
            o += "]";
            return;
        }
        if (auto* e = dyn_cast<LambdaExpr>(s))
        {
            lambda(o, e);
            return;
        }
        if (auto* e = dyn_cast<UnaryExprOrTypeTraitExpr>(s))
        {
            head(o, "sizeof", s);
            std::string v = "?";
            if (! e->isValueDependent())
            {
                Expr::EvalResult r;
                if (e->EvaluateAsInt(r, C.A)) v = llvm::toString(r.Val.getInt(), 10);
            }
            jstr(o, v);
            o += "]";
            return;
        }
        if (auto* e = dyn_cast<CXXDependentScopeMemberExpr>(s))
        {
            head(o, "depmem", s);
            jstr(o, e->getMember().getAsString());
            kids(o, { e->isImplicitAccess() ? nullptr : e->getBase() });
            o += "]";
            return;
        }
        if (auto* e = dyn_cast<OverloadExpr>(s))
        {
            head(o, "ovl", s);
            jstr(o, e->getName().getAsString());
            std::vector<const Stmt*> v;
            if (auto* um = dyn_cast<UnresolvedMemberExpr>(e)) { if (! um->isImplicitAccess()) v.push_back(um->getBase()); }
            kidsr(o, v);
            o += "]";
            return;
        }
        // ---- statements
        if (auto* st = dyn_cast<CompoundStmt>(s))
        {
            head(o, "block", s);
            o += std::to_string(C.line(st->getRBracLoc()));
            kidsr(o, st->body());
            o += "]";
            return;
        }
        if (auto* st = dyn_cast<DeclStmt>(s))
        {
            head(o, "decl", s);
            o += "0,[";
            bool f = true;
            for (auto* d : st->decls())
                if (auto* v = dyn_cast<VarDecl>(d))
                {
                    if (! f) o += ',';
                    f = false;
                    var(o, v);
                }
            o += "]]";
            return;
        }
        if (auto* st = dyn_cast<IfStmt>(s))
        {
            head(o, "if", s);
            o += st->isConstexpr() ? "1,[" : "0,[";
            node(o, st->getInit());
            o += ",";
            if (st->getConditionVariable()) node(o, st->getConditionVariableDeclStmt()); else o += "null";
            o += ",";
            node(o, st->getCond());
            o += ",";
            const Stmt *th = st->getThen(), *el = st->getElse();
            if (st->isConstexpr())
                if (auto nd = const_cast<IfStmt*>(st)->getNondiscardedCase(C.A))
                {
                    if (*nd != th) th = nullptr;
                    if (*nd != el) el = nullptr;
                }
            node(o, th);
            o += ",";
            node(o, el);
            o += "]]";
            return;
        }
        if (auto* st = dyn_cast<ForStmt>(s))
        {
            head(o, "for", s);
            o += "0";
            kids(o, { st->getInit(), st->getCond(), st->getInc(), st->getBody() });
            o += "]";
            return;
        }
        if (auto* st = dyn_cast<WhileStmt>(s))
        {
            head(o, "while", s);
            o += "0,[";
            if (st->getConditionVariable()) node(o, st->getConditionVariableDeclStmt()); else o += "null";
            o += ",";
            node(o, st->getCond());
            o += ",";
            node(o, st->getBody());
            o += "]]";
            return;
        }
        if (auto* st = dyn_cast<DoStmt>(s))
        {
            head(o, "do", s);
            o += "0";
            kids(o, { st->getBody(), st->getCond() });
            o += "]";
            return;
        }
        if (auto* st = dyn_cast<CXXForRangeStmt>(s))
        {
            // children: init, rangeDeclStmt, begin, end, cond, inc, loopvar declstmt, body
            head(o, "rfor", s);
            o += "0,[";
            node(o, st->getInit());
            o += ",";
            node(o, st->getRangeStmt());
            o += ",";
            node(o, st->getBeginStmt());
            o += ",";
            node(o, st->getEndStmt());
            o += ",";
            node(o, st->getCond());
            o += ",";
            node(o, st->getInc());
            o += ",";
            node(o, st->getLoopVarStmt());
            o += ",";
            node(o, st->getBody());
            o += "]]";
            return;
        }
        if (auto* st = dyn_cast<SwitchStmt>(s))
        {
            head(o, "switch", s);
            o += "0,[";
            node(o, st->getInit());
            o += ",";
            if (st->getConditionVariable()) node(o, st->getConditionVariableDeclStmt()); else o += "null";
            o += ",";
            node(o, st->getCond());
            o += ",";
            node(o, st->getBody());
            o += "]]";
            return;
        }
        if (auto* st = dyn_cast<CaseStmt>(s))
        {
            head(o, "case", s);
            std::string v = "?";
            if (! st->getLHS()->isValueDependent())
            {
                Expr::EvalResult r;
                if (st->getLHS()->EvaluateAsInt(r, C.A)) v = llvm::toString(r.Val.getInt(), 10);
            }
            jstr(o, v);
            kids(o, { st->getLHS(), st->getSubStmt() });
            o += "]";
            return;
        }
        if (auto* st = dyn_cast<DefaultStmt>(s))
        {
            head(o, "default", s);
            o += "0";
            kids(o, { st->getSubStmt() });
            o += "]";
            return;
        }
        if (auto* st = dyn_cast<ReturnStmt>(s))
        {
            head(o, "return", s);
            o += "0";
            kids(o, { st->getRetValue() });
            o += "]";
            return;
        }
        if (isa<BreakStmt>(s)) { head(o, "break", s); o += "0]"; return; }
        if (isa<ContinueStmt>(s)) { head(o, "continue", s); o += "0]"; return; }
        if (isa<NullStmt>(s)) { head(o, "nop", s); o += "0]"; return; }
        if (auto* st = dyn_cast<CXXTryStmt>(s))
        {
            head(o, "try", s);
            o += "0";
            std::vector<const Stmt*> v{ st->getTryBlock() };
            for (unsigned i = 0; i < st->getNumHandlers(); ++i) v.push_back(st->getHandler(i));
            kidsr(o, v);
            o += "]";
            return;
        }
        if (auto* st = dyn_cast<CXXCatchStmt>(s))
        {
            head(o, "catch", s);
            o += std::to_string(st->getExceptionDecl() ? type(st->getExceptionDecl()->getType()) : -1);
            kids(o, { st->getHandlerBlock() });
            o += "]";
            return;
        }
        if (auto* st = dyn_cast<AttributedStmt>(s))
        {
            head(o, "attr", s);
            o += "0";
            kids(o, { st->getSubStmt() });
            o += "]";
            return;
        }
        head(o, "x", s);
        jstr(o, s->getStmtClassName());
        kidsr(o, s->children());
        o += "]";
    }
    void lambda(std::string& o, const LambdaExpr* e)
    {
        // ["lambda", line, type, [[captures: [declid|-1(this), byref, initnode-present]], [params decl ids], usr, generic], [capture inits...], body]
        head(o, "lambda", e);
        o += "[[";
        bool f = true;
        std::vector<const Stmt*> inits;
        auto ii = e->capture_init_begin();
        for (auto& c : e->captures())
        {
            if (! f) o += ',';
            f = false;
            int byref = c.getCaptureKind() == LCK_ByRef || c.getCaptureKind() == LCK_This;
            int d = -1;
            if (c.capturesVariable()) d = decl(c.getCapturedVar());
            int fld = -1;
            o += "[" + std::to_string(d) + "," + std::to_string(byref) + "]";
            (void)fld;
            inits.push_back(*ii);
            ++ii;
        }
        o += "],[";
        const CXXMethodDecl* op = e->getCallOperator();
        const FunctionDecl* bodyfn = op;
        bool generic = e->isGenericLambda();
        std::vector<const FunctionDecl*> more;
        if (generic)
        {
            if (auto* ft = e->getDependentCallOperator())
                for (auto* sp : ft->specializations())
                {
                    const FunctionDecl* def = nullptr;
                    if (sp->hasBody(def) && def && def->doesThisDeclarationHaveABody())
                    {
                        if (bodyfn == op) bodyfn = def; else more.push_back(def);
                    }
                }
        }
        f = true;
        for (auto* p : bodyfn->parameters())
        {
            if (! f) o += ',';
            f = false;
            o += std::to_string(decl(p));
        }
        o += "],";
        jstr(o, C.usr(bodyfn));
        o += "," + std::to_string(generic ? (bodyfn == op ? 1 : 2) : 0) + "," + std::to_string(decl(op)) + "," + std::to_string(lambda_cfgs.size()) + "]";
        lambda_cfgs.push_back({ nodes - 1, bodyfn });
        kidsr(o, inits);
        o += ",";
        node(o, bodyfn->getBody());
        o += "]";
    }
    std::vector<std::pair<int, const FunctionDecl*>> lambda_cfgs;

    void cfg(std::string& o, const Decl* d, Stmt* body)
    {
        CFG::BuildOptions bo;
        bo.AddImplicitDtors = true;
        bo.AddInitializers = true;
        bo.AddEHEdges = false;
        bo.PruneTriviallyFalseEdges = true;
        bo.AddScopes = false;
        bo.setAllAlwaysAdd();
        std::unique_ptr<CFG> g;
        if (body && ! (dyn_cast<FunctionDecl>(d) && cast<FunctionDecl>(d)->isDependentContext())) g = CFG::buildCFG(d, body, &C.A, bo);
        if (! g)
        {
            o += "null";
            return;
        }
        o += "[" + std::to_string(g->getEntry().getBlockID()) + "," + std::to_string(g->getExit().getBlockID()) + ",{";
        bool f = true;
        for (auto* b : *g)
        {
            if (! f) o += ',';
            f = false;
            o += "\"" + std::to_string(b->getBlockID()) + "\":[[";
            bool g1 = true;
            for (auto s = b->succ_begin(); s != b->succ_end(); ++s)
            {
                if (! g1) o += ',';
                g1 = false;
                const CFGBlock* t = s->getReachableBlock();
                o += t ? std::to_string(t->getBlockID()) : "-1";
            }
            o += "],[";
            g1 = true;
            for (auto& el : *b)
            {
                std::string x;
                if (auto st = el.getAs<CFGStmt>())
                {
                    auto it = sid.find(st->getStmt());
                    if (it != sid.end()) x = std::to_string(it->second);
                }
                else if (auto in = el.getAs<CFGInitializer>())
                {
                    auto* i = in->getInitializer();
                    x = "[\"I\"," + std::to_string(i->isAnyMemberInitializer() ? decl(i->getAnyMember()) : -1) + "]";
                }
                else if (auto dt = el.getAs<CFGAutomaticObjDtor>())
                {
                    x = "[\"D\"," + std::to_string(decl(dt->getVarDecl())) + "]";
                }
                if (x.empty()) continue;
                if (! g1) o += ',';
                g1 = false;
                o += x;
            }
            o += "],";
            int tid = -1, cid = -1;
            if (b->getTerminatorStmt())
            {
                auto it = sid.find(b->getTerminatorStmt());
                if (it != sid.end()) tid = it->second;
                if (auto* c = b->getTerminatorCondition(false))
                {
                    auto jt = sid.find(c);
                    if (jt != sid.end()) cid = jt->second;
                }
            }
            int lid = -1;
            if (b->getLabel())
            {
                auto it = sid.find(b->getLabel());
                if (it != sid.end()) lid = it->second;
            }
            o += std::to_string(tid) + "," + std::to_string(cid) + "," + std::to_string(lid) + (b->hasNoReturnElement() ? ",1]" : ",0]");
        }
        o += "}]";
    }
};

struct Visitor : RecursiveASTVisitor<Visitor>
{
    Ctx& C;
    std::set<std::string> done;
    explicit Visitor(Ctx& c) : C(c) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool shouldVisitLambdaBody() const { return true; }

    void emit(const std::string& file, const std::string& key, const std::string& js)
    {
        fputs(file.c_str(), OUT);
        fputc('\t', OUT);
        fputs(key.c_str(), OUT);
        fputc('\t', OUT);
        fwrite(js.data(), 1, js.size(), OUT);
        fputc('\n', OUT);
    }
    bool TraverseDecl(Decl* d)
    {
        if (! d) return true;
        // skip everything declared outside the repo at namespace level
        if (! isa<TranslationUnitDecl>(d) && ! isa<NamespaceDecl>(d) && ! isa<LinkageSpecDecl>(d) && d->getDeclContext()->isFileContext())
        {
            if (C.rel(d->getLocation()).empty()) return true;
        }
        if (auto* ns = dyn_cast<NamespaceDecl>(d))
        {
            if (C.rel(ns->getLocation()).empty() && ns->getName() != "std" && ns->getName() != "cura") return true;
        }
        return RecursiveASTVisitor<Visitor>::TraverseDecl(d);
    }
    bool VisitFunctionDecl(FunctionDecl* f)
    {
        if (! f->doesThisDeclarationHaveABody() || ! f->getBody()) return true;
        std::string file = C.rel(f->getLocation());
        if (file.empty()) return true;
        if (auto* m = dyn_cast<CXXMethodDecl>(f))
            if (m->getParent()->isLambda()) return true; // dumped inline
        if (f->isDefaulted()) return true;
        bool dep = f->isDependentContext();
        std::string u = C.usr(f);
        if (u.empty() || ! done.insert(u).second) return true;
        FnDumper D(C);
        D.dependent = dep;
        std::string body, inits, params, cfgs;
        params = "[";
        bool first = true;
        for (auto* p : f->parameters())
        {
            if (! first) params += ',';
            first = false;
            params += std::to_string(D.decl(p));
        }
        params += "]";
        inits = "[";
        first = true;
        if (auto* c = dyn_cast<CXXConstructorDecl>(f))
            for (auto* i : c->inits())
            {
                if (! first) inits += ',';
                first = false;
                inits += "[";
                if (i->isAnyMemberInitializer()) inits += std::to_string(D.decl(i->getAnyMember()));
                else inits += "-1";
                inits += i->isWritten() ? ",1," : ",0,";
                std::string bt = i->isBaseInitializer() ? C.tstr(QualType(i->getBaseClass(), 0)) : (i->isDelegatingInitializer() ? "<delegating>" : "");
                jstr(inits, bt);
                inits += ",";
                D.node(inits, i->getInit());
                inits += "]";
            }
        inits += "]";
        std::string defs;
        if (isa<CXXConstructorDecl>(f))
        {
            bool any = false;
            for (auto* p : f->parameters())
            {
                if (! defs.empty()) defs += ",";
                if (p->hasDefaultArg() && ! p->hasUninstantiatedDefaultArg() && ! p->hasUnparsedDefaultArg())
                {
                    D.node(defs, p->getDefaultArg());
                    any = true;
                }
                else defs += "null";
            }
            if (! any) defs.clear();
        }
        D.node(body, f->getBody());
        std::string cfg;
        D.cfg(cfg, f, f->getBody());
        std::string lc = "[";
        for (size_t i = 0; i < D.lambda_cfgs.size(); ++i)
        {
            if (i) lc += ",";
            std::string c;
            D.cfg(c, D.lambda_cfgs[i].second, D.lambda_cfgs[i].second->getBody());
            lc += c;
        }
        lc += "]";
        std::string js = "{\"k\":\"fn\",\"u\":";
        jstr(js, u);
        js += ",\"q\":";
        jstr(js, C.qname(f));
        js += ",\"n\":";
        jstr(js, f->getNameAsString());
        js += ",\"f\":";
        jstr(js, file);
        js += ",\"l\":" + std::to_string(C.line(f->getLocation()));
        js += ",\"le\":" + std::to_string(C.line(f->getEndLoc()));
        js += ",\"rt\":";
        jstr(js, C.tstr(f->getReturnType()));
        if (! defs.empty()) js += ",\"da\":[" + defs + "]";
        js += ",\"dep\":" + std::string(dep ? "1" : "0");
        std::string cls, flags;
        if (auto* m = dyn_cast<CXXMethodDecl>(f))
        {
            cls = C.qname(m->getParent());
            if (m->isVirtual()) flags += "v";
            if (m->isConst()) flags += "c";
            if (m->isStatic()) flags += "s";
            js += ",\"ov\":[";
            bool f1 = true;
            for (auto* om : m->overridden_methods())
            {
                if (! f1) js += ",";
                f1 = false;
                jstr(js, C.usr(om->getCanonicalDecl()));
            }
            js += "],\"ct\":";
            jstr(js, C.tstr(C.A.getTypeDeclType(m->getParent())));
            if (isa<CXXConstructorDecl>(m)) flags += "C";
            if (isa<CXXDestructorDecl>(m)) flags += "D";
        }
        if (f->isTemplateInstantiation()) flags += "t";
        if (f->isNoReturn()) flags += "N";
        if (auto* ta = f->getTemplateSpecializationArgs())
        {
            std::string targs;
            for (auto& a : ta->asArray())
            {
                std::string s;
                llvm::raw_string_ostream os(s);
                a.print(C.PP, os, true);
                if (! targs.empty()) targs += ", ";
                targs += s;
            }
            js += ",\"ta\":";
            jstr(js, targs);
        }
        std::string pu;
        if (auto* tp = f->getTemplateInstantiationPattern()) pu = C.usr(tp->getCanonicalDecl());
        js += ",\"pu\":";
        jstr(js, pu);
        js += ",\"cls\":";
        jstr(js, cls);
        js += ",\"fl\":\"" + flags + "\"";
        js += ",\"p\":" + params + ",\"in\":" + inits + ",\"b\":" + body + ",\"cfg\":" + cfg + ",\"lc\":" + lc;
        // decl table (in id order)
        std::string dt = "[";
        {
            std::vector<std::string> v(D.nd);
            for (auto& p : D.pend) v[p.first] = p.second;
            for (size_t i = 0; i < v.size(); ++i)
            {
                if (i) dt += ",";
                dt += v[i];
            }
        }
        dt += "]";
        js += ",\"T\":[" + D.types + "],\"D\":" + dt + "}";
        emit(file, u, js);
        return true;
    }
    bool VisitVarDecl(VarDecl* v)
    {
        if (! v->hasGlobalStorage() || v->isStaticLocal() || ! v->hasInit() || isa<ParmVarDecl>(v)) return true;
        if (v->getDeclContext()->isDependentContext()) return true;
        std::string file = C.rel(v->getLocation());
        if (file.empty()) return true;
        std::string u = C.usr(v);
        if (u.empty() || ! done.insert(u).second) return true;
        FnDumper D(C);
        std::string body;
        D.node(body, v->getInit());
        std::string js = "{\"k\":\"gv\",\"u\":";
        jstr(js, u);
        js += ",\"q\":";
        jstr(js, C.qname(v));
        js += ",\"n\":";
        jstr(js, v->getNameAsString());
        js += ",\"f\":";
        jstr(js, file);
        js += ",\"l\":" + std::to_string(C.line(v->getLocation()));
        js += ",\"t\":";
        jstr(js, C.tstr(v->getType()));
        std::string dt = "[";
        std::vector<std::string> vv(D.nd);
        for (auto& p : D.pend) vv[p.first] = p.second;
        for (size_t i = 0; i < vv.size(); ++i) { if (i) dt += ","; dt += vv[i]; }
        dt += "]";
        js += ",\"b\":" + body + ",\"T\":[" + D.types + "],\"D\":" + dt + "}";
        emit(file, u, js);
        return true;
    }
    bool VisitEnumDecl(EnumDecl* e)
    {
        if (! e->isCompleteDefinition()) return true;
        std::string file = C.rel(e->getLocation());
        if (file.empty()) return true;
        std::string u = C.usr(e);
        if (! done.insert("E" + u).second) return true;
        std::string js = "{\"k\":\"enum\",\"u\":";
        jstr(js, u);
        js += ",\"q\":";
        jstr(js, C.qname(e));
        js += ",\"f\":";
        jstr(js, file);
        js += ",\"l\":" + std::to_string(C.line(e->getLocation())) + ",\"e\":[";
        bool f = true;
        for (auto* c : e->enumerators())
        {
            if (! f) js += ",";
            f = false;
            js += "[";
            jstr(js, c->getNameAsString());
            js += ",\"" + llvm::toString(c->getInitVal(), 10) + "\"]";
        }
        js += "]}";
        emit(file, "E" + u, js);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* r)
    {
        if (! r->isThisDeclarationADefinition() || r->isLambda()) return true;
        std::string file = C.rel(r->getLocation());
        if (file.empty()) return true;
        std::string u = C.usr(r);
        if (u.empty() || ! done.insert("R" + u).second) return true;
        FnDumper D(C);
        std::string js = "{\"k\":\"rec\",\"u\":";
        jstr(js, u);
        js += ",\"q\":";
        jstr(js, C.qname(r));
        js += ",\"ct\":";
        jstr(js, C.tstr(C.A.getTypeDeclType(r)));
        js += ",\"f\":";
        jstr(js, file);
        js += ",\"l\":" + std::to_string(C.line(r->getLocation()));
        js += ",\"dep\":" + std::string(r->isDependentContext() ? "1" : "0");
        js += ",\"bases\":[";
        bool f = true;
        for (auto& b : r->bases())
        {
            if (! f) js += ",";
            f = false;
            std::string bu;
            if (auto* br = b.getType()->getAsCXXRecordDecl()) bu = C.usr(br);
            js += "[";
            jstr(js, C.tstr(b.getType()));
            js += ",";
            jstr(js, bu);
            js += "]";
        }
        js += "],\"fields\":[";
        f = true;
        for (auto* fd : r->fields())
        {
            if (! f) js += ",";
            f = false;
            js += "[";
            jstr(js, fd->getNameAsString());
            js += ",";
            jstr(js, C.tstr(fd->getType()));
            js += ",\"" + std::string(fd->isMutable() ? "M" : "") + (fd->getAccess() == AS_public ? "p" : "") + "\",";
            if (fd->hasInClassInitializer() && fd->getInClassInitializer()) D.node(js, fd->getInClassInitializer());
            else js += "null";
            js += "," + std::to_string(C.line(fd->getLocation())) + "]";
        }
        js += "],\"methods\":[";
        f = true;
        for (auto* m : r->methods())
        {
            if (! f) js += ",";
            f = false;
            std::string fl;
            if (m->isVirtual()) fl += "v";
            if (m->isPureVirtual()) fl += "0";
            if (m->isConst()) fl += "c";
            if (m->isStatic()) fl += "s";
            if (m->isDefaulted()) fl += "d";
            if (m->isDeleted()) fl += "x";
            if (m->isImplicit()) fl += "i";
            if (isa<CXXConstructorDecl>(m)) fl += "C";
            if (isa<CXXDestructorDecl>(m)) fl += "D";
            js += "[";
            jstr(js, m->getNameAsString());
            js += ",";
            jstr(js, C.usr(m->getCanonicalDecl()));
            js += ",";
            jstr(js, C.tstr(m->getType()));
            js += ",\"" + fl + "\",[";
            bool f1 = true;
            for (auto* om : m->overridden_methods())
            {
                if (! f1) js += ",";
                f1 = false;
                jstr(js, C.usr(om->getCanonicalDecl()));
            }
            js += "]]";
        }
        js += "],\"T\":[" + D.types + "],\"D\":[";
        std::vector<std::string> vv(D.nd);
        for (auto& p : D.pend) vv[p.first] = p.second;
        for (size_t i = 0; i < vv.size(); ++i) { if (i) js += ","; js += vv[i]; }
        js += "]}";
        emit(file, "R" + u, js);
        return true;
    }
};

struct Consumer : ASTConsumer
{
    bool shouldSkipFunctionBody(Decl* d) override
    {
        return false;
    }
    void HandleTranslationUnit(ASTContext& A) override
    {
        Ctx C(A);
        Visitor V(C);
        V.TraverseDecl(A.getTranslationUnitDecl());
        // dependency list
        std::set<std::string> deps;
        for (auto it = C.SM.fileinfo_begin(); it != C.SM.fileinfo_end(); ++it)
        {
            std::string rp = it->first.getFileEntry().tryGetRealPathName().str();
            if (rp.compare(0, REPO.size(), REPO) == 0) deps.insert(rp.substr(REPO.size()));
            if (! EXTRA.empty() && rp.compare(0, EXTRA.size(), EXTRA) == 0) deps.insert("@ref/" + rp.substr(EXTRA.size()));
        }
        fprintf(OUT, "#deps");
        for (auto& d : deps) fprintf(OUT, "\t%s", d.c_str());
        fprintf(OUT, "\n");
    }
};
struct Action : ASTFrontendAction
{
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, llvm::StringRef) override { return std::make_unique<Consumer>(); }
};

int main(int argc, char** argv)
{
    std::string out = argv[1];
    REPO = argv[2];
    MAINFILE = argv[3];
    if (const char* x = getenv("SA_EXTRA")) EXTRA = x;
    std::vector<std::string> args;
    for (int i = 5; i < argc; ++i) args.push_back(argv[i]);
    OUT = fopen((out + ".tmp").c_str(), "w");
    if (! OUT) return 3;
    tooling::FixedCompilationDatabase db(".", args);
    tooling::ClangTool tool(db, { MAINFILE });
    int rc = tool.run(tooling::newFrontendActionFactory<Action>().get());
    fprintf(OUT, "#rc\t%d\n", rc);
    fclose(OUT);
    if (rc == 0) rename((out + ".tmp").c_str(), out.c_str());
    else remove((out + ".tmp").c_str());
    return rc;
}
