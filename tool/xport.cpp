// xport: exports every function body of eProsima/xtypes (template instantiations included) as JSON.
// The export is the *resolved* program: callees, types, casts and constants come from clang's semantic analysis.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/Expr.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;
using json::Object; using json::Array; using json::Value;

static std::string ROOT;      // only bodies below this path are exported

struct X
{
    ASTContext& ctx;
    SourceManager& sm;
    PrintingPolicy pp;
    std::unique_ptr<MangleContext> mc;
    std::map<const Decl*, int> ids;
    std::vector<const FunctionDecl*> queue;
    std::set<const FunctionDecl*> seen;
    Array functions, records, enums;

    X(ASTContext& c) : ctx(c), sm(c.getSourceManager()), pp(c.getPrintingPolicy())
    {
        pp.SuppressTagKeyword = true; pp.FullyQualifiedName = true; pp.PrintCanonicalTypes = true; pp.Bool = true;
        pp.SuppressUnwrittenScope = true;
        mc.reset(ItaniumMangleContext::create(c, c.getDiagnostics()));
    }

    int id(const Decl* d) { d = d->getCanonicalDecl(); auto it = ids.find(d); if (it != ids.end()) return it->second; int n = ids.size() + 1; ids[d] = n; return n; }

    bool in_root(SourceLocation l)
    {
        if (l.isInvalid()) return false;
        l = sm.getExpansionLoc(l);
        auto f = sm.getFilename(l);
        return f.starts_with(ROOT);
    }
    int line(SourceLocation l) { return l.isInvalid() ? 0 : (int)sm.getExpansionLineNumber(l); }
    std::string file(SourceLocation l) { return l.isInvalid() ? "" : sm.getFilename(sm.getExpansionLoc(l)).str(); }

    std::string ty(QualType t) { return t.isNull() ? "?" : t.getCanonicalType().getAsString(pp); }
    std::string qn(const NamedDecl* d)
    {
        std::string s; llvm::raw_string_ostream os(s);
        if (auto* r = dyn_cast<ClassTemplateSpecializationDecl>(d)) return ty(ctx.getTypeDeclType(r));
        if (auto* m = dyn_cast<CXXMethodDecl>(d)) { os << qn(m->getParent()) << "::"; m->printName(os); targs(m, os); return os.str(); }
        d->printQualifiedName(os, pp);
        if (auto* f = dyn_cast<FunctionDecl>(d)) targs(f, os);
        return os.str();
    }
    void targs(const FunctionDecl* f, llvm::raw_ostream& os)
    {
        if (auto* a = f->getTemplateSpecializationArgs())
        {
            os << "<"; bool first = true;
            for (auto& x : a->asArray()) { if (!first) os << ", "; first = false; x.print(pp, os, true); }
            os << ">";
        }
    }
    std::string plain(const NamedDecl* d) { std::string s; llvm::raw_string_ostream os(s); d->printName(os); return os.str(); }
    std::string mangled(const FunctionDecl* f)
    {
        std::string s; llvm::raw_string_ostream os(s);
        if (auto* c = dyn_cast<CXXConstructorDecl>(f)) mc->mangleName(GlobalDecl(c, Ctor_Complete), os);
        else if (auto* c = dyn_cast<CXXDestructorDecl>(f)) mc->mangleName(GlobalDecl(c, Dtor_Complete), os);
        else if (mc->shouldMangleDeclName(f)) mc->mangleName(GlobalDecl(f), os);
        else os << f->getNameAsString();
        return os.str() ;
    }

    // -------- types of operands that matter for numeric semantics
    Value tinfo(QualType t)
    {
        return ty(t);
    }

    Value opt(const Expr* e) { if (!e) return nullptr; return expr(e); }
    Array exprs(llvm::ArrayRef<const Expr*> a) { Array r; for (auto* e : a) r.push_back(opt(e)); return r; }
    template<class R> Array args(R&& range) { Array r; for (const Expr* e : range) { if (e && isa<CXXDefaultArgExpr>(e)) { Object o = ex(cast<CXXDefaultArgExpr>(e)->getExpr()); r.push_back(std::move(o)); } else r.push_back(opt(e)); } return r; }

    Object fnref(const FunctionDecl* f)
    {
        if (auto* d = f->getDefinition()) enqueue(cast<FunctionDecl>(d));
        Object o; o["id"] = id(f->getDefinition() ? f->getDefinition() : f); o["qn"] = qn(f); o["name"] = plain(f);
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) { o["cls"] = qn(m->getParent()); if (m->isVirtual()) o["virtual"] = true; if (m->isConst()) o["const"] = true; if (m->isStatic()) o["static"] = true; }
        if (f->isNoReturn() || f->hasAttr<NoReturnAttr>()) o["noreturn"] = true;
        o["root"] = in_root(f->getLocation());
        Array ps; for (auto* p : f->parameters()) ps.push_back(ty(p->getType())); o["pt"] = std::move(ps);
        o["rt"] = ty(f->getReturnType());
        return o;
    }

    void enqueue(const FunctionDecl* f)
    {
        if (!f) return;
        if (!f->doesThisDeclarationHaveABody() && !(f->isDefaulted())) return;
        if (f->isDependentContext()) return;
        if (!in_root(f->getLocation())) return;
        f = cast<FunctionDecl>(f);
        if (seen.insert(f).second) queue.push_back(f);
    }

    Value expr(const Expr* e) { return ex(e); }

    Object ex(const Expr* e)
    {
        Object o;
        while (true)
        {
            if (auto* p = dyn_cast<ParenExpr>(e)) { e = p->getSubExpr(); continue; }
            if (auto* p = dyn_cast<FullExpr>(e)) { e = p->getSubExpr(); continue; }
            if (auto* p = dyn_cast<MaterializeTemporaryExpr>(e)) { e = p->getSubExpr(); continue; }
            if (auto* p = dyn_cast<CXXBindTemporaryExpr>(e)) { e = p->getSubExpr(); continue; }
            if (auto* p = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) { e = p->getReplacement(); continue; }
            if (auto* p = dyn_cast<CXXDefaultArgExpr>(e)) { e = p->getExpr(); continue; }
            if (auto* p = dyn_cast<CXXDefaultInitExpr>(e)) { e = p->getExpr(); continue; }
            break;
        }
        o["l"] = line(e->getExprLoc());
        o["t"] = ty(e->getType());
        switch (e->getStmtClass())
        {
            case Stmt::IntegerLiteralClass: o["k"] = "int"; { llvm::SmallString<40> s; cast<IntegerLiteral>(e)->getValue().toString(s, 10, e->getType()->isSignedIntegerType()); o["v"] = s.str().str(); } return o;
            case Stmt::CharacterLiteralClass: o["k"] = "int"; o["v"] = std::to_string(cast<CharacterLiteral>(e)->getValue()); o["chr"] = true; return o;
            case Stmt::CXXBoolLiteralExprClass: o["k"] = "bool"; o["v"] = cast<CXXBoolLiteralExpr>(e)->getValue(); return o;
            case Stmt::FloatingLiteralClass: o["k"] = "float"; o["v"] = cast<FloatingLiteral>(e)->getValueAsApproximateDouble(); return o;
            case Stmt::StringLiteralClass: o["k"] = "str"; { auto* s = cast<StringLiteral>(e); if (s->getCharByteWidth() == 1) { std::string v = s->getString().str(); if (!json::isUTF8(v)) v = json::fixUTF8(v); o["v"] = v; } else { std::string v; for (unsigned i = 0; i < s->getLength(); ++i) v.push_back((char)s->getCodeUnit(i)); if (!json::isUTF8(v)) v = json::fixUTF8(v); o["v"] = v; } } return o;
            case Stmt::PredefinedExprClass: o["k"] = "str"; o["v"] = "__func__"; return o;
            case Stmt::CXXNullPtrLiteralExprClass: case Stmt::GNUNullExprClass: o["k"] = "null"; return o;
            case Stmt::CXXThisExprClass: o["k"] = "this"; return o;
            case Stmt::CXXScalarValueInitExprClass: case Stmt::ImplicitValueInitExprClass: o["k"] = "zero"; return o;
            case Stmt::DeclRefExprClass:
            {
                auto* d = cast<DeclRefExpr>(e)->getDecl();
                if (auto* ec = dyn_cast<EnumConstantDecl>(d)) { o["k"] = "enumc"; o["n"] = plain(ec); o["v"] = (int64_t)ec->getInitVal().getExtValue(); return o; }
                if (auto* f = dyn_cast<FunctionDecl>(d)) { o["k"] = "fnref"; o["fn"] = fnref(f); return o; }
                if (auto* b = dyn_cast<BindingDecl>(d)) { o["k"] = "binding"; o["d"] = id(b); o["n"] = plain(b); o["e"] = opt(b->getBinding()); return o; }
                o["k"] = "ref"; o["d"] = id(d); o["n"] = plain(d);
                if (auto* v = dyn_cast<VarDecl>(d))
                {
                    o["dk"] = isa<ParmVarDecl>(v) ? "param" : v->isLocalVarDecl() ? (v->isStaticLocal() ? "static" : "local") : "global";
                    if (!v->isLocalVarDeclOrParm()) { o["qn"] = qn(v); globalvar(o, v); }
                    else if (v->isConstexpr()) globalvar(o, v);
                }
                return o;
            }
            case Stmt::MemberExprClass:
            {
                auto* m = cast<MemberExpr>(e);
                auto* d = m->getMemberDecl();
                if (auto* f = dyn_cast<FunctionDecl>(d)) { o["k"] = "memfn"; o["fn"] = fnref(f); o["b"] = expr(m->getBase()); o["arrow"] = m->isArrow(); return o; }
                if (auto* ec = dyn_cast<EnumConstantDecl>(d)) { o["k"] = "enumc"; o["n"] = plain(ec); o["v"] = (int64_t)ec->getInitVal().getExtValue(); return o; }
                if (auto* v = dyn_cast<VarDecl>(d)) { o["k"] = "ref"; o["d"] = id(v); o["n"] = plain(v); o["dk"] = "global"; o["qn"] = qn(v); globalvar(o, v); return o; }
                o["k"] = "mem"; o["b"] = expr(m->getBase()); o["arrow"] = m->isArrow(); o["f"] = plain(d);
                if (auto* fd = dyn_cast<FieldDecl>(d)) o["rec"] = qn(fd->getParent());
                o["root"] = in_root(d->getLocation());
                return o;
            }
            case Stmt::UnaryOperatorClass:
            {
                auto* u = cast<UnaryOperator>(e);
                o["k"] = "un"; o["op"] = UnaryOperator::getOpcodeStr(u->getOpcode()).str(); o["post"] = u->isPostfix(); o["e"] = expr(u->getSubExpr()); return o;
            }
            case Stmt::BinaryOperatorClass:
            case Stmt::CompoundAssignOperatorClass:
            {
                auto* b = cast<BinaryOperator>(e);
                o["k"] = b->isAssignmentOp() ? "asg" : "bin"; o["op"] = b->getOpcodeStr().str();
                o["a"] = expr(b->getLHS()); o["b"] = expr(b->getRHS());
                if (auto* c = dyn_cast<CompoundAssignOperator>(e)) o["ct"] = ty(c->getComputationResultType());
                return o;
            }
            case Stmt::ConditionalOperatorClass: { auto* c = cast<ConditionalOperator>(e); o["k"] = "cond"; o["c"] = expr(c->getCond()); o["a"] = expr(c->getTrueExpr()); o["b"] = expr(c->getFalseExpr()); return o; }
            case Stmt::ArraySubscriptExprClass: { auto* a = cast<ArraySubscriptExpr>(e); o["k"] = "sub"; o["a"] = expr(a->getBase()); o["b"] = expr(a->getIdx()); return o; }
            case Stmt::UnaryExprOrTypeTraitExprClass:
            {
                auto* u = cast<UnaryExprOrTypeTraitExpr>(e); o["k"] = "sizeof"; o["of"] = ty(u->getTypeOfArgument());
                Expr::EvalResult r; if (e->EvaluateAsInt(r, ctx)) o["v"] = (int64_t)r.Val.getInt().getExtValue(); return o;
            }
            case Stmt::ImplicitCastExprClass: case Stmt::CStyleCastExprClass: case Stmt::CXXFunctionalCastExprClass:
            case Stmt::CXXStaticCastExprClass: case Stmt::CXXReinterpretCastExprClass: case Stmt::CXXConstCastExprClass: case Stmt::CXXDynamicCastExprClass:
            {
                auto* c = cast<CastExpr>(e);
                // user-defined conversions and constructor conversions: the sub expression already is the call
                auto ck = c->getCastKind();
                if (ck == CK_LValueToRValue || ck == CK_FunctionToPointerDecay || ck == CK_ConstructorConversion || ck == CK_UserDefinedConversion || ck == CK_BuiltinFnToFnPtr
                    || (ck == CK_NoOp && isa<ImplicitCastExpr>(e)))
                {
                    return ex(c->getSubExpr());
                }
                o["k"] = "cast"; o["ck"] = c->getCastKindName();
                o["st"] = isa<ImplicitCastExpr>(e) ? "implicit" : isa<CXXStaticCastExpr>(e) ? "static" : isa<CXXReinterpretCastExpr>(e) ? "reinterpret" : isa<CXXConstCastExpr>(e) ? "const" : isa<CXXDynamicCastExpr>(e) ? "dynamic" : "c";
                if (auto* x = dyn_cast<ExplicitCastExpr>(e)) o["to"] = ty(x->getTypeAsWritten());
                o["from"] = ty(c->getSubExpr()->getType());
                o["tb"] = bits(e->getType()); o["fb"] = bits(c->getSubExpr()->getType());
                o["e"] = expr(c->getSubExpr());
                return o;
            }
            case Stmt::CXXMemberCallExprClass: case Stmt::CXXOperatorCallExprClass: case Stmt::CallExprClass: case Stmt::UserDefinedLiteralClass:
            {
                auto* c = cast<CallExpr>(e);
                o["k"] = "call";
                if (auto* f = c->getDirectCallee())
                {
                    o["fn"] = fnref(f);
                    if (auto* m = dyn_cast<CXXMemberCallExpr>(e))
                    {
                        o["obj"] = opt(m->getImplicitObjectArgument());
                        const Expr* cal = m->getCallee()->IgnoreParens();
                        if (auto* me = dyn_cast<MemberExpr>(cal)) { o["arrow"] = me->isArrow(); if (me->hasQualifier()) o["qual"] = true; }
                        o["args"] = args(c->arguments());
                    }
                    else if (isa<CXXOperatorCallExpr>(e) && isa<CXXMethodDecl>(f) && !cast<CXXMethodDecl>(f)->isStatic())
                    {
                        o["obj"] = opt(c->getArg(0)); o["arrow"] = false; Array r; for (unsigned i = 1; i < c->getNumArgs(); ++i) r.push_back(opt(c->getArg(i))); o["args"] = std::move(r);
                    }
                    else o["args"] = args(c->arguments());
                    if (isa<CXXOperatorCallExpr>(e)) o["oper"] = true;
                }
                else
                {
                    const Expr* cal = c->getCallee()->IgnoreParens();
                    if (auto* pd = dyn_cast<CXXPseudoDestructorExpr>(cal)) { o["k"] = "pdtor"; o["b"] = expr(pd->getBase()); o["of"] = ty(pd->getDestroyedType()); return o; }
                    o["callee"] = expr(cal); o["args"] = args(c->arguments());
                }
                return o;
            }
            case Stmt::CXXConstructExprClass: case Stmt::CXXTemporaryObjectExprClass:
            {
                auto* c = cast<CXXConstructExpr>(e);
                o["k"] = "ctor"; o["fn"] = fnref(c->getConstructor()); o["args"] = args(c->arguments()); o["elid"] = c->isElidable();
                o["copymove"] = c->getConstructor()->isCopyOrMoveConstructor(); o["move"] = c->getConstructor()->isMoveConstructor(); o["dflt"] = c->getConstructor()->isDefaulted();
                return o;
            }
            case Stmt::CXXInheritedCtorInitExprClass: o["k"] = "unk"; return o;
            case Stmt::CXXNewExprClass:
            {
                auto* n = cast<CXXNewExpr>(e);
                o["k"] = "new"; o["of"] = ty(n->getAllocatedType()); o["sz"] = int64_t(ctx.getTypeSizeInChars(n->getAllocatedType()).getQuantity()); o["place"] = args(n->placement_arguments());
                if (n->isArray() && n->getArraySize()) o["size"] = opt(*n->getArraySize());
                o["init"] = opt(n->getInitializer()); return o;
            }
            case Stmt::CXXDeleteExprClass: { auto* d = cast<CXXDeleteExpr>(e); o["k"] = "delete"; o["arr"] = d->isArrayForm(); o["e"] = expr(d->getArgument()); return o; }
            case Stmt::CXXThrowExprClass: { auto* t = cast<CXXThrowExpr>(e); o["k"] = "throw"; o["e"] = opt(t->getSubExpr()); return o; }
            case Stmt::LambdaExprClass:
            {
                auto* l = cast<LambdaExpr>(e); o["k"] = "lambda"; auto* op = l->getCallOperator(); o["fid"] = id(op);
                if (seen.insert(op).second) queue.push_back(op);
                Array caps;
                auto ci = l->capture_init_begin();
                for (auto& c : l->captures())
                {
                    Object k;
                    if (c.capturesThis()) k["this"] = true;
                    else if (c.capturesVariable()) { auto* v = c.getCapturedVar(); k["d"] = id(v); k["n"] = plain(v); k["ref"] = c.getCaptureKind() == LCK_ByRef; if (l->isInitCapture(&c)) k["init"] = opt(cast<VarDecl>(v)->getInit()); }
                    (void)ci; if (ci != l->capture_init_end()) ++ci;
                    caps.push_back(std::move(k));
                }
                o["caps"] = std::move(caps); return o;
            }
            case Stmt::InitListExprClass: { auto* i = cast<InitListExpr>(e); auto* s = i->isSemanticForm() ? i : i->getSemanticForm() ? i->getSemanticForm() : i; o["k"] = "init"; Array r; for (unsigned k = 0; k < s->getNumInits(); ++k) r.push_back(opt(s->getInit(k))); o["es"] = std::move(r); return o; }
            case Stmt::CXXStdInitializerListExprClass: return ex(cast<CXXStdInitializerListExpr>(e)->getSubExpr());
            case Stmt::CXXTypeidExprClass: o["k"] = "typeid"; return o;
            case Stmt::CXXNoexceptExprClass: case Stmt::TypeTraitExprClass: { Expr::EvalResult r; o["k"] = "unk"; if (e->EvaluateAsRValue(r, ctx) && r.Val.isInt()) { o["k"] = "bool"; o["v"] = r.Val.getInt().getBoolValue(); } return o; }
            default: break;
        }
        {
            Expr::EvalResult r;
            if (!e->isValueDependent() && e->getType()->isIntegralOrEnumerationType() && e->EvaluateAsInt(r, ctx)) { o["k"] = "int"; llvm::SmallString<40> s; r.Val.getInt().toString(s, 10); o["v"] = s.str().str(); return o; }
        }
        o["k"] = "unk"; o["cls"] = e->getStmtClassName();
        return o;
    }

    int bits(QualType t) { t = t.getCanonicalType(); if (t->isIntegralOrEnumerationType() && !t->isDependentType()) { int b = (int)ctx.getIntWidth(t); return t->isSignedIntegerOrEnumerationType() ? -b : b; } if (t->isRealFloatingType()) return 1000 + (int)ctx.getTypeSize(t); return 0; }

    void globalvar(Object& o, const VarDecl* v)
    {
        const VarDecl* dv = nullptr;
        if (const Expr* i = v->getAnyInitializer(dv))
        {
            if (v->getType().isConstQualified() && !i->isValueDependent())
            {
                if (v->getType()->isIntegralOrEnumerationType()) { if (dv) if (auto* val = dv->evaluateValue()) if (val->isInt()) { llvm::SmallString<40> s; val->getInt().toString(s, 10); o["v"] = s.str().str(); } }
            }
            if (in_root(v->getLocation())) { if (ginit.insert(v).second) { Object g; g["qn"] = qn(v); g["t"] = ty(v->getType()); g["init"] = opt(i); globals.push_back(std::move(g)); } }
        }
    }
    std::set<const VarDecl*> ginit; Array globals;

    Value var(const VarDecl* v)
    {
        Object o; o["d"] = id(v); o["n"] = plain(v); o["t"] = ty(v->getType()); o["static"] = v->isStaticLocal(); o["init"] = opt(v->getInit()); o["l"] = line(v->getLocation());
        o["ref"] = v->getType()->isReferenceType(); o["bits"] = bits(v->getType());
        if (auto* dd = dyn_cast<DecompositionDecl>(v)) { Array b; for (auto* x : dd->bindings()) { Object y; y["d"] = id(x); y["n"] = plain(x); y["e"] = opt(x->getBinding()); if (auto* hv = x->getHoldingVar()) y["hv"] = var(hv); b.push_back(std::move(y)); } o["bindings"] = std::move(b); }
        return o;
    }

    Value stmt(const Stmt* s)
    {
        if (!s) return nullptr;
        Object o; o["l"] = line(s->getBeginLoc());
        if (auto* e = dyn_cast<Expr>(s)) { o["s"] = "expr"; o["e"] = expr(e); return o; }
        switch (s->getStmtClass())
        {
            case Stmt::CompoundStmtClass: { o["s"] = "block"; Array r; for (auto* c : cast<CompoundStmt>(s)->body()) r.push_back(stmt(c)); o["b"] = std::move(r); return o; }
            case Stmt::DeclStmtClass: { o["s"] = "decl"; Array r; for (auto* d : cast<DeclStmt>(s)->decls()) if (auto* v = dyn_cast<VarDecl>(d)) r.push_back(var(v)); o["vars"] = std::move(r); return o; }
            case Stmt::IfStmtClass: { auto* i = cast<IfStmt>(s); o["s"] = "if"; if (i->getInit()) o["init"] = stmt(i->getInit()); if (i->getConditionVariable()) o["cv"] = var(i->getConditionVariable()); o["c"] = expr(i->getCond()); o["a"] = stmt(i->getThen()); o["b"] = stmt(i->getElse());
                if (i->isConstexpr()) { if (auto nd = i->getNondiscardedCase(ctx)) { o["s"] = "block"; Array r; if (*nd) r.push_back(stmt(*nd)); o["b"] = std::move(r); } }
                return o; }
            case Stmt::ForStmtClass: { auto* f = cast<ForStmt>(s); o["s"] = "for"; o["init"] = stmt(f->getInit()); o["c"] = opt(f->getCond()); o["inc"] = opt(f->getInc()); o["b"] = stmt(f->getBody()); return o; }
            case Stmt::WhileStmtClass: { auto* f = cast<WhileStmt>(s); o["s"] = "while"; if (f->getConditionVariable()) o["cv"] = var(f->getConditionVariable()); o["c"] = opt(f->getCond()); o["b"] = stmt(f->getBody()); return o; }
            case Stmt::DoStmtClass: { auto* f = cast<DoStmt>(s); o["s"] = "do"; o["c"] = opt(f->getCond()); o["b"] = stmt(f->getBody()); return o; }
            case Stmt::CXXForRangeStmtClass: { auto* f = cast<CXXForRangeStmt>(s); o["s"] = "rangefor"; o["v"] = var(f->getLoopVariable()); o["r"] = expr(f->getRangeInit()); o["rt"] = ty(f->getRangeInit()->getType()); o["b"] = stmt(f->getBody()); return o; }
            case Stmt::SwitchStmtClass: { auto* w = cast<SwitchStmt>(s); o["s"] = "switch"; if (w->getInit()) o["init"] = stmt(w->getInit()); o["c"] = expr(w->getCond()); o["b"] = stmt(w->getBody()); return o; }
            case Stmt::CaseStmtClass: { auto* c = cast<CaseStmt>(s); o["s"] = "case"; o["e"] = expr(c->getLHS()); Expr::EvalResult r; if (c->getLHS()->EvaluateAsInt(r, ctx)) o["v"] = (int64_t)r.Val.getInt().getExtValue(); o["b"] = stmt(c->getSubStmt()); return o; }
            case Stmt::DefaultStmtClass: { o["s"] = "default"; o["b"] = stmt(cast<DefaultStmt>(s)->getSubStmt()); return o; }
            case Stmt::BreakStmtClass: o["s"] = "break"; return o;
            case Stmt::ContinueStmtClass: o["s"] = "continue"; return o;
            case Stmt::ReturnStmtClass: o["s"] = "return"; o["e"] = opt(cast<ReturnStmt>(s)->getRetValue()); return o;
            case Stmt::NullStmtClass: o["s"] = "block"; o["b"] = Array(); return o;
            case Stmt::AttributedStmtClass: return stmt(cast<AttributedStmt>(s)->getSubStmt());
            case Stmt::CXXTryStmtClass: { auto* t = cast<CXXTryStmt>(s); o["s"] = "try"; o["b"] = stmt(t->getTryBlock()); Array h; for (unsigned i = 0; i < t->getNumHandlers(); ++i) { auto* c = t->getHandler(i); Object k; if (c->getExceptionDecl()) { k["v"] = var(c->getExceptionDecl()); } k["t"] = c->getCaughtType().isNull() ? "..." : ty(c->getCaughtType()); k["b"] = stmt(c->getHandlerBlock()); h.push_back(std::move(k)); } o["h"] = std::move(h); return o; }
            default: o["s"] = "unk"; o["cls"] = s->getStmtClassName(); return o;
        }
    }

    void function(const FunctionDecl* f)
    {
        Object o; o["id"] = id(f); o["qn"] = qn(f); o["name"] = plain(f); o["mg"] = isa<CXXDeductionGuideDecl>(f) ? "" : mangled(f);
        o["file"] = file(f->getLocation()); o["line"] = line(f->getLocation());
        o["rt"] = ty(f->getReturnType()); o["rtref"] = f->getReturnType()->isReferenceType();
        Array ps; for (auto* p : f->parameters()) { Object k; k["d"] = id(p); k["n"] = plain(p); k["t"] = ty(p->getType()); k["ref"] = p->getType()->isReferenceType(); if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg()) k["def"] = ex(p->getDefaultArg()); ps.push_back(std::move(k)); } o["params"] = std::move(ps);
        if (auto* m = dyn_cast<CXXMethodDecl>(f))
        {
            o["cls"] = qn(m->getParent()); o["const"] = m->isConst(); o["virtual"] = m->isVirtual(); o["static"] = m->isStatic();
            o["access"] = m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private";
            Array ov; for (auto* b : m->overridden_methods()) ov.push_back(qn(b)); o["over"] = std::move(ov);
            o["lambda"] = m->getParent()->isLambda();
        }
        o["kind"] = isa<CXXConstructorDecl>(f) ? "ctor" : isa<CXXDestructorDecl>(f) ? "dtor" : isa<CXXConversionDecl>(f) ? "conv" : isa<CXXMethodDecl>(f) ? "method" : "func";
        o["defaulted"] = f->isDefaulted(); o["implicit"] = f->isImplicit();
        o["tmpl"] = f->isTemplateInstantiation();
        if (auto* pt = f->getTemplateInstantiationPattern()) { o["pline"] = line(pt->getLocation()); }
        if (auto* c = dyn_cast<CXXConstructorDecl>(f))
        {
            Array in;
            for (auto* i : c->inits())
            {
                Object k;
                if (i->isMemberInitializer()) k["f"] = plain(i->getMember()); else if (i->isBaseInitializer()) k["base"] = ty(QualType(i->getBaseClass(), 0)); else if (i->isDelegatingInitializer()) k["deleg"] = true; else k["f"] = "?";
                k["e"] = opt(i->getInit()); k["written"] = i->isWritten();
                in.push_back(std::move(k));
            }
            o["inits"] = std::move(in);
        }
        o["body"] = f->doesThisDeclarationHaveABody() ? stmt(f->getBody()) : Value(nullptr);
        functions.push_back(std::move(o));
    }

    void record(const CXXRecordDecl* r)
    {
        if (!r->isCompleteDefinition() || r->isDependentContext() || !in_root(r->getLocation())) return;
        Object o; o["qn"] = qn(r); o["file"] = file(r->getLocation()); o["line"] = line(r->getLocation());
        Array fs; for (auto* f : r->fields()) { Object k; k["n"] = plain(f); k["t"] = ty(f->getType()); k["mutable"] = f->isMutable(); k["access"] = f->getAccess() == AS_public ? "public" : f->getAccess() == AS_protected ? "protected" : "private"; k["l"] = line(f->getLocation()); if (f->hasInClassInitializer() && f->getInClassInitializer()) k["init"] = opt(f->getInClassInitializer()); fs.push_back(std::move(k)); } o["fields"] = std::move(fs);
        Array bs; for (auto& b : r->bases()) bs.push_back(ty(b.getType())); o["bases"] = std::move(bs);
        Array ms;
        for (auto* m : r->methods()) { Object k; k["qn"] = qn(m); k["name"] = plain(m); k["id"] = id(m->getDefinition() ? m->getDefinition() : m); k["virtual"] = m->isVirtual(); k["pure"] = m->isPureVirtual(); k["const"] = m->isConst(); k["deleted"] = m->isDeleted(); k["defaulted"] = m->isDefaulted(); k["implicit"] = m->isImplicit(); k["access"] = m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private"; k["kind"] = isa<CXXConstructorDecl>(m) ? "ctor" : isa<CXXDestructorDecl>(m) ? "dtor" : "method"; k["rt"] = ty(m->getReturnType()); Array ps; for (auto* p : m->parameters()) ps.push_back(ty(p->getType())); k["pt"] = std::move(ps); if (auto* c = dyn_cast<CXXConstructorDecl>(m)) { k["copy"] = c->isCopyConstructor(); k["move"] = c->isMoveConstructor(); } k["static"] = m->isStatic(); ms.push_back(std::move(k)); if (auto* d = m->getDefinition()) enqueue(cast<FunctionDecl>(d)); }
        o["methods"] = std::move(ms);
        o["lambda"] = r->isLambda();
        records.push_back(std::move(o));
    }
};

struct V : RecursiveASTVisitor<V>
{
    X& x; V(X& x) : x(x) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitFunctionDecl(FunctionDecl* f) { if (f->doesThisDeclarationHaveABody()) x.enqueue(f); return true; }
    bool VisitCXXRecordDecl(CXXRecordDecl* r) { x.record(r); return true; }
    bool VisitEnumDecl(EnumDecl* e)
    {
        if (!x.in_root(e->getLocation())) return true;
        Object o; o["qn"] = x.qn(e); Array c; for (auto* k : e->enumerators()) { Object v; v["n"] = x.plain(k); v["v"] = (int64_t)k->getInitVal().getExtValue(); c.push_back(std::move(v)); } o["c"] = std::move(c); x.enums.push_back(std::move(o)); return true;
    }
    bool VisitVarDecl(VarDecl* v) { if (!v->isLocalVarDeclOrParm() && !v->getDeclContext()->isDependentContext() && x.in_root(v->getLocation())) { Object o; x.globalvar(o, v); } return true; }
};

struct C : ASTConsumer
{
    std::string out;
    C(std::string o) : out(o) {}
    void HandleTranslationUnit(ASTContext& ctx) override
    {
        if (ctx.getDiagnostics().hasErrorOccurred()) return;
        X x(ctx); V v(x); v.TraverseDecl(ctx.getTranslationUnitDecl());
        for (size_t i = 0; i < x.queue.size(); ++i) x.function(x.queue[i]);
        std::error_code ec; llvm::raw_fd_ostream os(out, ec);
        Object top; top["functions"] = std::move(x.functions); top["records"] = std::move(x.records); top["enums"] = std::move(x.enums); top["globals"] = std::move(x.globals);
        os << Value(std::move(top));
    }
};
static std::string OUT;
struct A : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<C>(OUT); } };
struct FAF : tooling::FrontendActionFactory { std::unique_ptr<FrontendAction> create() override { return std::make_unique<A>(); } };

// usage: xport ROOT OUT.json FILE.cpp -- flags...
int main(int argc, char** argv)
{
    if (argc < 5) { llvm::errs() << "usage: xport ROOT OUT SRC -- flags\n"; return 2; }
    ROOT = argv[1]; OUT = argv[2]; std::string src = argv[3];
    std::vector<std::string> cmd = { "clang++", "-fsyntax-only", "-resource-dir=/usr/lib/llvm-18/lib/clang/18" };
    for (int i = 5; i < argc; ++i) cmd.push_back(argv[i]);
    cmd.push_back(src);
    IntrusiveRefCntPtr<FileManager> fm(new FileManager(FileSystemOptions()));
    tooling::ToolInvocation inv(cmd, std::make_unique<A>(), fm.get());
    return inv.run() ? 0 : 1;
}
