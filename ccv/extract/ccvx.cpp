// ccvx: dumps the typed, resolved AST of every function, record, enum and global that is
// DEFINED IN FILES UNDER GIVEN ROOTS (normally /repo) as compact JSON for the verifier.
// Nothing is rewritten: every statement and expression of each dumped body appears in the
// output; a node class this tool has no special case for is emitted generically ("k":"?Class").
//
// usage: ccvx ROOT[:ROOT...] MAINFILE clang-args...
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/ASTUnit.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>
#include <sstream>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::vector<std::string> Roots;
static ASTContext* Ctx;
static std::map<const void*, int> TypeIds;
static Array TypeTable;
static std::map<const Decl*, int> DeclIds;
static std::map<const RecordDecl*, bool> RecSeen;
static Array Records, Functions, Enums, Globals;
static std::set<const EnumDecl*> EnumSeen;
static std::set<const FunctionDecl*> FnSeen;
static std::set<const VarDecl*> VarSeen;

static int did(const Decl* d) {
    d = d->getCanonicalDecl();
    auto it = DeclIds.find(d);
    if (it != DeclIds.end()) return it->second;
    int n = DeclIds.size() + 1;
    DeclIds[d] = n;
    return n;
}
static std::string fileOf(SourceLocation l) {
    auto& sm = Ctx->getSourceManager();
    l = sm.getExpansionLoc(l);
    auto p = sm.getPresumedLoc(l);
    if (p.isInvalid()) return "";
    return p.getFilename();
}
static int lineOf(SourceLocation l) {
    auto& sm = Ctx->getSourceManager();
    return sm.getExpansionLineNumber(l);
}
static bool inRoots(SourceLocation l) {
    auto f = fileOf(l);
    for (auto& r : Roots) if (f.compare(0, r.size(), r) == 0) return true;
    return false;
}
static std::string qn(const NamedDecl* d) {
    std::string s;
    llvm::raw_string_ostream os(s);
    PrintingPolicy pp(Ctx->getLangOpts());
    pp.SuppressInlineNamespace = true;
    d->printQualifiedName(os, pp);
    os.flush();
    // drop libstdc++ versioned inline namespaces
    for (auto pat : {"__cxx11::", "_V2::"}) {
        size_t p;
        while ((p = s.find(pat)) != std::string::npos) s.erase(p, strlen(pat));
    }
    return s;
}
static void seeRecord(const RecordDecl* r);
static void seeEnum(const EnumDecl* e);
static Value typ(QualType q);

static Value targ(const TemplateArgument& a, Array& out) {
    switch (a.getKind()) {
        case TemplateArgument::Type: out.push_back(typ(a.getAsType())); break;
        case TemplateArgument::Integral: {
            llvm::SmallString<32> s;
            a.getAsIntegral().toString(s, 10);
            out.push_back(Object{{"int", std::string(s.str())}});
            break;
        }
        case TemplateArgument::Pack:
            for (auto& p : a.pack_elements()) targ(p, out);
            break;
        default: out.push_back(Object{{"other", 1}});
    }
    return nullptr;
}
static Value typ(QualType q) {
    if (q.isNull()) return -1;
    q = Ctx->getCanonicalType(q);
    auto it = TypeIds.find(q.getAsOpaquePtr());
    if (it != TypeIds.end()) return it->second;
    int id = TypeTable.size();
    TypeIds[q.getAsOpaquePtr()] = id;
    TypeTable.push_back(nullptr);
    Object o;
    if (q.isConstQualified()) o["c"] = 1;
    const Type* t = q.getTypePtr();
    if (auto* b = dyn_cast<BuiltinType>(t)) {
        o["k"] = "b";
        PrintingPolicy pp(Ctx->getLangOpts());
        o["n"] = b->getName(pp).str();
        if (b->isInteger()) {
            o["w"] = (int64_t) Ctx->getTypeSize(b);
            o["s"] = b->isSignedInteger() ? 1 : 0;
            if (b->getKind() == BuiltinType::Char_S) o["s"] = 1;
        }
    } else if (auto* p = dyn_cast<PointerType>(t)) {
        o["k"] = "p"; o["e"] = typ(p->getPointeeType());
    } else if (auto* p = dyn_cast<ReferenceType>(t)) {
        o["k"] = isa<RValueReferenceType>(p) ? "rr" : "r"; o["e"] = typ(p->getPointeeType());
    } else if (auto* a = dyn_cast<ConstantArrayType>(t)) {
        o["k"] = "a"; o["e"] = typ(a->getElementType()); o["sz"] = (int64_t) a->getSize().getZExtValue();
    } else if (auto* a = dyn_cast<ArrayType>(t)) {
        o["k"] = "a"; o["e"] = typ(a->getElementType());
    } else if (auto* e = dyn_cast<EnumType>(t)) {
        o["k"] = "e"; o["n"] = qn(e->getDecl()); o["u"] = typ(e->getDecl()->getIntegerType());
        seeEnum(e->getDecl());
    } else if (auto* r = dyn_cast<RecordType>(t)) {
        o["k"] = "c"; o["n"] = qn(r->getDecl()); o["d"] = did(r->getDecl());
        if (auto* cr = dyn_cast<CXXRecordDecl>(r->getDecl())) if (cr->isLambda()) o["lambda"] = 1;
        if (auto* s = dyn_cast<ClassTemplateSpecializationDecl>(r->getDecl())) {
            Array as;
            for (auto& a : s->getTemplateArgs().asArray()) targ(a, as);
            o["a"] = std::move(as);
        }
        if (inRoots(r->getDecl()->getLocation())) seeRecord(r->getDecl());
    } else if (auto* f = dyn_cast<FunctionProtoType>(t)) {
        o["k"] = "f"; o["ret"] = typ(f->getReturnType());
        Array ps; for (auto p : f->param_types()) ps.push_back(typ(p));
        o["ps"] = std::move(ps);
    } else {
        o["k"] = "?"; o["n"] = q.getAsString();
    }
    TypeTable[id] = std::move(o);
    return id;
}

static Value stmt(const Stmt* s);
static Value vardecl(const VarDecl* v);
static Object fn(const FunctionDecl* f);

static Object fnref(const FunctionDecl* f) {
    Object o{{"qn", qn(f)}, {"n", f->getNameAsString()}, {"d", did(f)}, {"ret", typ(f->getReturnType())}};
    Array ps;
    for (auto* p : f->parameters()) ps.push_back(typ(p->getType()));
    o["ps"] = std::move(ps);
    if (f->isVariadic()) o["variadic"] = 1;
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
        o["cls"] = typ(Ctx->getRecordType(m->getParent()));
        if (m->isStatic()) o["static"] = 1;
        if (m->isConst()) o["const"] = 1;
        if (m->isVirtual()) o["virtual"] = 1;
    }
    if (auto* a = f->getTemplateSpecializationArgs()) {
        Array as;
        for (auto& x : a->asArray()) targ(x, as);
        o["ta"] = std::move(as);
    }
    const FunctionDecl* def = nullptr;
    if (f->hasBody(def) && def && inRoots(def->getLocation())) {
        o["local"] = 1;
        if (!FnSeen.count(def)) { FnSeen.insert(def); Functions.push_back(fn(def)); }
    } else if (inRoots(f->getLocation())) o["decl_in_root"] = 1;
    return o;
}
static Value args(llvm::iterator_range<CallExpr::const_arg_iterator> r) {
    Array a; for (auto* e : r) a.push_back(stmt(e)); return a;
}
static std::string fstr(const llvm::APFloat& f) {
    llvm::SmallString<64> s; f.toString(s, 40, 0); return std::string(s.str());
}
static Value expr(const Expr* e);

static Value vardecl(const VarDecl* v) {
    Object o{{"k", "var"}, {"n", v->getNameAsString()}, {"d", did(v)}, {"t", typ(v->getType())}, {"l", lineOf(v->getLocation())}};
    if (v->isStaticLocal()) o["staticlocal"] = 1;
    if (v->hasGlobalStorage() && !v->isStaticLocal()) o["global"] = 1;
    if (auto* i = v->getInit()) o["init"] = stmt(i);
    if (auto* dd = dyn_cast<DecompositionDecl>(v)) {
        Array b;
        for (auto* x : dd->bindings()) {
            Object bo{{"n", x->getNameAsString()}, {"d", did(x)}};
            if (x->getBinding()) bo["t"] = typ(x->getBinding()->getType()); else bo["t"] = typ(x->getType());
            b.push_back(std::move(bo));
        }
        o["bindings"] = std::move(b);
    }
    return o;
}

static Value stmt(const Stmt* s) {
    if (!s) return nullptr;
    if (auto* e = dyn_cast<Expr>(s)) return expr(e);
    Object o;
    o["l"] = lineOf(s->getBeginLoc());
    if (auto* c = dyn_cast<CompoundStmt>(s)) {
        o["k"] = "block"; Array a; for (auto* x : c->body()) a.push_back(stmt(x)); o["b"] = std::move(a);
        o["le"] = lineOf(c->getEndLoc());
    } else if (auto* d = dyn_cast<DeclStmt>(s)) {
        o["k"] = "decl"; Array a;
        for (auto* x : d->decls()) {
            if (auto* v = dyn_cast<VarDecl>(x)) a.push_back(vardecl(v));
            else if (isa<UsingDecl>(x) || isa<TypedefNameDecl>(x) || isa<UsingDirectiveDecl>(x) || isa<StaticAssertDecl>(x) || isa<TagDecl>(x)) ;
            else a.push_back(Object{{"k", "?decl"}, {"cls", x->getDeclKindName()}});
        }
        o["vars"] = std::move(a);
    } else if (auto* i = dyn_cast<IfStmt>(s)) {
        o["k"] = "if"; o["init"] = stmt(i->getInit());
        if (i->getConditionVariable()) o["cv"] = vardecl(i->getConditionVariable());
        o["c"] = stmt(i->getCond()); o["a"] = stmt(i->getThen()); o["b"] = stmt(i->getElse());
        if (i->isConstexpr()) o["constexpr"] = 1;
    } else if (auto* w = dyn_cast<WhileStmt>(s)) {
        o["k"] = "while";
        if (w->getConditionVariable()) o["cv"] = vardecl(w->getConditionVariable());
        o["c"] = stmt(w->getCond()); o["b"] = stmt(w->getBody());
    } else if (auto* w = dyn_cast<DoStmt>(s)) {
        o["k"] = "do"; o["c"] = stmt(w->getCond()); o["b"] = stmt(w->getBody());
    } else if (auto* f = dyn_cast<ForStmt>(s)) {
        o["k"] = "for"; o["init"] = stmt(f->getInit()); o["c"] = stmt(f->getCond()); o["inc"] = stmt(f->getInc()); o["b"] = stmt(f->getBody());
    } else if (auto* f = dyn_cast<CXXForRangeStmt>(s)) {
        o["k"] = "forrange"; o["init"] = stmt(f->getInit());
        o["var"] = vardecl(f->getLoopVariable()); o["range"] = stmt(f->getRangeInit()); o["b"] = stmt(f->getBody());
    } else if (auto* r = dyn_cast<ReturnStmt>(s)) {
        o["k"] = "return"; o["e"] = stmt(r->getRetValue());
    } else if (isa<BreakStmt>(s)) o["k"] = "break";
    else if (isa<ContinueStmt>(s)) o["k"] = "continue";
    else if (isa<NullStmt>(s)) o["k"] = "null";
    else if (auto* w = dyn_cast<SwitchStmt>(s)) {
        o["k"] = "switch"; o["init"] = stmt(w->getInit()); o["c"] = stmt(w->getCond()); o["b"] = stmt(w->getBody());
    } else if (auto* c = dyn_cast<CaseStmt>(s)) {
        o["k"] = "case"; o["v"] = stmt(c->getLHS()); if (c->getRHS()) o["v2"] = stmt(c->getRHS()); o["b"] = stmt(c->getSubStmt());
    } else if (auto* c = dyn_cast<DefaultStmt>(s)) {
        o["k"] = "default"; o["b"] = stmt(c->getSubStmt());
    } else if (auto* t = dyn_cast<CXXTryStmt>(s)) {
        o["k"] = "try"; o["b"] = stmt(t->getTryBlock());
        Array hs;
        for (unsigned i = 0; i < t->getNumHandlers(); i++) {
            auto* h = t->getHandler(i); Object ho;
            if (h->getExceptionDecl()) ho["v"] = vardecl(h->getExceptionDecl());
            ho["b"] = stmt(h->getHandlerBlock()); hs.push_back(std::move(ho));
        }
        o["hs"] = std::move(hs);
    } else if (auto* at = dyn_cast<AttributedStmt>(s)) return stmt(at->getSubStmt());
    else {
        o["k"] = std::string("?") + s->getStmtClassName();
        Array a; for (auto* c : s->children()) a.push_back(stmt(c)); o["ch"] = std::move(a);
    }
    return o;
}

static Value expr(const Expr* e) {
    // transparent wrappers
    if (auto* x = dyn_cast<ParenExpr>(e)) return stmt(x->getSubExpr());
    if (auto* x = dyn_cast<ExprWithCleanups>(e)) return Object{{"k", "cleanups"}, {"l", lineOf(e->getBeginLoc())}, {"t", typ(e->getType())}, {"e", stmt(x->getSubExpr())}};
    if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) return stmt(x->getSubExpr());
    if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return stmt(x->getReplacement());
    if (auto* x = dyn_cast<CXXRewrittenBinaryOperator>(e)) return stmt(x->getSemanticForm());
    if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) return stmt(x->getExpr());
    if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) return stmt(x->getExpr());
    if (auto* x = dyn_cast<OpaqueValueExpr>(e)) if (x->getSourceExpr()) return stmt(x->getSourceExpr());
    if (auto* x = dyn_cast<PredefinedExpr>(e)) if (x->getFunctionName()) return stmt(x->getFunctionName());
    Object o;
    o["l"] = lineOf(e->getBeginLoc());
    o["t"] = typ(e->getType());
    if (e->isLValue()) o["lv"] = 1; else if (e->isXValue()) o["xv"] = 1;
    if (!e->isValueDependent() && !e->isTypeDependent() && e->getType()->isIntegralOrEnumerationType() && e->isPRValue() && !isa<IntegerLiteral>(e) && !isa<CXXBoolLiteralExpr>(e) && !isa<CharacterLiteral>(e)) {
        Expr::EvalResult r;
        if (!e->HasSideEffects(*Ctx) && e->EvaluateAsInt(r, *Ctx)) {
            llvm::SmallString<32> s; r.Val.getInt().toString(s, 10); o["cv"] = std::string(s.str());
        }
    }
    if (auto* x = dyn_cast<ConstantExpr>(e)) { o["k"] = "constexpr"; o["e"] = stmt(x->getSubExpr()); }
    else if (auto* x = dyn_cast<IntegerLiteral>(e)) { llvm::SmallString<32> s; x->getValue().toString(s, 10, x->getType()->isSignedIntegerType()); o["k"] = "int"; o["v"] = std::string(s.str()); }
    else if (auto* x = dyn_cast<CharacterLiteral>(e)) { o["k"] = "int"; o["v"] = std::to_string(x->getValue()); o["chr"] = 1; }
    else if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) { o["k"] = "bool"; o["v"] = x->getValue(); }
    else if (auto* x = dyn_cast<FloatingLiteral>(e)) { o["k"] = "float"; o["v"] = fstr(x->getValue()); }
    else if (auto* x = dyn_cast<StringLiteral>(e)) {
        o["k"] = "str"; Array b; auto s = x->getBytes(); for (unsigned char c : s) b.push_back((int64_t) c); o["v"] = std::move(b);
    }
    else if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) o["k"] = "null";
    else if (isa<CXXThisExpr>(e)) o["k"] = "this";
    else if (auto* x = dyn_cast<DeclRefExpr>(e)) {
        auto* d = x->getDecl();
        o["k"] = "ref"; o["n"] = d->getNameAsString(); o["d"] = did(d);
        if (auto* f = dyn_cast<FunctionDecl>(d)) { o["fn"] = fnref(f); }
        else if (auto* ec = dyn_cast<EnumConstantDecl>(d)) { llvm::SmallString<32> s; ec->getInitVal().toString(s, 10); o["ec"] = std::string(s.str()); o["qn"] = qn(ec); }
        else if (auto* v = dyn_cast<VarDecl>(d)) {
            if (v->hasGlobalStorage()) {
                o["glob"] = 1; o["qn"] = qn(v);
                auto* def = v->getDefinition() ? v->getDefinition() : v->getInitializingDeclaration();
                if (def && inRoots(def->getLocation()) && !VarSeen.count(def)) {
                    VarSeen.insert(def);
                    auto vd = vardecl(def); (*vd.getAsObject())["qn"] = qn(def); Globals.push_back(std::move(vd));
                }
            }
        } else if (isa<BindingDecl>(d)) o["binding"] = 1;
    }
    else if (auto* x = dyn_cast<MemberExpr>(e)) {
        o["k"] = "member"; o["n"] = x->getMemberDecl()->getNameAsString(); o["d"] = did(x->getMemberDecl());
        o["arrow"] = x->isArrow(); o["e"] = stmt(x->getBase());
        if (auto* f = dyn_cast<CXXMethodDecl>(x->getMemberDecl())) o["fn"] = fnref(f);
        else if (auto* fd = dyn_cast<FieldDecl>(x->getMemberDecl())) o["rec"] = qn(fd->getParent());
        else if (auto* v = dyn_cast<VarDecl>(x->getMemberDecl())) {
            o["glob"] = 1; o["qn"] = qn(v);
            auto* def = v->getDefinition() ? v->getDefinition() : v;
            if (inRoots(def->getLocation()) && !VarSeen.count(def)) { VarSeen.insert(def); auto vd = vardecl(def); (*vd.getAsObject())["qn"] = qn(def); Globals.push_back(std::move(vd)); }
        }
    }
    else if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) { o["k"] = "mat"; o["e"] = stmt(x->getSubExpr()); if (x->getExtendingDecl()) o["ext"] = 1; }
    else if (auto* x = dyn_cast<UnaryOperator>(e)) { o["k"] = "un"; o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str(); o["post"] = x->isPostfix(); o["e"] = stmt(x->getSubExpr()); }
    else if (auto* x = dyn_cast<CompoundAssignOperator>(e)) { o["k"] = "cassign"; o["op"] = x->getOpcodeStr().str(); o["a"] = stmt(x->getLHS()); o["b"] = stmt(x->getRHS()); o["ct"] = typ(x->getComputationResultType()); o["clt"] = typ(x->getComputationLHSType()); }
    else if (auto* x = dyn_cast<BinaryOperator>(e)) { o["k"] = "bin"; o["op"] = x->getOpcodeStr().str(); o["a"] = stmt(x->getLHS()); o["b"] = stmt(x->getRHS()); }
    else if (auto* x = dyn_cast<ConditionalOperator>(e)) { o["k"] = "cond"; o["c"] = stmt(x->getCond()); o["a"] = stmt(x->getTrueExpr()); o["b"] = stmt(x->getFalseExpr()); }
    else if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) { o["k"] = "index"; o["a"] = stmt(x->getBase()); o["b"] = stmt(x->getIdx()); }
    else if (auto* x = dyn_cast<CastExpr>(e)) {
        o["k"] = "cast"; o["ck"] = x->getCastKindName(); o["e"] = stmt(x->getSubExpr());
        if (isa<ImplicitCastExpr>(e)) o["impl"] = 1;
        o["from"] = typ(x->getSubExpr()->getType());
        if (auto* nf = x->getConversionFunction()) if (auto* f = dyn_cast<FunctionDecl>(nf)) o["conv"] = fnref(f);
    }
    else if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
        o["k"] = "opcall"; o["op"] = getOperatorSpelling(x->getOperator());
        if (auto* f = x->getDirectCallee()) o["fn"] = fnref(f);
        o["args"] = args(x->arguments());
    }
    else if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
        o["k"] = "mcall"; if (auto* f = x->getMethodDecl()) o["fn"] = fnref(f);
        o["obj"] = stmt(x->getImplicitObjectArgument());
        if (auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) { o["arrow"] = me->isArrow(); }
        o["args"] = args(x->arguments());
    }
    else if (auto* x = dyn_cast<CallExpr>(e)) {
        o["k"] = "call";
        if (auto* f = x->getDirectCallee()) o["fn"] = fnref(f); else o["ce"] = stmt(x->getCallee());
        o["args"] = args(x->arguments());
    }
    else if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
        o["k"] = "ctor"; auto* c = x->getConstructor(); o["fn"] = fnref(c);
        if (c->isCopyOrMoveConstructor()) o["copymove"] = 1;
        if (c->isMoveConstructor()) o["move"] = 1;
        if (c->isDefaultConstructor()) o["default"] = 1;
        if (x->isElidable()) o["elide"] = 1;
        if (x->isListInitialization()) o["list"] = 1;
        if (x->requiresZeroInitialization()) o["zero"] = 1;
        if (c->isTrivial()) o["trivial"] = 1;
        Array a; for (auto* y : x->arguments()) a.push_back(stmt(y)); o["args"] = std::move(a);
    }
    else if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e)) { o["k"] = "?inhctor"; }
    else if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) { o["k"] = "stdinit"; o["e"] = stmt(x->getSubExpr()); }
    else if (auto* x = dyn_cast<InitListExpr>(e)) {
        auto* sem = x->isSemanticForm() ? x : x->getSemanticForm(); if (!sem) sem = x;
        o["k"] = "initlist"; Array a; for (auto* y : sem->inits()) a.push_back(stmt(y)); o["e"] = std::move(a);
        if (sem->hasArrayFiller() && sem->getArrayFiller()) o["filler"] = stmt(sem->getArrayFiller());
    }
    else if (auto* x = dyn_cast<CXXNewExpr>(e)) { o["k"] = "new"; o["at"] = typ(x->getAllocatedType()); o["init"] = stmt(x->getInitializer()); if (x->isArray()) o["array"] = 1; }
    else if (auto* x = dyn_cast<CXXDeleteExpr>(e)) { o["k"] = "delete"; o["e"] = stmt(x->getArgument()); }
    else if (auto* x = dyn_cast<CXXThrowExpr>(e)) { o["k"] = "throw"; o["e"] = stmt(x->getSubExpr()); }
    else if (auto* x = dyn_cast<LambdaExpr>(e)) {
        o["k"] = "lambda"; Array caps;
        auto ci = x->capture_init_begin();
        for (auto& c : x->captures()) {
            Object co; co["init"] = stmt(*ci); ++ci;
            if (c.capturesVariable()) { co["d"] = did(c.getCapturedVar()); co["n"] = c.getCapturedVar()->getNameAsString(); }
            if (c.capturesThis()) co["this"] = 1;
            co["byref"] = c.getCaptureKind() == LCK_ByRef; caps.push_back(std::move(co));
        }
        o["caps"] = std::move(caps);
        auto* m = x->getCallOperator();
        Array ps; for (auto* p : m->parameters()) ps.push_back(vardecl(p));
        o["params"] = std::move(ps); o["body"] = stmt(m->getBody()); o["ret"] = typ(m->getReturnType());
        o["opd"] = did(m);
    }
    else if (isa<CXXScalarValueInitExpr>(e) || isa<ImplicitValueInitExpr>(e)) o["k"] = "zeroinit";
    else {
        o["k"] = std::string("?") + e->getStmtClassName();
        Array a; for (auto* c : e->children()) a.push_back(stmt(c)); o["ch"] = std::move(a);
    }
    return o;
}

static void seeRecord(const RecordDecl* r0) {
    auto* r = r0->getDefinition();
    if (!r || RecSeen[r]) return;
    RecSeen[r] = true;
    Object o{{"n", qn(r)}, {"d", did(r)}, {"t", typ(Ctx->getRecordType(r))}};
    Array bs;
    if (auto* c = dyn_cast<CXXRecordDecl>(r))
        for (auto& b : c->bases()) bs.push_back(typ(b.getType()));
    o["bases"] = std::move(bs);
    if (!r->isDependentType() && !r->isInvalidDecl()) o["sz"] = (int64_t) Ctx->getTypeSizeInChars(Ctx->getRecordType(r)).getQuantity();
    Array fs;
    if (!r->isDependentType())
    for (auto* f : r->fields()) {
        Object fo{{"n", f->getNameAsString()}, {"d", did(f)}, {"t", typ(f->getType())}};
        if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = stmt(f->getInClassInitializer());
        fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    Records.push_back(std::move(o));
}
static void seeEnum(const EnumDecl* e0) {
    auto* e = e0->getDefinition();
    if (!e || EnumSeen.count(e)) return;
    EnumSeen.insert(e);
    Object o{{"n", qn(e)}};
    if (inRoots(e->getLocation())) o["root"] = 1;
    Array cs;
    for (auto* c : e->enumerators()) { llvm::SmallString<32> s; c->getInitVal().toString(s, 10); cs.push_back(Object{{"n", c->getNameAsString()}, {"v", std::string(s.str())}}); }
    o["cs"] = std::move(cs);
    Enums.push_back(std::move(o));
}

static Object fn(const FunctionDecl* f) {
    Object o{{"qn", qn(f)}, {"n", f->getNameAsString()}, {"d", did(f)}, {"ret", typ(f->getReturnType())},
             {"file", fileOf(f->getLocation())}, {"l", lineOf(f->getLocation())}, {"le", lineOf(f->getEndLoc())}};
    Array ps; for (auto* p : f->parameters()) ps.push_back(vardecl(p));
    o["params"] = std::move(ps);
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) { o["cls"] = typ(Ctx->getRecordType(m->getParent())); if (m->isStatic()) o["static"] = 1; if (m->isConst()) o["const"] = 1; if (m->isVirtual()) o["virtual"] = 1; }
    if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
        o["isctor"] = 1; Array is;
        if (c->isDelegatingConstructor()) o["delegating"] = 1;
        for (auto* i : c->inits()) {
            Object io; if (i->isMemberInitializer()) { io["f"] = i->getMember()->getNameAsString(); io["fd"] = did(i->getMember()); }
            else if (i->isBaseInitializer()) io["base"] = typ(QualType(i->getBaseClass(), 0));
            io["e"] = stmt(i->getInit()); io["written"] = i->isWritten(); is.push_back(std::move(io));
        }
        o["inits"] = std::move(is);
    }
    if (isa<CXXDestructorDecl>(f)) o["isdtor"] = 1;
    if (auto* a = f->getTemplateSpecializationArgs()) { Array as; for (auto& x : a->asArray()) targ(x, as); o["ta"] = std::move(as); }
    if (f->isDefaulted()) o["defaulted"] = 1;
    o["body"] = stmt(f->getBody());
    return o;
}

struct V : RecursiveASTVisitor<V> {
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool VisitFunctionDecl(FunctionDecl* f) {
        if (!f->isThisDeclarationADefinition() || !f->getBody() || f->isDependentContext() || f->isDeleted()) return true;
        if (!inRoots(f->getLocation())) return true;
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isLambda()) return true;
        if (FnSeen.count(f)) return true;
        FnSeen.insert(f);
        Functions.push_back(fn(f));
        return true;
    }
    bool VisitRecordDecl(RecordDecl* r) {
        if (r->isThisDeclarationADefinition() && inRoots(r->getLocation()) && !r->isDependentType()) {
            if (auto* c = dyn_cast<CXXRecordDecl>(r)) if (c->isLambda()) return true;
            seeRecord(r);
        }
        return true;
    }
    bool VisitEnumDecl(EnumDecl* e) { if (inRoots(e->getLocation())) seeEnum(e); return true; }
    bool VisitVarDecl(VarDecl* v) {
        if (v->isFileVarDecl() && inRoots(v->getLocation()) && !v->getType()->isDependentType() && v->isThisDeclarationADefinition() && !v->getDeclContext()->isDependentContext()) {
            if (VarSeen.count(v)) return true; VarSeen.insert(v);
            auto vd = vardecl(v); (*vd.getAsObject())["qn"] = qn(v); Globals.push_back(std::move(vd));
        }
        return true;
    }
};

int main(int argc, char** argv) {
    if (argc < 3) return 2;
    std::stringstream ss(argv[1]); std::string r; while (std::getline(ss, r, ':')) Roots.push_back(r);
    std::vector<std::string> a(argv + 3, argv + argc);
    std::ifstream in(argv[2]); std::stringstream code; code << in.rdbuf();
    auto ast = tooling::buildASTFromCodeWithArgs(code.str(), a, argv[2], "clang-tool", std::make_shared<PCHContainerOperations>(), tooling::getClangStripDependencyFileAdjuster());
    if (!ast || ast->getDiagnostics().hasErrorOccurred()) { llvm::errs() << "ccvx: the file does not parse\n"; return 1; }
    Ctx = &ast->getASTContext();
    V v; v.TraverseDecl(Ctx->getTranslationUnitDecl());
    Object out{{"types", std::move(TypeTable)}, {"functions", std::move(Functions)}, {"records", std::move(Records)}, {"enums", std::move(Enums)}, {"globals", std::move(Globals)}};
    llvm::outs() << Value(std::move(out)) << "\n";
    return 0;
}
