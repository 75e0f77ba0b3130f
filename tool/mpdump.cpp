// mpdump: lowers every function defined under a source root to JSON
// (resolved expression table + control-flow graph), plus record layouts.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Analysis/CFG.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;

static std::string g_root, g_extra, g_out;

struct Ctx {
    ASTContext &C;
    SourceManager &SM;
    PrintingPolicy PP;
    std::unique_ptr<MangleContext> MC;
    std::map<const Decl *, int> declIds;
    int nextDecl = 1;
    Ctx(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()),
        MC(c.createMangleContext()) {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.Bool = true;
    }
    int id(const Decl *d) {
        if (!d) return 0;
        d = d->getCanonicalDecl();
        auto it = declIds.find(d);
        if (it != declIds.end()) return it->second;
        return declIds[d] = nextDecl++;
    }
    std::string file(SourceLocation l) {
        l = SM.getExpansionLoc(l);
        PresumedLoc p = SM.getPresumedLoc(l);
        return p.isValid() ? p.getFilename() : "";
    }
    unsigned line(SourceLocation l) {
        l = SM.getExpansionLoc(l);
        return SM.getExpansionLineNumber(l);
    }
    std::string type(QualType t) {
        if (t.isNull()) return "";
        return t.getCanonicalType().getAsString(PP);
    }
    std::string key(const FunctionDecl *f) {
        if (!f) return "";
        if (auto *t = f->getTemplateInstantiationPattern())
            (void) t;
        std::string s;
        if (f->isDependentContext() || f->getDescribedFunctionTemplate())
            return "dep:" + f->getQualifiedNameAsString();
        llvm::raw_string_ostream os(s);
        if (auto *c = dyn_cast<CXXConstructorDecl>(f))
            MC->mangleName(GlobalDecl(c, Ctor_Complete), os);
        else if (auto *d = dyn_cast<CXXDestructorDecl>(f))
            MC->mangleName(GlobalDecl(d, Dtor_Complete), os);
        else if (MC->shouldMangleDeclName(f))
            MC->mangleName(GlobalDecl(f), os);
        else
            os << f->getNameAsString();
        os.flush();
        // file-static functions get their file as a prefix
        if (f->getFormalLinkage() == Linkage::Internal ||
            f->getFormalLinkage() == Linkage::UniqueExternal ||
            f->getFormalLinkage() == Linkage::None ||
            f->isInAnonymousNamespace())
            s = file(f->getCanonicalDecl()->getLocation()) + ":" + s;
        return s;
    }
    std::string qname(const NamedDecl *d) {
        return d->getQualifiedNameAsString();
    }
};

static bool inRoot(const std::string &f) {
    if (f.compare(0, g_root.size(), g_root) == 0) return true;
    return false;
}

class FnDumper {
public:
    Ctx &X;
    json::Array nodes;
    std::map<const Stmt *, int> ids;
    FnDumper(Ctx &x) : X(x) {}
    std::set<const Stmt *> callees;
    void collectCallees(const Stmt *s) {
        if (!s) return;
        if (auto *c = dyn_cast<CallExpr>(s))
            callees.insert(strip(c->getCallee()));
        for (auto *x : s->children()) collectCallees(x);
    }

    static const Stmt *strip(const Stmt *s) {
        while (s) {
            if (auto *p = dyn_cast<ParenExpr>(s)) s = p->getSubExpr();
            else if (auto *p = dyn_cast<ImplicitCastExpr>(s)) {
                // keep user-defined conversions (the sub expression is a call)
                s = p->getSubExpr();
            }
            else if (auto *p = dyn_cast<FullExpr>(s)) s = p->getSubExpr();
            else if (auto *p = dyn_cast<MaterializeTemporaryExpr>(s))
                s = p->getSubExpr();
            else if (auto *p = dyn_cast<CXXBindTemporaryExpr>(s))
                s = p->getSubExpr();
            else if (auto *p = dyn_cast<SubstNonTypeTemplateParmExpr>(s))
                s = p->getReplacement();
            else if (auto *p = dyn_cast<CXXDefaultArgExpr>(s))
                s = p->getExpr();
            else if (auto *p = dyn_cast<CXXDefaultInitExpr>(s))
                s = p->getExpr();
            else if (auto *p = dyn_cast<OpaqueValueExpr>(s)) {
                if (!p->getSourceExpr()) return s;
                s = p->getSourceExpr();
            }
            else if (auto *p = dyn_cast<CXXConstructExpr>(s)) {
                // elide trivial single-argument copies/moves of temporaries
                if (p->isElidable() && p->getNumArgs() == 1) s = p->getArg(0);
                else return s;
            }
            else return s;
        }
        return s;
    }

    int node(const Stmt *s0) {
        const Stmt *s = strip(s0);
        if (!s) return -1;
        auto it = ids.find(s);
        if (it != ids.end()) return it->second;
        int my = (int) nodes.size();
        ids[s] = my;
        nodes.push_back(json::Object{});
        json::Object o = lower(s, s0);
        o["l"] = (int64_t) X.line(s->getBeginLoc());
        if (auto *e = dyn_cast<Expr>(s)) {
            o["t"] = X.type(e->getType());
            if (!e->isValueDependent() && !e->isTypeDependent() &&
                e->getType()->isIntegralOrEnumerationType()) {
                Expr::EvalResult r;
                if (!isa<CallExpr>(e) && e->EvaluateAsInt(r, X.C)) {
                    o["cv"] = (int64_t) r.Val.getInt().extOrTrunc(64).getSExtValue();
                }
            }
            SourceLocation b = e->getBeginLoc();
            if (b.isMacroID() && isa<IntegerLiteral>(e)) {
                o["m"] = Lexer::getImmediateMacroName(b, X.SM,
                                                      X.C.getLangOpts()).str();
            }
        }
        if (callees.count(s)) o["callee"] = true;
        nodes[my] = std::move(o);
        return my;
    }
    json::Array kids(std::initializer_list<const Stmt *> l) {
        json::Array a;
        for (auto *s : l) a.push_back(node(s));
        return a;
    }

    static std::string shortDeclKind(const ValueDecl *d) {
        if (isa<ParmVarDecl>(d)) return "param";
        if (auto *v = dyn_cast<VarDecl>(d)) {
            if (v->isStaticLocal()) return "static";
            if (v->hasGlobalStorage()) return "global";
            return "var";
        }
        if (isa<FunctionDecl>(d)) return "func";
        if (isa<EnumConstantDecl>(d)) return "enum";
        if (isa<FieldDecl>(d)) return "field";
        return "other";
    }

    json::Object var(const VarDecl *v) {
        json::Object o;
        o["d"] = X.id(v);
        o["n"] = v->getNameAsString();
        o["t"] = X.type(v->getType());
        o["st"] = v->isStaticLocal();
        o["init"] = v->hasInit() ? node(v->getInit()) : -1;
        o["l"] = (int64_t) X.line(v->getLocation());
        return o;
    }

    void callee(json::Object &o, const FunctionDecl *f) {
        if (!f) return;
        o["fn"] = X.qname(f);
        o["key"] = X.key(f);
        if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
            o["cls"] = X.qname(m->getParent());
            o["virt"] = m->isVirtual();
            o["const"] = m->isConst();
        }
        json::Array pt;
        for (auto *p : f->parameters()) pt.push_back(X.type(p->getType()));
        o["pt"] = std::move(pt);
        if (f->isNoReturn()) o["nr"] = true;
    }

    json::Object lower(const Stmt *s, const Stmt *orig) {
        json::Object o;
        if (auto *e = dyn_cast<DeclRefExpr>(s)) {
            o["k"] = "ref";
            o["d"] = X.id(e->getDecl());
            o["n"] = e->getDecl()->getNameAsString();
            o["dk"] = shortDeclKind(e->getDecl());
            if (auto *f = dyn_cast<FunctionDecl>(e->getDecl())) {
                o["fn"] = X.qname(f); o["key"] = X.key(f);
            }
            else if (!isa<ParmVarDecl>(e->getDecl()))
                o["qn"] = X.qname(e->getDecl());
            return o;
        }
        if (auto *e = dyn_cast<MemberExpr>(s)) {
            o["n"] = e->getMemberDecl()->getNameAsString();
            if (auto *f = dyn_cast<FunctionDecl>(e->getMemberDecl())) {
                o["k"] = "methref"; o["fn"] = X.qname(f); o["key"] = X.key(f);
            }
            else
                o["k"] = "mem";
            o["ar"] = e->isArrow();
            if (auto *p = dyn_cast<RecordDecl>(
                    e->getMemberDecl()->getDeclContext()))
            {
                std::string c = X.qname(p);
                if (p->getIdentifier() == nullptr || c.find("(anonymous") !=
                    std::string::npos || c.find("(unnamed") !=
                    std::string::npos) {
                    if (auto *pp = dyn_cast<RecordDecl>(p->getDeclContext()))
                        c = X.qname(pp) + "::(u)";
                }
                o["cls"] = c;
            }
            o["c"] = kids({e->getBase()});
            return o;
        }
        if (isa<CXXThisExpr>(s)) { o["k"] = "this"; return o; }
        if (auto *e = dyn_cast<IntegerLiteral>(s)) {
            (void) e; o["k"] = "int"; return o;
        }
        if (auto *e = dyn_cast<CharacterLiteral>(s)) {
            o["k"] = "int"; o["chr"] = (int64_t) e->getValue(); return o;
        }
        if (auto *e = dyn_cast<CXXBoolLiteralExpr>(s)) {
            o["k"] = "bool"; o["v"] = e->getValue(); return o;
        }
        if (isa<CXXNullPtrLiteralExpr>(s) || isa<GNUNullExpr>(s)) {
            o["k"] = "null"; return o;
        }
        if (auto *e = dyn_cast<FloatingLiteral>(s)) {
            o["k"] = "float"; o["v"] = e->getValueAsApproximateDouble();
            return o;
        }
        if (auto *e = dyn_cast<clang::StringLiteral>(s)) {
            o["k"] = "str";
            std::string v = e->isOrdinary() || e->isUTF8() ?
                e->getString().str() : std::string("?");
            o["v"] = json::fixUTF8(v);
            o["len"] = (int64_t) e->getLength();
            return o;
        }
        if (auto *e = dyn_cast<CXXOperatorCallExpr>(s)) {
            o["k"] = "call";
            o["op"] = getOperatorSpelling(e->getOperator());
            const FunctionDecl *f = e->getDirectCallee();
            callee(o, f);
            unsigned i = 0;
            json::Array a;
            if (f && isa<CXXMethodDecl>(f) &&
                !cast<CXXMethodDecl>(f)->isStatic() && e->getNumArgs() > 0) {
                o["obj"] = node(e->getArg(0)); i = 1;
            }
            for (; i < e->getNumArgs(); i++) a.push_back(node(e->getArg(i)));
            o["c"] = std::move(a);
            return o;
        }
        if (auto *e = dyn_cast<CXXMemberCallExpr>(s)) {
            o["k"] = "call";
            callee(o, e->getMethodDecl());
            const Expr *ob = e->getImplicitObjectArgument();
            if (ob) o["obj"] = node(ob);
            if (auto *me = dyn_cast<MemberExpr>(
                    e->getCallee()->IgnoreParens())) {
                o["ar"] = me->isArrow();
                o["qual"] = me->hasQualifier();
            }
            if (!e->getMethodDecl()) o["fnx"] = node(e->getCallee());
            json::Array a;
            for (auto *x : e->arguments()) a.push_back(node(x));
            o["c"] = std::move(a);
            return o;
        }
        if (auto *e = dyn_cast<CallExpr>(s)) {
            o["k"] = "call";
            const FunctionDecl *f = e->getDirectCallee();
            if (f) callee(o, f);
            else o["fnx"] = node(e->getCallee());
            json::Array a;
            for (auto *x : e->arguments()) a.push_back(node(x));
            o["c"] = std::move(a);
            return o;
        }
        if (auto *e = dyn_cast<CXXConstructExpr>(s)) {
            o["k"] = "ctor";
            callee(o, e->getConstructor());
            o["cc"] = e->getConstructor()->isCopyOrMoveConstructor();
            if (e->requiresZeroInitialization()) o["zi"] = true;
            json::Array a;
            for (auto *x : e->arguments()) a.push_back(node(x));
            o["c"] = std::move(a);
            return o;
        }
        if (auto *e = dyn_cast<CXXNewExpr>(s)) {
            o["k"] = "new";
            o["at"] = X.type(e->getAllocatedType());
            o["arr"] = e->isArray();
            o["c"] = json::Array();
            if (e->isArray() && e->getArraySize())
                o["size"] = node(*e->getArraySize());
            if (e->getInitializer()) o["c"] = kids({e->getInitializer()});
            return o;
        }
        if (auto *e = dyn_cast<CXXDeleteExpr>(s)) {
            o["k"] = "delete"; o["arr"] = e->isArrayForm();
            o["dt"] = X.type(e->getDestroyedType());
            o["c"] = kids({e->getArgument()});
            return o;
        }
        if (auto *e = dyn_cast<CompoundAssignOperator>(s)) {
            o["k"] = "bin"; o["op"] = e->getOpcodeStr().str();
            o["c"] = kids({e->getLHS(), e->getRHS()});
            return o;
        }
        if (auto *e = dyn_cast<BinaryOperator>(s)) {
            o["k"] = "bin"; o["op"] = e->getOpcodeStr().str();
            o["c"] = kids({e->getLHS(), e->getRHS()});
            return o;
        }
        if (auto *e = dyn_cast<UnaryOperator>(s)) {
            o["k"] = "un";
            std::string op =
                UnaryOperator::getOpcodeStr(e->getOpcode()).str();
            if (e->isPostfix()) op = "p" + op;
            o["op"] = op;
            o["c"] = kids({e->getSubExpr()});
            return o;
        }
        if (auto *e = dyn_cast<ConditionalOperator>(s)) {
            o["k"] = "cond";
            o["c"] = kids({e->getCond(), e->getTrueExpr(),
                           e->getFalseExpr()});
            return o;
        }
        if (auto *e = dyn_cast<BinaryConditionalOperator>(s)) {
            o["k"] = "cond";
            o["c"] = kids({e->getCommon(), e->getCommon(),
                           e->getFalseExpr()});
            return o;
        }
        if (auto *e = dyn_cast<ArraySubscriptExpr>(s)) {
            o["k"] = "idx";
            o["c"] = kids({e->getBase(), e->getIdx()});
            const Expr *b = e->getBase()->IgnoreParenImpCasts();
            if (auto *ca = X.C.getAsConstantArrayType(b->getType()))
                o["asz"] = (int64_t) ca->getSize().getZExtValue();
            return o;
        }
        if (auto *e = dyn_cast<ExplicitCastExpr>(s)) {
            o["k"] = "cast";
            o["c"] = kids({e->getSubExpr()});
            o["dyn"] = isa<CXXDynamicCastExpr>(e);
            return o;
        }
        if (auto *e = dyn_cast<UnaryExprOrTypeTraitExpr>(s)) {
            o["k"] = "sizeof";
            if (e->isArgumentType()) o["at"] = X.type(e->getArgumentType());
            else o["at"] = X.type(e->getArgumentExpr()->getType());
            return o;
        }
        if (auto *e = dyn_cast<CXXThrowExpr>(s)) {
            o["k"] = "throw";
            if (e->getSubExpr()) {
                o["c"] = kids({e->getSubExpr()});
                o["tt"] = X.type(e->getSubExpr()->getType());
            }
            return o;
        }
        if (auto *e = dyn_cast<LambdaExpr>(s)) {
            o["k"] = "lambda";
            o["key"] = X.key(e->getCallOperator());
            o["id"] = X.id(e->getCallOperator());
            return o;
        }
        if (auto *e = dyn_cast<InitListExpr>(s)) {
            o["k"] = "init";
            json::Array a;
            for (auto *x : e->inits()) a.push_back(node(x));
            o["c"] = std::move(a);
            return o;
        }
        if (auto *d = dyn_cast<DeclStmt>(s)) {
            o["k"] = "decl";
            json::Array a;
            for (auto *x : d->decls())
                if (auto *v = dyn_cast<VarDecl>(x)) a.push_back(var(v));
            o["vars"] = std::move(a);
            return o;
        }
        if (auto *r = dyn_cast<ReturnStmt>(s)) {
            o["k"] = "return";
            if (r->getRetValue()) o["c"] = kids({r->getRetValue()});
            return o;
        }
        if (isa<ImplicitValueInitExpr>(s) || isa<CXXScalarValueInitExpr>(s)) {
            o["k"] = "zero"; return o;
        }
        o["k"] = "other";
        o["sk"] = s->getStmtClassName();
        json::Array a;
        if (isa<Expr>(s))
            for (auto *x : s->children()) if (x) a.push_back(node(x));
        o["c"] = std::move(a);
        return o;
    }

    json::Object dump(const FunctionDecl *f) {
        json::Object o;
        o["key"] = X.key(f);
        o["name"] = X.qname(f);
        o["file"] = X.file(f->getLocation());
        o["line"] = (int64_t) X.line(f->getBeginLoc());
        o["eline"] = (int64_t) X.line(f->getEndLoc());
        o["ret"] = X.type(f->getReturnType());
        o["id"] = X.id(f);
        json::Array ps;
        for (auto *p : f->parameters()) {
            json::Object q;
            q["d"] = X.id(p); q["n"] = p->getNameAsString();
            q["t"] = X.type(p->getType());
            ps.push_back(std::move(q));
        }
        o["params"] = std::move(ps);
        if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
            o["cls"] = X.qname(m->getParent());
            o["virt"] = m->isVirtual();
            o["static"] = m->isStatic();
            o["const"] = m->isConst();
            o["lambda"] = m->getParent()->isLambda();
            json::Array ov;
            for (auto *b : m->overridden_methods()) {
                ov.push_back(X.key(b));
            }
            o["over"] = std::move(ov);
            json::Array onames;
            std::vector<const CXXMethodDecl *> wl(m->begin_overridden_methods(),
                                                  m->end_overridden_methods());
            while (!wl.empty()) {
                auto *b = wl.back(); wl.pop_back();
                onames.push_back(X.qname(b));
                wl.insert(wl.end(), b->begin_overridden_methods(),
                          b->end_overridden_methods());
            }
            o["overn"] = std::move(onames);
        }
        o["ctor"] = isa<CXXConstructorDecl>(f);
        o["dtor"] = isa<CXXDestructorDecl>(f);
        o["link"] = f->isExternallyVisible();
        // local variables (all)
        CFG::BuildOptions bo;
        bo.setAllAlwaysAdd();
        bo.AddImplicitDtors = true;
        bo.AddInitializers = true;
        bo.AddEHEdges = false;
        bo.AddTemporaryDtors = false;
        bo.AddCXXDefaultInitExprInCtors = true;
        bo.PruneTriviallyFalseEdges = true;
        collectCallees(f->getBody());
        auto cfg = CFG::buildCFG(f, f->getBody(), &X.C, bo);
        if (!cfg) { o["nocfg"] = true; return o; }
        json::Array blocks;
        for (const CFGBlock *b : *cfg) {
            json::Object bj;
            bj["id"] = (int64_t) b->getBlockID();
            json::Array el;
            for (auto &e : *b) {
                if (auto st = e.getAs<CFGStmt>()) {
                    const Stmt *s = st->getStmt();
                    if (strip(s) != s) {
                        // a wrapper: make sure the stripped node is known
                        node(s);
                        continue;
                    }
                    json::Object eo;
                    eo["s"] = node(s);
                    el.push_back(std::move(eo));
                }
                else if (auto in = e.getAs<CFGInitializer>()) {
                    const CXXCtorInitializer *ci = in->getInitializer();
                    json::Object eo;
                    if (ci->isAnyMemberInitializer()) {
                        eo["f"] = ci->getAnyMember()->getNameAsString();
                        eo["ft"] = X.type(ci->getAnyMember()->getType());
                    }
                    else if (ci->isBaseInitializer())
                        eo["base"] = X.type(QualType(ci->getBaseClass(), 0));
                    else
                        eo["deleg"] = true;
                    eo["written"] = ci->isWritten() ||
                        isa<CXXDefaultInitExpr>(ci->getInit());
                    eo["i"] = node(ci->getInit());
                    el.push_back(std::move(eo));
                }
                else if (auto d = e.getAs<CFGAutomaticObjDtor>()) {
                    json::Object eo;
                    eo["dtor"] = X.id(d->getVarDecl());
                    eo["n"] = d->getVarDecl()->getNameAsString();
                    eo["t"] = X.type(d->getVarDecl()->getType());
                    eo["l"] = (int64_t) X.line(
                        d->getTriggerStmt() ?
                        d->getTriggerStmt()->getEndLoc() :
                        f->getEndLoc());
                    el.push_back(std::move(eo));
                }
                else if (auto d = e.getAs<CFGMemberDtor>()) {
                    json::Object eo;
                    eo["mdtor"] = d->getFieldDecl()->getNameAsString();
                    eo["t"] = X.type(d->getFieldDecl()->getType());
                    el.push_back(std::move(eo));
                }
            }
            bj["e"] = std::move(el);
            json::Array su;
            for (auto &sx : b->succs()) {
                const CFGBlock *t = sx.getReachableBlock();
                su.push_back(t ? json::Value((int64_t) t->getBlockID()) :
                             json::Value(nullptr));
            }
            bj["s"] = std::move(su);
            if (const Stmt *t = b->getTerminatorStmt()) {
                bj["tk"] = t->getStmtClassName();
                bj["tl"] = (int64_t) X.line(t->getBeginLoc());
                const Expr *c = nullptr;
                if (isa<SwitchStmt>(t)) c = cast<SwitchStmt>(t)->getCond();
                else c = b->getLastCondition();
                if (!c) c = dyn_cast_or_null<Expr>(b->getTerminatorCondition());
                if (c) bj["tc"] = node(c);
                if (auto *bo2 = dyn_cast<BinaryOperator>(t))
                    bj["top"] = bo2->getOpcodeStr().str();
            }
            if (const Stmt *l = b->getLabel()) {
                if (auto *cs = dyn_cast<CaseStmt>(l)) {
                    // consecutive case labels share nothing: each is a block
                    Expr::EvalResult r;
                    if (!cs->getLHS()->isValueDependent() &&
                        cs->getLHS()->EvaluateAsInt(r, X.C))
                        bj["case"] = (int64_t) r.Val.getInt().extOrTrunc(64).getSExtValue();
                    SourceLocation bl = cs->getLHS()->getBeginLoc();
                    if (bl.isMacroID())
                        bj["cm"] = Lexer::getImmediateMacroName(
                            bl, X.SM, X.C.getLangOpts()).str();
                }
                else if (isa<DefaultStmt>(l)) bj["default"] = true;
                else if (isa<CXXCatchStmt>(l)) {
                    auto *ct = cast<CXXCatchStmt>(l);
                    bj["catch"] = ct->getCaughtType().isNull() ?
                        std::string("...") : X.type(ct->getCaughtType());
                }
                bj["ll"] = (int64_t) X.line(l->getBeginLoc());
            }
            if (b->hasNoReturnElement()) bj["nr"] = true;
            blocks.push_back(std::move(bj));
        }
        o["blocks"] = std::move(blocks);
        o["entry"] = (int64_t) cfg->getEntry().getBlockID();
        o["exit"] = (int64_t) cfg->getExit().getBlockID();
        // try ranges: (lines of try body, caught types)
        json::Array tries;
        collectTries(f->getBody(), tries);
        o["tries"] = std::move(tries);
        o["nodes"] = std::move(nodes);
        return o;
    }
    void collectTries(const Stmt *s, json::Array &a) {
        if (!s) return;
        if (auto *t = dyn_cast<CXXTryStmt>(s)) {
            json::Object o;
            o["b"] = (int64_t) X.line(t->getTryBlock()->getBeginLoc());
            o["e"] = (int64_t) X.line(t->getTryBlock()->getEndLoc());
            json::Array c;
            for (unsigned i = 0; i < t->getNumHandlers(); i++) {
                auto *h = t->getHandler(i);
                c.push_back(h->getCaughtType().isNull() ? std::string("...") :
                            X.type(h->getCaughtType()));
            }
            o["c"] = std::move(c);
            a.push_back(std::move(o));
        }
        for (auto *x : s->children()) collectTries(x, a);
    }
};

class V : public RecursiveASTVisitor<V> {
public:
    Ctx &X;
    json::Array fns, recs, globals;
    std::set<const Decl *> seen;
    V(Ctx &x) : X(x) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitLambdaBody() const { return true; }
    bool VisitFunctionDecl(FunctionDecl *f) { return fn(f); }
    bool fn(FunctionDecl *f) {
        if (!f->doesThisDeclarationHaveABody()) return true;
        if (f->isDependentContext()) return true;
        if (f->isDefaulted()) return true;
        if (!inRoot(X.file(f->getLocation()))) return true;
        if (!seen.insert(f).second) return true;
        FnDumper d(X);
        fns.push_back(d.dump(f));
        return true;
    }
    bool VisitLambdaExpr(LambdaExpr *e) { return fn(e->getCallOperator()); }
    bool VisitRecordDecl(RecordDecl *r) {
        if (!r->isThisDeclarationADefinition()) return true;
        if (r->isDependentContext()) return true;
        std::string file = X.file(r->getLocation());
        bool own = inRoot(file);
        if (!own && (g_extra.empty() ||
                     file.find(g_extra) == std::string::npos))
            return true;
        if (!seen.insert(r).second) return true;
        json::Object o;
        std::string nm = X.qname(r);
        if (r->getIdentifier() == nullptr) {
            if (auto *pp = dyn_cast<RecordDecl>(r->getDeclContext()))
                nm = X.qname(pp) + "::(u)";
        }
        o["name"] = nm;
        o["file"] = file;
        o["line"] = (int64_t) X.line(r->getBeginLoc());
        o["union"] = r->isUnion();
        o["own"] = own;
        json::Array fs;
        for (auto *f : r->fields()) {
            json::Object q;
            q["n"] = f->getNameAsString();
            q["t"] = X.type(f->getType());
            q["l"] = (int64_t) X.line(f->getLocation());
            q["init"] = f->hasInClassInitializer();
            q["scalar"] = f->getType()->isScalarType();
            if (auto *ca = X.C.getAsConstantArrayType(f->getType()))
                q["asz"] = (int64_t) ca->getSize().getZExtValue();
            fs.push_back(std::move(q));
        }
        o["fields"] = std::move(fs);
        if (auto *c = dyn_cast<CXXRecordDecl>(r)) {
            json::Array bs;
            for (auto &b : c->bases()) bs.push_back(X.type(b.getType()));
            o["bases"] = std::move(bs);
            json::Array sm, ms;
            for (auto *d : c->decls())
                if (auto *v = dyn_cast<VarDecl>(d)) {
                    json::Object q;
                    q["n"] = v->getNameAsString();
                    q["t"] = X.type(v->getType());
                    sm.push_back(std::move(q));
                }
            o["statics"] = std::move(sm);
            for (auto *m : c->methods()) {
                json::Object q;
                q["n"] = m->getNameAsString();
                q["key"] = X.key(m);
                q["virt"] = m->isVirtual();
                q["pure"] = m->isPureVirtual();
                q["ctor"] = isa<CXXConstructorDecl>(m);
                q["user"] = m->isUserProvided();
                q["del"] = m->isDeleted();
                q["impl"] = m->isImplicit();
                q["access"] = (int64_t) m->getAccess();
                ms.push_back(std::move(q));
            }
            o["methods"] = std::move(ms);
            o["agg"] = c->isAggregate();
            o["userctor"] = c->hasUserDeclaredConstructor();
        }
        recs.push_back(std::move(o));
        return true;
    }
    bool VisitVarDecl(VarDecl *v) {
        if (!v->hasGlobalStorage() || v->isStaticLocal()) return true;
        if (!inRoot(X.file(v->getLocation()))) return true;
        if (!v->isThisDeclarationADefinition()) return true;
        if (v->getDeclContext()->isDependentContext()) return true;
        if (!seen.insert(v).second) return true;
        json::Object o;
        o["d"] = X.id(v);
        o["name"] = X.qname(v);
        o["t"] = X.type(v->getType());
        o["file"] = X.file(v->getLocation());
        o["line"] = (int64_t) X.line(v->getLocation());
        if (v->hasInit() && !v->getInit()->isValueDependent()) {
            FnDumper d(X);
            o["init"] = d.node(v->getInit());
            o["nodes"] = std::move(d.nodes);
        }
        globals.push_back(std::move(o));
        return true;
    }
};

class Consumer : public ASTConsumer {
public:
    std::string in;
    Consumer(StringRef f) : in(f.str()) {}
    void HandleTranslationUnit(ASTContext &C) override {
        Ctx X(C);
        V v(X);
        v.TraverseDecl(C.getTranslationUnitDecl());
        json::Object o;
        o["tu"] = in;
        o["errors"] = (int64_t) C.getDiagnostics().getClient()->getNumErrors();
        o["fns"] = std::move(v.fns);
        o["recs"] = std::move(v.recs);
        o["globals"] = std::move(v.globals);
        std::error_code ec;
        llvm::raw_fd_ostream os(g_out, ec);
        os << json::Value(std::move(o));
    }
};
class Action : public ASTFrontendAction {
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI,
                                                   StringRef f) override {
        return std::make_unique<Consumer>(f);
    }
};

int main(int argc, const char **argv) {
    // mpdump OUT ROOT EXTRA FILE -- flags...
    if (argc < 6) return 2;
    g_out = argv[1]; g_root = argv[2]; g_extra = argv[3];
    std::string file = argv[4];
    std::vector<std::string> flags;
    for (int i = 6; i < argc; i++) flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, {file});
    return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
