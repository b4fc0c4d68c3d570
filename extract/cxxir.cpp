// cxxir: mechanical extraction of the (template-instantiated) clang AST of the
// functions reachable from a driver translation unit, as JSON.
// Nothing is rewritten: every node printed corresponds to one AST node; only
// parentheses, full-expression markers and temporary markers are skipped.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/AST/ExprOpenMP.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Sema/Sema.h"
#include "clang/Sema/SemaConsumer.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <map>
#include <set>
using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::vector<std::string> ScopePrefixes; // file prefixes whose bodies are extracted

static Sema* TheSema = nullptr;

struct Extractor {
    ASTContext& C;
    SourceManager& SM;
    PrintingPolicy PP;
    std::deque<const FunctionDecl*> work;
    std::set<const FunctionDecl*> seenF;
    std::map<const Decl*, std::string> ids;
    Object functions, records, types, globals;
    std::set<std::string> seenT;
    std::deque<QualType> typeWork;
    std::deque<const VarDecl*> gwork;
    std::set<const VarDecl*> seenG;

    Extractor(ASTContext& C_) : C(C_), SM(C_.getSourceManager()), PP(C_.getLangOpts())
    {
        PP.SuppressTagKeyword   = true;
        PP.Bool                 = true;
        PP.FullyQualifiedName   = true;
        PP.PrintCanonicalTypes  = true;
        PP.SuppressInlineNamespace = false;
        PP.AnonymousTagLocations = true;
        PP.SuppressDefaultTemplateArgs = false;
    }

    std::string id(const Decl* d)
    {
        d = d->getCanonicalDecl();
        auto it = ids.find(d);
        if(it != ids.end()) return it->second;
        std::string s = "d" + std::to_string(ids.size());
        ids[d] = s;
        return s;
    }
    std::string qname(const NamedDecl* d)
    {
        std::string s;
        llvm::raw_string_ostream os(s);
        d->printQualifiedName(os, PP);
        return os.str();
    }
    // type key: canonical, unqualified, references removed
    std::string ty(QualType q)
    {
        q = q.getCanonicalType();
        q = q.getNonReferenceType().getUnqualifiedType();
        std::string s = q.getAsString(PP);
        if(seenT.insert(s).second) typeWork.push_back(q);
        return s;
    }
    std::string refk(QualType q)
    {
        q = q.getCanonicalType();
        if(q->isLValueReferenceType()) return q->getPointeeType().isConstQualified() ? "c&" : "&";
        if(q->isRValueReferenceType()) return "&&";
        return "";
    }
    Array targs(llvm::ArrayRef<TemplateArgument> as)
    {
        Array r;
        for(auto& a : as) {
            switch(a.getKind()) {
                case TemplateArgument::Type: r.push_back(ty(a.getAsType())); break;
                case TemplateArgument::Integral: {
                    llvm::SmallString<32> s;
                    a.getAsIntegral().toString(s, 10);
                    r.push_back(Object{{"i", std::string(s.str())}});
                    break;
                }
                case TemplateArgument::Pack:
                    r.push_back(Object{{"pack", targs(a.getPackAsArray())}});
                    break;
                default: r.push_back(nullptr);
            }
        }
        return r;
    }
    void emitType(QualType q)
    {
        std::string key = q.getAsString(PP);
        Object o;
        if(auto* e = q->getAs<EnumType>()) {
            o["k"] = "enum"; o["u"] = ty(e->getDecl()->getIntegerType());
        } else if(q->isPointerType()) {
            o["k"] = "ptr"; o["e"] = ty(q->getPointeeType());
        } else if(auto* at = C.getAsConstantArrayType(q)) {
            o["k"] = "array"; o["e"] = ty(at->getElementType());
            o["n"] = int64_t(at->getSize().getZExtValue());
        } else if(auto* rd = q->getAsCXXRecordDecl()) {
            o["k"] = "rec"; o["q"] = qname(rd);
            if(auto* s = dyn_cast<ClassTemplateSpecializationDecl>(rd)) {
                o["tmpl"] = qname(s->getSpecializedTemplate());
                o["targs"] = targs(s->getTemplateArgs().asArray());
            }
            if(rd->isLambda()) {
                o["lambda"] = true;
                if(auto* m = rd->getLambdaCallOperator()) if(!rd->isGenericLambda()) { o["call"] = id(m); enqueue(m); }
            }
            if(rd->hasDefinition()) {
                rd = rd->getDefinition();
                Array bases, fields;
                for(auto& b : rd->bases()) bases.push_back(ty(b.getType()));
                if(!inSystem(rd) || rd->isLambda()) {
                    for(auto* f : rd->fields()) {
                        Object fo{{"n", f->getNameAsString()}, {"t", ty(f->getType())}, {"r", refk(f->getType())}};
                        if(f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = expr(f->getInClassInitializer());
                        fields.push_back(std::move(fo));
                    }
                }
                if(!inSystem(rd) && !rd->isLambda() && !rd->isDependentContext()) {
                    Array cs, ms;
                    for(auto* m : rd->methods()) {
                        if(m->isDeleted() || m->isDependentContext() || !m->hasBody()) continue;
                        if(auto* c = dyn_cast<CXXConstructorDecl>(m)) {
                            if(c->isImplicit() || c->isDefaulted()) continue;
                            cs.push_back(funRef(c));
                        } else if(m->isOverloadedOperator() && !m->isImplicit() && !m->isDefaulted()) ms.push_back(funRef(m));
                    }
                    o["ctors"] = std::move(cs);
                    o["ops"]   = std::move(ms);
                }
                o["bases"] = std::move(bases);
                o["fields"] = std::move(fields);
                o["sys"] = inSystem(rd);
            }
        } else if(q->isBuiltinType()) {
            o["k"] = "builtin";
            if(q->isBooleanType()) o["b"] = "bool";
            else if(q->isIntegerType()) { o["b"] = q->isUnsignedIntegerType() ? "u" : "s"; o["w"] = int64_t(C.getIntWidth(q)); }
            else if(q->isFloatingType()) o["b"] = "f";
            else o["b"] = "other";
        } else { o["k"] = "other"; o["cls"] = q->getTypeClassName(); }
        types[key] = std::move(o);
    }
    std::string fileOf(SourceLocation l)
    {
        l = SM.getExpansionLoc(l);
        return SM.getFilename(l).str();
    }
    int64_t lineOf(SourceLocation l) { return SM.getExpansionLineNumber(l); }
    bool inSystem(const Decl* d)
    {
        SourceLocation l = d->getLocation();
        if(l.isInvalid()) return true;
        std::string f = fileOf(l);
        for(auto& p : ScopePrefixes) if(f.compare(0, p.size(), p) == 0) return false;
        return true;
    }
    void enqueue(const FunctionDecl* f)
    {
        if(!f) return;
        const FunctionDecl* def = nullptr;
        if(f->isDefined(def)) f = def;
        if(seenF.insert(f->getCanonicalDecl()).second) work.push_back(f);
    }
    Object declRef(const ValueDecl* d)
    {
        Object o{{"id", id(d)}, {"n", d->getNameAsString()}};
        if(auto* f = dyn_cast<FunctionDecl>(d)) { o["f"] = funRef(f); o["dk"] = "fun"; }
        else if(auto* v = dyn_cast<VarDecl>(d)) {
            o["dk"] = isa<ParmVarDecl>(v) ? "parm" : (v->hasGlobalStorage() ? (v->isStaticLocal() ? "static" : "global") : "var");
            if(v->hasGlobalStorage() && !v->isStaticLocal()) { o["q"] = gname(v); gl(v); }
        } else if(isa<EnumConstantDecl>(d)) o["dk"] = "enumc";
        else if(isa<BindingDecl>(d)) o["dk"] = "binding";
        else o["dk"] = d->getDeclKindName();
        return o;
    }
    std::string gname(const VarDecl* v)
    {
        if(auto* rd = dyn_cast<CXXRecordDecl>(v->getDeclContext()))
            return ty(C.getRecordType(rd)) + "::" + v->getNameAsString();
        return qname(v);
    }
    void gl(const VarDecl* v)
    {
        if(seenG.insert(v->getCanonicalDecl()).second) gwork.push_back(v);
    }
    // the definition of a library algorithm by a loop (namespace vcalg of drivers/vc_std.hpp)
    std::map<const FunctionDecl*, const FunctionDecl*> algs;
    const FunctionDecl* algorithm(const FunctionDecl* f)
    {
        auto* as = f->getTemplateSpecializationArgs();
        auto* pt = f->getPrimaryTemplate();
        if(!as || !pt || !TheSema || !f->isInStdNamespace() || isa<CXXMethodDecl>(f)) return nullptr;
        auto it = algs.find(f);
        if(it != algs.end()) return it->second;
        algs[f] = nullptr;
        for(auto* d : C.getTranslationUnitDecl()->lookup(DeclarationName(&C.Idents.get("vcalg")))) {
            auto* ns = dyn_cast<NamespaceDecl>(d);
            if(!ns) continue;
            for(auto* x : ns->lookup(f->getDeclName())) {
                auto* t = dyn_cast<FunctionTemplateDecl>(x);
                if(!t || t->getTemplateParameters()->size() != pt->getTemplateParameters()->size() || t->getTemplatedDecl()->getNumParams() != f->getNumParams()) continue;
                auto* args = TemplateArgumentList::CreateCopy(C, as->asArray());
                auto* g = TheSema->InstantiateFunctionDeclaration(t, args, f->getLocation());
                if(!g || g->isInvalidDecl()) continue;
                TheSema->InstantiateFunctionDefinition(f->getLocation(), g, true, true);
                TheSema->PerformPendingInstantiations();
                if(g->hasBody()) return algs[f] = g;
            }
        }
        return nullptr;
    }
    Object funRef(const FunctionDecl* f)
    {
        const FunctionDecl* def = nullptr;
        if(f->isDefined(def)) f = def;
        Object o{{"id", id(f)}, {"n", f->getNameAsString()}, {"q", qname(f)}};
        if(auto* m = dyn_cast<CXXMethodDecl>(f)) {
            o["cls"] = ty(C.getRecordType(m->getParent()));
            o["static"] = m->isStatic();
        }
        if(auto* as = f->getTemplateSpecializationArgs()) o["targs"] = targs(as->asArray());
        if(auto* pt = f->getPrimaryTemplate()) o["tmpl"] = qname(pt->getTemplatedDecl());
        Array ps;
        for(auto* p : f->parameters()) ps.push_back(Object{{"t", ty(p->getType())}, {"r", refk(p->getType())}});
        o["params"] = std::move(ps);
        o["rt"] = ty(f->getReturnType());
        o["rr"] = refk(f->getReturnType());
        if(f->isDefaulted() || f->isImplicit()) o["dflt"] = true;
        if(auto* c = dyn_cast<CXXConstructorDecl>(f)) {
            o["ctor"] = true;
            if(c->isCopyOrMoveConstructor()) o["copy"] = true;
            if(c->isDefaultConstructor()) o["def"] = true;
            if(c->isInheritingConstructor()) {
                auto ic = c->getInheritedConstructor();
                o["inherits"] = funRef(ic.getConstructor());
            }
        }
        if(auto* m = dyn_cast<CXXMethodDecl>(f)) {
            if(m->isCopyAssignmentOperator() || m->isMoveAssignmentOperator()) o["asgn"] = true;
        }
        o["sys"] = inSystem(f);
        if(!inSystem(f)) enqueue(f);
        else if(auto* g = algorithm(f)) o["alg"] = funRef(g);
        return o;
    }
    Value stmtOpt(const Stmt* s) { return s ? stmt(s) : Value(nullptr); }
    Value var(const VarDecl* v)
    {
        Object o{{"id", id(v)}, {"n", v->getNameAsString()}, {"t", ty(v->getType())}, {"r", refk(v->getType())}};
        if(v->isStaticLocal()) o["static"] = true;
        if(v->getType().isConstQualified()) o["cst"] = true;
        if(v->hasInit()) o["init"] = expr(v->getInit());
        return Value(std::move(o));
    }
    Value stmt(const Stmt* s)
    {
        if(!s) return nullptr;
        if(auto* e = dyn_cast<Expr>(s)) return Object{{"s", "Expr"}, {"e", expr(e)}, {"l", lineOf(e->getBeginLoc())}};
        int64_t L = lineOf(s->getBeginLoc());
        if(auto* c = dyn_cast<CompoundStmt>(s)) {
            Array a;
            for(auto* x : c->body()) a.push_back(stmt(x));
            return Object{{"s", "Compound"}, {"b", std::move(a)}};
        }
        if(auto* d = dyn_cast<DeclStmt>(s)) {
            Array a;
            for(auto* x : d->decls()) {
                if(auto* v = dyn_cast<VarDecl>(x)) a.push_back(var(v));
            }
            return Object{{"s", "Decl"}, {"v", std::move(a)}, {"l", L}};
        }
        if(auto* i = dyn_cast<IfStmt>(s)) {
            Object o{{"s", "If"}, {"l", L}, {"c", expr(i->getCond())}, {"t", stmt(i->getThen())}, {"e", stmtOpt(i->getElse())}};
            if(i->getInit()) o["i"] = stmt(i->getInit());
            if(i->getConditionVariable()) o["cv"] = var(i->getConditionVariable());
            return Value(std::move(o));
        }
        if(auto* f = dyn_cast<ForStmt>(s))
            return Object{{"s", "For"}, {"l", L}, {"i", stmtOpt(f->getInit())}, {"c", f->getCond() ? expr(f->getCond()) : Value(nullptr)}, {"u", f->getInc() ? expr(f->getInc()) : Value(nullptr)}, {"b", stmt(f->getBody())}};
        if(auto* f = dyn_cast<CXXForRangeStmt>(s))
            return Object{{"s", "ForRange"}, {"l", L}, {"r", stmt(f->getRangeStmt())}, {"bg", stmt(f->getBeginStmt())}, {"en", stmt(f->getEndStmt())}, {"c", expr(f->getCond())}, {"u", expr(f->getInc())}, {"v", stmt(f->getLoopVarStmt())}, {"b", stmt(f->getBody())}};
        if(auto* w = dyn_cast<WhileStmt>(s))
            return Object{{"s", "While"}, {"l", L}, {"c", expr(w->getCond())}, {"b", stmt(w->getBody())}};
        if(auto* w = dyn_cast<DoStmt>(s))
            return Object{{"s", "Do"}, {"l", L}, {"c", expr(w->getCond())}, {"b", stmt(w->getBody())}};
        if(auto* r = dyn_cast<ReturnStmt>(s))
            return Object{{"s", "Return"}, {"l", L}, {"e", r->getRetValue() ? expr(r->getRetValue()) : Value(nullptr)}};
        if(isa<BreakStmt>(s)) return Object{{"s", "Break"}, {"l", L}};
        if(isa<ContinueStmt>(s)) return Object{{"s", "Continue"}, {"l", L}};
        if(isa<NullStmt>(s)) return Object{{"s", "Null"}};
        if(auto* w = dyn_cast<SwitchStmt>(s))
            return Object{{"s", "Switch"}, {"l", L}, {"c", expr(w->getCond())}, {"b", stmt(w->getBody())}};
        if(auto* c = dyn_cast<CaseStmt>(s))
            return Object{{"s", "Case"}, {"l", L}, {"c", expr(c->getLHS())}, {"b", stmt(c->getSubStmt())}};
        if(auto* c = dyn_cast<DefaultStmt>(s)) return Object{{"s", "Default"}, {"l", L}, {"b", stmt(c->getSubStmt())}};
        if(auto* o = dyn_cast<OMPExecutableDirective>(s)) {
            const Stmt* b = nullptr;
            if(o->hasAssociatedStmt()) {
                b = o->getAssociatedStmt();
                while(auto* cs = dyn_cast_or_null<CapturedStmt>(b)) b = cs->getCapturedStmt();
            }
            Array cl;
            for(auto* c : o->clauses()) {
                if(!c) continue;
                Object oc{{"k", llvm::omp::getOpenMPClauseName(c->getClauseKind()).str()}, {"impl", c->isImplicit()}};
                if(auto* r = dyn_cast<OMPReductionClause>(c)) {
                    Array vs;
                    for(auto* v : r->varlists()) vs.push_back(expr(v));
                    oc["op"] = r->getNameInfo().getAsString();
                    oc["vars"] = std::move(vs);
                }
                cl.push_back(std::move(oc));
            }
            return Object{{"s", "OMP"}, {"l", L}, {"k", std::string(o->getStmtClassName())}, {"cl", std::move(cl)}, {"b", stmtOpt(b)}};
        }
        if(auto* a = dyn_cast<AttributedStmt>(s)) return stmt(a->getSubStmt());
        return Object{{"s", "Unsupported"}, {"k", std::string(s->getStmtClassName())}, {"l", L}};
    }
    Array exprs(llvm::ArrayRef<const Expr*> es)
    {
        Array a;
        for(auto* e : es) a.push_back(expr(e));
        return a;
    }
    template <typename It>
    Array exprsR(It r)
    {
        Array a;
        for(auto* e : r) a.push_back(expr(cast<Expr>(e)));
        return a;
    }
    Value expr(const Expr* e)
    {
        if(!e) return nullptr;
        // transparent nodes
        if(auto* x = dyn_cast<ParenExpr>(e)) return expr(x->getSubExpr());
        if(auto* x = dyn_cast<ConstantExpr>(e)) return expr(x->getSubExpr());
        if(auto* x = dyn_cast<ExprWithCleanups>(e)) return expr(x->getSubExpr());
        if(auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) return expr(x->getSubExpr());
        if(auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return expr(x->getReplacement());
        if(auto* x = dyn_cast<CXXDefaultArgExpr>(e)) return expr(x->getExpr());
        if(auto* x = dyn_cast<CXXDefaultInitExpr>(e)) return expr(x->getExpr());
        if(auto* x = dyn_cast<OpaqueValueExpr>(e)) return expr(x->getSourceExpr());
        Object o = expr_(e);
        o["t"] = ty(e->getType());
        if(e->isLValue()) o["lv"] = 1; else if(e->isXValue()) o["lv"] = 2;
        o["l"] = lineOf(e->getExprLoc());
        return Value(std::move(o));
    }
    Object expr_(const Expr* e)
    {
        if(e->getType()->isIntegralOrEnumerationType() && !e->isValueDependent() && !isa<IntegerLiteral>(e)
           && !isa<CXXBoolLiteralExpr>(e) && !e->isLValue()) {
            Expr::EvalResult r;
            bool ok = e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects);
            if(ok) {
                llvm::SmallString<32> s;
                r.Val.getInt().toString(s, 10);
                return Object{{"k", "Int"}, {"v", std::string(s.str())}, {"folded", true}};
            }
        }
        if(auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) return Object{{"k", "Mat"}, {"e", expr(x->getSubExpr())}};
        if(auto* x = dyn_cast<IntegerLiteral>(e)) {
            llvm::SmallString<32> s;
            x->getValue().toString(s, 10, x->getType()->isSignedIntegerType());
            return Object{{"k", "Int"}, {"v", std::string(s.str())}};
        }
        if(auto* x = dyn_cast<CharacterLiteral>(e)) return Object{{"k", "Int"}, {"v", std::to_string(x->getValue())}, {"char", true}};
        if(auto* x = dyn_cast<FloatingLiteral>(e)) {
            llvm::SmallString<40> s;
            x->getValue().toString(s, 17, 0);
            return Object{{"k", "Float"}, {"v", std::string(s.str())}, {"d", x->getValueAsApproximateDouble()}};
        }
        if(auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) return Object{{"k", "Bool"}, {"v", x->getValue()}};
        if(auto* x = dyn_cast<StringLiteral>(e)) {
            std::string b = x->getBytes().str();
            return Object{{"k", "Str"}, {"v", llvm::json::fixUTF8(b)}};
        }
        if(isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) return Object{{"k", "Null"}};
        if(isa<CXXThisExpr>(e)) return Object{{"k", "This"}};
        if(auto* x = dyn_cast<DeclRefExpr>(e)) {
            Object o = declRef(x->getDecl());
            o["k"] = "Ref";
            return o;
        }
        if(auto* x = dyn_cast<MemberExpr>(e)) {
            auto* d = x->getMemberDecl();
            Object o{{"k", "Member"}, {"arrow", x->isArrow()}, {"n", d->getNameAsString()}};
            if(auto* f = dyn_cast<FieldDecl>(d)) {
                o["mk"] = "field"; o["fr"] = refk(f->getType()); o["b"] = expr(x->getBase());
            } else if(auto* m = dyn_cast<CXXMethodDecl>(d)) {
                o["mk"] = "method"; o["f"] = funRef(m); o["b"] = expr(x->getBase());
            } else if(auto* v = dyn_cast<VarDecl>(d)) {
                o["mk"] = "static"; o["q"] = gname(v); gl(v); o["id"] = id(v);
            }
            return o;
        }
        if(auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
            Object o{{"k", "OpCall"}, {"op", std::string(getOperatorSpelling(x->getOperator()))}};
            if(auto* f = x->getDirectCallee()) o["f"] = funRef(f);
            o["a"] = exprsR(x->arguments());
            return o;
        }
        if(auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
            Object o{{"k", "MCall"}};
            if(auto* m = x->getMethodDecl()) o["f"] = funRef(m);
            o["o"] = x->getImplicitObjectArgument() ? expr(x->getImplicitObjectArgument()) : Value(nullptr);
            if(auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) o["arrow"] = me->isArrow();
            o["a"] = exprsR(x->arguments());
            return o;
        }
        if(auto* x = dyn_cast<UserDefinedLiteral>(e)) {
            Object o{{"k", "Call"}};
            if(auto* f = x->getDirectCallee()) o["f"] = funRef(f);
            o["a"] = exprsR(x->arguments());
            return o;
        }
        if(auto* x = dyn_cast<CallExpr>(e)) {
            Object o{{"k", "Call"}};
            if(auto* f = x->getDirectCallee()) o["f"] = funRef(f);
            else o["c"] = expr(x->getCallee());
            o["a"] = exprsR(x->arguments());
            return o;
        }
        if(auto* x = dyn_cast<CXXConstructExpr>(e)) {
            Object o{{"k", "Ctor"}, {"f", funRef(x->getConstructor())}, {"elid", x->isElidable()}, {"listinit", x->isStdInitListInitialization()}};
            o["a"] = exprsR(x->arguments());
            return o;
        }
        if(auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
            return Object{{"k", "InhCtor"}, {"f", funRef(x->getConstructor())}};
        }
        if(auto* x = dyn_cast<InitListExpr>(e)) {
            if(x->isSyntacticForm() && x->getSemanticForm()) x = x->getSemanticForm();
            Object o{{"k", "InitList"}};
            Array a;
            for(auto* i : x->inits()) a.push_back(expr(i));
            o["a"] = std::move(a);
            if(x->hasArrayFiller()) o["fill"] = expr(x->getArrayFiller());
            if(x->isTransparent()) o["transp"] = true;
            return o;
        }
        if(isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) return Object{{"k", "ZeroInit"}};
        if(auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) return Object{{"k", "StdInitList"}, {"e", expr(x->getSubExpr())}};
        if(auto* x = dyn_cast<CastExpr>(e)) {
            Object o{{"k", "Cast"}, {"ck", std::string(x->getCastKindName())}, {"e", expr(x->getSubExpr())}};
            if(isa<ExplicitCastExpr>(e)) o["ex"] = true;
            if(auto* f = x->getConversionFunction()) { if(auto* ff = dyn_cast<FunctionDecl>(f)) o["conv"] = funRef(ff); }
            return o;
        }
        if(auto* x = dyn_cast<UnaryOperator>(e))
            return Object{{"k", "Un"}, {"op", UnaryOperator::getOpcodeStr(x->getOpcode()).str()}, {"post", x->isPostfix()}, {"e", expr(x->getSubExpr())}};
        if(auto* x = dyn_cast<CompoundAssignOperator>(e))
            return Object{{"k", "CAsg"}, {"op", x->getOpcodeStr().str()}, {"a", expr(x->getLHS())}, {"b", expr(x->getRHS())}, {"ct", ty(x->getComputationResultType())}, {"clt", ty(x->getComputationLHSType())}};
        if(auto* x = dyn_cast<BinaryOperator>(e))
            return Object{{"k", "Bin"}, {"op", x->getOpcodeStr().str()}, {"a", expr(x->getLHS())}, {"b", expr(x->getRHS())}};
        if(auto* x = dyn_cast<ConditionalOperator>(e))
            return Object{{"k", "Cond"}, {"c", expr(x->getCond())}, {"a", expr(x->getTrueExpr())}, {"b", expr(x->getFalseExpr())}};
        if(auto* x = dyn_cast<ArraySubscriptExpr>(e))
            return Object{{"k", "Sub"}, {"b", expr(x->getBase())}, {"i", expr(x->getIdx())}};
        if(auto* x = dyn_cast<LambdaExpr>(e)) {
            Array caps;
            auto* cls = x->getLambdaClass();
            auto fi = cls->field_begin();
            auto ii = x->capture_init_begin();
            for(auto& c : x->captures()) {
                Object co;
                if(c.capturesThis()) co["this"] = true;
                else if(c.capturesVariable()) { co["id"] = id(c.getCapturedVar()); co["n"] = c.getCapturedVar()->getNameAsString(); }
                co["ref"] = c.getCaptureKind() == LCK_ByRef;
                co["init"] = expr(*ii);
                caps.push_back(std::move(co));
                ++fi; ++ii;
            }
            auto* m = cls->getLambdaCallOperator();
            Object o{{"k", "Lambda"}, {"caps", std::move(caps)}};
            if(!cls->isGenericLambda()) { o["f"] = funRef(m); enqueue(m); }
            else if(auto* t = m->getDescribedFunctionTemplate()) {
                Array specs;
                for(auto* sp : t->specializations()) { specs.push_back(funRef(sp)); enqueue(sp); }
                o["specs"] = std::move(specs);
            }
            return o;
        }
        if(auto* x = dyn_cast<CXXThrowExpr>(e)) return Object{{"k", "Throw"}, {"e", x->getSubExpr() ? expr(x->getSubExpr()) : Value(nullptr)}};
        if(auto* x = dyn_cast<ArrayInitLoopExpr>(e)) return Object{{"k", "ArrCopy"}, {"e", expr(x->getCommonExpr())}};
        return Object{{"k", "Unsupported"}, {"cls", std::string(e->getStmtClassName())}};
    }
    void emitFunction(const FunctionDecl* f)
    {
        if(inSystem(f)) {
            auto* m = dyn_cast<CXXMethodDecl>(f);
            if(!(m && m->getParent()->isLambda())) return;
        }
        Object o = funRef(f);
        o["file"] = fileOf(f->getLocation());
        o["line"] = lineOf(f->getLocation());
        Array ps;
        for(auto* p : f->parameters())
            ps.push_back(Object{{"id", id(p)}, {"n", p->getNameAsString()}, {"t", ty(p->getType())}, {"r", refk(p->getType())}});
        o["params"] = std::move(ps);
        if(auto* m = dyn_cast<CXXMethodDecl>(f)) o["const"] = m->isConst();
        if(auto* c = dyn_cast<CXXConstructorDecl>(f)) {
            Array is;
            for(auto* i : c->inits()) {
                Object io{{"e", expr(i->getInit())}};
                if(i->isBaseInitializer()) io["base"] = ty(QualType(i->getBaseClass(), 0));
                else if(i->isDelegatingInitializer()) io["deleg"] = true;
                else if(i->getAnyMember()) io["field"] = i->getAnyMember()->getNameAsString();
                io["written"] = i->isWritten();
                is.push_back(std::move(io));
            }
            o["inits"] = std::move(is);
        }
        if(f->doesThisDeclarationHaveABody() && f->getBody()) o["body"] = stmt(f->getBody());
        else if(f->hasBody()) o["body"] = stmt(f->getBody());
        functions[id(f)] = std::move(o);
    }
    Array ops;
    void collectOps(const DeclContext* dc)
    {
        for(auto* d : dc->decls()) {
            if(auto* ns = dyn_cast<NamespaceDecl>(d)) { if(!inSystem(d)) collectOps(ns); continue; }
            if(inSystem(d)) continue;
            if(auto* t = dyn_cast<FunctionTemplateDecl>(d)) {
                if(!t->getTemplatedDecl()->isOverloadedOperator()) continue;
                for(auto* f : t->specializations())
                    if(f->hasBody() && !f->isDependentContext()) ops.push_back(funRef(f));
            } else if(auto* f = dyn_cast<FunctionDecl>(d)) {
                if(f->isOverloadedOperator() && f->hasBody() && !f->isDependentContext() && !isa<CXXMethodDecl>(f)) ops.push_back(funRef(f));
            }
        }
    }
    void run(TranslationUnitDecl* tu)
    {
        collect(tu);
        collectOps(tu);
        while(true) {
            if(!work.empty()) { auto* f = work.front(); work.pop_front(); emitFunction(f); continue; }
            if(!gwork.empty()) {
                auto* v = gwork.front(); gwork.pop_front();
                const VarDecl* d = v;
                const Expr* in = v->getAnyInitializer(d);
                Object o{{"q", gname(v)}, {"t", ty(v->getType())}, {"sys", inSystem(v)}};
                if(in && !inSystem(v)) o["init"] = expr(in);
                globals[gname(v)] = std::move(o);
                continue;
            }
            if(!typeWork.empty()) { auto t = typeWork.front(); typeWork.pop_front(); emitType(t); continue; }
            break;
        }
        Object top{{"functions", std::move(functions)}, {"types", std::move(types)}, {"globals", std::move(globals)}, {"ops", std::move(ops)}};
        llvm::outs() << Value(std::move(top)) << "\n";
    }
    void collect(const DeclContext* dc)
    {
        for(auto* d : dc->decls()) {
            if(auto* ns = dyn_cast<NamespaceDecl>(d)) { if(SM.isWrittenInMainFile(SM.getExpansionLoc(d->getLocation()))) collect(ns); continue; }
            if(!SM.isInMainFile(SM.getExpansionLoc(d->getLocation()))) continue;
            if(auto* f = dyn_cast<FunctionDecl>(d)) {
                if(f->isDependentContext()) continue;
                if(f->hasBody()) enqueue(f);
            } else if(auto* s = dyn_cast<ClassTemplateSpecializationDecl>(d)) {
                (void)s;
            }
        }
    }
};

class Cons : public SemaConsumer
{
public:
    void InitializeSema(Sema& S) override { TheSema = &S; }
    void ForgetSema() override { TheSema = nullptr; }
    void HandleTranslationUnit(ASTContext& C) override
    {
        if(C.getDiagnostics().hasErrorOccurred()) return;
        Extractor(C).run(C.getTranslationUnitDecl());
    }
};
class Act : public ASTFrontendAction
{
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override { return std::make_unique<Cons>(); }
};

int main(int argc, const char** argv)
{
    // usage: cxxir <file.cpp> --scope=PREFIX ... -- <clang args>
    std::string file;
    std::vector<std::string> args;
    int i = 1;
    for(; i < argc; ++i) {
        std::string a = argv[i];
        if(a == "--") { ++i; break; }
        if(a.rfind("--scope=", 0) == 0) ScopePrefixes.push_back(a.substr(8));
        else file = a;
    }
    for(; i < argc; ++i) args.push_back(argv[i]);
    clang::tooling::FixedCompilationDatabase db(".", args);
    clang::tooling::ClangTool tool(db, {file});
    return tool.run(clang::tooling::newFrontendActionFactory<Act>().get());
}
