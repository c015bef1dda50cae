// Exports a compact, type-resolved syntax tree of every function defined in the
// analysed source root, one JSON object per line.  Nothing here decides anything:
// all rules live in /verif/sa.
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/Attr.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/ExprConcepts.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>

#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;
using std::string;

static string root = "/repo/";
static unsigned max_instances = 40;
static std::error_code ec;
static std::unique_ptr<llvm::raw_fd_ostream> out;

namespace
{
    struct Exporter : RecursiveASTVisitor<Exporter>
    {
        ASTContext & ctx;
        SourceManager & sm;
        PrintingPolicy pp;
        std::set<const Decl *> done;
        std::map<string, unsigned> instances_of;
        std::set<string> classes_done, enums_done, vars_done;
        const FunctionDecl * current = nullptr;

        // per-function type table
        std::vector<string> types;
        std::map<string, unsigned> type_index;

        Exporter(ASTContext & c) : ctx(c), sm(c.getSourceManager()), pp(c.getLangOpts())
        {
            pp.SuppressTagKeyword = true;
            pp.FullyQualifiedName = true;
            pp.PrintCanonicalTypes = true;
            pp.TerseOutput = true;
            pp.AnonymousTagLocations = true;
        }

        bool shouldVisitTemplateInstantiations() const { return true; }
        bool shouldVisitImplicitCode() const { return false; }
        bool shouldVisitLambdaBody() const { return true; }

        string file_of(SourceLocation loc)
        {
            loc = sm.getExpansionLoc(loc);
            auto p = sm.getPresumedLoc(loc, false);
            if (p.isInvalid())
                return "";
            string f = p.getFilename();
            llvm::SmallString<256> real;
            if (auto fe = sm.getFileEntryForID(sm.getFileID(loc)))
                f = fe->tryGetRealPathName().str();
            if (f.rfind(root, 0) == 0)
                return f.substr(root.size());
            return "";
        }
        string lc(SourceLocation loc)
        {
            loc = sm.getExpansionLoc(loc);
            return std::to_string(sm.getExpansionLineNumber(loc)) + ":" + std::to_string(sm.getExpansionColumnNumber(loc));
        }
        bool in_root(SourceLocation loc) { return ! file_of(loc).empty(); }

        string type_str(QualType t)
        {
            if (t.isNull())
                return "?";
            string s = t.getCanonicalType().getAsString(pp);
            // lambda closure types: normalise "(lambda at /abs/path:1:2)"
            for (size_t p; (p = s.find("(lambda at " + root)) != string::npos;)
                s.replace(p + 11, root.size(), "");
            if (s.size() > 600)
                s = s.substr(0, 600) + "...";
            return s;
        }
        unsigned ty(QualType t)
        {
            auto s = type_str(t);
            auto [it, ins] = type_index.try_emplace(s, types.size());
            if (ins)
                types.push_back(s);
            return it->second;
        }

        string qname(const NamedDecl * d)
        {
            string s;
            llvm::raw_string_ostream os(s);
            d->printQualifiedName(os, pp);
            os.flush();
            return s;
        }
        string targs(const TemplateArgumentList * l)
        {
            string s;
            llvm::raw_string_ostream os(s);
            if (l)
                printTemplateArgumentList(os, l->asArray(), pp);
            os.flush();
            for (size_t p; (p = s.find("(lambda at " + root)) != string::npos;)
                s.replace(p + 11, root.size(), "");
            return s;
        }
        const CXXRecordDecl * lambda_class(const FunctionDecl * f)
        {
            if (auto m = dyn_cast<CXXMethodDecl>(f))
                if (m->getParent()->isLambda())
                    return m->getParent();
            return nullptr;
        }
        bool in_anon(const Decl * d)
        {
            for (auto c = d->getDeclContext(); c; c = c->getParent())
                if (auto n = dyn_cast<NamespaceDecl>(c))
                    if (n->isAnonymousNamespace())
                        return true;
            return false;
        }
        string class_key(const CXXRecordDecl * r)
        {
            if (r->isLambda())
                return "lambda@" + file_of(r->getLocation()) + ":" + lc(r->getLambdaCallOperator() ? r->getBeginLoc() : r->getLocation());
            string s = qname(r);
            if (auto sp = dyn_cast<ClassTemplateSpecializationDecl>(r))
                s += targs(&sp->getTemplateArgs());
            if (auto p = dyn_cast<CXXRecordDecl>(r->getDeclContext()))
                if (auto sp = dyn_cast<ClassTemplateSpecializationDecl>(p))
                    s = class_key(sp) + "::" + r->getNameAsString();
            if (in_anon(r) || r->isLocalClass())
                s += "@" + file_of(r->getLocation());
            return s;
        }
        string func_key(const FunctionDecl * f)
        {
            string s;
            if (auto l = lambda_class(f)) {
                s = class_key(l);
                if (f->getDeclName().getAsString() != "operator()")
                    s += "::" + f->getDeclName().getAsString();
                if (auto a = f->getTemplateSpecializationArgs())
                    s += "#" + targs(a);
                // an enclosing instantiation distinguishes otherwise identical lambdas
                if (auto fd = dyn_cast_or_null<FunctionDecl>(l->getDeclContext()))
                    if (fd->isTemplateInstantiation() || lambda_class(fd)) {
                        auto k = instance_suffix(fd);
                        if (! k.empty())
                            s += "!" + k;
                    }
                return s;
            }
            auto m = dyn_cast<CXXMethodDecl>(f);
            if (m) {
                s = class_key(m->getParent()) + "::";
                if (isa<CXXConstructorDecl>(f))
                    s += "(ctor)";
                else if (isa<CXXDestructorDecl>(f))
                    s += "(dtor)";
                else
                    s += f->getDeclName().getAsString();
            }
            else {
                s = qname(f);
                if (in_anon(f))
                    s += "@" + file_of(f->getLocation());
            }
            // the space keeps "operator<" and its template arguments apart
            if (auto a = f->getTemplateSpecializationArgs())
                s += (f->isOverloadedOperator() ? " " : "") + targs(a);
            s += "(";
            for (unsigned i = 0; i < f->getNumParams(); ++i)
                s += (i ? ", " : "") + type_str(f->getParamDecl(i)->getType());
            s += ")";
            if (m && m->isConst())
                s += " const";
            return s;
        }
        string instance_suffix(const FunctionDecl * f)
        {
            string s;
            if (auto a = f->getTemplateSpecializationArgs())
                s = targs(a);
            if (auto m = dyn_cast<CXXMethodDecl>(f)) {
                if (auto sp = dyn_cast<ClassTemplateSpecializationDecl>(m->getParent()))
                    s += targs(&sp->getTemplateArgs());
                if (auto l = lambda_class(f))
                    if (auto fd = dyn_cast_or_null<FunctionDecl>(l->getDeclContext()))
                        s += instance_suffix(fd);
            }
            return s;
        }
        // the function this one is an instance of, if any
        const FunctionDecl * pattern_of(const FunctionDecl * f)
        {
            if (auto p = f->getTemplateInstantiationPattern())
                return p;
            return nullptr;
        }
        bool within_instantiation(const FunctionDecl * f)
        {
            for (const DeclContext * c = f; c; c = c->getParent()) {
                if (auto fd = dyn_cast<FunctionDecl>(c))
                    if (fd->isTemplateInstantiation() && fd->getTemplateSpecializationKind() != TSK_ExplicitSpecialization)
                        return true;
                if (auto sp = dyn_cast<ClassTemplateSpecializationDecl>(c))
                    if (sp->getSpecializationKind() != TSK_ExplicitSpecialization && ! isa<ClassTemplatePartialSpecializationDecl>(sp))
                        return true;
            }
            return false;
        }

        string decl_key(const ValueDecl * d)
        {
            if (auto f = dyn_cast<FunctionDecl>(d))
                return func_key(f);
            if (auto v = dyn_cast<VarDecl>(d)) {
                if (v->isLocalVarDeclOrParm() || v->isInitCapture())
                    return "$" + d->getNameAsString() + "@" + lc(d->getLocation());
                return qname(d) + (in_anon(d) ? "@" + file_of(d->getLocation()) : "");
            }
            if (isa<BindingDecl>(d))
                return "$" + d->getNameAsString() + "@" + lc(d->getLocation());
            if (auto f = dyn_cast<FieldDecl>(d)) {
                if (auto r = dyn_cast<CXXRecordDecl>(f->getParent()))
                    return class_key(r) + "::" + f->getNameAsString();
            }
            return qname(d);
        }

        json::Value null_node() { return nullptr; }

        json::Value kids(const Stmt * s)
        {
            json::Array a;
            for (auto c : s->children())
                a.push_back(node(c));
            return a;
        }

        json::Object base(const Stmt * s)
        {
            json::Object o;
            o["k"] = s->getStmtClassName();
            o["p"] = lc(s->getBeginLoc());
            if (auto e = dyn_cast<Expr>(s)) {
                o["t"] = ty(e->getType());
                if (e->isLValue())
                    o["lv"] = true;
            }
            return o;
        }

        json::Value var_decl(const VarDecl * v)
        {
            json::Object o;
            o["k"] = "VarDecl";
            o["p"] = lc(v->getLocation());
            o["n"] = v->getNameAsString();
            o["d"] = decl_key(v);
            o["t"] = ty(v->getType());
            if (v->isStaticLocal())
                o["static"] = true;
            if (v->isConstexpr())
                o["constexpr"] = true;
            if (auto dd = dyn_cast<DecompositionDecl>(v)) {
                json::Array b;
                for (auto bd : dd->bindings())
                    b.push_back(json::Object{{"n", bd->getNameAsString()}, {"d", decl_key(bd)}, {"t", ty(bd->getType())}});
                o["bind"] = std::move(b);
            }
            if (v->hasInit())
                o["init"] = node(v->getInit());
            return o;
        }

        // the constructor a std::make_unique instantiation ends up calling
        const CXXConstructorDecl * constructed_by(const FunctionDecl * f)
        {
            const FunctionDecl * def = nullptr;
            if (! f->hasBody(def))
                return nullptr;
            std::vector<const Stmt *> todo{def->getBody()};
            while (! todo.empty()) {
                auto x = todo.back();
                todo.pop_back();
                if (! x)
                    continue;
                if (auto n = dyn_cast<CXXNewExpr>(x))
                    if (auto ce = n->getConstructExpr())
                        return ce->getConstructor();
                for (auto c : x->children())
                    todo.push_back(c);
            }
            return nullptr;
        }

        json::Value node(const Stmt * s)
        {
            if (! s)
                return nullptr;
            // transparent nodes
            if (auto e = dyn_cast<ParenExpr>(s))
                return node(e->getSubExpr());
            if (auto e = dyn_cast<ImplicitCastExpr>(s)) {
                return node(e->getSubExpr());
            }
            if (auto e = dyn_cast<FullExpr>(s))
                return node(e->getSubExpr());
            if (auto e = dyn_cast<CXXBindTemporaryExpr>(s))
                return node(e->getSubExpr());
            if (auto e = dyn_cast<SubstNonTypeTemplateParmExpr>(s))
                return node(e->getReplacement());
            if (auto e = dyn_cast<AttributedStmt>(s))
                return node(e->getSubStmt());
            if (auto e = dyn_cast<OpaqueValueExpr>(s))
                return node(e->getSourceExpr());
            if (auto e = dyn_cast<CXXStdInitializerListExpr>(s))
                return node(e->getSubExpr());

            auto o = base(s);
            if (auto e = dyn_cast<MaterializeTemporaryExpr>(s)) {
                o["k"] = "Temp";
                if (auto ed = e->getExtendingDecl())
                    o["ext"] = ed->getNameAsString().empty() ? "?" : ed->getNameAsString();
                json::Array a;
                a.push_back(node(e->getSubExpr()));
                o["c"] = std::move(a);
                return o;
            }
            if (auto e = dyn_cast<DeclRefExpr>(s)) {
                o["n"] = e->getNameInfo().getAsString();
                o["d"] = decl_key(e->getDecl());
                if (auto ec = dyn_cast<EnumConstantDecl>(e->getDecl())) {
                    o["k"] = "EnumConst";
                    o["v"] = ec->getInitVal().getExtValue();
                }
                else if (isa<FunctionDecl>(e->getDecl()))
                    o["fn"] = true;
                if (e->refersToEnclosingVariableOrCapture())
                    o["enc"] = true;
                return o;
            }
            if (auto e = dyn_cast<MemberExpr>(s)) {
                o["n"] = e->getMemberDecl()->getNameAsString();
                o["d"] = decl_key(e->getMemberDecl());
                if (e->isArrow())
                    o["arrow"] = true;
                if (isa<FunctionDecl>(e->getMemberDecl()))
                    o["fn"] = true;
                json::Array a;
                a.push_back(node(e->getBase()));
                o["c"] = std::move(a);
                return o;
            }
            if (auto e = dyn_cast<CXXDependentScopeMemberExpr>(s)) {
                o["n"] = e->getMember().getAsString();
                json::Array a;
                a.push_back(e->isImplicitAccess() ? nullptr : node(e->getBase()));
                o["c"] = std::move(a);
                return o;
            }
            if (auto e = dyn_cast<OverloadExpr>(s)) {
                o["n"] = e->getName().getAsString();
                json::Array a;
                if (auto m = dyn_cast<UnresolvedMemberExpr>(s))
                    a.push_back(m->isImplicitAccess() ? nullptr : node(m->getBase()));
                o["c"] = std::move(a);
                json::Array cands;
                for (auto d : e->decls()) {
                    const NamedDecl * nd = d->getUnderlyingDecl();
                    if (auto ft = dyn_cast<FunctionTemplateDecl>(nd))
                        nd = ft->getTemplatedDecl();
                    if (auto f = dyn_cast<FunctionDecl>(nd))
                        cands.push_back(func_key(f));
                }
                o["cands"] = std::move(cands);
                return o;
            }
            if (auto e = dyn_cast<DependentScopeDeclRefExpr>(s)) {
                o["n"] = e->getDeclName().getAsString();
                return o;
            }
            if (auto e = dyn_cast<IntegerLiteral>(s)) {
                o["v"] = llvm::toString(e->getValue(), 10, e->getType()->isSignedIntegerOrEnumerationType());
                return o;
            }
            if (auto e = dyn_cast<CXXBoolLiteralExpr>(s)) {
                o["v"] = e->getValue();
                return o;
            }
            if (auto e = dyn_cast<clang::StringLiteral>(s)) {
                o["v"] = e->isOrdinary() ? json::fixUTF8(e->getString()) : string("<wide>");
                return o;
            }
            if (auto e = dyn_cast<CharacterLiteral>(s)) {
                o["v"] = (int64_t) e->getValue();
                return o;
            }
            if (auto e = dyn_cast<FloatingLiteral>(s)) {
                o["v"] = e->getValueAsApproximateDouble();
                return o;
            }
            if (auto e = dyn_cast<UserDefinedLiteral>(s)) {
                if (auto f = e->getDirectCallee())
                    o["f"] = func_key(f);
                if (auto c = e->getCookedLiteral()) {
                    json::Array a;
                    a.push_back(node(c));
                    o["c"] = std::move(a);
                }
                else
                    o["c"] = kids(s);
                return o;
            }
            if (auto e = dyn_cast<LambdaExpr>(s)) {
                o["f"] = func_key(e->getCallOperator());
                json::Array caps;
                auto fi = e->getLambdaClass()->captures_begin();
                auto ci = e->capture_init_begin();
                for (; fi != e->getLambdaClass()->captures_end() && ci != e->capture_init_end(); ++fi, ++ci) {
                    json::Object c;
                    if (fi->capturesThis())
                        c["by"] = fi->getCaptureKind() == LCK_StarThis ? "*this" : "this";
                    else if (fi->capturesVariable()) {
                        auto v = fi->getCapturedVar();
                        c["by"] = fi->getCaptureKind() == LCK_ByRef ? "ref" : "copy";
                        c["n"] = v->getNameAsString();
                        c["d"] = decl_key(v);
                        c["t"] = ty(v->getType());
                        if (v->isInitCapture()) {
                            c["init"] = true;
                            if (*ci)
                                c["e"] = node(*ci);
                        }
                    }
                    if (fi->isImplicit())
                        c["implicit"] = true;
                    caps.push_back(std::move(c));
                }
                o["caps"] = std::move(caps);
                auto co = e->getCallOperator();
                o["generic"] = e->isGenericLambda();
                o["params"] = params_of(co);
                o["ret"] = ty(co->getReturnType());
                o["body"] = node(e->getBody());
                if (isa_and_nonnull<CoroutineBodyStmt>(e->getBody()))
                    o["coro"] = true;
                if (e->isMutable())
                    o["mutable"] = true;
                return o;
            }
            if (auto e = dyn_cast<CallExpr>(s)) {
                if (auto f = e->getDirectCallee()) {
                    o["f"] = func_key(f);
                    o["fnm"] = f->getDeclName().getAsString();
                    if (auto p = f->getPrimaryTemplate())
                        o["fp"] = func_key(p->getTemplatedDecl());
                    else if (auto q = f->getTemplateInstantiationPattern())
                        o["fp"] = func_key(q);
                    if (f->isNoReturn())
                        o["noret"] = true;
                    if (in_root(f->getLocation()))
                        o["in"] = true;
                }
                if (auto f = e->getDirectCallee())
                    if (f->getIdentifier() && f->getName() == "make_unique")
                        if (auto cd = constructed_by(f))
                            o["ctor"] = func_key(cd);
                if (auto oc = dyn_cast<CXXOperatorCallExpr>(s))
                    o["op"] = getOperatorSpelling(oc->getOperator());
                json::Array a;
                if (auto mc = dyn_cast<CXXMemberCallExpr>(s)) {
                    auto callee = mc->getCallee()->IgnoreParenImpCasts();
                    if (auto me = dyn_cast<MemberExpr>(callee)) {
                        o["obj"] = node(me->getBase());
                        if (me->isArrow())
                            o["arrow"] = true;
                        if (auto md = dyn_cast<CXXMethodDecl>(me->getMemberDecl())) {
                            if (md->isVirtual())
                                o["virt"] = true;
                            if (md->isConst())
                                o["const"] = true;
                            if (md->isStatic())
                                o["st"] = true;
                        }
                    }
                    else
                        o["callee"] = node(mc->getCallee());
                }
                else if (! e->getDirectCallee())
                    o["callee"] = node(e->getCallee());
                for (auto arg : e->arguments())
                    a.push_back(node(arg));
                o["c"] = std::move(a);
                return o;
            }
            if (auto e = dyn_cast<CXXConstructExpr>(s)) {
                auto cd = e->getConstructor();
                o["f"] = func_key(cd);
                if (cd->isCopyConstructor())
                    o["copy"] = true;
                if (cd->isMoveConstructor())
                    o["move"] = true;
                if (in_root(cd->getLocation()))
                    o["in"] = true;
                json::Array a;
                for (auto arg : e->arguments())
                    a.push_back(node(arg));
                o["c"] = std::move(a);
                return o;
            }
            if (isa<CXXDefaultArgExpr>(s) || isa<CXXDefaultInitExpr>(s) || isa<CXXThisExpr>(s) || isa<ImplicitValueInitExpr>(s) ||
                isa<CXXNullPtrLiteralExpr>(s) || isa<GNUNullExpr>(s))
                return o;
            if (auto e = dyn_cast<CXXRewrittenBinaryOperator>(s)) {
                auto d = e->getDecomposedForm();
                o["op"] = BinaryOperator::getOpcodeStr(d.Opcode).str();
                o["k"] = "RewrittenOp";
                json::Array a;
                a.push_back(node(d.LHS));
                a.push_back(node(d.RHS));
                o["c"] = std::move(a);
                return o;
            }
            if (auto e = dyn_cast<BinaryOperator>(s)) {
                o["op"] = e->getOpcodeStr().str();
                o["c"] = kids(s);
                return o;
            }
            if (auto e = dyn_cast<UnaryOperator>(s)) {
                o["op"] = UnaryOperator::getOpcodeStr(e->getOpcode()).str();
                if (e->isPostfix())
                    o["postfix"] = true;
                o["c"] = kids(s);
                return o;
            }
            if (auto e = dyn_cast<ExplicitCastExpr>(s)) {
                o["cast"] = ty(e->getTypeAsWritten());
                json::Array a;
                a.push_back(node(e->getSubExpr()));
                o["c"] = std::move(a);
                return o;
            }
            if (auto e = dyn_cast<InitListExpr>(s)) {
                auto sem = e->isSemanticForm() ? e : (e->getSemanticForm() ? e->getSemanticForm() : e);
                json::Array a, names;
                for (auto i : sem->inits())
                    a.push_back(node(i));
                if (auto rt = sem->getType()->getAsCXXRecordDecl())
                    if (rt->hasDefinition() && rt->isAggregate()) {
                        for (auto & b : rt->bases()) {
                            (void) b;
                            names.push_back("(base)");
                        }
                        for (auto f : rt->fields())
                            names.push_back(f->getNameAsString());
                    }
                o["c"] = std::move(a);
                o["fields"] = std::move(names);
                return o;
            }
            if (auto e = dyn_cast<DesignatedInitExpr>(s)) {
                json::Array a;
                a.push_back(node(e->getInit()));
                o["c"] = std::move(a);
                if (e->size() && e->getDesignator(0)->isFieldDesignator())
                    o["n"] = e->getDesignator(0)->getFieldName()->getName().str();
                return o;
            }
            if (auto e = dyn_cast<CXXNewExpr>(s)) {
                json::Array a;
                if (e->getInitializer())
                    a.push_back(node(e->getInitializer()));
                o["c"] = std::move(a);
                return o;
            }
            if (auto e = dyn_cast<CoroutineBodyStmt>(s)) {
                auto b = node(e->getBody());
                return b;
            }
            if (auto e = dyn_cast<CoroutineSuspendExpr>(s)) {
                json::Array a;
                a.push_back(node(e->getOperand()));
                o["c"] = std::move(a);
                return o;
            }
            if (auto e = dyn_cast<CoreturnStmt>(s)) {
                json::Array a;
                if (e->getOperand())
                    a.push_back(node(e->getOperand()));
                o["c"] = std::move(a);
                return o;
            }
            if (auto e = dyn_cast<DeclStmt>(s)) {
                json::Array a;
                for (auto d : e->decls())
                    if (auto v = dyn_cast<VarDecl>(d))
                        a.push_back(var_decl(v));
                o["c"] = std::move(a);
                return o;
            }
            if (auto e = dyn_cast<IfStmt>(s)) {
                if (e->isConstexpr()) {
                    o["constexpr"] = true;
                    if (! e->getCond()->isValueDependent() && ! e->getCond()->isTypeDependent()) {
                        bool b = false;
                        if (e->getCond()->EvaluateAsBooleanCondition(b, ctx))
                            o["ceval"] = b;
                    }
                }
                if (e->getInit())
                    o["init"] = node(e->getInit());
                if (e->getConditionVariable())
                    o["var"] = var_decl(e->getConditionVariable());
                o["cond"] = node(e->getCond());
                o["then"] = node(e->getThen());
                o["else"] = node(e->getElse());
                return o;
            }
            if (auto e = dyn_cast<SwitchStmt>(s)) {
                if (e->getInit())
                    o["init"] = node(e->getInit());
                if (e->getConditionVariable())
                    o["var"] = var_decl(e->getConditionVariable());
                o["cond"] = node(e->getCond());
                o["body"] = node(e->getBody());
                return o;
            }
            if (auto e = dyn_cast<CaseStmt>(s)) {
                o["v"] = node(e->getLHS());
                o["body"] = node(e->getSubStmt());
                return o;
            }
            if (auto e = dyn_cast<DefaultStmt>(s)) {
                o["body"] = node(e->getSubStmt());
                return o;
            }
            if (auto e = dyn_cast<WhileStmt>(s)) {
                if (e->getConditionVariable())
                    o["var"] = var_decl(e->getConditionVariable());
                o["cond"] = node(e->getCond());
                o["body"] = node(e->getBody());
                return o;
            }
            if (auto e = dyn_cast<DoStmt>(s)) {
                o["cond"] = node(e->getCond());
                o["body"] = node(e->getBody());
                return o;
            }
            if (auto e = dyn_cast<ForStmt>(s)) {
                o["init"] = node(e->getInit());
                o["cond"] = node(e->getCond());
                o["inc"] = node(e->getInc());
                o["body"] = node(e->getBody());
                return o;
            }
            if (auto e = dyn_cast<CXXForRangeStmt>(s)) {
                if (e->getInit())
                    o["init"] = node(e->getInit());
                if (e->getLoopVariable()) {
                    auto v = e->getLoopVariable();
                    json::Object vo;
                    vo["k"] = "VarDecl";
                    vo["p"] = lc(v->getLocation());
                    vo["n"] = v->getNameAsString();
                    vo["d"] = decl_key(v);
                    vo["t"] = ty(v->getType());
                    if (auto dd = dyn_cast<DecompositionDecl>(v)) {
                        json::Array b;
                        for (auto bd : dd->bindings())
                            b.push_back(json::Object{{"n", bd->getNameAsString()}, {"d", decl_key(bd)}, {"t", ty(bd->getType())}});
                        vo["bind"] = std::move(b);
                    }
                    o["var"] = std::move(vo);
                }
                o["range"] = node(e->getRangeInit());
                o["body"] = node(e->getBody());
                return o;
            }
            if (auto e = dyn_cast<CXXTryStmt>(s)) {
                o["body"] = node(e->getTryBlock());
                json::Array hs;
                for (unsigned i = 0; i < e->getNumHandlers(); ++i) {
                    auto h = e->getHandler(i);
                    json::Object ho;
                    ho["k"] = "Catch";
                    ho["p"] = lc(h->getBeginLoc());
                    ho["type"] = h->getCaughtType().isNull() ? json::Value("...") : json::Value(type_str(h->getCaughtType()));
                    ho["body"] = node(h->getHandlerBlock());
                    hs.push_back(std::move(ho));
                }
                o["handlers"] = std::move(hs);
                return o;
            }
            if (auto e = dyn_cast<UnaryExprOrTypeTraitExpr>(s)) {
                if (! e->isArgumentType())
                    o["c"] = kids(s);
                return o;
            }
            if (auto e = dyn_cast<CXXUnresolvedConstructExpr>(s)) {
                json::Array a;
                for (auto arg : e->arguments())
                    a.push_back(node(arg));
                o["c"] = std::move(a);
                return o;
            }
            if (isa<TypeTraitExpr>(s) || isa<RequiresExpr>(s) || isa<ConceptSpecializationExpr>(s))
                return o;
            if (auto e = dyn_cast<PseudoObjectExpr>(s))
                return node(e->getSyntacticForm());
            if (auto e = dyn_cast<ArrayInitLoopExpr>(s)) {
                json::Array a;
                a.push_back(node(e->getCommonExpr()->getSourceExpr()));
                o["c"] = std::move(a);
                return o;
            }
            o["c"] = kids(s);
            return o;
        }

        json::Array params_of(const FunctionDecl * f)
        {
            json::Array ps;
            for (auto p : f->parameters()) {
                json::Object po{{"n", p->getNameAsString()}, {"d", decl_key(p)}, {"t", ty(p->getType())}};
                if (p->hasAttr<LifetimeBoundAttr>())
                    po["lifetimebound"] = true;
                if (p->hasDefaultArg() && ! p->hasUninstantiatedDefaultArg() && ! p->hasUnparsedDefaultArg())
                    po["def"] = node(p->getDefaultArg());
                ps.push_back(std::move(po));
            }
            return ps;
        }

        void emit(json::Object o)
        {
            auto get = [&](const char * k) { auto v = o.getString(k); return v ? v->str() : string(); };
            string r = get("r"), k = get("key"), f = get("file"), p = get("p");
            bool inst = o.get("inst") != nullptr;
            *out << r << "\t" << k << "\t" << f << "\t" << p << "\t" << (inst ? "I" : "") << "\t" << json::Value(std::move(o)) << "\n";
        }

        bool this_lifetimebound(const FunctionDecl * f)
        {
            auto tsi = f->getTypeSourceInfo();
            if (! tsi)
                return false;
            AttributedTypeLoc atl;
            for (TypeLoc tl = tsi->getTypeLoc(); (atl = tl.getAsAdjusted<AttributedTypeLoc>()); tl = atl.getModifiedLoc())
                if (atl.getAttrAs<LifetimeBoundAttr>())
                    return true;
            return false;
        }

        void dump_function(const FunctionDecl * f, bool decl_only)
        {
            types.clear();
            type_index.clear();
            current = f;
            json::Object o;
            o["r"] = decl_only ? "decl" : "fn";
            o["key"] = func_key(f);
            o["n"] = f->getDeclName().getAsString();
            o["q"] = qname(f);
            o["file"] = file_of(f->getLocation());
            o["p"] = lc(f->getLocation());
            o["begin"] = (int64_t) sm.getExpansionLineNumber(f->getBeginLoc());
            o["end"] = (int64_t) sm.getExpansionLineNumber(f->getEndLoc());
            if (auto m = dyn_cast<CXXMethodDecl>(f)) {
                o["cls"] = class_key(m->getParent());
                if (m->isConst())
                    o["const"] = true;
                if (m->isStatic())
                    o["st"] = true;
                if (m->isVirtual())
                    o["virt"] = true;
                json::Array ov;
                for (auto b : m->overridden_methods())
                    ov.push_back(func_key(b));
                if (! ov.empty())
                    o["overrides"] = std::move(ov);
                const char * acc = m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private";
                o["access"] = acc;
            }
            o["params"] = params_of(f);
            o["ret"] = ty(f->getReturnType());
            if (f->isNoReturn())
                o["noret"] = true;
            if (auto fpt = f->getType()->getAs<FunctionProtoType>())
                if (! isUnresolvedExceptionSpec(fpt->getExceptionSpecType()) && fpt->isNothrow())
                    o["noexcept"] = true;
            if (f->hasAttr<WarnUnusedResultAttr>())
                o["nodiscard"] = true;
            if (this_lifetimebound(f))
                o["this_lifetimebound"] = true;
            if (f->isDefaulted())
                o["defaulted"] = true;
            if (f->isDeleted())
                o["deleted"] = true;
            if (f->isPureVirtual())
                o["pure"] = true;
            bool dependent = f->isDependentContext();
            if (dependent)
                o["pattern"] = true;
            if (auto p = pattern_of(f))
                o["inst_of"] = func_key(p);
            if (within_instantiation(f))
                o["inst"] = true;
            if (auto l = lambda_class(f)) {
                o["lambda"] = true;
                if (auto fd = dyn_cast_or_null<FunctionDecl>(l->getDeclContext()))
                    o["parent"] = func_key(fd);
            }
            // lexically enclosing functions
            if (! decl_only) {
                if (auto cd = dyn_cast<CXXConstructorDecl>(f)) {
                    json::Array inits;
                    for (auto i : cd->inits()) {
                        json::Object io;
                        if (i->isMemberInitializer() && i->getMember()) {
                            io["n"] = i->getMember()->getNameAsString();
                            io["d"] = decl_key(i->getMember());
                        }
                        else if (i->isBaseInitializer())
                            io["base"] = type_str(QualType(i->getBaseClass(), 0));
                        else if (i->isDelegatingInitializer())
                            io["delegating"] = true;
                        if (! i->isWritten())
                            io["implicit"] = true;
                        io["e"] = node(i->getInit());
                        inits.push_back(std::move(io));
                    }
                    o["inits"] = std::move(inits);
                }
                auto b = f->getBody();
                if (isa_and_nonnull<CoroutineBodyStmt>(b))
                    o["coro"] = true;
                o["body"] = node(b);
            }
            json::Array ta;
            for (auto & t : types)
                ta.push_back(t);
            o["T"] = std::move(ta);
            emit(std::move(o));
        }

        bool wanted_file(const string & f)
        {
            if (f.empty())
                return false;
            return f.find("_build") == string::npos;
        }

        bool VisitFunctionDecl(FunctionDecl * f)
        {
            consider(f);
            return true;
        }
        void consider(const FunctionDecl * f)
        {
            if (! wanted_file(file_of(f->getLocation())))
                return;
            if (f->isImplicit() && ! f->isDefaulted())
                if (! lambda_class(f))
                    return;
            if (! f->isThisDeclarationADefinition()) {
                if (within_instantiation(f))
                    return;
                if (done.insert(f).second)
                    dump_function(f, true);
                return;
            }
            if (f->isDefaulted() || f->isDeleted()) {
                if (f->isImplicit() || within_instantiation(f))
                    return;
                if (done.insert(f).second)
                    dump_function(f, true);
                return;
            }
            if (! f->doesThisDeclarationHaveABody())
                return;
            if (! done.insert(f).second)
                return;
            if (within_instantiation(f)) {
                string pk = file_of(f->getLocation()) + ":" + lc(f->getLocation());
                if (++instances_of[pk] > max_instances)
                    return;
            }
            dump_function(f, false);
        }
        bool VisitLambdaExpr(LambdaExpr * e)
        {
            auto co = e->getCallOperator();
            if (auto ft = co->getDescribedFunctionTemplate()) {
                consider(co);
                for (auto sp : ft->specializations()) {
                    const FunctionDecl * def = nullptr;
                    if (sp->hasBody(def)) {
                        auto sd = const_cast<FunctionDecl *>(def);
                        bool fresh = ! done.count(sd);
                        consider(sd);
                        if (fresh)
                            TraverseStmt(sd->getBody());
                    }
                }
            }
            else
                consider(co);
            return true;
        }

        bool VisitCXXRecordDecl(CXXRecordDecl * r)
        {
            if (! r->isThisDeclarationADefinition() || r->isLambda())
                return true;
            if (! wanted_file(file_of(r->getLocation())))
                return true;
            auto key = class_key(r);
            if (! classes_done.insert(key).second)
                return true;
            types.clear();
            type_index.clear();
            json::Object o;
            o["r"] = "class";
            o["key"] = key;
            o["q"] = qname(r);
            o["file"] = file_of(r->getLocation());
            o["p"] = lc(r->getLocation());
            if (r->isDependentContext())
                o["pattern"] = true;
            json::Array bases, fields, methods;
            for (auto & b : r->bases())
                bases.push_back(type_str(b.getType()));
            for (auto f : r->fields()) {
                json::Object fo{{"n", f->getNameAsString()}, {"d", decl_key(f)}, {"t", ty(f->getType())}, {"p", lc(f->getLocation())}};
                if (f->isMutable())
                    fo["mutable"] = true;
                if (f->hasInClassInitializer() && f->getInClassInitializer())
                    fo["init"] = node(f->getInClassInitializer());
                fo["access"] = f->getAccess() == AS_public ? "public" : f->getAccess() == AS_protected ? "protected" : "private";
                fields.push_back(std::move(fo));
            }
            for (auto m : r->methods())
                methods.push_back(func_key(m));
            for (auto d : r->decls()) {
                if (auto v = dyn_cast<VarDecl>(d))
                    global_var(v);
                else if (auto ft = dyn_cast<FunctionTemplateDecl>(d))
                    methods.push_back(func_key(ft->getTemplatedDecl()));
            }
            // global_var resets the table, so rebuild it for the fields
            o["bases"] = std::move(bases);
            o["methods"] = std::move(methods);
            types.clear();
            type_index.clear();
            fields.clear();
            for (auto f : r->fields()) {
                json::Object fo{{"n", f->getNameAsString()}, {"d", decl_key(f)}, {"t", ty(f->getType())}, {"p", lc(f->getLocation())}};
                if (f->isMutable())
                    fo["mutable"] = true;
                if (f->hasInClassInitializer() && f->getInClassInitializer())
                    fo["init"] = node(f->getInClassInitializer());
                fo["access"] = f->getAccess() == AS_public ? "public" : f->getAccess() == AS_protected ? "protected" : "private";
                fields.push_back(std::move(fo));
            }
            o["fields"] = std::move(fields);
            auto has_attr = [&](const char * n) {
                for (auto a : r->attrs())
                    if (string(a->getSpelling()) == n)
                        return true;
                return false;
            };
            if (has_attr("Pointer") || has_attr("gsl::Pointer") || r->hasAttr<PointerAttr>())
                o["gsl_pointer"] = true;
            if (r->hasAttr<OwnerAttr>())
                o["gsl_owner"] = true;
            json::Array ta;
            for (auto & t : types)
                ta.push_back(t);
            o["T"] = std::move(ta);
            emit(std::move(o));
            return true;
        }
        bool VisitEnumDecl(EnumDecl * e)
        {
            if (! e->isThisDeclarationADefinition() || ! wanted_file(file_of(e->getLocation())))
                return true;
            auto q = qname(e);
            if (! enums_done.insert(q).second)
                return true;
            json::Array a;
            for (auto c : e->enumerators())
                a.push_back(json::Object{{"n", c->getNameAsString()}, {"v", c->getInitVal().getExtValue()}, {"d", decl_key(c)}});
            emit(json::Object{{"r", "enum"}, {"key", q}, {"file", file_of(e->getLocation())}, {"p", lc(e->getLocation())}, {"values", std::move(a)}});
            return true;
        }
        void global_var(const VarDecl * v)
        {
            if (! wanted_file(file_of(v->getLocation())) || ! v->hasGlobalStorage() || v->isLocalVarDeclOrParm())
                return;
            auto key = decl_key(v) + "@" + file_of(v->getLocation());
            if (! vars_done.insert(key).second)
                return;
            types.clear();
            type_index.clear();
            json::Object o;
            o["r"] = "var";
            o["key"] = decl_key(v);
            o["file"] = file_of(v->getLocation());
            o["p"] = lc(v->getLocation());
            o["t"] = ty(v->getType());
            o["const"] = v->getType().isConstQualified();
            o["constexpr"] = v->isConstexpr();
            if (v->getTLSKind() != VarDecl::TLS_None)
                o["tls"] = true;
            if (v->hasInit())
                o["init"] = node(v->getInit());
            json::Array ta;
            for (auto & t : types)
                ta.push_back(t);
            o["T"] = std::move(ta);
            emit(std::move(o));
        }
        bool VisitVarDecl(VarDecl * v)
        {
            global_var(v);
            return true;
        }
        bool VisitTypeAliasDecl(TypeAliasDecl * t)
        {
            if (! wanted_file(file_of(t->getLocation())) || t->getDeclContext()->isDependentContext())
                return true;
            emit(json::Object{{"r", "alias"}, {"key", qname(t)}, {"file", file_of(t->getLocation())}, {"t", type_str(t->getUnderlyingType())}});
            return true;
        }
    };

    struct Consumer : ASTConsumer
    {
        // only declarations parsed in this unit, and of those only the ones in
        // the analysed root: system headers come from the precompiled header
        std::vector<Decl *> tops;
        bool HandleTopLevelDecl(DeclGroupRef g) override
        {
            for (auto d : g)
                tops.push_back(d);
            return true;
        }
        void HandleTranslationUnit(ASTContext & c) override
        {
            Exporter e(c);
            std::set<Decl *> seen;
            // Looking at one declaration can bring in more from the precompiled header, which are added to the end.
            for (std::size_t i = 0; i < tops.size(); ++i) {
                auto d = tops[i];
                if (d && e.in_root(d->getLocation()) && seen.insert(d).second)
                    e.TraverseDecl(d);
            }
            *out << "tu\t\t\t\t\t" << json::Value(json::Object{{"r", "tu"}, {"errors", c.getDiagnostics().hasErrorOccurred()}}) << "\n";
        }
    };
    struct Action : ASTFrontendAction
    {
        std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance & ci, StringRef) override
        {
            ci.getDiagnostics().setSuppressAllDiagnostics(false);
            return std::make_unique<Consumer>();
        }
        bool usesPreprocessorOnly() const override { return false; }
    };
}

int main(int argc, char ** argv)
{
    // export ROOT OUT SRC -- flags...
    if (argc < 5)
        return 3;
    root = argv[1];
    if (root.back() != '/')
        root += '/';
    out = std::make_unique<llvm::raw_fd_ostream>(argv[2], ec);
    if (ec)
        return 3;
    std::vector<string> flags;
    int i = 4;
    for (; i < argc; ++i)
        if (string(argv[i]) == "--") {
            ++i;
            break;
        }
    for (; i < argc; ++i)
        flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, {argv[3]});
    int r = tool.run(tooling::newFrontendActionFactory<Action>().get());
    out->flush();
    return r;
}
