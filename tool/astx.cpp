// astx: dumps the type-checked program (functions incl. template instantiations, records,
// enums, constants, control flow graphs) of one translation unit as JSON lines.
//
// usage: astx OUT.jsonl ROOT[:ROOT...] FILE -- CLANG-ARGS...
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/Attr.h>
#include <clang/AST/Mangle.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtCXX.h>
#include <clang/AST/ExprCXX.h>
#include <clang/Analysis/CFG.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Tooling/Tooling.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/JSON.h>
#include <set>
#include <map>
#include <unordered_map>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> g_roots;
static std::string g_out;

namespace {

struct Dumper {
    ASTContext& ctx;
    SourceManager& sm;
    llvm::raw_fd_ostream& os;
    PrintingPolicy pp;
    PrintingPolicy ppq;
    std::unique_ptr<MangleContext> mc;
    std::unordered_map<const void*, int> decl_ids;
    std::map<std::string, int> type_ids;
    std::vector<std::string> types;
    std::map<const FunctionDecl*, int> fn_ids;
    std::vector<const FunctionDecl*> fns;
    std::set<const Decl*> done, declared;
    std::vector<const FunctionDecl*> pending;

    Dumper(ASTContext& c, llvm::raw_fd_ostream& o)
        : ctx(c), sm(c.getSourceManager()), os(o), pp(c.getPrintingPolicy()), ppq(c.getPrintingPolicy())
    {
        pp.SuppressTagKeyword = true; pp.Bool = true; pp.AnonymousTagLocations = true;
        pp.SuppressUnwrittenScope = true;
        pp.AlwaysIncludeTypeForTemplateArgument = true;
        ppq = pp;
        mc.reset(ItaniumMangleContext::create(c, c.getDiagnostics()));
    }

    std::string rel(SourceLocation l)
    {
        l = sm.getExpansionLoc(l);
        auto f = sm.getFilename(l);
        return f.str();
    }
    int line(SourceLocation l) { return int(sm.getExpansionLineNumber(l)); }

    bool in_root(SourceLocation l)
    {
        if (l.isInvalid()) return false;
        std::string f = rel(l);
        for (auto& r : g_roots)
            if (f.compare(0, r.size(), r) == 0) return true;
        return false;
    }

    int did(const Decl* d)
    {
        if (!d) return -1;
        d = d->getCanonicalDecl();
        auto p = decl_ids.emplace(d, int(decl_ids.size()) + 1);
        return p.first->second;
    }
    // 1: copying the object copies its bits, 2: the destructor does something, 4: polymorphic, 8: the destructor is virtual or final
    std::vector<int> tflags;
    int tflag(QualType t)
    {
        t = t.getNonReferenceType().getCanonicalType();
        if (t->isDependentType() || t->isVoidType()) return 0;
        if (auto* r = ctx.getBaseElementType(t)->getAsCXXRecordDecl()) {
            r = r->getDefinition();
            if (!r || r->isInvalidDecl()) return 0;
            int f = 0;
            if (r->isTriviallyCopyable()) f |= 1;
            if (!r->hasTrivialDestructor()) f |= 2;
            if (r->isPolymorphic()) f |= 4;
            if (r->isEffectivelyFinal() || (r->getDestructor() && r->getDestructor()->isVirtual())) f |= 8;
            return f;
        }
        return 1;
    }
    int tid(QualType t)
    {
        if (t.isNull()) return -1;
        std::string s = t.getCanonicalType().getAsString(pp);
        auto p = type_ids.emplace(s, int(types.size()));
        if (p.second) { types.push_back(s); tflags.push_back(tflag(t)); }
        return p.first->second;
    }
    // Qualified name without template arguments
    std::string qn(const NamedDecl* d)
    {
        std::string s;
        std::vector<std::string> parts;
        const DeclContext* dc = d->getDeclContext();
        parts.push_back(nm(d));
        while (dc && !dc->isTranslationUnit()) {
            if (auto* ns = dyn_cast<NamespaceDecl>(dc)) {
                if (!ns->isInline()) parts.push_back(ns->isAnonymousNamespace() ? "(anon)" : ns->getNameAsString());
            }
            else if (auto* nd = dyn_cast<NamedDecl>(dc)) parts.push_back(nm(nd));
            dc = dc->getParent();
        }
        for (auto i = parts.rbegin(); i != parts.rend(); ++i) { if (!s.empty()) s += "::"; s += *i; }
        return s;
    }
    std::string nm(const NamedDecl* d)
    {
        if (auto* r = dyn_cast<CXXRecordDecl>(d)) {
            if (r->isLambda()) return "(lambda:" + std::to_string(line(r->getLocation())) + ")";
            if (!r->getIdentifier()) {
                if (auto* t = r->getTypedefNameForAnonDecl()) return t->getNameAsString();
                return "(anon:" + std::to_string(line(r->getLocation())) + ")";
            }
        }
        if (auto* c = dyn_cast<CXXConstructorDecl>(d)) return nm(c->getParent());
        if (auto* c = dyn_cast<CXXDestructorDecl>(d)) return "~" + nm(c->getParent());
        return d->getNameAsString();
    }
    std::string full(const NamedDecl* d)
    {
        std::string s; llvm::raw_string_ostream o(s);
        d->getNameForDiagnostic(o, ppq, true);
        return s;
    }
    std::string key(const FunctionDecl* f)
    {
        // unique across translation units
        f = f->getCanonicalDecl();
        std::string s; llvm::raw_string_ostream o(s);
        bool ok = false;
        if (!f->isDependentContext() && !isa<CXXDeductionGuideDecl>(f)) {
            if (mc->shouldMangleDeclName(f)) {
                if (auto* c = dyn_cast<CXXConstructorDecl>(f)) { mc->mangleName(GlobalDecl(c, Ctor_Complete), o); ok = true; }
                else if (auto* c = dyn_cast<CXXDestructorDecl>(f)) { mc->mangleName(GlobalDecl(c, Dtor_Complete), o); ok = true; }
                else { mc->mangleName(GlobalDecl(f), o); ok = true; }
            }
        }
        if (!ok) { o << f->getNameAsString(); }
        o.flush();
        // internal linkage or local: add the file
        if (f->getFormalLinkage() != Linkage::External)
            s += "@" + rel(f->getLocation()) + ":" + std::to_string(line(f->getLocation()));
        return s;
    }
    int fid(const FunctionDecl* f)
    {
        if (!f) return -1;
        f = f->getCanonicalDecl();
        auto p = fn_ids.emplace(f, int(fns.size()));
        if (p.second) fns.push_back(f);
        return p.first->second;
    }
    const FunctionDecl* pattern(const FunctionDecl* f)
    {
        const FunctionDecl* p = f->getTemplateInstantiationPattern();
        return p ? p : f;
    }
    bool is_noexcept(const FunctionDecl* f)
    {
        auto* t = f->getType()->getAs<FunctionProtoType>();
        if (!t) return false;
        auto est = t->getExceptionSpecType();
        if (est == EST_Unevaluated) {
            // implicit special member or destructor
            if (isa<CXXDestructorDecl>(f)) return true;
            return false;
        }
        if (est == EST_Uninstantiated || est == EST_Unparsed) {
            auto* t2 = pattern(f)->getType()->getAs<FunctionProtoType>();
            if (t2 && t2->getExceptionSpecType() == EST_BasicNoexcept) return true;
            return false;
        }
        return t->isNothrow();
    }

    json::Object fn_info(const FunctionDecl* f)
    {
        json::Object o;
        o["key"] = key(f);
        o["qn"] = qn(f);
        o["name"] = nm(f);
        o["full"] = full(f);
        const FunctionDecl* p = pattern(f);
        o["file"] = rel(p->getLocation());
        o["line"] = line(p->getLocation());
        json::Array ps;
        for (auto* q : f->parameters()) {
            json::Object po;
            po["id"] = did(q); po["n"] = q->getNameAsString(); po["t"] = tid(q->getType());
            ps.push_back(std::move(po));
        }
        o["params"] = std::move(ps);
        for (unsigned j = 0; j < p->getNumParams(); ++j) {
            if (p->getParamDecl(j)->isParameterPack()) { o["pack"] = int(j); break; }
        }
        o["ret"] = tid(f->getReturnType());
        if (is_noexcept(f)) o["noexcept"] = true;
        if (f->isNoReturn()) o["noreturn"] = true;
        if (f->isConstexpr()) o["constexpr"] = true;
        if (f->hasAttr<WarnUnusedResultAttr>()) o["nodiscard"] = true;
        if (f->isDeleted()) o["deleted"] = true;
        if (f->isDefaulted()) o["defaulted"] = true;
        if (f->isImplicit()) o["implicit"] = true;
        if (f->isExternC()) o["externc"] = true;
        if (f->isVariadic()) o["variadic"] = true;
        if (f->isStatic()) o["static"] = true;
        if (f->getBuiltinID()) o["builtin"] = true;
        if (f->isOverloadedOperator()) o["op"] = getOperatorSpelling(f->getOverloadedOperator());
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            o["cls"] = qn(m->getParent());
            o["clsfull"] = ctx.getRecordType(m->getParent()).getCanonicalType().getAsString(pp);
            o["access"] = int(m->getAccess());
            if (m->isConst()) o["const"] = true;
            if (m->isVirtual()) o["virtual"] = true;
            if (m->isPureVirtual()) o["pure"] = true;
            if (m->hasAttr<FinalAttr>() || m->getParent()->hasAttr<FinalAttr>()) o["final"] = true;
            if (m->getParent()->isLambda()) o["lambda"] = true;
            json::Array ov;
            for (auto* b : m->overridden_methods()) ov.push_back(fid(b));
            if (!ov.empty()) o["overrides"] = std::move(ov);
            if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
                o["kind"] = "ctor";
                if (c->isCopyConstructor()) o["special"] = "copyctor";
                else if (c->isMoveConstructor()) o["special"] = "movector";
                else if (c->isDefaultConstructor()) o["special"] = "defctor";
            }
            else if (isa<CXXDestructorDecl>(f)) o["kind"] = "dtor";
            else if (isa<CXXConversionDecl>(f)) o["kind"] = "conv";
            else if (m->isCopyAssignmentOperator()) o["special"] = "copyassign";
            else if (m->isMoveAssignmentOperator()) o["special"] = "moveassign";
            if (m->getRefQualifier() == RQ_RValue) o["rref"] = true;
        }
        return o;
    }

    // ---- expressions -------------------------------------------------------
    struct FnCtx {
        std::unordered_map<const Stmt*, int> ids;
        std::vector<json::Object> nodes;
    };
    FnCtx* fc = nullptr;

    static const Stmt* strip(const Stmt* s)
    {
        for (;;) {
            if (!s) return s;
            if (auto* e = dyn_cast<ParenExpr>(s)) { s = e->getSubExpr(); continue; }
            if (auto* e = dyn_cast<ExprWithCleanups>(s)) { s = e->getSubExpr(); continue; }
            if (auto* e = dyn_cast<MaterializeTemporaryExpr>(s)) { s = e->getSubExpr(); continue; }
            if (auto* e = dyn_cast<CXXBindTemporaryExpr>(s)) { s = e->getSubExpr(); continue; }
            if (auto* e = dyn_cast<ConstantExpr>(s)) { s = e->getSubExpr(); continue; }
            if (auto* e = dyn_cast<SubstNonTypeTemplateParmExpr>(s)) { s = e->getReplacement(); continue; }
            if (auto* e = dyn_cast<CXXDefaultArgExpr>(s)) { s = e->getExpr(); continue; }
            if (auto* e = dyn_cast<CXXDefaultInitExpr>(s)) { s = e->getExpr(); continue; }
            if (auto* e = dyn_cast<CXXStdInitializerListExpr>(s)) { s = e->getSubExpr(); continue; }
            if (auto* e = dyn_cast<CXXRewrittenBinaryOperator>(s)) { s = e->getSemanticForm(); continue; }
            if (auto* e = dyn_cast<AttributedStmt>(s)) { s = e->getSubStmt(); continue; }
            if (auto* e = dyn_cast<OpaqueValueExpr>(s)) { if (e->getSourceExpr()) { s = e->getSourceExpr(); continue; } }
            if (auto* e = dyn_cast<ImplicitCastExpr>(s)) {
                switch (e->getCastKind()) {
                    case CK_LValueToRValue: case CK_NoOp: case CK_FunctionToPointerDecay: case CK_ArrayToPointerDecay:
                    case CK_ConstructorConversion: case CK_DerivedToBase: case CK_UncheckedDerivedToBase:
                    case CK_UserDefinedConversion: case CK_BuiltinFnToFnPtr: case CK_BitCast:
                        s = e->getSubExpr(); continue;
                    default: return s;
                }
            }
            if (auto* e = dyn_cast<InitListExpr>(s)) {
                if (e->isSyntacticForm() && e->getSemanticForm() && e->getSemanticForm() != e) { s = e->getSemanticForm(); continue; }
            }
            return s;
        }
    }

    json::Value apv(const APValue& v, QualType t, int depth = 0)
    {
        if (depth > 6) return nullptr;
        switch (v.getKind()) {
            case APValue::Int: {
                llvm::SmallString<32> s; v.getInt().toString(s, 10); return json::Value(s.str().str());
            }
            case APValue::Float: {
                llvm::SmallString<32> s; v.getFloat().toString(s); return json::Value(s.str().str());
            }
            case APValue::Array: {
                json::Array a;
                unsigned n = v.getArraySize();
                if (n > 20000) return nullptr;
                QualType et;
                if (!t.isNull()) if (auto* at = ctx.getAsArrayType(t)) et = at->getElementType();
                for (unsigned i = 0; i < n; ++i) {
                    if (i < v.getArrayInitializedElts()) a.push_back(apv(v.getArrayInitializedElt(i), et, depth + 1));
                    else if (v.hasArrayFiller()) a.push_back(apv(v.getArrayFiller(), et, depth + 1));
                }
                return a;
            }
            case APValue::Struct: {
                json::Array a;
                for (unsigned i = 0; i < v.getStructNumBases(); ++i) a.push_back(apv(v.getStructBase(i), QualType(), depth + 1));
                const RecordDecl* rd = t.isNull() ? nullptr : t->getAsRecordDecl();
                std::vector<QualType> fts;
                if (rd) for (auto* f : rd->fields()) fts.push_back(f->getType());
                for (unsigned i = 0; i < v.getStructNumFields(); ++i)
                    a.push_back(apv(v.getStructField(i), i < fts.size() ? fts[i] : QualType(), depth + 1));
                return a;
            }
            case APValue::LValue: {
                if (v.isNullPointer()) return json::Value("null");
                if (auto* e = v.getLValueBase().dyn_cast<const Expr*>()) {
                    if (auto* sl = dyn_cast<StringLiteral>(e)) {
                        if (sl->getCharByteWidth() == 1) return json::Value("\"" + json::fixUTF8(sl->getString()));
                        return json::Value("\"<wide>");
                    }
                }
                if (auto* d = v.getLValueBase().dyn_cast<const ValueDecl*>()) return json::Value("&" + qn(d));
                return json::Value("<lvalue>");
            }
            default: return nullptr;
        }
    }

    int dump(const Stmt* s0)
    {
        const Stmt* s = strip(s0);
        if (!s) return -1;
        auto it = fc->ids.find(s);
        if (it != fc->ids.end()) return it->second;
        int id = int(fc->nodes.size());
        fc->ids[s] = id;
        fc->nodes.emplace_back();
        json::Object o;
        json::Array ch;
        o["k"] = s->getStmtClassName();
        o["l"] = line(s->getBeginLoc());
        if (sm.isMacroBodyExpansion(s->getBeginLoc()) || s->getBeginLoc().isMacroID()) {
            SourceLocation l = s->getBeginLoc();
            // outermost macro name
            llvm::StringRef mname = Lexer::getImmediateMacroName(l, sm, ctx.getLangOpts());
            SourceLocation cur = l;
            for (int guard = 0; cur.isMacroID() && guard < 20; ++guard) {
                mname = Lexer::getImmediateMacroName(cur, sm, ctx.getLangOpts());
                SourceLocation nxt = sm.isMacroArgExpansion(cur) ? sm.getImmediateMacroCallerLoc(cur) : sm.getImmediateExpansionRange(cur).getBegin();
                if (nxt == cur) break;
                cur = nxt;
            }
            if (!mname.empty()) o["mac"] = mname.str();
        }
        if (auto* e = dyn_cast<Expr>(s)) {
            o["t"] = tid(e->getType());
            if (e->isLValue()) o["lv"] = true;
            if (!e->isValueDependent() && !e->isTypeDependent() && e->getType()->isIntegralOrEnumerationType() && !isa<InitListExpr>(e)) {
                Expr::EvalResult r;
                if (e->EvaluateAsInt(r, ctx, Expr::SE_NoSideEffects) && r.Val.isInt()) {
                    llvm::SmallString<32> sv; r.Val.getInt().toString(sv, 10);
                    o["v"] = sv.str().str();
                }
            }
            else if (!e->isValueDependent() && !e->isTypeDependent() && e->getType()->isPointerType()) {
                if (e->isNullPointerConstant(ctx, Expr::NPC_ValueDependentIsNotNull)) o["null"] = true;
            }
        }
        auto add = [&](const Stmt* c) { ch.push_back(dump(c)); };
        auto addv = [&](const VarDecl* v) {
            json::Object d;
            d["id"] = did(v); d["n"] = v->getNameAsString(); d["t"] = tid(v->getType());
            if (v->isStaticLocal()) d["static"] = true;
            if (v->getType()->isReferenceType()) d["ref"] = true;
            if (v->isConstexpr()) d["constexpr"] = true;
            if (v->hasInit()) d["init"] = dump(v->getInit()); 
            if (v->hasInit() && v->getType()->isRecordType()) {
                // default-constructed scalar struct?
                if (auto* ce = dyn_cast<CXXConstructExpr>(strip(v->getInit()))) { if (ce->getConstructor()->isTrivial() && ce->getNumArgs() == 0) d["trivinit"] = true; }
            }
            if (auto* dd = dyn_cast<DecompositionDecl>(v)) {
                json::Array bs;
                for (auto* b : dd->bindings()) { json::Object bo; bo["id"] = did(b); bo["n"] = b->getNameAsString(); if (b->getBinding()) bo["b"] = dump(b->getBinding()); bs.push_back(std::move(bo)); }
                d["bindings"] = std::move(bs);
            }
            return d;
        };
        auto addcall = [&](const FunctionDecl* f) { if (f) o["fn"] = fid(f); };

        if (auto* e = dyn_cast<DeclRefExpr>(s)) {
            const ValueDecl* d = e->getDecl();
            o["d"] = did(d);
            o["n"] = d->getNameAsString();
            if (auto* f = dyn_cast<FunctionDecl>(d)) { o["dk"] = "func"; o["fn"] = fid(f); }
            else if (auto* p = dyn_cast<ParmVarDecl>(d)) { o["dk"] = "parm"; (void)p; }
            else if (auto* v = dyn_cast<VarDecl>(d)) {
                o["dk"] = v->isLocalVarDecl() ? "local" : "global";
                if (v->isStaticLocal()) o["dk"] = "static";
                if (!v->isLocalVarDecl()) o["qn"] = qn(v);
                if (v->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
                if (v->getType().isConstQualified()) o["const"] = true;
            }
            else if (isa<EnumConstantDecl>(d)) { o["dk"] = "enum"; o["qn"] = qn(d); }
            else if (auto* b = dyn_cast<BindingDecl>(d)) { o["dk"] = "binding"; (void)b; }
            else o["dk"] = d->getDeclKindName();
            if (e->refersToEnclosingVariableOrCapture()) o["cap"] = true;
        }
        else if (auto* e = dyn_cast<MemberExpr>(s)) {
            const ValueDecl* d = e->getMemberDecl();
            o["n"] = nm(d);
            if (auto* f = dyn_cast<FunctionDecl>(d)) { o["fn"] = fid(f); o["dk"] = "method"; }
            else { o["d"] = did(d); o["qn"] = qn(d); o["dk"] = isa<FieldDecl>(d) ? "field" : "staticmember"; }
            if (e->isArrow()) o["arrow"] = true;
            add(e->getBase());
        }
        else if (auto* e = dyn_cast<CXXThisExpr>(s)) { if (e->isImplicit()) o["impl"] = true; }
        else if (auto* e = dyn_cast<CXXOperatorCallExpr>(s)) {
            addcall(e->getDirectCallee());
            o["op"] = getOperatorSpelling(e->getOperator());
            const FunctionDecl* f = e->getDirectCallee();
            unsigned i = 0;
            if (f && isa<CXXMethodDecl>(f) && !cast<CXXMethodDecl>(f)->isStatic() && e->getNumArgs() > 0) { o["obj"] = dump(e->getArg(0)); i = 1; }
            json::Array a;
            for (; i < e->getNumArgs(); ++i) a.push_back(dump(e->getArg(i)));
            o["args"] = std::move(a);
            for (auto* c : e->children()) add(c);
        }
        else if (auto* e = dyn_cast<CallExpr>(s)) {
            const FunctionDecl* f = e->getDirectCallee();
            addcall(f);
            if (auto* m = dyn_cast<CXXMemberCallExpr>(e)) {
                if (auto* io = m->getImplicitObjectArgument()) o["obj"] = dump(io);
                if (auto* me = dyn_cast<MemberExpr>(e->getCallee()->IgnoreParenImpCasts()))
                    if (me->hasQualifier()) o["qual"] = true;
            }
            json::Array a;
            for (auto* x : e->arguments()) a.push_back(dump(x));
            o["args"] = std::move(a);
            add(e->getCallee());
            for (auto* x : e->arguments()) add(x);
            if (e->hasUnusedResultAttr(ctx)) o["nodiscard"] = true;
        }
        else if (auto* e = dyn_cast<CXXConstructExpr>(s)) {
            addcall(e->getConstructor());
            if (e->isElidable()) o["elide"] = true;
            if (e->isListInitialization()) o["list"] = true;
            json::Array a;
            for (auto* x : e->arguments()) { a.push_back(dump(x)); add(x); }
            o["args"] = std::move(a);
        }
        else if (auto* e = dyn_cast<CXXInheritedCtorInitExpr>(s)) { addcall(e->getConstructor()); }
        else if (auto* e = dyn_cast<IntegerLiteral>(s)) { (void)e; }
        else if (auto* e = dyn_cast<StringLiteral>(s)) {
            if (e->getCharByteWidth() == 1) o["s"] = json::fixUTF8(e->getString());
            else { std::string z; for (unsigned i = 0; i < e->getLength(); ++i) { auto c = e->getCodeUnit(i); z += c < 128 ? char(c) : '?'; } o["s"] = z; }
        }
        else if (auto* e = dyn_cast<BinaryOperator>(s)) {
            o["op"] = e->getOpcodeStr().str();
            if (auto* ca = dyn_cast<CompoundAssignOperator>(s)) o["ct"] = tid(ca->getComputationResultType());
            add(e->getLHS()); add(e->getRHS());
        }
        else if (auto* e = dyn_cast<UnaryOperator>(s)) {
            o["op"] = UnaryOperator::getOpcodeStr(e->getOpcode()).str();
            if (e->isPostfix()) o["post"] = true;
            add(e->getSubExpr());
        }
        else if (auto* e = dyn_cast<CastExpr>(s)) {
            o["ck"] = e->getCastKindName();
            if (isa<ImplicitCastExpr>(e)) o["impl"] = true;
            add(e->getSubExpr());
            if (auto* fn = e->getConversionFunction()) addcall(dyn_cast<FunctionDecl>(fn));
        }
        else if (auto* d = dyn_cast<DeclStmt>(s)) {
            json::Array ds;
            for (auto* x : d->decls()) {
                if (auto* v = dyn_cast<VarDecl>(x)) {
                    json::Object vo = addv(v);
                    if (auto* i = vo.get("init")) ch.push_back(*i);
                    ds.push_back(std::move(vo));
                }
            }
            o["decls"] = std::move(ds);
        }
        else if (auto* r = dyn_cast<ReturnStmt>(s)) { if (r->getRetValue()) add(r->getRetValue()); }
        else if (auto* i = dyn_cast<IfStmt>(s)) {
            if (i->isConstexpr()) o["cx"] = true;
            if (i->getInit()) o["initst"] = dump(i->getInit());
            if (i->getConditionVariableDeclStmt()) o["condvar"] = dump(i->getConditionVariableDeclStmt());
            o["cond"] = dump(i->getCond()); o["then"] = dump(i->getThen());
            if (i->getElse()) o["else"] = dump(i->getElse());
            for (auto* c : i->children()) if (c) add(c);
        }
        else if (auto* w = dyn_cast<WhileStmt>(s)) {
            if (w->getConditionVariableDeclStmt()) o["condvar"] = dump(w->getConditionVariableDeclStmt());
            o["cond"] = dump(w->getCond()); o["body"] = dump(w->getBody()); for (auto* c : w->children()) if (c) add(c); }
        else if (auto* w = dyn_cast<DoStmt>(s)) { o["cond"] = dump(w->getCond()); o["body"] = dump(w->getBody()); for (auto* c : w->children()) if (c) add(c); }
        else if (auto* w = dyn_cast<ForStmt>(s)) {
            if (w->getInit()) o["init"] = dump(w->getInit());
            if (w->getCond()) o["cond"] = dump(w->getCond());
            if (w->getInc()) o["inc"] = dump(w->getInc());
            o["body"] = dump(w->getBody()); for (auto* c : w->children()) if (c) add(c);
        }
        else if (auto* w = dyn_cast<CXXForRangeStmt>(s)) {
            o["range"] = dump(w->getRangeStmt()); o["var"] = did(w->getLoopVariable());
            o["loopvar"] = dump(w->getLoopVarStmt());
            o["cond"] = dump(w->getCond()); o["inc"] = dump(w->getInc()); o["body"] = dump(w->getBody());
            for (auto* c : w->children()) if (c) add(c);
        }
        else if (auto* w = dyn_cast<SwitchStmt>(s)) {
            o["cond"] = dump(w->getCond()); o["body"] = dump(w->getBody());
            o["ct"] = tid(w->getCond()->IgnoreParenImpCasts()->getType());
            for (auto* c : w->children()) if (c) add(c);
        }
        else if (auto* c = dyn_cast<CaseStmt>(s)) {
            Expr::EvalResult r;
            if (!c->getLHS()->isValueDependent() && c->getLHS()->EvaluateAsInt(r, ctx)) { llvm::SmallString<32> sv; r.Val.getInt().toString(sv, 10); o["cv"] = sv.str().str(); }
            const Expr* lhs = c->getLHS()->IgnoreParenImpCasts();
            SourceLocation cl = lhs->getBeginLoc();
            if (auto* dr = dyn_cast<DeclRefExpr>(lhs)) o["cn"] = dr->getDecl()->getNameAsString();
            else if (cl.isMacroID()) {
                std::string mname;
                for (int guard = 0; cl.isMacroID() && guard < 20; ++guard) {
                    mname = Lexer::getImmediateMacroName(cl, sm, ctx.getLangOpts()).str();
                    SourceLocation nxt = sm.isMacroArgExpansion(cl) ? sm.getImmediateMacroCallerLoc(cl) : sm.getImmediateExpansionRange(cl).getBegin();
                    if (nxt == cl) break;
                    cl = nxt;
                }
                if (!mname.empty()) o["cn"] = mname;
            }
            add(c->getSubStmt());
        }
        else if (auto* c = dyn_cast<CXXTryStmt>(s)) {
            add(c->getTryBlock());
            for (unsigned i = 0; i < c->getNumHandlers(); ++i) add(c->getHandler(i));
        }
        else if (auto* c = dyn_cast<CXXCatchStmt>(s)) {
            if (c->getExceptionDecl()) { o["ct"] = tid(c->getCaughtType()); o["var"] = did(c->getExceptionDecl()); }
            else o["all"] = true;
            add(c->getHandlerBlock());
        }
        else if (auto* e = dyn_cast<CXXThrowExpr>(s)) { if (e->getSubExpr()) add(e->getSubExpr()); }
        else if (auto* e = dyn_cast<LambdaExpr>(s)) {
            const CXXMethodDecl* op = e->getCallOperator();
            if (auto* ft = op->getDescribedFunctionTemplate()) {
                json::Array sp;
                for (auto* x : ft->specializations()) { sp.push_back(fid(x)); pending.push_back(x); }
                o["gspecs"] = std::move(sp);
            }
            else { o["fn"] = fid(op); pending.push_back(op); }
            json::Array cs;
            auto ii = e->capture_init_begin();
            for (auto& c : e->captures()) {
                json::Object co;
                if (c.capturesVariable()) { co["id"] = did(c.getCapturedVar()); co["n"] = c.getCapturedVar()->getNameAsString(); }
                else if (c.capturesThis()) co["this"] = true;
                if (c.getCaptureKind() == LCK_ByRef || c.getCaptureKind() == LCK_This) co["ref"] = true;
                if (*ii) { int x = dump(*ii); co["init"] = x; ch.push_back(x); }
                ++ii;
                cs.push_back(std::move(co));
            }
            o["caps"] = std::move(cs);
        }
        else if (auto* e = dyn_cast<CXXNewExpr>(s)) {
            addcall(e->getOperatorNew());
            if (e->getInitializer()) o["init"] = dump(e->getInitializer());
            if (e->isArray()) { o["array"] = true; if (e->getArraySize() && *e->getArraySize()) o["size"] = dump(*e->getArraySize()); }
            json::Array a;
            for (unsigned i = 0; i < e->getNumPlacementArgs(); ++i) a.push_back(dump(e->getPlacementArg(i)));
            o["place"] = std::move(a);
            o["at"] = tid(e->getAllocatedType());
            for (auto* c : e->children()) if (c) add(c);
            if (e->getInitializer()) add(e->getInitializer());
        }
        else if (auto* e = dyn_cast<CXXDeleteExpr>(s)) {
            if (e->isArrayForm()) o["array"] = true;
            add(e->getArgument());
        }
        else if (auto* e = dyn_cast<InitListExpr>(s)) {
            for (auto* c : e->inits()) add(c);
            if (e->getArrayFiller()) o["filler"] = dump(e->getArrayFiller());
        }
        else if (auto* e = dyn_cast<UnaryExprOrTypeTraitExpr>(s)) {
            o["tr"] = int(e->getKind());
        }
        else if (auto* e = dyn_cast<CXXPseudoDestructorExpr>(s)) { add(e->getBase()); }
        else if (auto* e = dyn_cast<ConditionalOperator>(s)) { add(e->getCond()); add(e->getTrueExpr()); add(e->getFalseExpr()); }
        else {
            for (auto* c : s->children()) if (c) add(c);
        }
        if (!ch.empty()) o["c"] = std::move(ch);
        fc->nodes[id] = std::move(o);
        return id;
    }

    json::Value dump_cfg(const FunctionDecl* f, Stmt* body)
    {
        CFG::BuildOptions bo;
        bo.setAllAlwaysAdd();
        bo.AddImplicitDtors = true;
        bo.AddInitializers = true;
        bo.AddEHEdges = false;
        bo.AddTemporaryDtors = false;
        bo.PruneTriviallyFalseEdges = true;
        std::unique_ptr<CFG> cfg = CFG::buildCFG(f, body, &ctx, bo);
        if (!cfg) return nullptr;
        json::Object res;
        res["entry"] = int(cfg->getEntry().getBlockID());
        res["exit"] = int(cfg->getExit().getBlockID());
        json::Array blocks;
        for (const CFGBlock* b : *cfg) {
            json::Object bo2;
            bo2["id"] = int(b->getBlockID());
            json::Array els;
            for (const CFGElement& el : *b) {
                if (auto st = el.getAs<CFGStmt>()) {
                    const Stmt* s = st->getStmt();
                    const Stmt* s2 = strip(s);
                    if (s2 != s && isa<Expr>(s)) continue; // stripped wrapper: underlying element already listed
                    els.push_back(dump(s));
                }
                else if (auto ad = el.getAs<CFGAutomaticObjDtor>()) {
                    json::Object d; d["dtor"] = did(ad->getVarDecl()); d["t"] = tid(ad->getVarDecl()->getType());
                    d["n"] = ad->getVarDecl()->getNameAsString();
                    QualType ty = ctx.getBaseElementType(ad->getVarDecl()->getType());
                    if (ty->isReferenceType()) ty = ty->getPointeeType();
                    if (auto* rd = ty->getAsCXXRecordDecl()) if (auto* dd = rd->getDestructor()) d["fn"] = fid(dd);
                    els.push_back(std::move(d));
                }
                else if (auto in = el.getAs<CFGInitializer>()) {
                    json::Object d; const CXXCtorInitializer* ci = in->getInitializer();
                    if (ci->isAnyMemberInitializer()) { d["init"] = ci->getAnyMember()->getNameAsString(); d["qn"] = qn(ci->getAnyMember()); d["d"] = did(ci->getAnyMember()); }
                    else if (ci->isBaseInitializer()) d["base"] = tid(QualType(ci->getBaseClass(), 0));
                    else d["deleg"] = true;
                    d["e"] = dump(ci->getInit());
                    if (ci->isWritten()) d["written"] = true;
                    els.push_back(std::move(d));
                }
                else if (auto md = el.getAs<CFGMemberDtor>()) { json::Object d; d["mdtor"] = md->getFieldDecl()->getNameAsString(); els.push_back(std::move(d)); }
                else if (auto dd = el.getAs<CFGDeleteDtor>()) { json::Object d; d["deldtor"] = dump(dd->getDeleteExpr()); els.push_back(std::move(d)); }
            }
            bo2["e"] = std::move(els);
            if (const Stmt* l = b->getLabel()) {
                json::Object lo;
                lo["k"] = l->getStmtClassName();
                if (auto* c = dyn_cast<CaseStmt>(l)) {
                    Expr::EvalResult r;
                    if (!c->getLHS()->isValueDependent() && c->getLHS()->EvaluateAsInt(r, ctx)) { llvm::SmallString<32> sv; r.Val.getInt().toString(sv, 10); lo["v"] = sv.str().str(); }
                }
                if (auto* c = dyn_cast<CXXCatchStmt>(l)) { lo["n"] = dump(c); }
                if (auto* c = dyn_cast<LabelStmt>(l)) lo["name"] = c->getName();
                bo2["label"] = std::move(lo);
            }
            CFGTerminator t = b->getTerminator();
            if (t.isValid() && t.getStmt()) {
                json::Object to;
                to["k"] = t.getStmt()->getStmtClassName();
                to["n"] = dump(t.getStmt());
                if (auto* bi = dyn_cast<BinaryOperator>(t.getStmt())) to["op"] = bi->getOpcodeStr().str();
                if (const Stmt* c = b->getTerminatorCondition()) to["c"] = dump(c);
                bo2["term"] = std::move(to);
            }
            json::Array succ;
            for (auto i = b->succ_begin(); i != b->succ_end(); ++i) {
                const CFGBlock* sb = *i;
                if (sb) succ.push_back(int(sb->getBlockID()));
                else succ.push_back(-1);
            }
            bo2["s"] = std::move(succ);
            if (b->hasNoReturnElement()) bo2["noret"] = true;
            blocks.push_back(std::move(bo2));
        }
        res["b"] = std::move(blocks);
        json::Array trys;
        for (auto i = cfg->try_blocks_begin(); i != cfg->try_blocks_end(); ++i) trys.push_back(int((*i)->getBlockID()));
        res["try"] = std::move(trys);
        return res;
    }

    void emit(json::Object o) { os << json::Value(std::move(o)) << "\n"; }

    void func(const FunctionDecl* f)
    {
        const FunctionDecl* def = nullptr;
        if (!f->hasBody(def) || !def) {
            if (f->isDefaulted()) {}
            return;
        }
        if (def->isDependentContext()) return;
        if (!done.insert(def->getCanonicalDecl()).second) return;
        if (!in_root(pattern(def)->getLocation())) return;
        if (def->isImplicit() && !isa<CXXConstructorDecl>(def) && !def->isDefaulted()) {
            if (!(isa<CXXMethodDecl>(def) && cast<CXXMethodDecl>(def)->getParent()->isLambda())) return;
        }
        FnCtx c; FnCtx* old = fc; fc = &c;
        json::Object o = fn_info(def);
        // parameters as used in the definition
        {
            json::Array ps;
            auto* pat = pattern(def);
            bool pk = false;
            for (unsigned j = 0; j < def->getNumParams(); ++j) {
                auto* q = def->getParamDecl(j);
                json::Object po;
                po["id"] = did(q); po["n"] = q->getNameAsString(); po["t"] = tid(q->getType());
                if (!pk && j < pat->getNumParams() && pat->getParamDecl(j)->isParameterPack()) pk = true;
                unsigned pj = pk ? std::min(j, pat->getNumParams() - 1) : j;
                if (pj < pat->getNumParams()) {
                    // forwarding reference: `T&&` where T is a parameter of the function template itself
                    QualType pt = pat->getParamDecl(pj)->getType();
                    if (auto* pe = pt->getAs<PackExpansionType>()) pt = pe->getPattern();
                    if (auto* rr = pt->getAs<RValueReferenceType>()) {
                        auto* tp = rr->getPointeeType()->getAs<TemplateTypeParmType>();
                        if (tp && !rr->getPointeeType().isConstQualified()) {
                            auto* ft = pat->getDescribedFunctionTemplate();
                            if (ft && ft->getTemplateParameters()->getDepth() == tp->getDepth()) po["fwd"] = true;
                        }
                    }
                }
                ps.push_back(std::move(po));
            }
            o["params"] = std::move(ps);
            o["dfile"] = rel(pattern(def)->getLocation());
            o["dline"] = line(pattern(def)->getLocation());
        }
        o["rec"] = "func";
        o["fid"] = fid(def);
        if (def->isTemplateInstantiation()) o["inst"] = true;
        if (def->getTemplatedKind() != FunctionDecl::TK_NonTemplate || (isa<CXXMethodDecl>(def) && isa<ClassTemplateSpecializationDecl>(cast<CXXMethodDecl>(def)->getParent()))) o["tmpl"] = true;
        Stmt* body = def->getBody();
        o["root"] = dump(body);
        if (auto* ct = dyn_cast<CXXConstructorDecl>(def)) {
            json::Array ins;
            for (auto* ci : ct->inits()) {
                json::Object d;
                if (ci->isAnyMemberInitializer()) { d["init"] = ci->getAnyMember()->getNameAsString(); d["d"] = did(ci->getAnyMember()); }
                else if (ci->isBaseInitializer()) d["base"] = tid(QualType(ci->getBaseClass(), 0));
                else d["deleg"] = true;
                d["e"] = dump(ci->getInit());
                if (ci->isWritten()) d["written"] = true;
                if (isa<CXXDefaultInitExpr>(ci->getInit())) d["dflt"] = true;
                ins.push_back(std::move(d));
            }
            o["inits"] = std::move(ins);
        }
        o["cfg"] = dump_cfg(def, body);
        json::Array ns;
        for (auto& n : c.nodes) ns.push_back(std::move(n));
        o["nodes"] = std::move(ns);
        fc = old;
        emit(std::move(o));
        while (!pending.empty()) { auto* p = pending.back(); pending.pop_back(); func(p); }
    }

    // every declared function, templates included
    void decl(const FunctionDecl* f)
    {
        f = f->getCanonicalDecl();
        if (f->isImplicit() || f->getTemplateInstantiationPattern() || f->isTemplateInstantiation()) return;
        if (!declared.insert(f).second) return;
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            if (m->getParent()->isLambda()) return;
            if (m->getParent()->isLocalClass()) return;
            if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(m->getParent())) if (sp->getSpecializationKind() != TSK_ExplicitSpecialization && sp->getSpecializationKind() != TSK_Undeclared) return;
        }
        if (f->getParentFunctionOrMethod()) return;
        for (const DeclContext* dc = f->getDeclContext(); dc; dc = dc->getParent())
            if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(dc)) { if (!isa<ClassTemplatePartialSpecializationDecl>(sp) && sp->getSpecializationKind() != TSK_ExplicitSpecialization) return; }
        if (isa<CXXDeductionGuideDecl>(f)) return;
        if (!in_root(f->getLocation())) return;
        json::Object o;
        o["rec"] = "decl"; o["qn"] = qn(f); o["sig"] = f->getType().getCanonicalType().getAsString(pp);
        if (!f->isDependentContext() && !f->getDescribedFunctionTemplate() && !f->getType()->isUndeducedType()) o["key"] = key(f);
        o["file"] = rel(f->getLocation()); o["line"] = line(f->getLocation());
        if (f->isDefined()) o["def"] = true;
        if (f->isDeleted()) o["deleted"] = true;
        if (f->isDefaulted()) o["defaulted"] = true;
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) { if (m->isPureVirtual()) o["pure"] = true; o["access"] = int(m->getAccess()); }
        if (f->getDescribedFunctionTemplate()) o["ftmpl"] = true;
        if (f->isDependentContext()) o["dep"] = true;
        if (f->getFriendObjectKind() != Decl::FOK_None) o["friend"] = true;
        const FunctionDecl* def = nullptr;
        if (f->isDefined(def) && def && def->doesThisDeclarationHaveABody() && !def->isDefaulted() && !def->isDeleted()) {
            json::Array ps;
            for (auto* q : def->parameters()) if (!q->getName().empty() && !q->isReferenced() && !q->isUsed() && !q->hasAttr<UnusedAttr>()) ps.push_back(q->getNameAsString());
            o["nparams"] = int(def->getNumParams());
            o["defline"] = line(def->getLocation()); o["deffile"] = rel(def->getLocation());
            if (!ps.empty()) o["unused"] = std::move(ps);
        }
        emit(std::move(o));
        if (auto* ft = f->getDescribedFunctionTemplate()) tmpl(ft, ft->getTemplateParameters(), f, def ? def : f);
    }

    // template parameters that nothing refers to
    struct RefFinder : RecursiveASTVisitor<RefFinder> {
        std::set<std::pair<unsigned, unsigned>> used;
        bool VisitTemplateTypeParmType(TemplateTypeParmType* t) { used.insert({ t->getDepth(), t->getIndex() }); return true; }
        bool VisitTemplateTypeParmTypeLoc(TemplateTypeParmTypeLoc t) { used.insert({ t.getTypePtr()->getDepth(), t.getTypePtr()->getIndex() }); return true; }
        bool VisitDeclRefExpr(DeclRefExpr* e) { if (auto* p = dyn_cast<NonTypeTemplateParmDecl>(e->getDecl())) used.insert({ p->getDepth(), p->getIndex() }); return true; }
        bool VisitSizeOfPackExpr(SizeOfPackExpr* e)
        {
            if (auto* p = dyn_cast<NonTypeTemplateParmDecl>(e->getPack())) used.insert({ p->getDepth(), p->getIndex() });
            if (auto* p = dyn_cast<TemplateTypeParmDecl>(e->getPack())) used.insert({ p->getDepth(), p->getIndex() });
            return true;
        }
        bool TraverseTemplateName(TemplateName n)
        {
            if (auto* t = n.getAsTemplateDecl()) if (auto* p = dyn_cast<TemplateTemplateParmDecl>(t)) used.insert({ p->getDepth(), p->getIndex() });
            return RecursiveASTVisitor::TraverseTemplateName(n);
        }
        bool VisitConceptSpecializationExpr(ConceptSpecializationExpr*) { return true; }
    };
    void tmpl(const TemplateDecl* t, const TemplateParameterList* tp, const Decl* d1, const Decl* d2)
    {
        if (!in_root(t->getLocation())) return;
        RefFinder rf;
        rf.TraverseDecl(const_cast<Decl*>(d1));
        if (d2 != d1) rf.TraverseDecl(const_cast<Decl*>(d2));
        if (auto* r = dyn_cast<CXXRecordDecl>(d1))
            for (auto* x : r->decls()) {
                if (auto* ft = dyn_cast<FunctionTemplateDecl>(x)) x = ft->getTemplatedDecl();
                if (auto* m = dyn_cast<FunctionDecl>(x)) { const FunctionDecl* def = nullptr; if (m->isDefined(def) && def) rf.TraverseDecl(const_cast<FunctionDecl*>(def)); }
            }
        // default arguments and constraints of later parameters
        for (auto* p : *tp) {
            if (auto* x = dyn_cast<TemplateTypeParmDecl>(p)) { if (x->hasDefaultArgument()) rf.TraverseType(x->getDefaultArgument()); if (auto* tc = x->getTypeConstraint()) if (tc->getImmediatelyDeclaredConstraint()) rf.used.insert({ x->getDepth(), x->getIndex() }); }
            if (auto* x = dyn_cast<NonTypeTemplateParmDecl>(p)) { rf.TraverseType(x->getType()); if (x->hasDefaultArgument()) rf.TraverseStmt(x->getDefaultArgument()); }
        }
        if (auto* rc = tp->getRequiresClause()) rf.TraverseStmt(const_cast<Expr*>(rc));
        json::Object o; o["rec"] = "tmpl"; o["qn"] = qn(t); o["file"] = rel(t->getLocation()); o["line"] = line(t->getLocation());
        o["n"] = int(tp->size());
        o["kind"] = isa<CXXRecordDecl>(d1) ? "class" : isa<FunctionDecl>(d1) ? "function" : "alias";
        if (auto* ct = dyn_cast<ClassTemplateDecl>(t)) {
            llvm::SmallVector<ClassTemplatePartialSpecializationDecl*, 4> ps;
            const_cast<ClassTemplateDecl*>(ct)->getPartialSpecializations(ps);
            bool sp = !ps.empty();
            for (auto* x : ct->specializations()) if (x->getSpecializationKind() == TSK_ExplicitSpecialization) sp = true;
            if (sp) o["spec"] = true;
            int nm = 0;
            for (auto* x : ct->getTemplatedDecl()->decls()) if (isa<FunctionDecl>(x) || isa<FunctionTemplateDecl>(x)) { if (!x->isImplicit()) ++nm; }
            o["methods"] = nm;
        }
        else if (auto* fd = dyn_cast<FunctionDecl>(d2); fd && !fd->doesThisDeclarationHaveABody()) o["nodef"] = true;
        json::Array u;
        for (auto* p : *tp) {
            unsigned dp = 0, ix = 0;
            if (auto* x = dyn_cast<TemplateTypeParmDecl>(p)) { dp = x->getDepth(); ix = x->getIndex(); }
            else if (auto* x = dyn_cast<NonTypeTemplateParmDecl>(p)) { dp = x->getDepth(); ix = x->getIndex(); }
            else if (auto* x = dyn_cast<TemplateTemplateParmDecl>(p)) { dp = x->getDepth(); ix = x->getIndex(); }
            if (!p->getName().empty() && !rf.used.count({ dp, ix })) u.push_back(p->getNameAsString());
        }
        if (!u.empty()) o["unused"] = std::move(u);
        emit(std::move(o));
    }

    void record(const CXXRecordDecl* r)
    {
        if (!r->isThisDeclarationADefinition() || r->isDependentContext() || !r->isCompleteDefinition()) return;
        if (!done.insert(r).second) return;
        SourceLocation l = r->getLocation();
        if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(r)) {
            auto p = sp->getSpecializedTemplateOrPartial();
            if (auto* ct = p.dyn_cast<ClassTemplateDecl*>()) l = ct->getTemplatedDecl()->getLocation();
            else if (auto* cp = p.dyn_cast<ClassTemplatePartialSpecializationDecl*>()) l = cp->getLocation();
        }
        if (!in_root(l)) return;
        FnCtx c; FnCtx* old = fc; fc = &c;
        json::Object o;
        o["rec"] = "record";
        o["qn"] = qn(r);
        o["full"] = ctx.getRecordType(r).getCanonicalType().getAsString(pp);
        o["file"] = rel(l); o["line"] = line(l);
        if (r->isLambda()) o["lambda"] = true;
        if (r->isUnion()) o["union"] = true;
        if (r->isAbstract()) o["abstract"] = true;
        if (r->isPolymorphic()) o["poly"] = true;
        if (r->isEffectivelyFinal()) o["final"] = true;
        if (r->isAggregate()) o["aggregate"] = true;
        json::Array fs;
        for (auto* f : r->fields()) {
            json::Object d;
            d["n"] = f->getNameAsString(); d["t"] = tid(f->getType()); d["d"] = did(f); d["l"] = line(f->getLocation());
            if (f->hasInClassInitializer()) { d["init"] = true; if (f->getInClassInitializer()) d["ie"] = dump(f->getInClassInitializer()); }
            if (f->isMutable()) d["mutable"] = true;
            if (f->isBitField()) d["bits"] = true;
            d["access"] = int(f->getAccess());
            QualType bt = ctx.getBaseElementType(f->getType());
            if (bt->isScalarType()) d["scalar"] = true;
            if (bt->isReferenceType()) d["ref"] = true;
            if (f->getType().isConstQualified()) d["const"] = true;
            if (auto* rr = bt->getAsCXXRecordDecl()) { d["rq"] = qn(rr); if (rr->hasDefinition()) { d["trivdef"] = rr->hasTrivialDefaultConstructor(); d["empty"] = rr->isEmpty(); } }
            fs.push_back(std::move(d));
        }
        o["fields"] = std::move(fs);
        json::Array bs;
        for (auto& b : r->bases()) {
            json::Object d; d["t"] = tid(b.getType());
            if (auto* br = b.getType()->getAsCXXRecordDecl()) { d["qn"] = qn(br); }
            if (b.isVirtual()) d["virtual"] = true;
            d["access"] = int(b.getAccessSpecifier());
            bs.push_back(std::move(d));
        }
        o["bases"] = std::move(bs);
        json::Array ms;
        for (auto* m : r->methods()) ms.push_back(fid(m));
        for (auto* d : r->decls()) if (auto* ft = dyn_cast<FunctionTemplateDecl>(d)) { json::Object x; x["tmpl"] = ft->getNameAsString(); x["nparams"] = int(ft->getTemplatedDecl()->getNumParams()); (void)x; }
        o["methods"] = std::move(ms);
        json::Object sp;
        sp["has_dtor"] = bool(r->hasUserDeclaredDestructor());
        sp["triv_dtor"] = bool(r->hasTrivialDestructor());
        sp["copyctor"] = bool(r->hasUserDeclaredCopyConstructor());
        sp["movector"] = bool(r->hasUserDeclaredMoveConstructor());
        sp["copyassign"] = bool(r->hasUserDeclaredCopyAssignment());
        sp["moveassign"] = bool(r->hasUserDeclaredMoveAssignment());
        sp["impl_copyctor"] = bool(r->needsImplicitCopyConstructor());
        sp["impl_movector"] = bool(r->needsImplicitMoveConstructor());
        sp["impl_copyassign"] = bool(r->needsImplicitCopyAssignment());
        sp["impl_moveassign"] = bool(r->needsImplicitMoveAssignment());
        o["sp"] = std::move(sp);
        json::Array ns;
        for (auto& n : c.nodes) ns.push_back(std::move(n));
        o["nodes"] = std::move(ns);
        fc = old;
        emit(std::move(o));
        while (!pending.empty()) { auto* p = pending.back(); pending.pop_back(); func(p); }
    }

    void enumd(const EnumDecl* e)
    {
        if (!e->isThisDeclarationADefinition() || e->isDependentContext()) return;
        if (!in_root(e->getLocation())) {
            return;
        }
        if (!done.insert(e).second) return;
        json::Object o; o["rec"] = "enum"; o["qn"] = qn(e); o["file"] = rel(e->getLocation()); o["line"] = line(e->getLocation());
        o["t"] = tid(ctx.getEnumType(e));
        if (e->isScoped()) o["scoped"] = true;
        json::Array a;
        for (auto* c : e->enumerators()) { json::Array p; p.push_back(c->getNameAsString()); llvm::SmallString<32> sv; c->getInitVal().toString(sv, 10); p.push_back(sv.str().str()); a.push_back(std::move(p)); }
        o["v"] = std::move(a);
        emit(std::move(o));
    }

    void var(const VarDecl* v)
    {
        if (v->isLocalVarDecl() || isa<ParmVarDecl>(v)) { if (!v->isStaticLocal() && !v->isConstexpr()) return; if (isa<ParmVarDecl>(v)) return; }
        if (v->getDeclContext()->isDependentContext() || v->getType()->isDependentType()) return;
        if (!in_root(v->getLocation())) return;
        if (isa<VarTemplatePartialSpecializationDecl>(v) || v->getDescribedVarTemplate()) return;
        if (!done.insert(v).second) return;
        json::Object o; o["rec"] = "var"; o["qn"] = qn(v); o["file"] = rel(v->getLocation()); o["line"] = line(v->getLocation());
        o["t"] = tid(v->getType()); o["d"] = did(v);
        if (v->getType().isConstQualified() || ctx.getBaseElementType(v->getType()).isConstQualified()) o["const"] = true;
        if (v->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
        if (v->isStaticLocal()) o["staticlocal"] = true;
        if (v->isStaticDataMember()) o["member"] = true;
        if (v->isConstexpr()) o["constexpr"] = true;
        if (v->isThisDeclarationADefinition() != VarDecl::Definition) o["declonly"] = true;
        const VarDecl* iv = nullptr;
        const Expr* init = v->getAnyInitializer(iv);
        if (init && !init->isValueDependent()) {
            if (v->isConstexpr() || o.get("const")) {
                if (auto* val = iv->evaluateValue()) o["val"] = apv(*val, v->getType());
            }
            FnCtx c; FnCtx* old = fc; fc = &c;
            o["init"] = dump(init);
            json::Array ns;
            if (c.nodes.size() < 60000) for (auto& n : c.nodes) ns.push_back(std::move(n));
            o["nodes"] = std::move(ns);
            fc = old;
        }
        emit(std::move(o));
        while (!pending.empty()) { auto* p = pending.back(); pending.pop_back(); func(p); }
    }

    void finish()
    {
        for (size_t i = 0; i < fns.size(); ++i) { // may grow
            json::Object o = fn_info(fns[i]); o["rec"] = "fn"; o["fid"] = int(i);
            bool r = in_root(pattern(fns[i])->getLocation()); if (r) o["repo"] = true;
            emit(std::move(o));
        }
        json::Object o; o["rec"] = "types"; json::Array a; for (auto& t : types) a.push_back(t); o["v"] = std::move(a);
        json::Array fl; for (int x : tflags) fl.push_back(x); o["f"] = std::move(fl);
        emit(std::move(o));
    }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
    Dumper& d;
    Visitor(Dumper& x) : d(x) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitFunctionDecl(FunctionDecl* f) { d.decl(f); if (f->doesThisDeclarationHaveABody()) d.func(f); return true; }
    bool VisitCXXRecordDecl(CXXRecordDecl* r) { d.record(r); return true; }
    bool VisitEnumDecl(EnumDecl* e) { d.enumd(e); return true; }
    bool VisitVarDecl(VarDecl* v) { d.var(v); return true; }
    bool VisitClassTemplateDecl(ClassTemplateDecl* t)
    {
        if (t->isThisDeclarationADefinition()) d.tmpl(t, t->getTemplateParameters(), t->getTemplatedDecl(), t->getTemplatedDecl());
        return true;
    }
};

struct Consumer : ASTConsumer {
    void HandleTranslationUnit(ASTContext& ctx) override
    {
        if (ctx.getDiagnostics().hasErrorOccurred()) return;
        std::error_code ec;
        llvm::raw_fd_ostream os(g_out, ec);
        if (ec) { llvm::errs() << "cannot open " << g_out << "\n"; exit(3); }
        Dumper d(ctx, os);
        Visitor v(d);
        v.TraverseDecl(ctx.getTranslationUnitDecl());
        d.finish();
    }
};
struct Action : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override { return std::make_unique<Consumer>(); }
};
} // namespace

int main(int argc, char** argv)
{
    if (argc < 5) { llvm::errs() << "usage: astx OUT ROOTS FILE -- ARGS\n"; return 2; }
    g_out = argv[1];
    { llvm::SmallVector<llvm::StringRef> p; llvm::StringRef(argv[2]).split(p, ':'); for (auto s : p) g_roots.push_back(s.str()); }
    std::string file = argv[3];
    std::vector<std::string> args;
    for (int i = 5; i < argc; ++i) args.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", args);
    tooling::ClangTool tool(db, { file });
    tool.setPrintErrorMessage(true);
    return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
