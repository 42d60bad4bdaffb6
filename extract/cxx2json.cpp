// cxx2json: mechanical extraction of function definitions (template instantiations included) from the
// real sources, as JSON.  usage: cxx2json ROOTPREFIX OUT.json -- file.cpp <clang args>
// Starting from every function defined in the main file, it emits every reachable function whose body lives
// under ROOTPREFIX (or in the main file), plus the record layouts (fields, bases) of the classes met.
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/StmtCXX.h>
#include <clang/AST/StmtOpenMP.h>
#include <clang/AST/ExprOpenMP.h>
#include <clang/AST/OpenMPClause.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Tooling/CommonOptionsParser.h>
#include <clang/Tooling/Tooling.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <llvm/Support/JSON.h>
#include <deque>
#include <map>
#include <set>
using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;
static std::string gRoot, gOut;

struct Dumper {
    ASTContext &C;
    SourceManager &SM;
    PrintingPolicy PP;
    std::deque<const FunctionDecl *> work;
    std::set<const FunctionDecl *> seen;
    std::map<const Decl *, int> ids;
    Object records, functions, globals, enums;
    explicit Dumper(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy()) {
        PP.SuppressTagKeyword = true; PP.Bool = true; PP.SuppressUnwrittenScope = true; PP.PrintCanonicalTypes = true; PP.FullyQualifiedName = true;
        PP.AnonymousTagLocations = false;
        PP.SuppressDefaultTemplateArgs = true;
    }
    int id(const Decl *d) { d = d->getCanonicalDecl(); auto it = ids.find(d); if (it != ids.end()) return it->second; int n = ids.size() + 1; ids[d] = n; return n; }
    std::string ty(QualType t) { if (t.isNull()) return "?"; t = t.getCanonicalType(); noteRecord(t); return t.getAsString(PP); }
    void noteRecord(QualType t) {
        QualType u = t;
        while (true) { if (u->isPointerType() || u->isReferenceType()) u = u->getPointeeType(); else if (u->isArrayType()) u = C.getBaseElementType(u); else break; }
        u = u.getCanonicalType().getUnqualifiedType();
        if (auto *rt = u->getAsCXXRecordDecl()) noteRecordDecl(rt, u);
        if (auto *et = u->getAs<EnumType>()) {
            std::string n = u.getAsString(PP);
            if (!enums.get(n)) { Object o; for (auto *e : et->getDecl()->enumerators()) o[e->getNameAsString()] = (int64_t)e->getInitVal().getExtValue(); enums[n] = std::move(o); }
        }
    }
    bool inRoot(SourceLocation l) { auto f = SM.getFilename(SM.getSpellingLoc(SM.getExpansionLoc(l))); return f.starts_with(gRoot) || SM.isInMainFile(SM.getExpansionLoc(l)); }
    std::string file(SourceLocation l) { auto f = SM.getFilename(SM.getExpansionLoc(l)); std::string s = f.str(); if (s.rfind(gRoot, 0) == 0) s = s.substr(gRoot.size()); return s; }
    int line(SourceLocation l) { return SM.getExpansionLineNumber(l); }
    void noteRecordDecl(const CXXRecordDecl *rd, QualType u) {
        std::string n = u.getAsString(PP);
        if (records.get(n)) return;
        if (!rd->hasDefinition()) return;
        rd = rd->getDefinition();
        if (!inRoot(rd->getLocation())) { return; }
        records[n] = Object{};
        Object o; Array fs, bs, dtor;
        for (auto *f : rd->fields()) {
            Object fo; fo["n"] = f->getNameAsString(); fo["id"] = id(f); fo["t"] = ty(f->getType());
            if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = expr(f->getInClassInitializer());
            fs.push_back(std::move(fo));
        }
        for (auto &b : rd->bases()) bs.push_back(ty(b.getType()));
        o["fields"] = std::move(fs); o["bases"] = std::move(bs); o["file"] = file(rd->getLocation()); o["lambda"] = rd->isLambda(); if (rd->hasDefinition() && rd->isAggregate()) o["aggregate"] = true;
        if (auto *dd = rd->getDestructor()) { if (dd->isUserProvided()) { o["dtor"] = fref(dd); } }
        for (auto *m : rd->methods()) { if (m->isVirtual() && !m->isPureVirtual() && !isa<CXXDestructorDecl>(m) && m->hasBody()) enqueue(m); }
        records[n] = std::move(o);
    }
    void enqueue(const FunctionDecl *f) {
        const FunctionDecl *def = nullptr;
        if (!f->hasBody(def)) { if (f->isDefaulted()) { def = f; } else return; }
        if (def->isDependentContext()) return;
        if (!inRoot(def->getLocation())) return;
        if (seen.insert(def->getCanonicalDecl()).second) work.push_back(def);
    }
    std::string sig(const FunctionDecl *f) { return ty(f->getType()); }
    std::string qn(const FunctionDecl *f) {
        std::string s; llvm::raw_string_ostream os(s);
        if (auto *m = dyn_cast<CXXMethodDecl>(f)) { os << C.getRecordType(m->getParent()).getCanonicalType().getAsString(PP) << "::" << f->getNameAsString(); }
        else { f->printQualifiedName(os, PP); }
        return s;
    }
    Value fref(const FunctionDecl *f) {
        enqueue(f);
        Object o; o["qn"] = qn(f); o["id"] = id(f); o["n"] = f->getNameAsString();
        if (auto *ta = f->getTemplateSpecializationArgs()) { Array a; for (auto &x : ta->asArray()) targ(a, x); o["ta"] = std::move(a); }
        if (auto *m = dyn_cast<CXXMethodDecl>(f)) { o["cls"] = C.getRecordType(m->getParent()).getCanonicalType().getAsString(PP); if (m->isVirtual()) o["virt"] = true; if (m->isStatic()) o["static"] = true; }
        Array ps; for (auto *p : f->parameters()) ps.push_back(ty(p->getType())); o["pt"] = std::move(ps);
        const FunctionDecl *def = nullptr; o["has"] = (f->hasBody(def) && inRoot(def->getLocation()));
        return o;
    }
    void targ(Array &a, const TemplateArgument &x) {
        if (x.getKind() == TemplateArgument::Type) a.push_back(ty(x.getAsType()));
        else if (x.getKind() == TemplateArgument::Integral) a.push_back(x.getAsIntegral().getExtValue());
        else if (x.getKind() == TemplateArgument::Pack) for (auto &y : x.pack_elements()) targ(a, y);
        else a.push_back("?");
    }
    Value vardecl(const VarDecl *v) {
        Object o; o["k"] = "Var"; o["n"] = v->getNameAsString(); o["id"] = id(v); o["t"] = ty(v->getType()); o["l"] = line(v->getLocation());
        if (v->isStaticLocal()) o["static"] = true;
        if (v->getInit()) { o["init"] = expr(v->getInit()); o["is"] = v->getInitStyle() == VarDecl::CInit ? "c" : (v->getInitStyle() == VarDecl::CallInit ? "call" : "list"); }
        return o;
    }
    Value stmts(const Stmt *s) { if (!s) return nullptr; return stmt(s); }
    Value stmt(const Stmt *s) {
        if (!s) return nullptr;
        Object o; o["l"] = line(s->getBeginLoc());
        if (auto *e = dyn_cast<Expr>(s)) { o["k"] = "Expr"; o["e"] = expr(e); return o; }
        if (auto *c = dyn_cast<CompoundStmt>(s)) { o["k"] = "Block"; Array a; for (auto *x : c->body()) a.push_back(stmt(x)); o["b"] = std::move(a); return o; }
        if (auto *d = dyn_cast<DeclStmt>(s)) { o["k"] = "Decl"; Array a; for (auto *x : d->decls()) if (auto *v = dyn_cast<VarDecl>(x)) a.push_back(vardecl(v)); o["d"] = std::move(a); return o; }
        if (auto *i = dyn_cast<IfStmt>(s)) {
            o["k"] = "If"; if (i->getInit()) o["init"] = stmt(i->getInit()); if (i->getConditionVariableDeclStmt()) o["cv"] = stmt(i->getConditionVariableDeclStmt());
            o["c"] = expr(i->getCond()); o["a"] = stmt(i->getThen()); o["b"] = stmts(i->getElse()); return o; }
        if (auto *f = dyn_cast<ForStmt>(s)) { o["k"] = "For"; o["i"] = stmts(f->getInit()); o["c"] = f->getCond() ? expr(f->getCond()) : Value(nullptr); o["u"] = f->getInc() ? expr(f->getInc()) : Value(nullptr); o["b"] = stmt(f->getBody()); return o; }
        if (auto *w = dyn_cast<WhileStmt>(s)) { o["k"] = "While"; o["c"] = expr(w->getCond()); o["b"] = stmt(w->getBody()); return o; }
        if (auto *w = dyn_cast<DoStmt>(s)) { o["k"] = "Do"; o["c"] = expr(w->getCond()); o["b"] = stmt(w->getBody()); return o; }
        if (auto *r = dyn_cast<CXXForRangeStmt>(s)) { o["k"] = "RangeFor"; o["v"] = vardecl(r->getLoopVariable()); o["r"] = expr(r->getRangeInit()); o["b"] = stmt(r->getBody()); return o; }
        if (auto *r = dyn_cast<ReturnStmt>(s)) { o["k"] = "Return"; if (r->getRetValue()) o["e"] = expr(r->getRetValue()); return o; }
        if (isa<BreakStmt>(s)) { o["k"] = "Break"; return o; }
        if (isa<ContinueStmt>(s)) { o["k"] = "Continue"; return o; }
        if (isa<NullStmt>(s)) { o["k"] = "Null"; return o; }
        if (auto *t = dyn_cast<CXXTryStmt>(s)) { o["k"] = "Try"; o["b"] = stmt(t->getTryBlock()); return o; }
        if (auto *w = dyn_cast<SwitchStmt>(s)) { o["k"] = "Switch"; o["c"] = expr(w->getCond()); o["b"] = stmt(w->getBody()); return o; }
        if (auto *w = dyn_cast<CaseStmt>(s)) { o["k"] = "Case"; o["v"] = expr(w->getLHS()); o["b"] = stmt(w->getSubStmt()); return o; }
        if (auto *w = dyn_cast<DefaultStmt>(s)) { o["k"] = "Default"; o["b"] = stmt(w->getSubStmt()); return o; }
        if (auto *omp = dyn_cast<OMPExecutableDirective>(s)) {
            o["k"] = "OMP"; o["d"] = llvm::omp::getOpenMPDirectiveName(omp->getDirectiveKind()).str();
            Array cl;
            for (auto *c : omp->clauses()) {
                if (!c) continue;
                Object co; co["c"] = llvm::omp::getOpenMPClauseName(c->getClauseKind()).str();
                Array vs;
                auto add = [&](auto *l) { for (auto *e : l->varlists()) vs.push_back(expr(e)); };
                if (auto *x = dyn_cast<OMPPrivateClause>(c)) add(x);
                else if (auto *x = dyn_cast<OMPFirstprivateClause>(c)) add(x);
                else if (auto *x = dyn_cast<OMPSharedClause>(c)) add(x);
                else if (auto *x = dyn_cast<OMPReductionClause>(c)) add(x);
                co["v"] = std::move(vs); cl.push_back(std::move(co));
            }
            o["cl"] = std::move(cl);
            if (omp->hasAssociatedStmt()) {
                const Stmt *b = omp->getAssociatedStmt();
                while (auto *cs = dyn_cast_or_null<CapturedStmt>(b)) b = cs->getCapturedDecl()->getBody();
                o["b"] = stmts(b);
            }
            return o;
        }
        if (auto *cs = dyn_cast<CapturedStmt>(s)) return stmt(cs->getCapturedDecl()->getBody());
        if (auto *as = dyn_cast<AttributedStmt>(s)) return stmt(as->getSubStmt());
        o["k"] = "Unsupported"; o["w"] = s->getStmtClassName(); return o;
    }
    template <class R> Array args(R r) { Array a; for (auto *x : r) a.push_back(expr(x)); return a; }
    Value expr(const Expr *e) {
        if (!e) return nullptr;
        // transparent nodes
        if (auto *x = dyn_cast<ParenExpr>(e)) return expr(x->getSubExpr());
        if (auto *x = dyn_cast<ExprWithCleanups>(e)) return expr(x->getSubExpr());
        if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e)) { Object o; o["k"] = "Mat"; o["t"] = ty(x->getType()); o["e"] = expr(x->getSubExpr()); return o; }
        if (auto *x = dyn_cast<CXXBindTemporaryExpr>(e)) return expr(x->getSubExpr());
        if (auto *x = dyn_cast<CXXDefaultArgExpr>(e)) return expr(x->getExpr());
        if (auto *x = dyn_cast<CXXDefaultInitExpr>(e)) return expr(x->getExpr());
        if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return expr(x->getReplacement());
        if (auto *x = dyn_cast<ConstantExpr>(e)) return expr(x->getSubExpr());
        if (auto *x = dyn_cast<FullExpr>(e)) return expr(x->getSubExpr());
        Object o; o["l"] = line(e->getBeginLoc());
        std::string t = ty(e->getType()); o["t"] = t;
        if (e->isLValue()) o["lv"] = true; else if (e->isXValue()) o["xv"] = true;
        if (auto *x = dyn_cast<IntegerLiteral>(e)) { o["k"] = "Int"; llvm::SmallString<32> b; x->getValue().toString(b, 10, x->getType()->isSignedIntegerType()); o["v"] = b.str().str(); return o; }
        if (auto *x = dyn_cast<CharacterLiteral>(e)) { o["k"] = "Int"; o["v"] = std::to_string(x->getValue()); o["ch"] = true; return o; }
        if (auto *x = dyn_cast<CXXBoolLiteralExpr>(e)) { o["k"] = "Bool"; o["v"] = x->getValue(); return o; }
        if (auto *x = dyn_cast<FloatingLiteral>(e)) { o["k"] = "Float"; llvm::SmallString<32> b; x->getValue().toString(b); o["v"] = b.str().str(); return o; }
        if (auto *x = dyn_cast<StringLiteral>(e)) { o["k"] = "Str"; o["v"] = x->getCharByteWidth() == 1 ? x->getString().str() : std::string("?"); return o; }
        if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { o["k"] = "Null"; return o; }
        if (isa<CXXThisExpr>(e)) { o["k"] = "This"; return o; }
        if (auto *x = dyn_cast<DeclRefExpr>(e)) {
            const ValueDecl *d = x->getDecl(); 
            if (auto *f = dyn_cast<FunctionDecl>(d)) { o["k"] = "FRef"; o["f"] = fref(f); return o; }
            if (auto *ec = dyn_cast<EnumConstantDecl>(d)) { o["k"] = "Int"; o["v"] = std::to_string(ec->getInitVal().getExtValue()); o["en"] = ec->getNameAsString(); return o; }
            if (auto *b = dyn_cast<BindingDecl>(d)) { o["k"] = "Unsupported"; o["w"] = "Binding"; return o; }
            o["k"] = "Ref"; o["id"] = id(d); o["n"] = d->getNameAsString();
            if (auto *v = dyn_cast<VarDecl>(d)) if (v->hasGlobalStorage() && !v->isStaticLocal()) { o["glob"] = true; std::string s; llvm::raw_string_ostream os(s); v->printQualifiedName(os, PP); o["qn"] = s; if (auto *in = v->getAnyInitializer()) if (v->getType().isConstQualified() && v->getType()->isArithmeticType()) { Expr::EvalResult r; if (!in->isValueDependent() && in->EvaluateAsRValue(r, C) && r.Val.isInt()) { llvm::SmallString<32> bb; r.Val.getInt().toString(bb, 10); o["cv"] = bb.str().str(); } } }
            return o;
        }
        if (auto *x = dyn_cast<MemberExpr>(e)) {
            if (auto *f = dyn_cast<FieldDecl>(x->getMemberDecl())) { o["k"] = "Field"; o["n"] = f->getNameAsString(); o["arrow"] = x->isArrow(); o["b"] = expr(x->getBase()); return o; }
            if (auto *m = dyn_cast<CXXMethodDecl>(x->getMemberDecl())) { o["k"] = "MRef"; o["f"] = fref(m); o["arrow"] = x->isArrow(); o["b"] = expr(x->getBase()); return o; }
            if (auto *v = dyn_cast<VarDecl>(x->getMemberDecl())) { o["k"] = "Ref"; o["id"] = id(v); o["n"] = v->getNameAsString(); o["glob"] = true; return o; }
            o["k"] = "Unsupported"; o["w"] = "MemberExpr"; return o;
        }
        if (auto *x = dyn_cast<CXXOperatorCallExpr>(e)) {
            o["k"] = "OpCall"; o["op"] = getOperatorSpelling(x->getOperator());
            if (auto *f = x->getDirectCallee()) o["f"] = fref(f);
            o["a"] = args(x->arguments()); o["m"] = x->getDirectCallee() && isa<CXXMethodDecl>(x->getDirectCallee()); return o;
        }
        if (auto *x = dyn_cast<CXXMemberCallExpr>(e)) {
            o["k"] = "MCall";
            if (auto *m = x->getMethodDecl()) { o["f"] = fref(m); o["o"] = expr(x->getImplicitObjectArgument()); auto *me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens()); o["arrow"] = me && me->isArrow(); if (me && me->hasQualifier()) o["nonvirt"] = true; }
            else if (auto *b = dyn_cast<BinaryOperator>(x->getCallee()->IgnoreParens())) { o["k"] = "PMCall"; o["o"] = expr(b->getLHS()); o["arrow"] = b->getOpcode() == BO_PtrMemI; o["fe"] = expr(b->getRHS()); }
            else { o["k"] = "Unsupported"; o["w"] = "member pointer call"; }
            o["a"] = args(x->arguments()); return o;
        }
        if (auto *x = dyn_cast<CallExpr>(e)) {
            o["k"] = "Call";
            if (auto *f = x->getDirectCallee()) o["f"] = fref(f); else o["fe"] = expr(x->getCallee());
            o["a"] = args(x->arguments()); return o;
        }
        if (auto *x = dyn_cast<CXXConstructExpr>(e)) {
            o["k"] = "Ctor"; o["f"] = fref(x->getConstructor()); o["a"] = args(x->arguments()); o["list"] = x->isListInitialization();
            auto *cd = x->getConstructor(); o["ck"] = cd->isDefaultConstructor() ? "default" : cd->isCopyConstructor() ? "copy" : cd->isMoveConstructor() ? "move" : "other";
            o["el"] = x->isElidable(); o["zero"] = x->requiresZeroInitialization();
            return o;
        }
        if (auto *x = dyn_cast<CXXInheritedCtorInitExpr>(e)) { o["k"] = "Unsupported"; o["w"] = "inherited ctor"; return o; }
        if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
            Expr::EvalResult r; if (x->EvaluateAsInt(r, C)) { o["k"] = "Int"; o["v"] = std::to_string(r.Val.getInt().getExtValue()); if (x->getKind() == UETT_SizeOf) o["sizeof"] = ty(x->getTypeOfArgument()); return o; } }
        if (auto *x = dyn_cast<UnaryOperator>(e)) { o["k"] = "Un"; o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str(); o["post"] = x->isPostfix(); o["e"] = expr(x->getSubExpr()); return o; }
        if (auto *x = dyn_cast<CompoundAssignOperator>(e)) { o["k"] = "CAssign"; o["op"] = BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(x->getOpcode())).str(); o["ct"] = ty(x->getComputationResultType()); o["a"] = expr(x->getLHS()); o["b"] = expr(x->getRHS()); return o; }
        if (auto *x = dyn_cast<BinaryOperator>(e)) { o["k"] = x->isAssignmentOp() ? "Assign" : "Bin"; o["op"] = BinaryOperator::getOpcodeStr(x->getOpcode()).str(); o["a"] = expr(x->getLHS()); o["b"] = expr(x->getRHS()); return o; }
        if (auto *x = dyn_cast<CXXRewrittenBinaryOperator>(e)) return expr(x->getSemanticForm());
        if (auto *x = dyn_cast<ConditionalOperator>(e)) { o["k"] = "Cond"; o["c"] = expr(x->getCond()); o["a"] = expr(x->getTrueExpr()); o["b"] = expr(x->getFalseExpr()); return o; }
        if (auto *x = dyn_cast<ArraySubscriptExpr>(e)) { o["k"] = "Index"; o["b"] = expr(x->getBase()); o["i"] = expr(x->getIdx()); return o; }
        if (auto *x = dyn_cast<CastExpr>(e)) {
            auto ck = x->getCastKind();
            if (ck == CK_LValueToRValue) { o["k"] = "Load"; o["e"] = expr(x->getSubExpr()); return o; }
            if (ck == CK_ConstructorConversion || ck == CK_UserDefinedConversion) { return expr(x->getSubExpr()); }
            if (ck == CK_NoOp || ck == CK_FunctionToPointerDecay || ck == CK_BuiltinFnToFnPtr) { if (isa<ExplicitCastExpr>(x) && e->isXValue()) { o["k"] = "Cast"; o["c"] = "ToXValue"; o["e"] = expr(x->getSubExpr()); return o; } return expr(x->getSubExpr()); }
            o["k"] = "Cast"; o["c"] = x->getCastKindName(); o["e"] = expr(x->getSubExpr()); o["ft"] = ty(x->getSubExpr()->getType()); return o;
        }
        if (auto *x = dyn_cast<CXXNewExpr>(e)) { o["k"] = "New"; o["nt"] = ty(x->getAllocatedType()); o["arr"] = x->isArray(); if (x->isArray() && x->getArraySize()) o["n"] = expr(*x->getArraySize()); if (x->getInitializer()) o["init"] = expr(x->getInitializer()); o["place"] = x->getNumPlacementArgs() > 0; return o; }
        if (auto *x = dyn_cast<CXXDeleteExpr>(e)) { o["k"] = "Delete"; o["arr"] = x->isArrayForm(); o["e"] = expr(x->getArgument()); return o; }
        if (auto *x = dyn_cast<LambdaExpr>(e)) {
            o["k"] = "Lambda"; Array cs; 
            auto ci = x->capture_init_begin();
            for (auto &c : x->captures()) { Object co; if (c.capturesThis()) co["this"] = true; else if (c.capturesVariable()) { co["id"] = id(c.getCapturedVar()); co["n"] = c.getCapturedVar()->getName().str(); co["ref"] = c.getCaptureKind() == LCK_ByRef; if (auto *vd = dyn_cast<VarDecl>(c.getCapturedVar())) if (vd->isInitCapture()) co["init"] = expr(vd->getInit()); } cs.push_back(std::move(co)); ++ci; }
            o["caps"] = std::move(cs);
            const CXXMethodDecl *op = x->getCallOperator();
            if (x->isGenericLambda()) { o["generic"] = true; }
            else { Array ps; for (auto *p : op->parameters()) ps.push_back(vardecl(p)); o["p"] = std::move(ps); o["rt"] = ty(op->getReturnType()); o["b"] = stmt(x->getBody()); }
            return o;
        }
        if (auto *x = dyn_cast<InitListExpr>(e)) { o["k"] = "InitList"; Array a; const InitListExpr *il = x->isSemanticForm() ? x : (x->getSemanticForm() ? x->getSemanticForm() : x); for (auto *y : il->inits()) a.push_back(expr(y)); o["a"] = std::move(a); return o; }
        if (auto *x = dyn_cast<CXXStdInitializerListExpr>(e)) { o["k"] = "StdInitList"; o["e"] = expr(x->getSubExpr()); return o; }
        if (isa<CXXScalarValueInitExpr>(e) || isa<ImplicitValueInitExpr>(e)) { o["k"] = "ValueInit"; return o; }
        if (auto *x = dyn_cast<CXXThrowExpr>(e)) { o["k"] = "Throw"; if (x->getSubExpr()) o["e"] = expr(x->getSubExpr()); return o; }
        if (auto *x = dyn_cast<OpaqueValueExpr>(e)) return expr(x->getSourceExpr());
        if (auto *x = dyn_cast<ArrayInitLoopExpr>(e)) { o["k"] = "Unsupported"; o["w"] = "ArrayInitLoop"; return o; }
        if (auto *x = dyn_cast<TypeTraitExpr>(e)) { o["k"] = "Bool"; o["v"] = x->getValue(); return o; }
        o["k"] = "Unsupported"; o["w"] = e->getStmtClassName(); return o;
    }
    void function(const FunctionDecl *f) {
        Object o; o["qn"] = qn(f); o["n"] = f->getNameAsString(); o["id"] = id(f); o["file"] = file(f->getLocation()); o["l"] = line(f->getLocation()); o["le"] = line(f->getEndLoc());
        o["rt"] = ty(f->getReturnType()); o["sig"] = sig(f);
        if (auto *ta = f->getTemplateSpecializationArgs()) { Array a; for (auto &x : ta->asArray()) targ(a, x); o["ta"] = std::move(a); }
        Array ps; for (auto *p : f->parameters()) { Object po; po["n"] = p->getNameAsString(); po["id"] = id(p); po["t"] = ty(p->getType()); if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg()) po["def"] = expr(const_cast<Expr *>(p->getDefaultArg())); ps.push_back(std::move(po)); }
        o["p"] = std::move(ps);
        if (auto *m = dyn_cast<CXXMethodDecl>(f)) { o["cls"] = ty(C.getRecordType(m->getParent())); o["static"] = m->isStatic(); o["const"] = m->isConst(); if (m->isVirtual()) { o["virt"] = true; Array ov; for (auto *q : m->overridden_methods()) ov.push_back(id(q)); o["over"] = std::move(ov); } }
        if (auto *c = dyn_cast<CXXConstructorDecl>(f)) {
            o["ctor"] = true; Array is;
            for (auto *i : c->inits()) { Object io; if (i->isAnyMemberInitializer()) { io["f"] = i->getAnyMember()->getNameAsString(); } else if (i->isBaseInitializer()) io["base"] = ty(QualType(i->getBaseClass(), 0)); else io["deleg"] = true; io["w"] = i->isWritten(); io["e"] = expr(i->getInit()); is.push_back(std::move(io)); }
            o["inits"] = std::move(is);
        }
        if (isa<CXXDestructorDecl>(f)) o["dtor"] = true;
        o["defaulted"] = f->isDefaulted();
        if (f->getBody()) o["b"] = stmt(f->getBody());
        o["main"] = SM.isInMainFile(SM.getExpansionLoc(f->getLocation()));
        functions[std::to_string(id(f))] = std::move(o);
    }
    void run() {
        struct V : RecursiveASTVisitor<V> { Dumper *D; bool shouldVisitTemplateInstantiations() const { return true; } bool VisitFunctionDecl(FunctionDecl *f) { if (D->SM.isInMainFile(D->SM.getExpansionLoc(f->getLocation())) && f->isThisDeclarationADefinition() && !f->isDependentContext()) D->enqueue(f); return true; } };
        V v; v.D = this; v.TraverseDecl(C.getTranslationUnitDecl());
        while (!work.empty()) { auto *f = work.front(); work.pop_front(); function(f); }
        Object top; top["functions"] = std::move(functions); top["records"] = std::move(records); top["enums"] = std::move(enums);
        std::error_code ec; llvm::raw_fd_ostream os(gOut, ec); os << Value(std::move(top)); os << "\n";
    }
};
struct Cons : ASTConsumer { void HandleTranslationUnit(ASTContext &c) override { if (c.getDiagnostics().hasErrorOccurred()) return; Dumper d(c); d.run(); } };
struct Act : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Cons>(); } };
int main(int argc, const char **argv) {
    if (argc < 4) { llvm::errs() << "usage: cxx2json ROOTPREFIX OUT -- file.cpp args\n"; return 2; }
    gRoot = argv[1]; gOut = argv[2];
    int i = 3; if (std::string(argv[i]) == "--") i++;
    std::string src = argv[i++]; std::vector<std::string> cl; for (; i < argc; i++) cl.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", cl);
    tooling::ClangTool tool(db, {src});
    return tool.run(tooling::newFrontendActionFactory<Act>().get());
}
