// nnexport: dumps the type-resolved program (every function body located under the
// analysed roots, template instantiations and lambdas included) as JSON.
#include <clang/AST/AST.h>
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtOpenMP.h>
#include <clang/AST/OpenMPClause.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendActions.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <fstream>
#include <iostream>
#include <map>
#include <regex>
#include <set>
#include <sstream>
using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> g_roots;
static std::string g_out;

class Exporter
{
public:
  ASTContext& ctx_;
  SourceManager& sm_;
  PrintingPolicy pp_;
  json::Array types_;
  std::map<std::string, int> type_idx_;
  json::Object records_;
  std::set<const CXXRecordDecl*> rec_seen_;
  json::Object funcs_;
  json::Object externs_;
  json::Object globals_;
  std::map<const Decl*, int> ids_;
  std::set<std::string> files_;
  int next_id_ = 1;

  explicit Exporter(ASTContext& c) : ctx_(c), sm_(c.getSourceManager()), pp_(c.getLangOpts())
  {
    pp_.adjustForCPlusPlus();
    pp_.SuppressTagKeyword = true;
    pp_.PrintCanonicalTypes = true;
    pp_.FullyQualifiedName = true;
    pp_.SuppressUnwrittenScope = false;
  }
  std::string fileOf(SourceLocation l)
  {
    l = sm_.getExpansionLoc(l);
    PresumedLoc p = sm_.getPresumedLoc(l);
    return p.isValid() ? std::string(p.getFilename()) : std::string();
  }
  int lineOf(SourceLocation l)
  {
    l = sm_.getExpansionLoc(l);
    PresumedLoc p = sm_.getPresumedLoc(l);
    return p.isValid() ? static_cast<int>(p.getLine()) : 0;
  }
  bool inRoots(SourceLocation l)
  {
    const std::string f = fileOf(l);
    for (auto& r : g_roots)
      if (f.compare(0, r.size(), r) == 0)
        return true;
    return false;
  }
  int id(const Decl* d)
  {
    d = d->getCanonicalDecl();
    auto it = ids_.find(d);
    if (it != ids_.end())
      return it->second;
    return ids_[d] = next_id_++;
  }
  std::string recName(const RecordDecl* rd)
  {
    return ctx_.getTypeDeclType(rd).getCanonicalType().getUnqualifiedType().getAsString(pp_);
  }
  int type(QualType qt)
  {
    if (qt.isNull())
      return -1;
    qt = qt.getCanonicalType();
    const std::string s = qt.getAsString(pp_);
    auto it = type_idx_.find(s);
    if (it != type_idx_.end())
      return it->second;
    const int ix = types_.size();
    type_idx_[s] = ix;
    types_.push_back(nullptr);
    json::Object o;
    o["s"] = s;
    if (qt.isConstQualified())
      o["const"] = true;
    if (qt->isReferenceType())
    {
      o["c"] = "ref";
      o["pt"] = type(qt->getPointeeType());
      if (qt->isRValueReferenceType())
        o["rr"] = true;
    }
    else if (qt->isPointerType())
    {
      o["c"] = "ptr";
      o["pt"] = type(qt->getPointeeType());
    }
    else if (qt->isBooleanType())
      o["c"] = "bool";
    else if (qt->isEnumeralType())
      o["c"] = "enum";
    else if (qt->isIntegerType())
    {
      o["c"] = "int";
      o["b"] = static_cast<int>(ctx_.getTypeSize(qt));
      o["sg"] = qt->isSignedIntegerType();
    }
    else if (qt->isFloatingType())
    {
      o["c"] = "flt";
      o["b"] = static_cast<int>(ctx_.getTypeSize(qt));
    }
    else if (qt->isVoidType())
      o["c"] = "void";
    else if (auto* at = ctx_.getAsConstantArrayType(qt))
    {
      o["c"] = "arr";
      o["n"] = static_cast<int64_t>(at->getSize().getZExtValue());
      o["pt"] = type(at->getElementType());
    }
    else if (auto* rd = qt->getAsCXXRecordDecl())
    {
      o["c"] = "rec";
      o["rec"] = recName(rd);
      o["qn"] = rd->getQualifiedNameAsString();
      record(rd);
    }
    else
      o["c"] = "other";
    types_[ix] = std::move(o);
    return ix;
  }
  void record(const CXXRecordDecl* rd)
  {
    rd = rd->getDefinition();
    if (!rd || rd->isDependentContext())
      return;
    if (!rec_seen_.insert(rd).second)
      return;
    json::Object o;
    const bool mine = inRoots(rd->getLocation());
    o["qn"] = rd->getQualifiedNameAsString();
    o["file"] = fileOf(rd->getLocation());
    o["line"] = lineOf(rd->getLocation());
    o["repo"] = mine;
    if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(rd))
    {
      json::Array ta;
      for (auto& a : sp->getTemplateArgs().asArray())
      {
        if (a.getKind() == TemplateArgument::Type)
          ta.push_back(json::Object{{"t", type(a.getAsType())}});
        else if (a.getKind() == TemplateArgument::Integral)
          ta.push_back(static_cast<int64_t>(a.getAsIntegral().getExtValue()));
      }
      o["ta"] = std::move(ta);
    }
    if (mine || !sm_.isInSystemHeader(rd->getLocation()))
    {
      json::Array fs;
      for (auto* f : rd->fields())
      {
        json::Object fo;
        fo["n"] = f->getNameAsString();
        fo["t"] = type(f->getType());
        fo["line"] = lineOf(f->getLocation());
        if (f->hasInClassInitializer() && f->getInClassInitializer() && mine)
          fo["init"] = expr(f->getInClassInitializer());
        fs.push_back(std::move(fo));
      }
      o["fields"] = std::move(fs);
      json::Array bs;
      for (auto& b : rd->bases())
        bs.push_back(type(b.getType()));
      o["bases"] = std::move(bs);
      o["triv"] = rd->hasTrivialDefaultConstructor();
      o["poly"] = rd->isPolymorphic();
    }
    records_[recName(rd)] = std::move(o);
  }
  std::string fkey(const FunctionDecl* fd)
  {
    std::string s;
    llvm::raw_string_ostream os(s);
    fd->getNameForDiagnostic(os, pp_, true);
    if (auto* md = dyn_cast<CXXMethodDecl>(fd))
    {
      os.flush();
      // record with template arguments
      s = recName(md->getParent()) + "::";
      if (isa<CXXConstructorDecl>(md))
        s += "#ctor";
      else if (isa<CXXDestructorDecl>(md))
        s += "#dtor";
      else
        s += md->getNameAsString();
      if (auto* ta = fd->getTemplateSpecializationArgs())
      {
        s += "<";
        for (auto& a : ta->asArray())
        {
          std::string t;
          llvm::raw_string_ostream to(t);
          a.print(pp_, to, true);
          to.flush();
          s += t + ",";
        }
        s += ">";
      }
    }
    os.flush();
    s += "(";
    for (auto* p : fd->parameters())
      s += p->getType().getCanonicalType().getAsString(pp_) + ",";
    s += ")";
    if (auto* md = dyn_cast<CXXMethodDecl>(fd))
      if (md->isConst())
        s += " const";
    return s;
  }
  const FunctionDecl* defOf(const FunctionDecl* fd)
  {
    const FunctionDecl* def = nullptr;
    if (fd->isDefined(def))
      return def;
    if (auto* pat = fd->getTemplateInstantiationPattern())
      (void)pat;
    return fd;
  }
  std::string fref(const FunctionDecl* fd)
  {
    const std::string k = fkey(fd);
    if (!externs_.getObject(k))
    {
      json::Object o;
      o["qn"] = fd->getQualifiedNameAsString();
      o["n"] = fd->getNameAsString();
      o["ret"] = type(fd->getReturnType());
      if (isa<CXXConstructorDecl>(fd))
        o["kind"] = "ctor";
      else if (isa<CXXDestructorDecl>(fd))
        o["kind"] = "dtor";
      else if (isa<CXXConversionDecl>(fd))
        o["kind"] = "conv";
      json::Array ps;
      for (auto* p : fd->parameters())
        ps.push_back(json::Object{{"n", p->getNameAsString()}, {"t", type(p->getType())}});
      o["params"] = std::move(ps);
      if (auto* md = dyn_cast<CXXMethodDecl>(fd))
      {
        o["const"] = md->isConst();
        o["virt"] = md->isVirtual();
        o["static"] = md->isStatic();
        o["cls"] = recName(md->getParent());
        o["clsqn"] = md->getParent()->getQualifiedNameAsString();
        json::Array ov;
        for (auto* m : md->overridden_methods())
          ov.push_back(fkey(m));
        o["over"] = std::move(ov);
        if (md->isPureVirtual())
          o["pure"] = true;
        if (md->isDefaulted() || md->isImplicit())
          o["defaulted"] = true;
        record(md->getParent());
      }
      o["repo"] = inRoots(fd->getLocation());
      if (fd->isVariadic())
        o["variadic"] = true;
      externs_[k] = std::move(o);
    }
    return k;
  }
  void emitFunction(const FunctionDecl* fd)
  {
    const std::string k = fref(fd);
    if (funcs_.getObject(k))
      return;
    funcs_[k] = json::Object();
    json::Object o = *externs_.getObject(k);
    o["file"] = fileOf(fd->getLocation());
    files_.insert(fileOf(fd->getLocation()));
    o["line"] = lineOf(fd->getLocation());
    o["eline"] = lineOf(fd->getEndLoc());
    json::Array ps;
    for (auto* p : fd->parameters())
      ps.push_back(json::Object{{"id", id(p)}, {"n", p->getNameAsString()}, {"t", type(p->getType())}});
    o["params"] = std::move(ps);
    if (auto* cd = dyn_cast<CXXConstructorDecl>(fd))
    {
      json::Array inits;
      for (auto* in : cd->inits())
      {
        json::Object io;
        if (in->isAnyMemberInitializer())
        {
          io["field"] = in->getAnyMember()->getNameAsString();
          io["t"] = type(in->getAnyMember()->getType());
          if (in->isInClassMemberInitializer())
            io["dflt"] = true;
        }
        else if (in->isDelegatingInitializer())
          io["deleg"] = true;
        else if (in->isBaseInitializer())
          io["base"] = type(QualType(in->getBaseClass(), 0));
        io["written"] = in->isWritten();
        io["e"] = expr(in->getInit());
        io["l"] = lineOf(in->getSourceLocation());
        inits.push_back(std::move(io));
      }
      o["inits"] = std::move(inits);
    }
    o["body"] = stmt(fd->getBody());
    funcs_[k] = std::move(o);
  }
  json::Value varDecl(const VarDecl* vd)
  {
    json::Object o;
    o["id"] = id(vd);
    o["n"] = vd->getNameAsString();
    o["t"] = type(vd->getType());
    o["l"] = lineOf(vd->getLocation());
    if (vd->isStaticLocal())
      o["static"] = true;
    if (vd->getInit())
      o["init"] = expr(vd->getInit());
    if (auto* dd = dyn_cast<DecompositionDecl>(vd))
    {
      json::Array bs;
      for (auto* b : dd->bindings())
      {
        json::Object bo;
        bo["id"] = id(b);
        bo["n"] = b->getNameAsString();
        if (auto* hv = b->getHoldingVar())
          bo["e"] = expr(hv->getInit());
        else if (b->getBinding())
          bo["e"] = expr(b->getBinding());
        bs.push_back(std::move(bo));
      }
      o["bindings"] = std::move(bs);
    }
    return std::move(o);
  }
  void global(const VarDecl* vd)
  {
    const std::string k = vd->getQualifiedNameAsString();
    if (globals_.getObject(k))
      return;
    globals_[k] = json::Object{{"n", k}};
    json::Object o;
    o["n"] = k;
    o["t"] = type(vd->getType());
    o["const"] = vd->getType().isConstQualified();
    o["file"] = fileOf(vd->getLocation());
    o["line"] = lineOf(vd->getLocation());
    const VarDecl* def = vd;
    const Expr* init = vd->getAnyInitializer(def);
    if (init && !init->isValueDependent() && inRoots(vd->getLocation()))
      o["init"] = expr(init);
    globals_[k] = std::move(o);
  }
  json::Value stmts(const Stmt* s)
  {
    return stmt(s);
  }
  json::Value stmt(const Stmt* s)
  {
    if (!s)
      return nullptr;
    if (auto* e = dyn_cast<Expr>(s))
      return json::Object{{"k", "expr"}, {"e", expr(e)}, {"l", lineOf(e->getBeginLoc())}};
    json::Object o;
    o["l"] = lineOf(s->getBeginLoc());
    switch (s->getStmtClass())
    {
      case Stmt::CompoundStmtClass:
      {
        o["k"] = "block";
        json::Array a;
        for (auto* c : cast<CompoundStmt>(s)->body())
          a.push_back(stmt(c));
        o["a"] = std::move(a);
        o["el"] = lineOf(s->getEndLoc());
        break;
      }
      case Stmt::DeclStmtClass:
      {
        o["k"] = "decl";
        json::Array a;
        for (auto* d : cast<DeclStmt>(s)->decls())
          if (auto* vd = dyn_cast<VarDecl>(d))
            a.push_back(varDecl(vd));
        o["vars"] = std::move(a);
        break;
      }
      case Stmt::IfStmtClass:
      {
        auto* i = cast<IfStmt>(s);
        o["k"] = "if";
        if (i->getInit())
          o["init"] = stmt(i->getInit());
        if (i->getConditionVariable())
          o["var"] = varDecl(i->getConditionVariable());
        o["c"] = expr(i->getCond());
        o["t"] = stmt(i->getThen());
        if (i->getElse())
          o["f"] = stmt(i->getElse());
        break;
      }
      case Stmt::ForStmtClass:
      {
        auto* f = cast<ForStmt>(s);
        o["k"] = "for";
        if (f->getInit())
          o["init"] = stmt(f->getInit());
        if (f->getCond())
          o["c"] = expr(f->getCond());
        if (f->getInc())
          o["inc"] = expr(f->getInc());
        o["body"] = stmt(f->getBody());
        break;
      }
      case Stmt::WhileStmtClass:
      {
        auto* w = cast<WhileStmt>(s);
        o["k"] = "while";
        if (w->getConditionVariable())
          o["var"] = varDecl(w->getConditionVariable());
        o["c"] = expr(w->getCond());
        o["body"] = stmt(w->getBody());
        break;
      }
      case Stmt::DoStmtClass:
      {
        auto* w = cast<DoStmt>(s);
        o["k"] = "do";
        o["c"] = expr(w->getCond());
        o["body"] = stmt(w->getBody());
        break;
      }
      case Stmt::CXXForRangeStmtClass:
      {
        auto* r = cast<CXXForRangeStmt>(s);
        o["k"] = "rangefor";
        if (r->getInit())
          o["init"] = stmt(r->getInit());
        o["range"] = expr(r->getRangeInit());
        o["var"] = varDecl(r->getLoopVariable());
        o["body"] = stmt(r->getBody());
        break;
      }
      case Stmt::SwitchStmtClass:
      {
        auto* w = cast<SwitchStmt>(s);
        o["k"] = "switch";
        if (w->getInit())
          o["init"] = stmt(w->getInit());
        o["c"] = expr(w->getCond());
        o["body"] = stmt(w->getBody());
        break;
      }
      case Stmt::CaseStmtClass:
      {
        auto* c = cast<CaseStmt>(s);
        o["k"] = "case";
        o["v"] = expr(c->getLHS());
        o["s"] = stmt(c->getSubStmt());
        break;
      }
      case Stmt::DefaultStmtClass:
        o["k"] = "default";
        o["s"] = stmt(cast<DefaultStmt>(s)->getSubStmt());
        break;
      case Stmt::BreakStmtClass:
        o["k"] = "break";
        break;
      case Stmt::ContinueStmtClass:
        o["k"] = "continue";
        break;
      case Stmt::ReturnStmtClass:
        o["k"] = "return";
        if (auto* v = cast<ReturnStmt>(s)->getRetValue())
          o["e"] = expr(v);
        break;
      case Stmt::CXXTryStmtClass:
      {
        auto* t = cast<CXXTryStmt>(s);
        o["k"] = "try";
        o["body"] = stmt(t->getTryBlock());
        json::Array hs;
        for (unsigned i = 0; i < t->getNumHandlers(); i++)
        {
          auto* h = t->getHandler(i);
          json::Object ho;
          if (h->getExceptionDecl())
          {
            ho["var"] = varDecl(h->getExceptionDecl());
            ho["t"] = type(h->getCaughtType().getNonReferenceType().getUnqualifiedType());
          }
          ho["l"] = lineOf(h->getBeginLoc());
          ho["body"] = stmt(h->getHandlerBlock());
          hs.push_back(std::move(ho));
        }
        o["h"] = std::move(hs);
        break;
      }
      case Stmt::NullStmtClass:
        o["k"] = "null";
        break;
      case Stmt::AttributedStmtClass:
        return stmt(cast<AttributedStmt>(s)->getSubStmt());
      case Stmt::LabelStmtClass:
        o["k"] = "label";
        o["s"] = stmt(cast<LabelStmt>(s)->getSubStmt());
        break;
      case Stmt::CapturedStmtClass:
        return stmt(cast<CapturedStmt>(s)->getCapturedStmt());
      default:
        if (auto* d = dyn_cast<OMPExecutableDirective>(s))
        {
          o["k"] = "omp";
          o["d"] = llvm::omp::getOpenMPDirectiveName(d->getDirectiveKind()).str();
          if (auto* cd = dyn_cast<OMPCriticalDirective>(d))
            o["nm"] = cd->getDirectiveName().getAsString();
          json::Array cl;
          for (auto* c : d->clauses())
          {
            json::Object co;
            co["n"] = llvm::omp::getOpenMPClauseName(c->getClauseKind()).str();
            json::Array vs;
            auto addv = [&](auto* clause)
            {
              for (auto* e : clause->varlists())
                if (auto* dre = dyn_cast<DeclRefExpr>(e->IgnoreParenImpCasts()))
                  vs.push_back(id(dre->getDecl()));
            };
            if (auto* p = dyn_cast<OMPPrivateClause>(c))
              addv(p);
            else if (auto* p = dyn_cast<OMPFirstprivateClause>(c))
              addv(p);
            else if (auto* p = dyn_cast<OMPLastprivateClause>(c))
              addv(p);
            else if (auto* p = dyn_cast<OMPReductionClause>(c))
              addv(p);
            else if (auto* p = dyn_cast<OMPSharedClause>(c))
              addv(p);
            co["v"] = std::move(vs);
            cl.push_back(std::move(co));
          }
          o["cl"] = std::move(cl);
          if (d->hasAssociatedStmt())
          {
            const Stmt* a = d->getAssociatedStmt();
            while (auto* cs = dyn_cast_or_null<CapturedStmt>(a))
              a = cs->getCapturedStmt();
            o["body"] = stmt(a);
          }
          break;
        }
        o["k"] = "unsupported";
        o["cls"] = s->getStmtClassName();
    }
    return std::move(o);
  }
  json::Array args(llvm::iterator_range<CallExpr::const_arg_iterator> r)
  {
    json::Array a;
    for (auto* e : r)
      a.push_back(expr(e));
    return a;
  }
  json::Value fnum(const llvm::APFloat& f)
  {
    llvm::SmallString<40> s;
    llvm::APFloat g = f;
    bool li;
    g.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &li);
    const double d = g.convertToDouble();
    std::ostringstream os;
    os.precision(17);
    os << d;
    return json::Value(os.str());
  }
  json::Value expr(const Expr* e)
  {
    if (!e)
      return nullptr;
    // strip
    for (;;)
    {
      if (auto* p = dyn_cast<ParenExpr>(e))
        e = p->getSubExpr();
      else if (auto* p = dyn_cast<ExprWithCleanups>(e))
        e = p->getSubExpr();
      else if (auto* p = dyn_cast<MaterializeTemporaryExpr>(e))
        e = p->getSubExpr();
      else if (auto* p = dyn_cast<CXXBindTemporaryExpr>(e))
        e = p->getSubExpr();
      else if (auto* p = dyn_cast<ConstantExpr>(e))
        e = p->getSubExpr();
      else if (auto* p = dyn_cast<SubstNonTypeTemplateParmExpr>(e))
        e = p->getReplacement();
      else if (auto* p = dyn_cast<CXXDefaultArgExpr>(e))
        e = p->getExpr();
      else if (auto* p = dyn_cast<CXXDefaultInitExpr>(e))
        e = p->getExpr();
      else if (auto* p = dyn_cast<CXXStdInitializerListExpr>(e))
        e = p->getSubExpr();
      else if (auto* p = dyn_cast<FullExpr>(e))
        e = p->getSubExpr();
      else
        break;
    }
    json::Object o;
    const int ty = type(e->getType());
    const int ln = lineOf(e->getExprLoc());
    o["t"] = ty;
    o["l"] = ln;
    if (!e->isPRValue())
      o["v"] = 1;
    // constants
    if (e->isPRValue() && e->getType()->isIntegralOrEnumerationType() && !e->isValueDependent() &&
        !isa<StringLiteral>(e))
    {
      Expr::EvalResult r;
      if (e->EvaluateAsInt(r, ctx_, Expr::SE_NoSideEffects))
      {
        o["k"] = "int";
        const llvm::APSInt v = r.Val.getInt();
        if (v.isUnsigned() && v.getActiveBits() > 63)
          o["x"] = llvm::toString(v, 10);
        else
          o["x"] = static_cast<int64_t>(v.getExtValue());
        const Expr* s = e->IgnoreParenImpCasts();
        if (auto* dre = dyn_cast<DeclRefExpr>(s))
          o["nm"] = dre->getDecl()->getQualifiedNameAsString();
        return std::move(o);
      }
    }
    if (e->isPRValue() && e->getType()->isRealFloatingType() && !e->isValueDependent() &&
        (isa<CallExpr>(e) || (isa<ImplicitCastExpr>(e) && isa<DeclRefExpr>(e->IgnoreParenImpCasts()))))
    {
      Expr::EvalResult r;
      if (e->EvaluateAsRValue(r, ctx_) && !r.HasSideEffects && r.Val.isFloat())
      {
        o["k"] = "flt";
        o["x"] = fnum(r.Val.getFloat());
        return std::move(o);
      }
    }
    if (auto* c = dyn_cast<CastExpr>(e))
    {
      switch (c->getCastKind())
      {
        case CK_IntegralCast:
        case CK_FloatingToIntegral:
        case CK_IntegralToFloating:
        case CK_FloatingCast:
        case CK_IntegralToBoolean:
        case CK_FloatingToBoolean:
        case CK_PointerToBoolean:
        case CK_NullToPointer:
        case CK_BitCast:
        case CK_ArrayToPointerDecay:
        case CK_ToVoid:
        case CK_DerivedToBase:
        case CK_UncheckedDerivedToBase:
        case CK_BaseToDerived:
        case CK_Dynamic:
        case CK_PointerToIntegral:
        case CK_IntegralToPointer:
        case CK_MemberPointerToBoolean:
          o["k"] = "cast";
          o["c"] = c->getCastKindName();
          o["e"] = expr(c->getSubExpr());
          return std::move(o);
        default:
        {
          if (c->getCastKind() == CK_LValueToRValue)
          {
            json::Value sub = expr(c->getSubExpr());
            return sub;
          }
          return expr(c->getSubExpr());
        }
      }
    }
    switch (e->getStmtClass())
    {
      case Stmt::IntegerLiteralClass:
        o["k"] = "int";
        o["x"] = static_cast<int64_t>(cast<IntegerLiteral>(e)->getValue().getLimitedValue());
        break;
      case Stmt::FloatingLiteralClass:
        o["k"] = "flt";
        o["x"] = fnum(cast<FloatingLiteral>(e)->getValue());
        break;
      case Stmt::StringLiteralClass:
        o["k"] = "str";
        o["x"] = json::fixUTF8(cast<StringLiteral>(e)->isOrdinary() ? cast<StringLiteral>(e)->getString().str() : std::string());
        break;
      case Stmt::CXXNullPtrLiteralExprClass:
      case Stmt::GNUNullExprClass:
        o["k"] = "null";
        break;
      case Stmt::CXXThisExprClass:
        o["k"] = "this";
        break;
      case Stmt::DeclRefExprClass:
      {
        auto* d = cast<DeclRefExpr>(e)->getDecl();
        o["n"] = d->getNameAsString();
        if (auto* fd = dyn_cast<FunctionDecl>(d))
        {
          o["k"] = "func";
          o["f"] = fref(fd);
        }
        else if (auto* vd = dyn_cast<VarDecl>(d))
        {
          if (vd->hasGlobalStorage() && !vd->isStaticLocal())
          {
            o["k"] = "glob";
            o["n"] = vd->getQualifiedNameAsString();
            global(vd);
          }
          else
          {
            o["k"] = "var";
            o["id"] = id(vd);
            if (vd->isStaticLocal())
              o["static"] = true;
          }
        }
        else if (isa<BindingDecl>(d))
        {
          o["k"] = "var";
          o["id"] = id(d);
        }
        else
        {
          o["k"] = "unk";
          o["cls"] = "declref";
        }
        break;
      }
      case Stmt::MemberExprClass:
      {
        auto* m = cast<MemberExpr>(e);
        if (auto* vd = dyn_cast<VarDecl>(m->getMemberDecl()))
        {
          o["k"] = "glob";
          o["n"] = vd->getQualifiedNameAsString();
          global(vd);
        }
        else if (auto* md = dyn_cast<CXXMethodDecl>(m->getMemberDecl()))
        {
          o["k"] = "func";
          o["f"] = fref(md);
        }
        else
        {
          o["k"] = "mem";
          o["n"] = m->getMemberDecl()->getNameAsString();
          if (m->isArrow())
            o["arrow"] = 1;
          o["b"] = expr(m->getBase());
          if (auto* f = dyn_cast<FieldDecl>(m->getMemberDecl()))
            if (auto* rd = dyn_cast<CXXRecordDecl>(f->getParent()))
              o["cls"] = recName(rd);
        }
        break;
      }
      case Stmt::UnaryOperatorClass:
      {
        auto* u = cast<UnaryOperator>(e);
        o["k"] = "un";
        o["o"] = UnaryOperator::getOpcodeStr(u->getOpcode()).str();
        if (u->isPostfix())
          o["post"] = 1;
        o["e"] = expr(u->getSubExpr());
        break;
      }
      case Stmt::BinaryOperatorClass:
      case Stmt::CompoundAssignOperatorClass:
      {
        auto* b = cast<BinaryOperator>(e);
        o["o"] = b->getOpcodeStr().str();
        o["k"] = b->isAssignmentOp() ? "asg" : "bin";
        o["a"] = expr(b->getLHS());
        o["b"] = expr(b->getRHS());
        if (auto* ca = dyn_cast<CompoundAssignOperator>(b))
          o["ct"] = type(ca->getComputationResultType());
        break;
      }
      case Stmt::ConditionalOperatorClass:
      {
        auto* c = cast<ConditionalOperator>(e);
        o["k"] = "cond";
        o["c"] = expr(c->getCond());
        o["a"] = expr(c->getTrueExpr());
        o["b"] = expr(c->getFalseExpr());
        break;
      }
      case Stmt::ArraySubscriptExprClass:
      {
        auto* a = cast<ArraySubscriptExpr>(e);
        o["k"] = "idx";
        o["b"] = expr(a->getBase());
        o["i"] = expr(a->getIdx());
        break;
      }
      case Stmt::CXXOperatorCallExprClass:
      case Stmt::CXXMemberCallExprClass:
      case Stmt::CallExprClass:
      case Stmt::UserDefinedLiteralClass:
      {
        auto* c = cast<CallExpr>(e);
        const FunctionDecl* fd = c->getDirectCallee();
        if (auto* oc = dyn_cast<CXXOperatorCallExpr>(c))
        {
          o["opc"] = getOperatorSpelling(oc->getOperator());
          if (fd && isa<CXXMethodDecl>(fd) && !cast<CXXMethodDecl>(fd)->isStatic())
          {
            o["k"] = "mcall";
            o["f"] = fref(fd);
            o["obj"] = expr(c->getArg(0));
            json::Array a;
            for (unsigned i = 1; i < c->getNumArgs(); i++)
              a.push_back(expr(c->getArg(i)));
            o["a"] = std::move(a);
            break;
          }
        }
        if (auto* mc = dyn_cast<CXXMemberCallExpr>(c))
        {
          if (auto* me = dyn_cast<MemberExpr>(c->getCallee()->IgnoreParens()))
          {
            o["k"] = "mcall";
            if (fd)
              o["f"] = fref(fd);
            o["obj"] = expr(me->getBase());
            if (me->isArrow())
              o["arrow"] = 1;
            if (me->hasQualifier())
              o["qual"] = 1;
            o["a"] = args(c->arguments());
            break;
          }
        }
        o["k"] = "call";
        if (fd)
          o["f"] = fref(fd);
        else
          o["ce"] = expr(c->getCallee());
        o["a"] = args(c->arguments());
        break;
      }
      case Stmt::CXXConstructExprClass:
      case Stmt::CXXTemporaryObjectExprClass:
      {
        auto* c = cast<CXXConstructExpr>(e);
        o["k"] = "ctor";
        o["f"] = fref(c->getConstructor());
        json::Array a;
        for (auto* x : c->arguments())
          a.push_back(expr(x));
        o["a"] = std::move(a);
        if (c->getConstructor()->isCopyOrMoveConstructor())
          o["copy"] = 1;
        if (c->getConstructor()->isDefaultConstructor())
          o["dflt"] = 1;
        if (c->isListInitialization())
          o["list"] = 1;
        if (c->requiresZeroInitialization())
          o["zero"] = 1;
        break;
      }
      case Stmt::CXXInheritedCtorInitExprClass:
        o["k"] = "unk";
        o["cls"] = "inhctor";
        break;
      case Stmt::CXXScalarValueInitExprClass:
      case Stmt::ImplicitValueInitExprClass:
        o["k"] = "zero";
        break;
      case Stmt::InitListExprClass:
      {
        auto* il = cast<InitListExpr>(e);
        o["k"] = "list";
        json::Array a;
        for (auto* x : il->inits())
          a.push_back(expr(x));
        o["a"] = std::move(a);
        break;
      }
      case Stmt::CXXNewExprClass:
      {
        auto* n = cast<CXXNewExpr>(e);
        o["k"] = "new";
        o["at"] = type(n->getAllocatedType());
        if (n->isArray() && n->getArraySize())
          o["n"] = expr(*n->getArraySize());
        if (n->hasInitializer() && n->getInitializer())
          o["init"] = expr(n->getInitializer());
        break;
      }
      case Stmt::CXXDeleteExprClass:
        o["k"] = "delete";
        o["e"] = expr(cast<CXXDeleteExpr>(e)->getArgument());
        break;
      case Stmt::CXXThrowExprClass:
        o["k"] = "throw";
        if (cast<CXXThrowExpr>(e)->getSubExpr())
        {
          o["e"] = expr(cast<CXXThrowExpr>(e)->getSubExpr());
          o["et"] = type(cast<CXXThrowExpr>(e)->getSubExpr()->getType().getUnqualifiedType());
        }
        break;
      case Stmt::LambdaExprClass:
      {
        auto* l = cast<LambdaExpr>(e);
        o["k"] = "lambda";
        json::Array caps;
        auto ci = l->capture_init_begin();
        for (auto& c : l->captures())
        {
          json::Object co;
          if (c.capturesThis())
            co["this"] = 1;
          else if (c.capturesVariable())
          {
            co["id"] = id(c.getCapturedVar());
            co["n"] = c.getCapturedVar()->getNameAsString();
            co["ref"] = c.getCaptureKind() == LCK_ByRef;
            if (c.getCapturedVar()->isInitCapture() && ci != l->capture_init_end())
              co["init"] = expr(*ci);
          }
          caps.push_back(std::move(co));
          ++ci;
        }
        o["caps"] = std::move(caps);
        auto* md = l->getCallOperator();
        Stmt* lbody = l->getBody();
        if (auto* ft = l->getDependentCallOperator())
        {
          // a generic lambda used with one signature
          CXXMethodDecl* only = nullptr;
          int n = 0;
          for (auto* sp : ft->specializations())
          {
            if (sp->getBody())
            {
              only = cast<CXXMethodDecl>(sp);
              ++n;
            }
          }
          if (n == 1)
          {
            md = only;
            lbody = only->getBody();
          }
        }
        json::Array ps;
        for (auto* p : md->parameters())
          ps.push_back(json::Object{{"id", id(p)}, {"n", p->getNameAsString()}, {"t", type(p->getType())}});
        o["params"] = std::move(ps);
        o["ret"] = type(md->getReturnType());
        o["op"] = fref(md);
        o["body"] = stmt(lbody);
        break;
      }
      case Stmt::UnaryExprOrTypeTraitExprClass:
        o["k"] = "sizeof";
        break;
      case Stmt::CXXTypeidExprClass:
        o["k"] = "unk";
        o["cls"] = "typeid";
        break;
      case Stmt::ArrayInitLoopExprClass:
        o["k"] = "arrcopy";
        o["e"] = expr(cast<ArrayInitLoopExpr>(e)->getCommonExpr()->getSourceExpr());
        break;
      case Stmt::OpaqueValueExprClass:
        return expr(cast<OpaqueValueExpr>(e)->getSourceExpr());
      case Stmt::CXXPseudoDestructorExprClass:
        o["k"] = "unk";
        o["cls"] = "pseudodtor";
        break;
      case Stmt::StmtExprClass:
        o["k"] = "stmtexpr";
        o["s"] = stmt(cast<StmtExpr>(e)->getSubStmt());
        break;
      default:
        o["k"] = "unk";
        o["cls"] = e->getStmtClassName();
        break;
    }
    return std::move(o);
  }
};

class Visitor : public RecursiveASTVisitor<Visitor>
{
public:
  Exporter& x_;
  explicit Visitor(Exporter& x) : x_(x) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }
  bool VisitFunctionDecl(FunctionDecl* fd)
  {
    if (!fd->doesThisDeclarationHaveABody() || fd->isDependentContext())
      return true;
    if (fd->isTemplated() && fd->getTemplatedKind() == FunctionDecl::TK_FunctionTemplate)
      return true;
    if (!x_.inRoots(fd->getLocation()))
      return true;
    if (auto* md = dyn_cast<CXXMethodDecl>(fd))
      if (md->getParent()->isLambda())
        return true;
    if (!fd->getBody())
      return true;
    x_.emitFunction(fd);
    return true;
  }
  bool VisitVarDecl(VarDecl* vd)
  {
    if (vd->hasGlobalStorage() && !vd->isStaticLocal() && x_.inRoots(vd->getLocation()) &&
        !vd->getDeclContext()->isDependentContext())
      x_.global(vd);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* rd)
  {
    if (x_.inRoots(rd->getLocation()) && rd->isThisDeclarationADefinition() && !rd->isLambda())
      x_.record(rd);
    return true;
  }
};

class Consumer : public ASTConsumer
{
public:
  void HandleTranslationUnit(ASTContext& ctx) override
  {
    if (ctx.getDiagnostics().hasUncompilableErrorOccurred())
      return;
    Exporter x(ctx);
    Visitor v(x);
    v.TraverseDecl(ctx.getTranslationUnitDecl());
    json::Object o;
    o["types"] = std::move(x.types_);
    o["records"] = std::move(x.records_);
    o["funcs"] = std::move(x.funcs_);
    o["decls"] = std::move(x.externs_);
    o["globals"] = std::move(x.globals_);
    std::error_code ec;
    llvm::raw_fd_ostream os(g_out, ec);
    os << json::Value(std::move(o));
  }
};
class Action : public ASTFrontendAction
{
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override
  {
    return std::make_unique<Consumer>();
  }
};

// usage: nnexport OUT FILE ROOT[,ROOT...] -- compiler args
int main(int argc, const char** argv)
{
  if (argc < 5)
    return 2;
  g_out = argv[1];
  std::string file = argv[2];
  std::stringstream rs(argv[3]);
  std::string r;
  while (std::getline(rs, r, ','))
    g_roots.push_back(r);
  std::vector<std::string> args;
  std::vector<std::pair<std::string, std::string>> mapped;
  for (int i = 4; i < argc; i++)
  {
    std::string a = argv[i];
    if (a == "--")
      continue;
    if (a.rfind("--map=", 0) == 0)
    {
      auto p = a.substr(6);
      auto eq = p.find('=');
      mapped.emplace_back(p.substr(0, eq), p.substr(eq + 1));
      continue;
    }
    args.push_back(a);
  }
  tooling::FixedCompilationDatabase db(".", args);
  tooling::ClangTool tool(db, {file});
  std::vector<std::string> contents;
  contents.reserve(mapped.size());
  for (auto& m : mapped)
  {
    std::ifstream ifs(m.second);
    std::stringstream ss;
    ss << ifs.rdbuf();
    contents.push_back(ss.str());
    tool.mapVirtualFile(m.first, contents.back());
  }
  return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
