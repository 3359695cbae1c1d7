// Lists behaviour-preserving edits of a translation unit: KIND \t FILE \t off:len:hex(text) ...
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/ParentMapContext.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendActions.h>
#include <clang/Lex/Lexer.h>
#include <clang/Tooling/Tooling.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <iostream>
#include <fstream>
#include <sstream>
#include <set>
using namespace clang;
static std::string g_root;
static int g_n = 0;

struct Find : RecursiveASTVisitor<Find>
{
  bool ret = false, brk = false, cont = false, lambda = false, call = false, decl = false, assign = false, sb = false;
  int depthLoop = 0, depthSwitch = 0;
  std::set<const ValueDecl*> refs;
  bool VisitReturnStmt(ReturnStmt*) { ret = true; return true; }
  bool VisitCallExpr(CallExpr*) { call = true; return true; }
  bool VisitCXXConstructExpr(CXXConstructExpr*) { call = true; return true; }
  bool VisitDeclStmt(DeclStmt*) { decl = true; return true; }
  bool VisitDeclRefExpr(DeclRefExpr* e) { refs.insert(e->getDecl()); if (isa<BindingDecl>(e->getDecl())) sb = true; return true; }
  bool VisitMemberExpr(MemberExpr* e) { refs.insert(e->getMemberDecl()); return true; }
  bool VisitUnaryOperator(UnaryOperator* u) { if (u->isIncrementDecrementOp()) assign = true; return true; }
  bool VisitBinaryOperator(BinaryOperator* u) { if (u->isAssignmentOp()) assign = true; return true; }
  bool TraverseLambdaExpr(LambdaExpr* e) { lambda = true; return true; }
  bool TraverseForStmt(ForStmt* s) { return loop([&] { return RecursiveASTVisitor::TraverseForStmt(s); }); }
  bool TraverseWhileStmt(WhileStmt* s) { return loop([&] { return RecursiveASTVisitor::TraverseWhileStmt(s); }); }
  bool TraverseDoStmt(DoStmt* s) { return loop([&] { return RecursiveASTVisitor::TraverseDoStmt(s); }); }
  bool TraverseCXXForRangeStmt(CXXForRangeStmt* s) { return loop([&] { return RecursiveASTVisitor::TraverseCXXForRangeStmt(s); }); }
  bool TraverseSwitchStmt(SwitchStmt* s) { depthSwitch++; bool r = RecursiveASTVisitor::TraverseSwitchStmt(s); depthSwitch--; return r; }
  template <class F> bool loop(F f) { depthLoop++; bool r = f(); depthLoop--; return r; }
  bool VisitBreakStmt(BreakStmt*) { if (!depthLoop && !depthSwitch) brk = true; return true; }
  bool VisitContinueStmt(ContinueStmt*) { if (!depthLoop) cont = true; return true; }
  bool shouldVisitImplicitCode() const { return false; }
};

struct V : RecursiveASTVisitor<V>
{
  ASTContext& c;
  SourceManager& sm;
  std::set<std::string> seen;
  V(ASTContext& c) : c(c), sm(c.getSourceManager()) {}

  bool ok(SourceRange r)
  {
    if (r.isInvalid() || r.getBegin().isMacroID() || r.getEnd().isMacroID())
      return false;
    auto f = sm.getFileEntryRefForID(sm.getFileID(r.getBegin()));
    return f && f->getName().starts_with(g_root) && sm.getFileID(r.getBegin()) == sm.getFileID(r.getEnd());
  }
  std::string text(SourceRange r) { return Lexer::getSourceText(CharSourceRange::getTokenRange(r), sm, c.getLangOpts()).str(); }
  std::string text(const Stmt* s) { return text(s->getSourceRange()); }
  unsigned off(SourceLocation l) { return sm.getFileOffset(l); }
  unsigned endOff(SourceLocation l) { return sm.getFileOffset(Lexer::getLocForEndOfToken(l, 0, sm, c.getLangOpts())); }
  // end of a statement including ';'
  unsigned stmtEnd(const Stmt* s)
  {
    unsigned e = endOff(s->getEndLoc());
    bool inv = false;
    StringRef buf = sm.getBufferData(sm.getFileID(s->getBeginLoc()), &inv);
    if (isa<CompoundStmt>(s) || buf[e - 1] == ';' )
      return e;
    if (isa<IfStmt>(s) || isa<ForStmt>(s) || isa<WhileStmt>(s) || isa<CXXForRangeStmt>(s))
    {
      if (buf[e - 1] == '}')
        return e;
    }
    unsigned k = e;
    while (k < buf.size() && isspace(buf[k]))
      k++;
    return k < buf.size() && buf[k] == ';' ? k + 1 : e;
  }
  std::string stmtText(const Stmt* s)
  {
    StringRef buf = sm.getBufferData(sm.getFileID(s->getBeginLoc()));
    unsigned b = off(s->getBeginLoc());
    return buf.substr(b, stmtEnd(s) - b).str();
  }
  void emit(const char* kind, const Stmt* s, unsigned b, unsigned e, const std::string& t)
  {
    auto f = sm.getFileEntryRefForID(sm.getFileID(s->getBeginLoc()));
    std::ostringstream o;
    o << kind << '\t' << f->getName().str() << '\t' << b << ':' << (e - b) << ':';
    for (unsigned char ch : t)
    {
      static const char* h = "0123456789abcdef";
      o << h[ch >> 4] << h[ch & 15];
    }
    if (seen.insert(o.str()).second)
      std::cout << o.str() << "\n";
  }
  void emit(const char* kind, const Stmt* s, const std::string& t) { emit(kind, s, off(s->getBeginLoc()), endOff(s->getEndLoc()), t); }
  void emitS(const char* kind, const Stmt* s, const std::string& t) { emit(kind, s, off(s->getBeginLoc()), stmtEnd(s), t); }
  std::string fresh(const char* p) { return std::string(p) + "_q" + std::to_string(g_n++); }
  bool hasComment(const std::string& s) { return s.find("//") != std::string::npos; }
  const Stmt* parent(const Stmt* s)
  {
    auto ps = c.getParents(*s);
    return ps.size() == 1 ? ps[0].get<Stmt>() : nullptr;
  }
  bool inCompound(const Stmt* s) { auto p = parent(s); return p && isa<CompoundStmt>(p); }

  bool VisitBinaryOperator(BinaryOperator* b)
  {
    if (!ok(b->getSourceRange()))
      return true;
    std::string l = text(b->getLHS()), r = text(b->getRHS());
    if (l.empty() || r.empty())
      return true;
    if (hasComment(l) || hasComment(r))
      return true;
    Find fl, fr;
    fl.TraverseStmt(b->getLHS());
    fr.TraverseStmt(b->getRHS());
    bool pure = !(fl.call && fr.call) && !fl.assign && !fr.assign && !b->getLHS()->isTypeDependent() && !b->getRHS()->isTypeDependent();
    switch (b->getOpcode())
    {
      case BO_LT: case BO_GT: case BO_LE: case BO_GE: case BO_EQ: case BO_NE:
        if (pure && !isa<BinaryOperator>(b->getLHS()->IgnoreImpCasts()) )
        {
          const char* o = b->getOpcode() == BO_LT ? ">" : b->getOpcode() == BO_GT ? "<" : b->getOpcode() == BO_LE ? ">=" : b->getOpcode() == BO_GE ? "<=" : b->getOpcode() == BO_EQ ? "==" : "!=";
          emit("swapcmp", b, "(" + r + ") " + o + " (" + l + ")");
        }
        break;
      case BO_Add: case BO_Mul:
        if (pure && b->getType()->isArithmeticType())
          emit("commute", b, std::string("((") + r + ") " + (b->getOpcode() == BO_Add ? "+" : "*") + " (" + l + "))");
        break;
      case BO_LAnd:
        emit("demorgan", b, "!(!(" + l + ") || !(" + r + "))");
        break;
      case BO_LOr:
        emit("demorgan", b, "!(!(" + l + ") && !(" + r + "))");
        break;
      case BO_Assign:
        if (auto* co = dyn_cast<ConditionalOperator>(b->getRHS()->IgnoreParenImpCasts()))
          if (inCompound(b) && ok(co->getSourceRange()))
            emitS("tern2if", b, "if (" + text(co->getCond()) + ") { " + l + " = " + text(co->getTrueExpr()) + "; } else { " + l + " = " + text(co->getFalseExpr()) + "; }");
        break;
      default: break;
    }
    return true;
  }
  bool VisitCompoundAssignOperator(CompoundAssignOperator* b)
  {
    if (!ok(b->getSourceRange()) || b->isTypeDependent())
      return true;
    Find f;
    f.TraverseStmt(b->getLHS());
    if (f.call || f.assign || !b->getLHS()->getType()->isArithmeticType() || !inCompound(b))
      return true;
    std::string o = BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(b->getOpcode())).str();
    std::string l = text(b->getLHS());
    emit("expand", b, l + " = " + l + " " + o + " (" + text(b->getRHS()) + ")");
    return true;
  }
  bool VisitUnaryOperator(UnaryOperator* u)
  {
    if (!ok(u->getSourceRange()) || u->isTypeDependent())
      return true;
    auto p = parent(u);
    bool stmt = p && (isa<CompoundStmt>(p) || (isa<ForStmt>(p) && cast<ForStmt>(p)->getInc() == u));
    if (u->isIncrementDecrementOp() && stmt && u->getType()->isArithmeticType())
      emit("incr", u, text(u->getSubExpr()) + (u->isIncrementOp() ? " += 1" : " -= 1"));
    return true;
  }
  bool VisitIfStmt(IfStmt* s)
  {
    if (!ok(s->getSourceRange()) || s->getConditionVariable() || s->getInit() || s->isConstexpr())
      return true;
    std::string co = text(s->getCond());
    if (co.empty() || hasComment(co))
      return true;
    bool top = inCompound(s);
    if (s->getElse() && ok(s->getThen()->getSourceRange()) && ok(s->getElse()->getSourceRange()) && !isa<IfStmt>(s->getElse()))
      emitS("invertif", s, "if (!(" + co + "))\n{ " + stmtText(s->getElse()) + " }\nelse\n{ " + stmtText(s->getThen()) + " }");
    if (top)
    {
      std::string n = fresh("cond");
      unsigned b = off(s->getBeginLoc());
      emit("condvar", s, b, endOff(s->getCond()->getEndLoc()), "const bool " + n + " = static_cast<bool>(" + co + ");\nif (" + n);
    }
    if (auto* a = dyn_cast<BinaryOperator>(s->getCond()->IgnoreImpCasts()))
      if (a->getOpcode() == BO_LAnd && !s->getElse() && ok(a->getSourceRange()))
        emitS("splitand", s, "if (" + text(a->getLHS()) + ")\n{ if (" + text(a->getRHS()) + ")\n{ " + stmtText(s->getThen()) + " } }");
    // early return of a void function
    if (top && !s->getElse())
    {
      auto p = parent(s);
      auto gp = c.getParents(*p);
      if (gp.size() == 1)
        if (auto* fd = gp[0].get<FunctionDecl>())
          if (fd->getReturnType()->isVoidType() && cast<CompoundStmt>(p)->body_back() == s)
            emitS("earlyret", s, "if (!(" + co + "))\n  return;\n" + stmtText(s->getThen()));
    }
    // continue instead of nesting
    if (top && !s->getElse())
    {
      auto p = parent(s);
      auto gp = parent(p);
      if (gp && (isa<ForStmt>(gp) || isa<CXXForRangeStmt>(gp)) && cast<CompoundStmt>(p)->body_back() == s)
        emitS("earlycont", s, "if (!(" + co + "))\n  continue;\n" + stmtText(s->getThen()));
    }
    return true;
  }
  bool VisitForStmt(ForStmt* s)
  {
    if (!ok(s->getSourceRange()) || !s->getCond() || !s->getInc() || !s->getInit())
      return true;
    auto p = parent(s);
    if (!p || !isa<CompoundStmt>(p))
      return true;
    // omp loops keep their form
    Find f;
    f.TraverseStmt(s->getBody());
    if (f.cont)
      return true;
    std::string init = text(s->getInit());
    if (init.empty() || init.back() != ';')
      init += ";";
    emitS("for2while", s, "{ " + init + "\nwhile (" + text(s->getCond()) + ")\n{ " + stmtText(s->getBody()) + "\n" + text(s->getInc()) + "; } }");
    return true;
  }
  bool VisitWhileStmt(WhileStmt* s)
  {
    if (!ok(s->getSourceRange()) || s->getConditionVariable())
      return true;
    emitS("while2for", s, "for (;;)\n{ if (!(" + text(s->getCond()) + ")) break;\n" + stmtText(s->getBody()) + " }");
    return true;
  }
  bool VisitCXXForRangeStmt(CXXForRangeStmt* s)
  {
    if (!ok(s->getSourceRange()) || !ok(s->getRangeInit()->getSourceRange()) || s->getRangeInit()->isTypeDependent())
      return true;
    auto* r = s->getRangeInit()->IgnoreParenImpCasts();
    if (!isa<DeclRefExpr>(r) && !isa<MemberExpr>(r))
      return true;
    auto* rec = r->getType()->getAsCXXRecordDecl();
    if (!rec)
      return true;
    std::string n = rec->getNameAsString();
    if (n != "vector" && n != "list" && n != "array" && n != "map" && n != "deque")
      return true;
    if (isa<DecompositionDecl>(s->getLoopVariable()))
      return true;
    std::string it = fresh("it"), cont = text(r);
    std::string dv = text(SourceRange(s->getLoopVariable()->getBeginLoc(), s->getLoopVariable()->getEndLoc()));
    emitS("range2it", s, "for (auto " + it + " = " + cont + ".begin(); " + it + " != " + cont + ".end(); ++" + it + ")\n{ " + dv + " = *" + it + ";\n" + stmtText(s->getBody()) + " }");
    if (n == "vector" || n == "array" || n == "deque")
      emitS("range2idx", s, "for (size_t " + it + " = 0; " + it + " < " + cont + ".size(); " + it + "++)\n{ " + dv + " = " + cont + "[" + it + "];\n" + stmtText(s->getBody()) + " }");
    return true;
  }
  bool VisitCompoundStmt(CompoundStmt* s)
  {
    if (!ok(s->getSourceRange()))
      return true;
    std::vector<Stmt*> b(s->body_begin(), s->body_end());
    for (size_t i = 0; i < b.size(); i++)
    {
      if (!ok(b[i]->getSourceRange()))
        continue;
      std::string t = stmtText(b[i]);
      Find f;
      f.TraverseStmt(b[i]);
      bool exprOrLoop = isa<Expr>(b[i]) || isa<ForStmt>(b[i]) || isa<CXXForRangeStmt>(b[i]) || isa<IfStmt>(b[i]) || isa<WhileStmt>(b[i]);
      if (exprOrLoop && !f.ret && !f.brk && !f.cont && !f.sb && (t.back() == ';' || t.back() == '}') && t.find('#') == std::string::npos)
      {
        emitS(isa<Expr>(b[i]) ? "iife-expr" : isa<IfStmt>(b[i]) ? "iife-if" : "iife-loop", b[i], "[&]()\n{ " + t + "\n}();");
        if (!isa<Expr>(b[i]))
        {
          std::string n = fresh("step");
          emitS("named-lambda", b[i], "const auto " + n + " = [&]()\n{ " + t + "\n};\n" + n + "();");
        }
      }
      // independent assignments
      if (i + 1 < b.size() && ok(b[i + 1]->getSourceRange()))
      {
        auto* x = dyn_cast<BinaryOperator>(b[i]);
        auto* y = dyn_cast<BinaryOperator>(b[i + 1]);
        if (x && y && x->getOpcode() == BO_Assign && y->getOpcode() == BO_Assign)
        {
          Find fx, fy, lx, ly;
          fx.TraverseStmt(x);
          fy.TraverseStmt(y);
          bool simple = [&] {
            auto* l = x->getLHS()->IgnoreParenImpCasts();
            auto* m = y->getLHS()->IgnoreParenImpCasts();
            auto base = [](Expr* e) { auto* me = dyn_cast<MemberExpr>(e); return isa<DeclRefExpr>(e) || (me && isa<CXXThisExpr>(me->getBase()->IgnoreParenImpCasts())); };
            return base(l) && base(m);
          }();
          if (simple && !fx.call && !fy.call)
          {
            lx.TraverseStmt(x->getLHS());
            ly.TraverseStmt(y->getLHS());
            bool indep = true;
            for (auto* d : lx.refs) if (fy.refs.count(d)) indep = false;
            for (auto* d : ly.refs) if (fx.refs.count(d)) indep = false;
            std::string mid = sm.getBufferData(sm.getFileID(x->getBeginLoc())).substr(stmtEnd(x), off(y->getBeginLoc()) - stmtEnd(x)).str();
            if (indep && mid.find_first_not_of(" \n\t") == std::string::npos)
              emit("reorder", x, off(x->getBeginLoc()), stmtEnd(y), stmtText(y) + "\n" + stmtText(x));
          }
        }
      }
      // arithmetic argument of a call in a local
      if (auto* e = dyn_cast<Expr>(b[i]))
      {
        if (auto* ew = dyn_cast<ExprWithCleanups>(e))
          e = ew->getSubExpr();
        if (auto* ce = dyn_cast<CallExpr>(e))
        {
          for (auto* a : ce->arguments())
          {
            auto* bo = dyn_cast<BinaryOperator>(a->IgnoreImpCasts());
            if (bo && bo->isAdditiveOp() && ok(bo->getSourceRange()) && !bo->isTypeDependent() && bo->getType()->isArithmeticType())
            {
              Find g;
              g.TraverseStmt(bo);
              if (g.call || g.assign)
                continue;
              std::string n = fresh("arg");
              std::string pre = t;
              unsigned o = off(bo->getBeginLoc()) - off(b[i]->getBeginLoc());
              unsigned ln = endOff(bo->getEndLoc()) - off(bo->getBeginLoc());
              if (o + ln > pre.size())
                continue;
              pre.replace(o, ln, n);
              emitS("argvar", b[i], "const auto " + n + " = " + text(bo) + ";\n" + pre);
              break;
            }
          }
        }
      }
      // right side in a local
      if (auto* x = dyn_cast<BinaryOperator>(b[i]))
        if (x->getOpcode() == BO_Assign && !x->isTypeDependent() && x->getLHS()->getType()->isArithmeticType() && x->getRHS()->getType().getUnqualifiedType() == x->getLHS()->getType().getUnqualifiedType())
        {
          Find g;
          g.TraverseStmt(x->getLHS());
          if (!g.call && !g.assign)
          {
            std::string n = fresh("val");
            emitS("rhsvar", x, "const " + x->getLHS()->getType().getUnqualifiedType().getAsString() + " " + n + " = " + text(x->getRHS()) + ";\n" + text(x->getLHS()) + " = " + n + ";");
          }
        }
      if (auto* r = dyn_cast<ReturnStmt>(b[i]))
        if (r->getRetValue() && !r->getRetValue()->isTypeDependent() && r->getRetValue()->getType()->isArithmeticType() && !r->getRetValue()->isLValue())
        {
          std::string n = fresh("ret");
          emitS("retvar", r, "const " + r->getRetValue()->getType().getUnqualifiedType().getAsString() + " " + n + " = " + text(r->getRetValue()) + ";\nreturn " + n + ";");
        }
    }
    return true;
  }
  bool shouldVisitTemplateInstantiations() const { return false; }
  bool shouldVisitImplicitCode() const { return false; }
};

struct Cons : ASTConsumer
{
  void HandleTranslationUnit(ASTContext& c) override
  {
    V v(c);
    for (auto* d : c.getTranslationUnitDecl()->decls())
    {
      SourceLocation l = c.getSourceManager().getExpansionLoc(d->getLocation());
      auto f = c.getSourceManager().getFileEntryRefForID(c.getSourceManager().getFileID(l));
      if (f && f->getName().starts_with(g_root))
        v.TraverseDecl(d);
    }
  }
};
struct Act : ASTFrontendAction
{
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<Cons>(); }
};

int main(int argc, const char** argv)
{
  std::string file = argv[1];
  g_root = argv[2];
  std::vector<std::string> args;
  std::vector<std::pair<std::string, std::string>> mapped;
  for (int i = 3; i < argc; i++)
  {
    std::string a = argv[i];
    if (a.rfind("--map=", 0) == 0)
    {
      auto p = a.substr(6);
      auto eq = p.find('=');
      mapped.emplace_back(p.substr(0, eq), p.substr(eq + 1));
      continue;
    }
    args.push_back(a);
  }
  tooling::FixedCompilationDatabase db(".", args);
  tooling::ClangTool tool(db, {file});
  std::vector<std::string> contents;
  contents.reserve(mapped.size());
  for (auto& m : mapped)
  {
    std::ifstream ifs(m.second);
    std::stringstream ss;
    ss << ifs.rdbuf();
    contents.push_back(ss.str());
    tool.mapVirtualFile(m.first, contents.back());
  }
  return tool.run(tooling::newFrontendActionFactory<Act>().get());
}
