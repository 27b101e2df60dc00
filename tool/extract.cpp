// AST extractor: parses one translation unit and writes, as JSON lines, every
// record and every function body of the analysed repository (template
// instantiations resolved by the front end: callees, fields, types, overrides).
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/Mangle.h>
#include <clang/AST/OpenMPClause.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtOpenMP.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Tooling/Tooling.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <fstream>
#include <set>
#include <map>

using namespace clang;
namespace json = llvm::json;
using json::Array;
using json::Object;
using json::Value;

static std::string g_root;  // repository prefix
static std::string g_out;

namespace {

class Extractor {
 public:
  Extractor(ASTContext& c)
      : ctx(c), sm(c.getSourceManager()), pp(c.getLangOpts()), ng(c) {
    pp.SuppressTagKeyword = true;
    pp.Bool = true;
    pp.FullyQualifiedName = true;
    pp.PrintCanonicalTypes = true;
  }
  ASTContext& ctx;
  SourceManager& sm;
  PrintingPolicy pp;
  ASTNameGenerator ng;
  std::map<const Decl*, int> ids;
  std::set<std::string> doneFn, doneRec;

  int idOf(const Decl* d) {
    d = d->getCanonicalDecl();
    auto it = ids.find(d);
    if (it != ids.end()) return it->second;
    int n = ids.size() + 1;
    ids[d] = n;
    return n;
  }
  bool inRepo(SourceLocation l, std::string* file = nullptr) {
    if (l.isInvalid()) return false;
    PresumedLoc p = sm.getPresumedLoc(sm.getExpansionLoc(l));
    if (p.isInvalid()) return false;
    llvm::StringRef f(p.getFilename());
    if (!f.starts_with(g_root)) return false;
    if (file) *file = f.substr(g_root.size()).ltrim('/').str();
    return true;
  }
  // an explicit instantiation is "located" where it is requested; the class
  // itself lives where its template was written
  bool recInRepo(const RecordDecl* r, std::string* file = nullptr) {
    if (auto* c = dyn_cast<CXXRecordDecl>(r))
      if (const CXXRecordDecl* p = c->getTemplateInstantiationPattern())
        return inRepo(p->getLocation(), file);
    return inRepo(r->getLocation(), file);
  }
  bool fnInRepo(const FunctionDecl* f, std::string* file = nullptr) {
    if (inRepo(f->getLocation(), file)) return true;
    if (const FunctionDecl* p = f->getTemplateInstantiationPattern())
      if (inRepo(p->getLocation(), file)) return true;
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      if (m->isImplicit() || m->isDefaulted())
        return recInRepo(m->getParent(), file);
    }
    return false;
  }
  unsigned line(SourceLocation l) {
    PresumedLoc p = sm.getPresumedLoc(sm.getExpansionLoc(l));
    return p.isInvalid() ? 0 : p.getLine();
  }
  std::string recName(const RecordDecl* r) {
    // short name with template args when repo/short, else template name only
    std::string s;
    if (auto* cts = dyn_cast<ClassTemplateSpecializationDecl>(r)) {
      std::string q = cts->getQualifiedNameAsString();
      std::string full =
          ctx.getTypeDeclType(r).getCanonicalType().getAsString(pp);
      if (full.size() <= 140) return full;
      return q + "<...>";
    }
    s = r->getQualifiedNameAsString();
    return s;
  }
  std::string typeStr(QualType t) {
    if (t.isNull()) return "?";
    t = t.getCanonicalType();
    std::string suf;
    QualType u = t;
    if (u->isLValueReferenceType()) {
      suf = "&";
      u = u->getPointeeType();
    } else if (u->isRValueReferenceType()) {
      suf = "&&";
      u = u->getPointeeType();
    }
    std::string s = u.getAsString(pp);
    if (s.size() > 220) {
      std::string c = u.isConstQualified() ? "const " : "";
      if (const auto* rd = u->getAsRecordDecl()) {
        s = c + rd->getQualifiedNameAsString() + "<...>";
        // keep compile-time-ish hint of the plain object type
      } else if (u->isPointerType()) {
        s = c + "ptr<...>";
      } else
        s = s.substr(0, 220) + "...";
    }
    return s + suf;
  }
  std::string fnName(const FunctionDecl* f) {
    std::string n;
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      std::string file;
      const CXXRecordDecl* r = m->getParent();
      if (recInRepo(r))
        n = recName(r) + "::";
      else
        n = r->getQualifiedNameAsString() + "::";
      if (isa<CXXConstructorDecl>(f))
        n += "<ctor>";
      else if (isa<CXXDestructorDecl>(f))
        n += "<dtor>";
      else
        n += f->getDeclName().getAsString().substr(0, 80);
    } else
      n = f->getQualifiedNameAsString();
    return n;
  }
  std::string fnKey(const FunctionDecl* f) {
    if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
      std::string s = "C:" + recName(c->getParent()) + "(";
      for (auto* p : c->parameters()) s += typeStr(p->getType()) + ",";
      s += ")";
      if (auto* ta = c->getTemplateSpecializationArgs())
        for (auto& a : ta->asArray())
          if (a.getKind() == TemplateArgument::Type)
            s += "|" + typeStr(a.getAsType());
      return s;
    }
    if (isa<CXXDestructorDecl>(f))
      return "D:" + recName(cast<CXXDestructorDecl>(f)->getParent());
    std::string s = ng.getName(f);
    if (s.empty()) s = f->getQualifiedNameAsString();
    return s;
  }

  Value nul() { return nullptr; }

  Object base(const char* k, SourceLocation l) {
    Object o;
    o["k"] = k;
    o["l"] = (int)line(l);
    return o;
  }

  Value varDecl(const VarDecl* v) {
    Object o;
    o["id"] = idOf(v);
    o["n"] = v->getNameAsString();
    o["t"] = typeStr(v->getType());
    o["l"] = (int)line(v->getLocation());
    if (v->isStaticLocal()) o["static"] = true;
    if (v->hasInit()) {
      const Expr* e = v->getInit();
      o["i"] = expr(e);
      if (v->getInitStyle() == VarDecl::CallInit) o["ci"] = true;
    }
    return Value(std::move(o));
  }

  Array args(llvm::iterator_range<CallExpr::const_arg_iterator> r) {
    Array a;
    for (auto* e : r) a.push_back(expr(e));
    return a;
  }

  const Expr* strip(const Expr* e) {
    while (e) {
      if (auto* x = dyn_cast<ParenExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<ImplicitCastExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<ExprWithCleanups>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = x->getReplacement();
      else if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) e = x->getExpr();
      else if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) e = x->getExpr();
      else if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<ConstantExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<OpaqueValueExpr>(e)) {
        if (!x->getSourceExpr()) return e;
        e = x->getSourceExpr();
      }
      else break;
    }
    return e;
  }

  Value expr(const Expr* e0) {
    if (!e0) return nul();
    const Expr* e = strip(e0);
    SourceLocation L = e->getBeginLoc();
    auto T = [&](Object& o) { o["t"] = typeStr(e->getType()); };
    if (isa<CXXThisExpr>(e)) {
      Object o = base("this", L);
      return Value(std::move(o));
    }
    if (auto* x = dyn_cast<DeclRefExpr>(e)) {
      const ValueDecl* d = x->getDecl();
      if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
        Object o = base("enum", L);
        o["n"] = ec->getNameAsString();
        o["v"] = (int64_t)ec->getInitVal().getExtValue();
        T(o);
        return Value(std::move(o));
      }
      if (auto* fd = dyn_cast<FunctionDecl>(d)) {
        Object o = base("fn", L);
        o["n"] = fnName(fd);
        o["id"] = fnKey(fd);
        return Value(std::move(o));
      }
      Object o = base("var", L);
      o["id"] = idOf(d);
      o["n"] = d->getNameAsString();
      std::string vk = "local";
      if (isa<ParmVarDecl>(d)) vk = "param";
      else if (auto* vd = dyn_cast<VarDecl>(d)) {
        if (vd->isStaticLocal()) vk = "static";
        else if (vd->hasGlobalStorage()) {
          vk = "global";
          o["n"] = d->getQualifiedNameAsString();
        }
      }
      o["vk"] = vk;
      T(o);
      return Value(std::move(o));
    }
    if (auto* x = dyn_cast<MemberExpr>(e)) {
      if (auto* fd = dyn_cast<FieldDecl>(x->getMemberDecl())) {
        Object o = base("mem", x->getMemberLoc());
        o["b"] = expr(x->getBase());
        o["n"] = fd->getNameAsString();
        o["c"] = recInRepo(fd->getParent())
                     ? recName(fd->getParent())
                     : fd->getParent()->getQualifiedNameAsString();
        if (x->isArrow()) o["a"] = true;
        T(o);
        return Value(std::move(o));
      }
      if (auto* vd = dyn_cast<VarDecl>(x->getMemberDecl())) {
        Object o = base("var", L);
        o["id"] = idOf(vd);
        o["n"] = vd->getQualifiedNameAsString();
        o["vk"] = "global";
        T(o);
        return Value(std::move(o));
      }
      Object o = base("memfn", L);
      o["b"] = expr(x->getBase());
      o["n"] = x->getMemberDecl()->getNameAsString();
      return Value(std::move(o));
    }
    if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
      Object o = base("call", x->getExprLoc());
      const CXXMethodDecl* m = x->getMethodDecl();
      if (m) {
        o["fn"] = fnName(m);
        if (fnInRepo(m)) o["id"] = fnKey(m);
        o["o"] = expr(x->getImplicitObjectArgument());
        bool virt = m->isVirtual();
        if (auto* me = dyn_cast<MemberExpr>(strip(x->getCallee()))) {
          if (me->hasQualifier()) virt = false;
          if (me->isArrow()) o["ar"] = true;
        }
        if (virt) o["v"] = true;
        if (m->isConst()) o["const"] = true;
        std::string pt;
      } else {
        o["fn"] = "?";
        o["o"] = expr(x->getCallee());
      }
      o["a"] = args(x->arguments());
      if (m) {
        Array nc;
        unsigned i = 0;
        for (auto* p : m->parameters()) {
          QualType q = p->getType();
          if (q->isLValueReferenceType() &&
              !q->getPointeeType().isConstQualified())
            nc.push_back((int)i);
          ++i;
        }
        if (!nc.empty()) o["mr"] = std::move(nc);
      }
      T(o);
      return Value(std::move(o));
    }
    if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
      Object o = base("opcall", x->getOperatorLoc());
      o["op"] = getOperatorSpelling(x->getOperator());
      if (auto* fd = x->getDirectCallee()) {
        o["fn"] = fnName(fd);
        if (fnInRepo(fd)) o["id"] = fnKey(fd);
        if (auto* m = dyn_cast<CXXMethodDecl>(fd)) {
          o["m"] = true;
          if (m->isConst()) o["const"] = true;
          if (m->isVirtual()) o["v"] = true;
        }
      }
      o["a"] = args(x->arguments());
      T(o);
      return Value(std::move(o));
    }
    if (auto* x = dyn_cast<CallExpr>(e)) {
      Object o = base("call", L);
      if (auto* fd = x->getDirectCallee()) {
        o["fn"] = fnName(fd);
        if (fnInRepo(fd)) o["id"] = fnKey(fd);
        Array nc;
        unsigned i = 0;
        for (auto* p : fd->parameters()) {
          QualType q = p->getType();
          if (q->isLValueReferenceType() &&
              !q->getPointeeType().isConstQualified())
            nc.push_back((int)i);
          ++i;
        }
        if (!nc.empty()) o["mr"] = std::move(nc);
        if (auto* ta = fd->getTemplateSpecializationArgs()) {
          Array t;
          for (auto& a : ta->asArray())
            if (a.getKind() == TemplateArgument::Type)
              t.push_back(typeStr(a.getAsType()));
          o["ta"] = std::move(t);
        }
      } else {
        o["fn"] = "?";
        o["o"] = expr(x->getCallee());
      }
      o["a"] = args(x->arguments());
      T(o);
      return Value(std::move(o));
    }
    if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
      // elide copies/moves of the same class
      auto* cd = x->getConstructor();
      if ((cd->isCopyOrMoveConstructor()) && x->getNumArgs() == 1 &&
          !recInRepo(cd->getParent()))
        return expr(x->getArg(0));
      Object o = base("ctor", L);
      o["c"] = recName(cd->getParent());
      if (recInRepo(cd->getParent())) o["id"] = fnKey(cd);
      if (cd->isCopyOrMoveConstructor()) o["copy"] = true;
      Array a;
      for (auto* y : x->arguments()) a.push_back(expr(y));
      o["a"] = std::move(a);
      T(o);
      return Value(std::move(o));
    }
    if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
      Object o = base("ctor", L);
      o["c"] = recName(x->getConstructor()->getParent());
      o["id"] = fnKey(x->getConstructor());
      o["inh"] = true;
      o["a"] = Array();
      T(o);
      return Value(std::move(o));
    }
    if (auto* x = dyn_cast<BinaryOperator>(e)) {
      Object o = base("bin", x->getOperatorLoc());
      o["op"] = x->getOpcodeStr().str();
      o["lh"] = expr(x->getLHS());
      o["rh"] = expr(x->getRHS());
      T(o);
      return Value(std::move(o));
    }
    if (auto* x = dyn_cast<UnaryOperator>(e)) {
      Object o = base("un", L);
      o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      if (x->isPostfix()) o["post"] = true;
      o["e"] = expr(x->getSubExpr());
      T(o);
      return Value(std::move(o));
    }
    if (auto* x = dyn_cast<AbstractConditionalOperator>(e)) {
      Object o = base("cond", L);
      o["c"] = expr(x->getCond());
      o["x"] = expr(x->getTrueExpr());
      o["y"] = expr(x->getFalseExpr());
      T(o);
      return Value(std::move(o));
    }
    if (auto* x = dyn_cast<ExplicitCastExpr>(e)) {
      Object o = base("cast", L);
      const char* ck = "c";
      if (isa<CXXStaticCastExpr>(x)) ck = "static";
      else if (isa<CXXDynamicCastExpr>(x)) ck = "dynamic";
      else if (isa<CXXReinterpretCastExpr>(x)) ck = "reinterpret";
      else if (isa<CXXConstCastExpr>(x)) ck = "const";
      else if (isa<CXXFunctionalCastExpr>(x)) ck = "func";
      o["ck"] = ck;
      o["e"] = expr(x->getSubExpr());
      T(o);
      return Value(std::move(o));
    }
    if (auto* x = dyn_cast<IntegerLiteral>(e)) {
      Object o = base("lit", L);
      o["v"] = (int64_t)x->getValue().getLimitedValue();
      return Value(std::move(o));
    }
    if (auto* x = dyn_cast<FloatingLiteral>(e)) {
      Object o = base("lit", L);
      o["v"] = x->getValueAsApproximateDouble();
      return Value(std::move(o));
    }
    if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) {
      Object o = base("lit", L);
      o["v"] = x->getValue();
      return Value(std::move(o));
    }
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) {
      Object o = base("lit", L);
      o["v"] = nullptr;
      o["null"] = true;
      return Value(std::move(o));
    }
    if (auto* x = dyn_cast<StringLiteral>(e)) {
      Object o = base("str", L);
      if (x->isOrdinary() || x->isUTF8()) {
        std::string s = x->getString().str();
        if (!json::isUTF8(s)) s = json::fixUTF8(s);
        o["v"] = s;
      } else
        o["v"] = "";
      return Value(std::move(o));
    }
    if (auto* x = dyn_cast<CharacterLiteral>(e)) {
      Object o = base("lit", L);
      o["v"] = (int64_t)x->getValue();
      return Value(std::move(o));
    }
    if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) {
      Object o = base("idx", L);
      o["b"] = expr(x->getBase());
      o["i"] = expr(x->getIdx());
      T(o);
      return Value(std::move(o));
    }
    if (auto* x = dyn_cast<CXXThrowExpr>(e)) {
      Object o = base("throw", L);
      o["e"] = expr(x->getSubExpr());
      return Value(std::move(o));
    }
    if (auto* x = dyn_cast<CXXNewExpr>(e)) {
      Object o = base("new", L);
      o["t"] = typeStr(x->getAllocatedType());
      o["i"] = expr(x->getInitializer());
      if (x->getNumPlacementArgs() == 1)
        o["p"] = expr(x->getPlacementArg(0)->IgnoreParenImpCasts());
      return Value(std::move(o));
    }
    if (auto* x = dyn_cast<CXXDeleteExpr>(e)) {
      Object o = base("del", L);
      o["e"] = expr(x->getArgument());
      return Value(std::move(o));
    }
    if (auto* x = dyn_cast<CXXTypeidExpr>(e)) {
      Object o = base("typeid", L);
      if (!x->isTypeOperand()) o["e"] = expr(x->getExprOperand());
      return Value(std::move(o));
    }
    if (auto* x = dyn_cast<InitListExpr>(e)) {
      Object o = base("ilist", L);
      Array a;
      for (auto* y : x->inits()) a.push_back(expr(y));
      o["a"] = std::move(a);
      T(o);
      return Value(std::move(o));
    }
    if (auto* x = dyn_cast<LambdaExpr>(e)) {
      Object o = base("lambda", L);
      o["b"] = stmt(x->getBody());
      Array ps;
      for (auto* p : x->getCallOperator()->parameters())
        ps.push_back(varDecl(p));
      o["p"] = std::move(ps);
      Array cs;
      for (auto& c : x->captures()) {
        Object co;
        if (c.capturesVariable()) {
          co["id"] = idOf(c.getCapturedVar());
          co["n"] = c.getCapturedVar()->getNameAsString();
        } else if (c.capturesThis())
          co["this"] = true;
        co["ref"] = c.getCaptureKind() == LCK_ByRef;
        cs.push_back(Value(std::move(co)));
      }
      o["caps"] = std::move(cs);
      return Value(std::move(o));
    }
    if (isa<CXXScalarValueInitExpr>(e) || isa<ImplicitValueInitExpr>(e)) {
      Object o = base("zero", L);
      T(o);
      return Value(std::move(o));
    }
    if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
      Object o = base("sizeof", L);
      (void)x;
      return Value(std::move(o));
    }
    Object o = base("unk", L);
    o["cls"] = e->getStmtClassName();
    Array ch;
    for (auto* c : e->children())
      if (auto* ce = dyn_cast_or_null<Expr>(c)) ch.push_back(expr(ce));
    o["ch"] = std::move(ch);
    return Value(std::move(o));
  }

  Value stmt(const Stmt* s) {
    if (!s) return nul();
    SourceLocation L = s->getBeginLoc();
    if (auto* x = dyn_cast<CompoundStmt>(s)) {
      Object o = base("block", L);
      Array a;
      for (auto* c : x->body()) a.push_back(stmt(c));
      o["s"] = std::move(a);
      o["e"] = (int)line(x->getRBracLoc());
      return Value(std::move(o));
    }
    if (auto* x = dyn_cast<DeclStmt>(s)) {
      Object o = base("decl", L);
      Array a;
      for (auto* d : x->decls())
        if (auto* v = dyn_cast<VarDecl>(d)) a.push_back(varDecl(v));
      o["d"] = std::move(a);
      return Value(std::move(o));
    }
    if (auto* x = dyn_cast<IfStmt>(s)) {
      Object o = base("if", L);
      if (x->getInit()) o["init"] = stmt(x->getInit());
      if (x->getConditionVariableDeclStmt())
        o["cv"] = stmt(x->getConditionVariableDeclStmt());
      o["c"] = expr(x->getCond());
      o["x"] = stmt(x->getThen());
      o["y"] = stmt(x->getElse());
      return Value(std::move(o));
    }
    if (auto* x = dyn_cast<ForStmt>(s)) {
      Object o = base("for", L);
      o["i"] = stmt(x->getInit());
      o["c"] = expr(x->getCond());
      o["n"] = expr(x->getInc());
      o["b"] = stmt(x->getBody());
      return Value(std::move(o));
    }
    if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
      Object o = base("rfor", L);
      o["v"] = varDecl(x->getLoopVariable());
      o["r"] = expr(x->getRangeInit());
      o["b"] = stmt(x->getBody());
      return Value(std::move(o));
    }
    if (auto* x = dyn_cast<WhileStmt>(s)) {
      Object o = base("while", L);
      o["c"] = expr(x->getCond());
      o["b"] = stmt(x->getBody());
      return Value(std::move(o));
    }
    if (auto* x = dyn_cast<DoStmt>(s)) {
      Object o = base("do", L);
      o["c"] = expr(x->getCond());
      o["b"] = stmt(x->getBody());
      return Value(std::move(o));
    }
    if (auto* x = dyn_cast<SwitchStmt>(s)) {
      Object o = base("switch", L);
      o["c"] = expr(x->getCond());
      o["b"] = stmt(x->getBody());
      o["all"] = x->isAllEnumCasesCovered();
      return Value(std::move(o));
    }
    if (auto* x = dyn_cast<CaseStmt>(s)) {
      Object o = base("case", L);
      o["v"] = expr(x->getLHS());
      Expr::EvalResult r;
      if (x->getLHS()->EvaluateAsInt(r, ctx))
        o["iv"] = (int64_t)r.Val.getInt().getExtValue();
      o["b"] = stmt(x->getSubStmt());
      return Value(std::move(o));
    }
    if (auto* x = dyn_cast<DefaultStmt>(s)) {
      Object o = base("default", L);
      o["b"] = stmt(x->getSubStmt());
      return Value(std::move(o));
    }
    if (isa<BreakStmt>(s)) return Value(base("break", L));
    if (isa<ContinueStmt>(s)) return Value(base("continue", L));
    if (auto* x = dyn_cast<ReturnStmt>(s)) {
      Object o = base("ret", L);
      o["e"] = expr(x->getRetValue());
      return Value(std::move(o));
    }
    if (auto* x = dyn_cast<CXXTryStmt>(s)) {
      Object o = base("try", L);
      o["b"] = stmt(x->getTryBlock());
      Array a;
      for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
        auto* h = x->getHandler(i);
        Object ho;
        ho["t"] = h->getExceptionDecl() ? typeStr(h->getCaughtType()) : "...";
        ho["b"] = stmt(h->getHandlerBlock());
        a.push_back(Value(std::move(ho)));
      }
      o["h"] = std::move(a);
      return Value(std::move(o));
    }
    if (isa<NullStmt>(s)) return Value(base("null", L));
    if (auto* x = dyn_cast<OMPExecutableDirective>(s)) {
      Object o = base("omp", L);
      o["n"] = x->getStmtClassName();
      Array cl;
      for (auto* c : x->clauses()) {
        Object co;
        co["k"] = (int)c->getClauseKind();
        co["n"] = llvm::omp::getOpenMPClauseName(c->getClauseKind()).str();
        Array vars;
        for (auto* ch : c->children())
          if (auto* ce = dyn_cast_or_null<Expr>(ch)) vars.push_back(expr(ce));
        co["v"] = std::move(vars);
        cl.push_back(Value(std::move(co)));
      }
      o["cl"] = std::move(cl);
      if (x->hasAssociatedStmt())
        o["b"] = stmt(x->getInnermostCapturedStmt()->getCapturedStmt());
      return Value(std::move(o));
    }
    if (auto* x = dyn_cast<CapturedStmt>(s)) return stmt(x->getCapturedStmt());
    if (auto* x = dyn_cast<AttributedStmt>(s)) return stmt(x->getSubStmt());
    if (auto* x = dyn_cast<LabelStmt>(s)) return stmt(x->getSubStmt());
    if (auto* x = dyn_cast<Expr>(s)) {
      Object o = base("expr", L);
      o["e"] = expr(x);
      return Value(std::move(o));
    }
    Object o = base("unks", L);
    o["cls"] = s->getStmtClassName();
    return Value(std::move(o));
  }

  void emit(Object o, llvm::raw_ostream& os) {
    os << Value(std::move(o)) << "\n";
  }

  void doRecord(const CXXRecordDecl* r, llvm::raw_ostream& os) {
    if (!r->isThisDeclarationADefinition() || r->isDependentContext() ||
        r->isLambda())
      return;
    std::string file;
    if (!recInRepo(r, &file)) return;
    std::string n = recName(r);
    if (!doneRec.insert(n).second) return;
    Object o;
    o["R"] = n;
    o["file"] = file;
    o["l"] = (int)line(r->getLocation());
    Array fs;
    for (auto* f : r->fields()) {
      Object fo;
      fo["n"] = f->getNameAsString();
      fo["t"] = typeStr(f->getType());
      fo["l"] = (int)line(f->getLocation());
      fo["acc"] = (int)f->getAccess();
      if (f->isMutable()) fo["mut"] = true;
      if (f->hasInClassInitializer()) fo["init"] = true;
      QualType q = f->getType().getCanonicalType();
      const char* cat = "other";
      if (q->isPointerType()) cat = "ptr";
      else if (q->isReferenceType()) cat = "ref";
      else if (q->isBooleanType()) cat = "bool";
      else if (q->isEnumeralType()) cat = "enum";
      else if (q->isIntegerType()) cat = "int";
      else if (q->isFloatingType()) cat = "float";
      else if (q->isRecordType()) cat = "record";
      fo["cat"] = cat;
      fs.push_back(Value(std::move(fo)));
    }
    o["fields"] = std::move(fs);
    Array sv;
    for (auto* d : r->decls())
      if (auto* v = dyn_cast<VarDecl>(d)) sv.push_back(v->getNameAsString());
    o["statics"] = std::move(sv);
    Array bs;
    for (auto& b : r->bases()) {
      Object bo;
      if (auto* br = b.getType()->getAsCXXRecordDecl()) {
        bo["n"] = recInRepo(br) ? recName(br)
                                            : br->getQualifiedNameAsString();
        bo["v"] = b.isVirtual();
        bs.push_back(Value(std::move(bo)));
      }
    }
    o["bases"] = std::move(bs);
    o["abstract"] = r->isAbstract();
    Array ms;
    for (auto* m : r->methods()) {
      if (m->isImplicit() && !isa<CXXConstructorDecl>(m)) continue;
      Object mo;
      mo["n"] = fnName(m).substr(fnName(m).rfind("::") + 2);
      mo["id"] = fnKey(m);
      mo["acc"] = (int)m->getAccess();
      if (m->isVirtual()) mo["v"] = true;
      if (m->isPureVirtual()) mo["pure"] = true;
      if (m->isConst()) mo["const"] = true;
      if (m->isStatic()) mo["st"] = true;
      if (m->isImplicit()) mo["impl"] = true;
      if (m->isDefaulted()) mo["dflt"] = true;
      if (m->isDeleted()) mo["deleted"] = true;
      if (auto* c = dyn_cast<CXXConstructorDecl>(m)) {
        if (c->isCopyConstructor()) mo["copy"] = true;
        if (c->isMoveConstructor()) mo["move"] = true;
      }
      mo["l"] = (int)line(m->getLocation());
      Array ps;
      for (auto* p : m->parameters()) {
        Object po;
        po["n"] = p->getNameAsString();
        po["t"] = typeStr(p->getType());
        ps.push_back(Value(std::move(po)));
      }
      mo["p"] = std::move(ps);
      mo["rt"] = typeStr(m->getReturnType());
      Array ov;
      for (auto* b : m->overridden_methods()) ov.push_back(fnKey(b));
      if (!ov.empty()) mo["ov"] = std::move(ov);
      ms.push_back(Value(std::move(mo)));
    }
    o["methods"] = std::move(ms);
    emit(std::move(o), os);
  }

  void doFunction(const FunctionDecl* f, llvm::raw_ostream& os) {
    if (!f->isThisDeclarationADefinition() || f->isDependentContext()) return;
    if (f->isDeleted()) return;
    std::string file;
    if (!fnInRepo(f, &file)) return;
    if (f->getOverloadedOperator() == OO_New || f->getOverloadedOperator() == OO_Delete ||
        f->getOverloadedOperator() == OO_Array_New || f->getOverloadedOperator() == OO_Array_Delete)
      return;
    const Stmt* body = f->getBody();
    if (!body) return;
    if (f->isDefaulted()) return;
    std::string key = fnKey(f);
    if (!doneFn.insert(key).second) return;
    Object o;
    o["F"] = fnName(f);
    o["id"] = key;
    o["file"] = file;
    o["l"] = (int)line(f->getLocation());
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      if (m->getParent()->isLambda()) return;
      o["c"] = recName(m->getParent());
      if (m->isVirtual()) o["v"] = true;
      if (m->isConst()) o["const"] = true;
      if (m->isStatic()) o["st"] = true;
      o["acc"] = (int)m->getAccess();
      Array ov;
      for (auto* b : m->overridden_methods()) ov.push_back(fnKey(b));
      if (!ov.empty()) o["ov"] = std::move(ov);
    }
    Array ps;
    for (auto* p : f->parameters()) {
      Object po;
      po["id"] = idOf(p);
      po["n"] = p->getNameAsString();
      po["t"] = typeStr(p->getType());
      ps.push_back(Value(std::move(po)));
    }
    o["p"] = std::move(ps);
    o["rt"] = typeStr(f->getReturnType());
    if (auto* ta = f->getTemplateSpecializationArgs()) {
      Array t;
      for (auto& a : ta->asArray())
        if (a.getKind() == TemplateArgument::Type)
          t.push_back(typeStr(a.getAsType()));
      o["ta"] = std::move(t);
    }
    if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
      o["ctor"] = true;
      if (c->isCopyConstructor()) o["copy"] = true;
      Array is;
      for (auto* i : c->inits()) {
        Object io;
        if (i->isAnyMemberInitializer())
          io["m"] = i->getAnyMember()->getNameAsString();
        else if (i->isBaseInitializer())
          io["base"] = typeStr(QualType(i->getBaseClass(), 0));
        else
          io["deleg"] = true;
        io["w"] = i->isWritten();
        io["l"] = (int)line(i->getSourceLocation());
        io["e"] = expr(i->getInit());
        is.push_back(Value(std::move(io)));
      }
      o["inits"] = std::move(is);
    }
    if (isa<CXXDestructorDecl>(f)) o["dtor"] = true;
    o["b"] = stmt(body);
    emit(std::move(o), os);
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
 public:
  Visitor(Extractor& x, llvm::raw_ostream& o) : x(x), os(o) {}
  Extractor& x;
  llvm::raw_ostream& os;
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool TraverseStmt(Stmt*, DataRecursionQueue* = nullptr) { return true; }
  bool VisitFunctionDecl(FunctionDecl* f) {
    x.doFunction(f, os);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* r) {
    x.doRecord(r, os);
    return true;
  }
  bool VisitEnumDecl(EnumDecl* e) {
    std::string file;
    if (!e->isThisDeclarationADefinition() || !x.inRepo(e->getLocation(), &file))
      return true;
    if (e->isDependentContext()) return true;
    Object o;
    o["E"] = e->getQualifiedNameAsString();
    o["file"] = file;
    Array a;
    for (auto* c : e->enumerators()) {
      Object co;
      co["n"] = c->getNameAsString();
      co["v"] = (int64_t)c->getInitVal().getExtValue();
      a.push_back(Value(std::move(co)));
    }
    o["v"] = std::move(a);
    x.emit(std::move(o), os);
    return true;
  }
  bool VisitVarDecl(VarDecl* v) {
    std::string file;
    if (!v->hasGlobalStorage() || v->isStaticLocal() || isa<ParmVarDecl>(v))
      return true;
    if (!x.inRepo(v->getLocation(), &file)) return true;
    if (v->getDeclContext()->isDependentContext()) return true;
    Object o;
    o["G"] = v->getQualifiedNameAsString();
    o["file"] = file;
    o["l"] = (int)x.line(v->getLocation());
    o["t"] = x.typeStr(v->getType());
    o["const"] = v->getType().isConstQualified() || v->isConstexpr();
    x.emit(std::move(o), os);
    return true;
  }
};

class Consumer : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext& c) override {
    std::error_code ec;
    llvm::raw_fd_ostream os(g_out, ec);
    Extractor x(c);
    Visitor v(x, os);
    v.TraverseDecl(c.getTranslationUnitDecl());
  }
};
class Action : public ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&,
                                                 llvm::StringRef) override {
    return std::make_unique<Consumer>();
  }
};
}  // namespace

int main(int argc, const char** argv) {
  // extract ROOT OUT FILE -- flags...
  if (argc < 5) return 2;
  g_root = argv[1];
  g_out = argv[2];
  std::string file = argv[3];
  std::vector<std::string> flags(argv + 5, argv + argc);
  clang::tooling::FixedCompilationDatabase db(".", flags);
  clang::tooling::ClangTool tool(db, {file});
  return tool.run(clang::tooling::newFrontendActionFactory<Action>().get());
}
