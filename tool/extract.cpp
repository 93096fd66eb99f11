// Typed-AST extractor: parses one translation unit with clang and writes every
// non-dependent function body (template instantiations included) that is
// defined below one of the given roots as JSON.
// usage: extract OUT.json ROOT[,ROOT...] SRC -- clang-args
#include <clang/AST/AST.h>
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtOpenMP.h>
#include <clang/AST/OpenMPClause.h>
#include <clang/AST/ExprCXX.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Tooling/Tooling.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <fstream>
#include <map>
#include <set>

using namespace clang;
namespace J = llvm::json;

static std::string OutFile;
static std::vector<std::string> Roots;

namespace {

struct Dumper {
  ASTContext& C;
  SourceManager& SM;
  PrintingPolicy PP;
  std::map<const Decl*, int64_t> ids;
  std::vector<const FunctionDecl*> queue;
  std::set<const FunctionDecl*> seen;
  std::set<const CXXRecordDecl*> recs;
  std::vector<const CXXRecordDecl*> recq;
  std::set<std::string> unkKinds;

  Dumper(ASTContext& C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
  }

  int64_t id(const Decl* d) {
    d = d->getCanonicalDecl();
    auto it = ids.find(d);
    if (it != ids.end()) return it->second;
    int64_t n = ids.size() + 1;
    ids[d] = n;
    return n;
  }

  std::string file(SourceLocation l) {
    l = SM.getFileLoc(l);
    auto p = SM.getPresumedLoc(l, false);
    if (p.isInvalid()) return "";
    std::string f = p.getFilename();
    if (auto FE = SM.getFileEntryForID(SM.getFileID(l))) {
      auto rp = FE->tryGetRealPathName();
      if (!rp.empty()) f = rp.str();
    }
    return f;
  }
  int line(SourceLocation l) { return SM.getPresumedLineNumber(SM.getFileLoc(l)); }

  bool inRoots(SourceLocation l) {
    if (l.isInvalid()) return false;
    std::string f = file(l);
    for (auto& r : Roots)
      if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }

  std::string ty(QualType t) {
    if (t.isNull()) return "";
    std::string s = t.getCanonicalType().getAsString(PP);
    if (s.size() > 600) s = s.substr(0, 600) + "...";
    return s;
  }

  std::string targ(const TemplateArgument& a) {
    std::string s;
    llvm::raw_string_ostream os(s);
    a.print(PP, os, false);
    os.flush();
    if (s.size() > 400) s = s.substr(0, 400) + "...";
    return s;
  }
  void targList(J::Array& out, llvm::ArrayRef<TemplateArgument> as) {
    for (auto& a : as) {
      if (a.getKind() == TemplateArgument::Pack)
        targList(out, a.getPackAsArray());
      else
        out.push_back(targ(a));
    }
  }

  std::string qname(const NamedDecl* d) {
    if (auto* r = dyn_cast<CXXRecordDecl>(d); r && r->isLambda()) return "(lambda)";
    std::string s;
    llvm::raw_string_ostream os(s);
    PrintingPolicy P2 = PP;
    P2.SuppressUnwrittenScope = true;
    d->printQualifiedName(os, P2);
    os.flush();
    return s;
  }

  static const char* pkind(QualType t) {
    if (t->isLValueReferenceType()) return t->getPointeeType().isConstQualified() ? "cr" : "r";
    if (t->isRValueReferenceType()) return t->getPointeeType().isConstQualified() ? "cr" : "rr";
    if (t->isPointerType()) return t->getPointeeType().isConstQualified() ? "cp" : "p";
    return "v";
  }

  J::Object fnref(const FunctionDecl* f) {
    J::Object o;
    o["qn"] = qname(f);
    J::Array pk;
    for (auto* p : f->parameters()) pk.push_back(pkind(p->getType()));
    o["pk"] = std::move(pk);
    o["rk"] = pkind(f->getReturnType());
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      o["mem"] = true;
      if (m->isStatic()) o["static"] = true;
      if (m->isConst()) o["const"] = true;
      auto* r = m->getParent();
      if (r->isLambda()) {
        o["lambdacls"] = id(r);
      }
      if (auto* cts = dyn_cast<ClassTemplateSpecializationDecl>(r)) {
        J::Array a;
        targList(a, cts->getTemplateArgs().asArray());
        o["cta"] = std::move(a);
      }
    }
    if (auto* ta = f->getTemplateSpecializationArgs()) {
      J::Array a;
      targList(a, ta->asArray());
      o["ta"] = std::move(a);
    }
    const FunctionDecl* def = nullptr;
    f->hasBody(def);
    if (!def) def = f->getDefinition();
    bool implicitCtor = false;
    if (!def && isa<CXXConstructorDecl>(f) && (f->isImplicit() || f->isDefaulted())) implicitCtor = true;
    if (def && inRoots(def->getLocation()) && !def->isDependentContext()) {
      o["fn"] = id(def);
      enqueue(def);
    } else if (implicitCtor && inRoots(f->getLocation())) {
      o["fn"] = id(f);
      enqueue(f);
    }
    return o;
  }

  void enqueue(const FunctionDecl* f) {
    if (!seen.insert(f->getCanonicalDecl()).second) return;
    queue.push_back(f);
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) rec(m->getParent());
  }
  void rec(const CXXRecordDecl* r) {
    if (!r) return;
    r = r->getDefinition();
    if (!r || r->isDependentType() || r->isLambda() || !inRoots(r->getLocation())) return;
    if (recs.insert(r).second) recq.push_back(r);
  }

  J::Value lit(const llvm::APSInt& v) {
    J::Object o;
    o["k"] = "lit";
    llvm::SmallString<32> s;
    v.toString(s, 10);
    o["v"] = s.str().str();
    o["lt"] = "i";
    return o;
  }

  bool interesting(QualType t) { return true; }

  J::Array exprs(llvm::iterator_range<CallExpr::const_arg_iterator> r) {
    J::Array a;
    for (auto* e : r) a.push_back(ex(e));
    return a;
  }

  J::Object at(const Stmt* s) {
    J::Object o;
    o["l"] = line(s->getBeginLoc());
    return o;
  }

  // the construction of an r that a standard library factory function leads to
  const CXXConstructExpr* constructed(const FunctionDecl* f, const CXXRecordDecl* r) {
    std::vector<const FunctionDecl*> q{f};
    std::set<const FunctionDecl*> done;
    for (size_t i = 0; i < q.size() && i < 400; i++) {
      const FunctionDecl* d = nullptr;
      if (!q[i]->hasBody(d) || !done.insert(d->getCanonicalDecl()).second) continue;
      std::vector<const Stmt*> st{d->getBody()};
      if (auto* c = dyn_cast<CXXConstructorDecl>(d))
        for (auto* in : c->inits()) st.push_back(in->getInit());
      while (!st.empty()) {
        auto* s = st.back();
        st.pop_back();
        if (!s) continue;
        if (auto* c = dyn_cast<CXXConstructExpr>(s)) {
          if (c->getConstructor()->getParent()->getCanonicalDecl() == r->getCanonicalDecl()) return c;
          q.push_back(c->getConstructor());
        }
        if (auto* c = dyn_cast<CallExpr>(s))
          if (auto* g = c->getDirectCallee()) q.push_back(g);
        for (auto* y : s->children()) st.push_back(y);
      }
    }
    return nullptr;
  }
  int iniDepth = 0;
  J::Value vref(const ValueDecl* d) {
    J::Object o;
    o["k"] = "var";
    o["id"] = id(d);
    o["n"] = d->getNameAsString();
    o["t"] = ty(d->getType());
    if (auto* v = dyn_cast<VarDecl>(d)) {
      if (isa<ParmVarDecl>(v))
        o["sc"] = "param";
      else if (v->isStaticLocal())
        o["sc"] = "static";
      else if (v->isLocalVarDecl())
        o["sc"] = "local";
      else {
        o["sc"] = "global";
        o["qn"] = qname(v);
        // a constant: carry its initial value along (evaluated symbolically, so a non-constant initialiser stays visible)
        if (v->getType().isConstQualified() && iniDepth < 4) {
          const VarDecl* def = nullptr;
          if (const Expr* in = v->getAnyInitializer(def)) {
            if (!in->isValueDependent() && !in->isTypeDependent()) {
              iniDepth++;
              o["ini"] = ex(in);
              iniDepth--;
            }
          }
        }
      }
      if (v->getType().getNonReferenceType().isConstQualified()) o["cst"] = true;
    } else if (isa<BindingDecl>(d))
      o["sc"] = "bind";
    else if (isa<FunctionDecl>(d)) {
      auto* f = cast<FunctionDecl>(d);
      o["k"] = "fnref";
      o["f"] = fnref(f);
    } else {
      o["sc"] = "other";
      o["qn"] = qname(d);
    }
    return o;
  }

  J::Value ex(const Expr* e) {
    if (!e) return nullptr;
    J::Value v = ex1(e);
    if (auto* o = v.getAsObject()) {
      if (!o->get("l")) (*o)["l"] = line(e->getBeginLoc());
    }
    return v;
  }

  const Expr* strip(const Expr* e) {
    for (;;) {
      if (auto* x = dyn_cast<ParenExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<ExprWithCleanups>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<ConstantExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = x->getReplacement();
      else if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) e = x->getExpr();
      else if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) e = x->getExpr();
      else if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<OpaqueValueExpr>(e)) { if (!x->getSourceExpr()) return e; e = x->getSourceExpr(); }
      else return e;
    }
  }

  J::Value ex1(const Expr* e) {
    e = strip(e);
    // integral constants (prvalues, or references to constexpr/const variables)
    if (!e->isValueDependent() && !e->isTypeDependent() && e->getType()->isIntegralOrEnumerationType() && !isa<CXXBoolLiteralExpr>(e)) {
      Expr::EvalResult r;
      if ((e->isPRValue() || isa<DeclRefExpr>(e) || isa<MemberExpr>(e)) && e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects)) {
        if (r.Val.isInt()) {
          if (e->getType()->isBooleanType()) {
            J::Object o;
            o["k"] = "lit";
            o["v"] = r.Val.getInt().getBoolValue() ? "true" : "false";
            o["lt"] = "b";
            return o;
          }
          auto l = lit(r.Val.getInt());
          (*l.getAsObject())["t"] = ty(e->getType());
          if (auto* et = e->getType()->getAs<EnumType>()) {
            for (auto* ec : et->getDecl()->enumerators())
              if (llvm::APSInt::isSameValue(ec->getInitVal(), r.Val.getInt())) (*l.getAsObject())["en"] = ec->getNameAsString();
          }
          return l;
        }
      }
    }
    if (!e->isValueDependent() && !e->isTypeDependent() && e->getType()->isRealFloatingType() && e->isPRValue()) {
      Expr::EvalResult r;
      if (e->EvaluateAsRValue(r, C) && !r.HasSideEffects && r.Val.isFloat()) {
        J::Object o;
        o["k"] = "lit";
        o["lt"] = "f";
        llvm::SmallString<32> s;
        r.Val.getFloat().toString(s, 20);
        o["v"] = s.str().str();
        return o;
      }
    }
    J::Object o;
    if (auto* x = dyn_cast<DeclRefExpr>(e)) return vref(x->getDecl());
    if (isa<CXXThisExpr>(e)) {
      o["k"] = "this";
      return o;
    }
    if (auto* x = dyn_cast<MemberExpr>(e)) {
      auto* d = x->getMemberDecl();
      if (auto* v = dyn_cast<VarDecl>(d)) return vref(v);
      if (isa<FunctionDecl>(d)) return vref(d);
      o["k"] = "mem";
      o["b"] = ex(x->getBase());
      o["f"] = d->getNameAsString();
      if (x->isArrow()) o["arrow"] = true;
      o["t"] = ty(d->getType());
      if (auto* fd = dyn_cast<FieldDecl>(d)) {
        if (fd->isMutable()) o["mutable"] = true;
        o["cls"] = qname(fd->getParent());
        if (auto* r = dyn_cast<CXXRecordDecl>(fd->getParent())) rec(r);
      }
      return o;
    }
    if (auto* x = dyn_cast<IntegerLiteral>(e)) {
      auto l = lit(llvm::APSInt(x->getValue(), x->getType()->isUnsignedIntegerType()));
      return l;
    }
    if (auto* x = dyn_cast<FloatingLiteral>(e)) {
      o["k"] = "lit";
      o["lt"] = "f";
      llvm::SmallString<32> s;
      x->getValue().toString(s, 20);
      o["v"] = s.str().str();
      return o;
    }
    if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) {
      o["k"] = "lit";
      o["lt"] = "b";
      o["v"] = x->getValue() ? "true" : "false";
      return o;
    }
    if (auto* x = dyn_cast<clang::StringLiteral>(e)) {
      o["k"] = "lit";
      o["lt"] = "s";
      std::string s = x->getCharByteWidth() == 1 ? x->getString().str() : std::string("?");
      if (s.size() > 20000) s = s.substr(0, 20000);
      if (!J::isUTF8(s)) s = J::fixUTF8(s);
      o["v"] = s;
      return o;
    }
    if (auto* x = dyn_cast<CharacterLiteral>(e)) {
      o["k"] = "lit";
      o["lt"] = "i";
      o["v"] = std::to_string(x->getValue());
      return o;
    }
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) {
      o["k"] = "lit";
      o["lt"] = "n";
      o["v"] = "null";
      return o;
    }
    if (auto* x = dyn_cast<CastExpr>(e)) {
      const char* ck = nullptr;
      switch (x->getCastKind()) {
        case CK_IntegralCast: ck = "i2i"; break;
        case CK_FloatingToIntegral: ck = "f2i"; break;
        case CK_IntegralToFloating: ck = "i2f"; break;
        case CK_FloatingCast: ck = "f2f"; break;
        case CK_IntegralToBoolean: ck = "i2b"; break;
        case CK_FloatingToBoolean: ck = "f2b"; break;
        case CK_PointerToBoolean: ck = "p2b"; break;
        case CK_BitCast: ck = "bit"; break;
        case CK_LValueBitCast: ck = "bit"; break;
        case CK_ToVoid: ck = "void"; break;
        default: break;
      }
      bool cc = isa<CXXConstCastExpr>(x);
      if (!ck && !cc) {
        if (isa<CXXReinterpretCastExpr>(x)) ck = "bit";
        else return ex(x->getSubExpr());
      }
      o["k"] = "cast";
      o["ck"] = cc ? "const" : ck;
      if (isa<ExplicitCastExpr>(x)) o["expl"] = true;
      o["t"] = ty(e->getType());
      o["ft"] = ty(x->getSubExpr()->getType());
      o["e"] = ex(x->getSubExpr());
      return o;
    }
    if (auto* x = dyn_cast<CompoundAssignOperator>(e)) {
      o["k"] = "asg";
      o["op"] = BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(x->getOpcode())).str();
      o["L"] = ex(x->getLHS());
      o["R"] = ex(x->getRHS());
      return o;
    }
    if (auto* x = dyn_cast<BinaryOperator>(e)) {
      if (x->getOpcode() == BO_Assign) {
        o["k"] = "asg";
        o["op"] = "";
      } else {
        o["k"] = "bin";
        o["op"] = x->getOpcodeStr().str();
        o["t"] = ty(x->getType());
      }
      o["L"] = ex(x->getLHS());
      o["R"] = ex(x->getRHS());
      return o;
    }
    if (auto* x = dyn_cast<UnaryOperator>(e)) {
      o["k"] = "un";
      o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      if (x->isPostfix()) o["post"] = true;
      o["e"] = ex(x->getSubExpr());
      o["t"] = ty(x->getType());
      return o;
    }
    if (auto* x = dyn_cast<AbstractConditionalOperator>(e)) {
      o["k"] = "cond";
      o["c"] = ex(x->getCond());
      o["a"] = ex(x->getTrueExpr());
      o["b"] = ex(x->getFalseExpr());
      return o;
    }
    if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) {
      o["k"] = "sub";
      o["b"] = ex(x->getBase());
      o["i"] = ex(x->getIdx());
      return o;
    }
    if (auto* x = dyn_cast<LambdaExpr>(e)) {
      o["k"] = "lambda";
      o["cls"] = id(x->getLambdaClass());
      J::Array caps;
      for (auto it = x->capture_begin(); it != x->capture_end(); ++it) {
        J::Object c;
        if (it->capturesThis()) {
          c["this"] = true;
          c["ref"] = it->getCaptureKind() == LCK_This;
        } else if (it->capturesVariable()) {
          auto* v = it->getCapturedVar();
          c["id"] = id(v);
          c["n"] = v->getNameAsString();
          c["ref"] = it->getCaptureKind() == LCK_ByRef;
          if (auto* vd = dyn_cast<VarDecl>(v); vd && vd->isInitCapture()) c["init"] = ex(vd->getInit());
        }
        caps.push_back(std::move(c));
      }
      o["caps"] = std::move(caps);
      const CXXMethodDecl* op = x->getCallOperator();
      const FunctionDecl* use = op;
      if (auto* ft = op->getDescribedFunctionTemplate()) {
        o["generic"] = true;
        use = nullptr;
        for (auto* s : ft->specializations()) {
          const FunctionDecl* d = nullptr;
          if (s->hasBody(d) && !d->isDependentContext()) {
            use = d;
            break;
          }
        }
      }
      if (use) {
        o["fn"] = id(use);
        o["mutable"] = !cast<CXXMethodDecl>(use)->isConst();
        seen.insert(use->getCanonicalDecl());
        o["def"] = fn(use);
      }
      return o;
    }
    if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
      auto* c = x->getConstructor();
      if (c->isCopyOrMoveConstructor() && x->getNumArgs() >= 1) {
        if (x->isElidable()) return ex(x->getArg(0));
        o["k"] = "copy";
        o["mv"] = c->isMoveConstructor();
        o["t"] = ty(e->getType());
        o["e"] = ex(x->getArg(0));
        return o;
      }
      o["k"] = "ctor";
      o["t"] = ty(e->getType());
      o["f"] = fnref(c);
      J::Array a;
      for (unsigned i = 0; i < x->getNumArgs(); i++) a.push_back(ex(x->getArg(i)));
      o["args"] = std::move(a);
      if (x->isListInitialization()) o["list"] = true;
      rec(c->getParent());
      return o;
    }
    if (auto* x = dyn_cast<CXXScalarValueInitExpr>(e)) {
      o["k"] = "zero";
      o["t"] = ty(e->getType());
      return o;
    }
    if (isa<ImplicitValueInitExpr>(e)) {
      o["k"] = "zero";
      o["t"] = ty(e->getType());
      return o;
    }
    if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
      auto* f = dyn_cast_or_null<FunctionDecl>(x->getCalleeDecl());
      auto op = x->getOperator();
      if (f && x->getNumArgs() == 2 && op == OO_Equal) {
        o["k"] = "asg";
        o["op"] = "";
        o["cls"] = true;
        o["f"] = fnref(f);
        o["L"] = ex(x->getArg(0));
        o["R"] = ex(x->getArg(1));
        return o;
      }
      if (f && x->getNumArgs() == 2 && x->isAssignmentOp()) {
        std::string s = getOperatorSpelling(op);
        o["k"] = "asg";
        o["op"] = s.substr(0, s.size() - 1);
        o["cls"] = true;
        o["f"] = fnref(f);
        o["L"] = ex(x->getArg(0));
        o["R"] = ex(x->getArg(1));
        return o;
      }
      o["k"] = "opcall";
      o["op"] = getOperatorSpelling(op);
      if (f) o["f"] = fnref(f);
      J::Array a;
      for (unsigned i = 0; i < x->getNumArgs(); i++) a.push_back(ex(x->getArg(i)));
      o["args"] = std::move(a);
      o["ot"] = ty(x->getArg(0)->getType());
      o["t"] = ty(e->getType());
      return o;
    }
    if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
      o["k"] = "mcall";
      auto* f = x->getMethodDecl();
      if (f) {
        o["f"] = fnref(f);
        o["n"] = f->getNameAsString();
        if (isa<CXXConversionDecl>(f)) o["conv"] = true;
        if (f->isVirtual()) o["virt"] = true;
      }
      auto* obj = x->getImplicitObjectArgument();
      o["obj"] = ex(obj);
      if (auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) {
        if (me->isArrow()) o["arrow"] = true;
        if (me->hasQualifier()) o["qual"] = true;
      }
      QualType ot = obj->getType();
      if (ot->isPointerType()) ot = ot->getPointeeType();
      o["ot"] = ty(ot);
      o["args"] = exprs(x->arguments());
      o["t"] = ty(e->getType());
      return o;
    }
    if (auto* x = dyn_cast<CallExpr>(e)) {
      o["k"] = "call";
      if (auto* f = dyn_cast_or_null<FunctionDecl>(x->getCalleeDecl())) {
        o["f"] = fnref(f);
        o["n"] = f->getNameAsString();
        if (f->isInStdNamespace() && (o["n"] == J::Value("make_shared") || o["n"] == J::Value("make_unique")))
          if (auto* a = f->getTemplateSpecializationArgs())
            if (a->size() && a->get(0).getKind() == TemplateArgument::Type)
              if (auto* r = a->get(0).getAsType()->getAsCXXRecordDecl())
                if (inRoots(r->getLocation())) {
                  // the constructor the library ends up calling
                  if (auto* c = constructed(f, r)) {
                    J::Object m;
                    m["k"] = "ctor";
                    m["f"] = fnref(c->getConstructor());
                    m["t"] = ty(c->getType());
                    J::Array as;
                    for (unsigned i = 0; i < c->getNumArgs(); i++) as.push_back(i < x->getNumArgs() ? ex(x->getArg(i)) : ex(c->getArg(i)));
                    m["args"] = std::move(as);
                    o["mk"] = std::move(m);
                  }
                }
      } else
        o["ce"] = ex(x->getCallee());
      o["args"] = exprs(x->arguments());
      o["t"] = ty(e->getType());
      return o;
    }
    if (auto* x = dyn_cast<InitListExpr>(e)) {
      const InitListExpr* s = x->isSemanticForm() ? x : (x->getSemanticForm() ? x->getSemanticForm() : x);
      o["k"] = "init";
      o["t"] = ty(s->getType());
      J::Array a;
      for (auto* i : s->inits()) a.push_back(ex(i));
      o["e"] = std::move(a);
      if (auto* r = s->getType()->getAsCXXRecordDecl()) {
        rec(r);
        J::Array fs;
        for (auto* f : r->fields()) fs.push_back(f->getNameAsString());
        o["fs"] = std::move(fs);
      }
      return o;
    }
    if (auto* x = dyn_cast<CXXNewExpr>(e)) {
      o["k"] = "new";
      o["t"] = ty(x->getAllocatedType());
      o["e"] = ex(x->getInitializer());
      return o;
    }
    if (auto* x = dyn_cast<CXXDeleteExpr>(e)) {
      o["k"] = "delete";
      o["e"] = ex(x->getArgument());
      return o;
    }
    if (auto* x = dyn_cast<CXXThrowExpr>(e)) {
      o["k"] = "throw";
      o["e"] = x->getSubExpr() ? ex(x->getSubExpr()) : J::Value(nullptr);
      return o;
    }
    if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
      o["k"] = "unk";
      o["cls"] = "CXXInheritedCtorInitExpr";
      return o;
    }
    // fallback
    o["k"] = "unk";
    o["cls"] = e->getStmtClassName();
    unkKinds.insert(e->getStmtClassName());
    J::Array a;
    for (auto* c : e->children())
      if (auto* ce = dyn_cast_or_null<Expr>(c)) a.push_back(ex(ce));
    o["ch"] = std::move(a);
    return o;
  }

  J::Object vdecl(const VarDecl* v) {
    J::Object o;
    o["id"] = id(v);
    o["n"] = v->getNameAsString();
    o["t"] = ty(v->getType());
    o["l"] = line(v->getLocation());
    if (v->getType()->isReferenceType()) o["ref"] = v->getType()->isRValueReferenceType() ? "rr" : (v->getType()->getPointeeType().isConstQualified() ? "cr" : "r");
    if (v->getType().isConstQualified()) o["cst"] = true;
    if (v->isStaticLocal()) o["static"] = true;
    if (v->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
    if (auto* r = v->getType()->getAsCXXRecordDecl()) rec(r);
    if (v->getInit()) o["init"] = ex(v->getInit());
    if (auto* d = dyn_cast<DecompositionDecl>(v)) {
      J::Array b;
      int i = 0;
      for (auto* bd : d->bindings()) {
        J::Object bo;
        bo["id"] = id(bd);
        bo["n"] = bd->getNameAsString();
        bo["i"] = i++;
        if (bd->getHoldingVar()) {
          bo["hv"] = id(bd->getHoldingVar());
        } else if (auto* me = dyn_cast_or_null<MemberExpr>(bd->getBinding() ? bd->getBinding()->IgnoreParenImpCasts() : nullptr))
          bo["f"] = me->getMemberDecl()->getNameAsString();
        b.push_back(std::move(bo));
      }
      o["decomp"] = std::move(b);
    }
    return o;
  }

  J::Array vlist(llvm::ArrayRef<const Expr*> es) {
    J::Array a;
    for (auto* e : es)
      if (e) a.push_back(ex(e));
    return a;
  }

  J::Value st(const Stmt* s) {
    if (!s) return nullptr;
    J::Object o;
    o["l"] = line(s->getBeginLoc());
    if (auto* x = dyn_cast<CompoundStmt>(s)) {
      o["k"] = "block";
      J::Array a;
      for (auto* c : x->body()) a.push_back(st(c));
      o["s"] = std::move(a);
      return o;
    }
    if (auto* x = dyn_cast<DeclStmt>(s)) {
      o["k"] = "decl";
      J::Array a;
      for (auto* d : x->decls())
        if (auto* v = dyn_cast<VarDecl>(d)) a.push_back(vdecl(v));
      o["d"] = std::move(a);
      return o;
    }
    if (auto* x = dyn_cast<IfStmt>(s)) {
      if (x->isConstexpr()) {
        auto n = x->getNondiscardedCase(C);
        if (n) {
          const Stmt* t = *n;
          if (!t) {
            o["k"] = "null";
            return o;
          }
          return st(t);
        }
      }
      o["k"] = "if";
      if (x->getInit()) o["init"] = st(x->getInit());
      if (auto* v = x->getConditionVariable()) {
        o["cv"] = vdecl(v);
      }
      o["c"] = ex(x->getCond());
      o["a"] = st(x->getThen());
      o["b"] = st(x->getElse());
      return o;
    }
    if (auto* x = dyn_cast<ForStmt>(s)) {
      o["k"] = "for";
      o["init"] = st(x->getInit());
      o["c"] = ex(x->getCond());
      o["inc"] = ex(x->getInc());
      o["body"] = st(x->getBody());
      return o;
    }
    if (auto* x = dyn_cast<WhileStmt>(s)) {
      o["k"] = "for";
      if (auto* v = x->getConditionVariable()) o["cv"] = vdecl(v);
      o["c"] = ex(x->getCond());
      o["body"] = st(x->getBody());
      return o;
    }
    if (auto* x = dyn_cast<DoStmt>(s)) {
      o["k"] = "do";
      o["c"] = ex(x->getCond());
      o["body"] = st(x->getBody());
      return o;
    }
    if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
      o["k"] = "rfor";
      o["var"] = vdecl(x->getLoopVariable());
      o["range"] = ex(x->getRangeInit());
      o["rt"] = ty(x->getRangeInit()->getType());
      o["body"] = st(x->getBody());
      return o;
    }
    if (auto* x = dyn_cast<SwitchStmt>(s)) {
      o["k"] = "switch";
      o["c"] = ex(x->getCond());
      J::Array items;
      auto* b = dyn_cast<CompoundStmt>(x->getBody());
      auto add = [&](const Stmt* c) {
        J::Array labels;
        while (auto* sc = dyn_cast<SwitchCase>(c)) {
          if (auto* cs = dyn_cast<CaseStmt>(sc))
            labels.push_back(ex(cs->getLHS()));
          else
            labels.push_back("default");
          c = sc->getSubStmt();
        }
        J::Object it;
        if (!labels.empty()) it["labels"] = std::move(labels);
        it["s"] = st(c);
        items.push_back(std::move(it));
      };
      if (b)
        for (auto* c : b->body()) add(c);
      else
        add(x->getBody());
      o["items"] = std::move(items);
      return o;
    }
    if (auto* x = dyn_cast<ReturnStmt>(s)) {
      o["k"] = "ret";
      if (x->getRetValue()) o["e"] = ex(x->getRetValue());
      return o;
    }
    if (isa<BreakStmt>(s)) {
      o["k"] = "break";
      return o;
    }
    if (isa<ContinueStmt>(s)) {
      o["k"] = "continue";
      return o;
    }
    if (isa<NullStmt>(s)) {
      o["k"] = "null";
      return o;
    }
    if (auto* x = dyn_cast<AttributedStmt>(s)) return st(x->getSubStmt());
    if (auto* x = dyn_cast<LabelStmt>(s)) return st(x->getSubStmt());
    if (auto* x = dyn_cast<CapturedStmt>(s)) return st(x->getCapturedStmt());
    if (auto* x = dyn_cast<CXXTryStmt>(s)) {
      o["k"] = "try";
      o["body"] = st(x->getTryBlock());
      J::Array h;
      for (unsigned i = 0; i < x->getNumHandlers(); i++) h.push_back(st(x->getHandler(i)->getHandlerBlock()));
      o["h"] = std::move(h);
      return o;
    }
    if (auto* x = dyn_cast<OMPExecutableDirective>(s)) {
      o["k"] = "omp";
      o["dir"] = llvm::omp::getOpenMPDirectiveName(x->getDirectiveKind()).str();
      J::Array cl;
      for (auto* c : x->clauses()) {
        J::Object co;
        co["k"] = llvm::omp::getOpenMPClauseName(c->getClauseKind()).str();
        co["impl"] = c->isImplicit();
        auto vars = [&](auto* cc) {
          J::Array a;
          for (auto* e : cc->varlists()) a.push_back(ex(e));
          co["vars"] = std::move(a);
        };
        if (auto* cc = dyn_cast<OMPNumThreadsClause>(c)) co["e"] = ex(cc->getNumThreads());
        if (auto* cc = dyn_cast<OMPIfClause>(c)) co["e"] = ex(cc->getCondition());
        if (auto* cc = dyn_cast<OMPScheduleClause>(c)) {
          co["sched"] = llvm::omp::getOpenMPClauseName(c->getClauseKind()).str();
        }
        if (auto* cc = dyn_cast<OMPPrivateClause>(c)) vars(cc);
        if (auto* cc = dyn_cast<OMPFirstprivateClause>(c)) vars(cc);
        if (auto* cc = dyn_cast<OMPLastprivateClause>(c)) vars(cc);
        if (auto* cc = dyn_cast<OMPSharedClause>(c)) vars(cc);
        if (auto* cc = dyn_cast<OMPReductionClause>(c)) {
          vars(cc);
          co["op"] = cc->getNameInfo().getAsString();
        }
        if (auto* cc = dyn_cast<OMPDefaultClause>(c)) co["dk"] = (int)cc->getDefaultKind();
        if (auto* cc = dyn_cast<OMPCollapseClause>(c)) co["e"] = ex(cc->getNumForLoops());
        cl.push_back(std::move(co));
      }
      o["cl"] = std::move(cl);
      if (auto* a = dyn_cast<OMPCriticalDirective>(x)) o["name"] = a->getDirectiveName().getAsString();
      if (x->hasAssociatedStmt()) {
        const Stmt* b = x->getRawStmt();
        if (auto* a = dyn_cast<OMPAtomicDirective>(x)) b = x->getAssociatedStmt();
        while (auto* cs = dyn_cast_or_null<CapturedStmt>(b)) b = cs->getCapturedStmt();
        o["body"] = st(b);
      }
      return o;
    }
    if (auto* x = dyn_cast<OMPCanonicalLoop>(s)) return st(x->getLoopStmt());
    if (auto* x = dyn_cast<Expr>(s)) {
      o["k"] = "expr";
      o["e"] = ex(x);
      return o;
    }
    o["k"] = "unk";
    o["cls"] = s->getStmtClassName();
    unkKinds.insert(s->getStmtClassName());
    return o;
  }

  J::Object fn(const FunctionDecl* f) {
    J::Object o = fnref(f);
    o["id"] = id(f);
    o["file"] = file(f->getLocation());
    o["l"] = line(f->getLocation());
    o["ret"] = ty(f->getReturnType());
    if (f->isExternallyVisible()) o["ext"] = true;
    if (f->isInlined()) o["inl"] = true;
    if (f->getTemplateSpecializationKind() == TSK_ImplicitInstantiation || f->getTemplateSpecializationKind() == TSK_ExplicitInstantiationDefinition) o["inst"] = true;
    J::Array ps;
    for (auto* p : f->parameters()) {
      J::Object po;
      po["id"] = id(p);
      po["n"] = p->getNameAsString();
      po["t"] = ty(p->getType());
      po["pk"] = pkind(p->getType());
      ps.push_back(std::move(po));
    }
    o["params"] = std::move(ps);
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      o["clsq"] = qname(m->getParent());
      o["clst"] = ty(C.getTypeDeclType(m->getParent()));
      if (m->isVirtual()) o["virt"] = true;
    }
    if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
      J::Array in;
      for (auto* i : c->inits()) {
        J::Object io;
        if (i->isAnyMemberInitializer()) {
          io["f"] = i->getAnyMember()->getNameAsString();
          io["ft"] = ty(i->getAnyMember()->getType());
        } else if (i->isBaseInitializer())
          io["base"] = ty(QualType(i->getBaseClass(), 0));
        else
          io["deleg"] = true;
        io["e"] = ex(i->getInit());
        in.push_back(std::move(io));
      }
      o["inits"] = std::move(in);
      o["ctor"] = true;
      if (c->isCopyOrMoveConstructor()) o["copy"] = true;
    }
    if (isa<CXXDestructorDecl>(f)) o["dtor"] = true;
    const FunctionDecl* def = nullptr;
    if (f->hasBody(def)) o["body"] = st(def->getBody());
    return o;
  }

  J::Object recd(const CXXRecordDecl* r) {
    J::Object o;
    o["qn"] = qname(r);
    o["t"] = ty(C.getTypeDeclType(r));
    o["file"] = file(r->getLocation());
    o["l"] = line(r->getLocation());
    if (auto* cts = dyn_cast<ClassTemplateSpecializationDecl>(r)) {
      J::Array a;
      targList(a, cts->getTemplateArgs().asArray());
      o["cta"] = std::move(a);
    }
    J::Array fs;
    for (auto* f : r->fields()) {
      J::Object fo;
      fo["n"] = f->getNameAsString();
      fo["t"] = ty(f->getType());
      fo["l"] = line(f->getLocation());
      if (f->isMutable()) fo["mutable"] = true;
      if (f->getType().isConstQualified()) fo["cst"] = true;
      if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = ex(f->getInClassInitializer());
      fs.push_back(std::move(fo));
      if (auto* rr = f->getType()->getAsCXXRecordDecl()) rec(rr);
    }
    o["fields"] = std::move(fs);
    J::Array sv;
    for (auto* d : r->decls())
      if (auto* v = dyn_cast<VarDecl>(d)) {
        J::Object vo;
        vo["n"] = v->getNameAsString();
        vo["t"] = ty(v->getType());
        vo["l"] = line(v->getLocation());
        if (v->getType().isConstQualified() || v->isConstexpr()) vo["cst"] = true;
        sv.push_back(std::move(vo));
      }
    o["statics"] = std::move(sv);
    J::Array bs;
    for (auto& b : r->bases())
      if (auto* br = b.getType()->getAsCXXRecordDecl()) bs.push_back(br->getQualifiedNameAsString());
    o["bases"] = std::move(bs);
    return o;
  }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
  Dumper& D;
  J::Array globals;
  explicit Visitor(Dumper& D) : D(D) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl* f) {
    if (!f->doesThisDeclarationHaveABody() || f->isDependentContext()) return true;
    if (!D.inRoots(f->getLocation())) return true;
    if (auto* m = dyn_cast<CXXMethodDecl>(f); m && m->getParent()->isLambda()) return true;
    D.enqueue(f);
    return true;
  }
  bool VisitVarDecl(VarDecl* v) {
    if (!v->hasGlobalStorage()) return true;
    if (v->isStaticDataMember() && !v->isOutOfLine()) return true;
    if (v->getDeclContext()->isDependentContext() || !D.inRoots(v->getLocation())) return true;
    J::Object o;
    o["n"] = v->getNameAsString();
    o["t"] = D.ty(v->getType());
    o["file"] = D.file(v->getLocation());
    o["l"] = D.line(v->getLocation());
    o["cst"] = v->getType().isConstQualified() || v->isConstexpr();
    o["local"] = v->isStaticLocal();
    if (v->isStaticLocal() || v->isStaticDataMember()) o["in"] = D.qname(v);
    if (v->isExternallyVisible()) o["ext"] = true;
    if (v->isInline()) o["inl"] = true;
    if (v->isThisDeclarationADefinition() == VarDecl::Definition) o["def"] = true;
    if (v->getTemplateSpecializationKind() == TSK_ImplicitInstantiation) o["inst"] = true;
    globals.push_back(std::move(o));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* r) {
    if (r->isThisDeclarationADefinition()) D.rec(r);
    return true;
  }
};

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext& C) override {
    Dumper D(C);
    Visitor V(D);
    V.TraverseDecl(C.getTranslationUnitDecl());
    J::Array fns, recs;
    for (size_t i = 0; i < D.queue.size(); i++) fns.push_back(D.fn(D.queue[i]));
    for (size_t i = 0; i < D.recq.size(); i++) {
      recs.push_back(D.recd(D.recq[i]));
    }
    size_t done = fns.size();
    for (size_t i = done; i < D.queue.size(); i++) fns.push_back(D.fn(D.queue[i]));
    J::Object o;
    o["functions"] = std::move(fns);
    o["records"] = std::move(recs);
    o["globals"] = std::move(V.globals);
    J::Array u;
    for (auto& s : D.unkKinds) u.push_back(s);
    o["unknown_kinds"] = std::move(u);
    std::error_code ec;
    llvm::raw_fd_ostream os(OutFile, ec);
    os << J::Value(std::move(o));
  }
};

struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override { return std::make_unique<Consumer>(); }
};

}  // namespace

int main(int argc, const char** argv) {
  if (argc < 5) return 2;
  OutFile = argv[1];
  std::string r = argv[2];
  size_t p = 0;
  while (p <= r.size()) {
    size_t q = r.find(',', p);
    if (q == std::string::npos) q = r.size();
    Roots.push_back(r.substr(p, q - p));
    p = q + 1;
  }
  std::string src = argv[3];
  std::vector<std::string> args;
  for (int i = 5; i < argc; i++) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", args);
  tooling::ClangTool tool(db, {src});
  return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
