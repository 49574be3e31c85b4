// astdump: mechanical extraction of the functions of one translation unit as JSON.
//
// Everything that is emitted comes from clang's semantic AST of the *current*
// source text; nothing is edited.  What is dropped: comments, attributes,
// formatting, template patterns that are not instantiated in the unit,
// destructor calls of temporaries, and the bodies of functions that are
// located outside the requested roots (standard library, boost, Eigen).
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/RecordLayout.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>
#include <deque>
#include <cstring>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;

namespace {

struct Dumper {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  json::Object Types, Records, Enums, Decls, Functions, Globals;
  std::map<const Type *, std::string> TypeIds;
  std::map<const Decl *, int> VarIds;
  std::set<std::string> DoneFn;
  std::deque<const FunctionDecl *> Work;
  std::set<const FunctionDecl *> Queued;

  Dumper(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressInlineNamespace = true;
    PP.SuppressDefaultTemplateArgs = true;
    PP.AnonymousTagLocations = true;
  }

  int varId(const Decl *d) {
    d = d->getCanonicalDecl();
    auto it = VarIds.find(d);
    if (it != VarIds.end()) return it->second;
    int n = VarIds.size() + 1;
    VarIds[d] = n;
    return n;
  }

  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return "";
    auto f = SM.getFilename(L);
    return f.str();
  }
  unsigned line(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return 0;
    return SM.getExpansionLineNumber(L);
  }
  bool inRoots(SourceLocation L) {
    std::string f = file(L);
    for (auto &r : Roots)
      if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }

  std::string qname(const NamedDecl *d) {
    // qualified name without template arguments
    std::string s;
    const DeclContext *dc = d->getDeclContext();
    std::vector<std::string> parts;
    while (dc) {
      if (auto *ns = dyn_cast<NamespaceDecl>(dc)) {
        if (!ns->isInline()) parts.push_back(ns->isAnonymousNamespace() ? std::string("(anonymous)") : ns->getName().str());
      } else if (auto *td = dyn_cast<TagDecl>(dc)) {
        parts.push_back(tagName(td));
      } else if (auto *fd = dyn_cast<FunctionDecl>(dc)) {
        parts.push_back(fd->getNameAsString());
      }
      dc = dc->getParent();
    }
    for (auto it = parts.rbegin(); it != parts.rend(); ++it) s += *it + "::";
    if (auto *td = dyn_cast<TagDecl>(d)) return s + tagName(td);
    if (isa<CXXConstructorDecl>(d)) return s + "(ctor)";
    if (isa<CXXDestructorDecl>(d)) return s + "(dtor)";
    if (isa<CXXConversionDecl>(d)) return s + "(conv)";
    return s + d->getNameAsString();
  }
  std::string tagName(const TagDecl *td) {
    if (auto *rd = dyn_cast<CXXRecordDecl>(td))
      if (rd->isLambda()) return "(lambda@" + std::to_string(line(rd->getLocation())) + ":" + std::to_string(SM.getExpansionColumnNumber(rd->getLocation())) + ")";
    if (td->getIdentifier()) return td->getName().str();
    if (auto *tn = td->getTypedefNameForAnonDecl()) return tn->getName().str();
    return "(anon@" + std::to_string(line(td->getLocation())) + ")";
  }

  json::Value targ(const TemplateArgument &a) {
    switch (a.getKind()) {
    case TemplateArgument::Type: return json::Object{{"t", type(a.getAsType())}};
    case TemplateArgument::Integral: return json::Object{{"i", llvm::toString(a.getAsIntegral(), 10)}};
    case TemplateArgument::Pack: {
      json::Array arr;
      for (auto &x : a.pack_elements()) arr.push_back(targ(x));
      return json::Object{{"p", std::move(arr)}};
    }
    default: return json::Object{{"o", "other"}};
    }
  }

  // canonical type -> id (string); structure is in Types
  std::string type(QualType q) {
    if (q.isNull()) return "?";
    q = C.getCanonicalType(q);
    const Type *t = q.getTypePtr();
    bool isConst = q.isConstQualified();
    std::string id;
    auto it = TypeIds.find(t);
    if (it != TypeIds.end()) id = it->second;
    else {
      id = q.getUnqualifiedType().getAsString(PP);
      if (auto *at = dyn_cast<ArrayType>(t)) { (void)at; QualType u(t, 0); id = u.getAsString(PP); }
      // local classes / lambdas / anonymous-namespace types may collide
      if (auto *rt = dyn_cast<RecordType>(t)) {
        if (auto *rd = dyn_cast<CXXRecordDecl>(rt->getDecl()))
          if (rd->isLambda()) id = qname(rd);
      }
      TypeIds[t] = id;
      json::Object o = typeObj(t);
      Types[id] = std::move(o);
    }
    return isConst ? "const " + id : id;
  }
  json::Object typeObj(const Type *t) {
    json::Object o;
    if (auto *bt = dyn_cast<BuiltinType>(t)) {
      o["k"] = "builtin";
      if (bt->isVoidType()) o["b"] = "void";
      else if (bt->getKind() == BuiltinType::Bool) { o["b"] = "bool"; }
      else if (bt->isInteger()) { o["b"] = "int"; o["bits"] = (int64_t)C.getTypeSize(bt); o["sg"] = bt->isSignedInteger(); o["ch"] = bt->isAnyCharacterType(); }
      else if (bt->isFloatingPoint()) { o["b"] = "float"; o["bits"] = (int64_t)C.getTypeSize(bt); }
      else if (bt->isNullPtrType()) o["b"] = "nullptr";
      else o["b"] = "other";
    } else if (auto *pt = dyn_cast<PointerType>(t)) { o["k"] = "ptr"; o["e"] = type(pt->getPointeeType()); }
    else if (auto *rt = dyn_cast<ReferenceType>(t)) { o["k"] = "ref"; o["e"] = type(rt->getPointeeType()); o["rv"] = isa<RValueReferenceType>(rt); }
    else if (auto *at = dyn_cast<ConstantArrayType>(t)) { o["k"] = "arr"; o["e"] = type(at->getElementType()); o["n"] = (int64_t)at->getSize().getZExtValue(); }
    else if (auto *at = dyn_cast<ArrayType>(t)) { o["k"] = "arr"; o["e"] = type(at->getElementType()); o["n"] = -1; }
    else if (auto *et = dyn_cast<EnumType>(t)) { o["k"] = "enum"; o["q"] = qname(et->getDecl()); emitEnum(et->getDecl());
      o["u"] = type(et->getDecl()->getIntegerType()); }
    else if (auto *rt = dyn_cast<RecordType>(t)) {
      o["k"] = "rec"; o["q"] = qname(rt->getDecl());
      if (auto *sp = dyn_cast<ClassTemplateSpecializationDecl>(rt->getDecl())) {
        json::Array a;
        for (auto &x : sp->getTemplateArgs().asArray()) a.push_back(targ(x));
        o["args"] = std::move(a);
      }
      emitRecord(rt->getDecl());
    } else if (auto *ft = dyn_cast<FunctionProtoType>(t)) {
      o["k"] = "fn"; o["r"] = type(ft->getReturnType());
      json::Array a; for (auto p : ft->param_types()) a.push_back(type(p)); o["p"] = std::move(a);
    } else if (auto *mp = dyn_cast<MemberPointerType>(t)) { o["k"] = "memptr"; o["e"] = type(mp->getPointeeType()); }
    else { o["k"] = "other"; o["s"] = t->getTypeClassName(); }
    return o;
  }
  void emitEnum(const EnumDecl *ed) {
    std::string n = qname(ed);
    if (Enums.get(n)) return;
    json::Object o;
    for (auto *c : ed->enumerators()) o[c->getName().str()] = llvm::toString(c->getInitVal(), 10);
    Enums[n] = std::move(o);
  }
  // declared in the roots; for a template instance it is the template that counts
  bool recInRoots(const RecordDecl *rd) {
    if (inRoots(rd->getLocation())) return true;
    if (auto *crd = dyn_cast<CXXRecordDecl>(rd))
      if (auto *p = crd->getTemplateInstantiationPattern()) return inRoots(p->getLocation());
    return false;
  }
  std::set<const RecordDecl *> RecDone;
  void emitRecord(const RecordDecl *rd) {
    rd = rd->getDefinition() ? rd->getDefinition() : rd;
    if (!RecDone.insert(rd).second) return;
    std::string id = type(C.getRecordType(rd));
    json::Object o;
    o["q"] = qname(rd);
    o["complete"] = rd->isCompleteDefinition();
    o["union"] = rd->isUnion();
    o["root"] = recInRoots(rd);
    o["file"] = file(rd->getLocation());
    o["line"] = (int64_t)line(rd->getLocation());
    if (rd->isCompleteDefinition()) {
      json::Array bases, fields;
      if (auto *crd = dyn_cast<CXXRecordDecl>(rd)) {
        for (auto &b : crd->bases()) bases.push_back(type(b.getType()));
        o["poly"] = crd->isPolymorphic();
        o["lambda"] = crd->isLambda();
        o["abstract"] = crd->isAbstract();
      }
      bool full = recInRoots(rd);
      if (full || rd->getDeclName().isEmpty() || bases.size() || true) {
        if (full)
          for (auto *f : rd->fields()) {
            json::Object fo{{"n", f->getNameAsString()}, {"t", type(f->getType())}, {"bf", f->isBitField()}};
            if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = expr(f->getInClassInitializer());
            fields.push_back(std::move(fo));
          }
      }
      if (full && !rd->isDependentType() && !rd->isInvalidDecl()) o["size"] = (int64_t)C.getTypeSizeInChars(C.getRecordType(rd)).getQuantity();
      o["bases"] = std::move(bases);
      o["fields"] = std::move(fields);
    }
    Records[id] = std::move(o);
  }

  std::string fnKey(const FunctionDecl *fd) {
    std::string s;
    if (auto *md = dyn_cast<CXXMethodDecl>(fd)) {
      s = type(C.getRecordType(md->getParent())) + "::";
      if (isa<CXXConstructorDecl>(fd)) s += "(ctor)";
      else if (isa<CXXDestructorDecl>(fd)) s += "(dtor)";
      else if (isa<CXXConversionDecl>(fd)) s += "(conv)" + type(fd->getReturnType());
      else s += fd->getNameAsString();
    } else s = qname(fd);
    if (auto *ta = fd->getTemplateSpecializationArgs()) {
      s += "<";
      bool first = true;
      for (auto &a : ta->asArray()) {
        if (!first) s += ", ";
        first = false;
        std::string b; llvm::raw_string_ostream os(b); a.print(PP, os, true); s += os.str();
      }
      s += ">";
    }
    s += "(";
    bool first = true;
    for (auto *p : fd->parameters()) { if (!first) s += ", "; first = false; s += type(p->getType()); }
    if (fd->isVariadic()) s += ", ...";
    s += ")";
    if (auto *md = dyn_cast<CXXMethodDecl>(fd)) if (md->isConst()) s += " const";
    if (fd->getStorageClass() == SC_Static && !isa<CXXMethodDecl>(fd)) s += " @static";
    return s;
  }

  std::string fn(const FunctionDecl *fd) {
    std::string key = fnKey(fd);
    if (!Decls.get(key)) {
      Decls[key] = json::Object{};
      json::Object o;
      o["n"] = fd->getNameAsString();
      o["q"] = qname(fd);
      json::Array ps, pn;
      for (auto *p : fd->parameters()) { ps.push_back(type(p->getType())); pn.push_back(p->getNameAsString()); }
      o["params"] = std::move(ps);
      o["pnames"] = std::move(pn);
      o["ret"] = type(fd->getReturnType());
      o["variadic"] = fd->isVariadic();
      if (auto *ta = fd->getTemplateSpecializationArgs()) {
        json::Array a; for (auto &x : ta->asArray()) a.push_back(targ(x)); o["targs"] = std::move(a);
      }
      if (auto *md = dyn_cast<CXXMethodDecl>(fd)) {
        o["cls"] = type(C.getRecordType(md->getParent()));
        o["static"] = md->isStatic();
        o["const"] = md->isConst();
        o["virtual"] = md->isVirtual();
        o["pure"] = md->isPureVirtual();
        if (auto *cd = dyn_cast<CXXConstructorDecl>(fd)) {
          o["ctor"] = true;
          o["copy"] = cd->isCopyConstructor();
          o["move"] = cd->isMoveConstructor();
          o["dflt"] = cd->isDefaultConstructor();
        }
        if (isa<CXXDestructorDecl>(fd)) o["dtor"] = true;
        if (isa<CXXConversionDecl>(fd)) o["conv"] = true;
        if (md->isCopyAssignmentOperator()) o["copyasg"] = true;
        if (md->isMoveAssignmentOperator()) o["moveasg"] = true;
        json::Array ov;
        for (auto *x : md->overridden_methods()) ov.push_back(fn(x));
        if (ov.size()) o["overrides"] = std::move(ov);
      }
      o["implicit"] = fd->isImplicit();
      o["defaulted"] = fd->isDefaulted();
      o["deleted"] = fd->isDeleted();
      o["extc"] = fd->isExternC();
      const FunctionDecl *def = nullptr;
      bool has = fd->hasBody(def) && def;
      if (!has) {
        if (auto *pat = fd->getTemplateInstantiationPattern()) has = false && pat;
      }
      o["root"] = inRoots(fd->getLocation()) || (has && inRoots(def->getLocation()));
      o["file"] = file((has ? def : fd)->getLocation());
      o["line"] = (int64_t)line((has ? def : fd)->getLocation());
      Decls[key] = std::move(o);
      if (has && (inRoots(def->getLocation()))) queue(def);
    }
    return key;
  }
  void queue(const FunctionDecl *fd) {
    if (fd->isDependentContext()) return;
    if (fd->isDefaulted() || fd->isDeleted()) return;
    if (!Queued.insert(fd->getCanonicalDecl()).second) return;
    Work.push_back(fd);
  }
  void emitFunction(const FunctionDecl *fd) {
    const FunctionDecl *def = nullptr;
    if (!fd->hasBody(def)) return;
    fd = def;
    std::string key = fn(fd);
    if (!DoneFn.insert(key).second) return;
    json::Object o;
    json::Array ps;
    for (auto *p : fd->parameters())
      ps.push_back(json::Object{{"id", varId(p)}, {"n", p->getNameAsString()}, {"t", type(p->getType())}});
    o["params"] = std::move(ps);
    o["file"] = file(fd->getLocation());
    o["line"] = (int64_t)line(fd->getBeginLoc());
    o["eline"] = (int64_t)line(fd->getEndLoc());
    if (auto *cd = dyn_cast<CXXConstructorDecl>(fd)) {
      json::Array in;
      for (auto *i : cd->inits()) {
        json::Object io;
        if (i->isAnyMemberInitializer()) io["f"] = i->getAnyMember()->getNameAsString();
        else if (i->isBaseInitializer()) io["b"] = type(QualType(i->getBaseClass(), 0));
        else if (i->isDelegatingInitializer()) io["d"] = true;
        io["w"] = i->isWritten();
        io["e"] = expr(i->getInit());
        in.push_back(std::move(io));
      }
      o["inits"] = std::move(in);
    }
    o["body"] = stmt(fd->getBody());
    Functions[key] = std::move(o);
  }

  json::Value varDecl(const VarDecl *v) {
    json::Object o;
    o["id"] = varId(v);
    o["n"] = v->getNameAsString();
    o["t"] = type(v->getType());
    o["static"] = v->isStaticLocal();
    if (v->getInit()) { o["i"] = expr(v->getInit()); }
    return std::move(o);
  }

  json::Value stmt(const Stmt *s) {
    json::Object o;
    if (!s) return nullptr;
    o["l"] = (int64_t)line(s->getBeginLoc());
    if (auto *e = dyn_cast<Expr>(s)) { o["k"] = "Expr"; o["e"] = expr(e); return std::move(o); }
    switch (s->getStmtClass()) {
    case Stmt::CompoundStmtClass: {
      o["k"] = "Compound"; json::Array a;
      for (auto *x : cast<CompoundStmt>(s)->body()) a.push_back(stmt(x));
      o["c"] = std::move(a); break;
    }
    case Stmt::DeclStmtClass: {
      o["k"] = "Decl"; json::Array a;
      for (auto *d : cast<DeclStmt>(s)->decls())
        if (auto *v = dyn_cast<VarDecl>(d)) { if (!v->hasExternalStorage()) a.push_back(varDecl(v)); }
      o["v"] = std::move(a); break;
    }
    case Stmt::IfStmtClass: {
      auto *x = cast<IfStmt>(s); o["k"] = "If";
      if (x->getInit()) o["init"] = stmt(x->getInit());
      if (x->getConditionVariable()) o["cv"] = varDecl(x->getConditionVariable());
      o["cond"] = expr(x->getCond()); o["then"] = stmt(x->getThen());
      if (x->getElse()) o["else"] = stmt(x->getElse());
      break;
    }
    case Stmt::WhileStmtClass: {
      auto *x = cast<WhileStmt>(s); o["k"] = "While";
      if (x->getConditionVariable()) o["cv"] = varDecl(x->getConditionVariable());
      o["cond"] = expr(x->getCond()); o["body"] = stmt(x->getBody()); break;
    }
    case Stmt::DoStmtClass: {
      auto *x = cast<DoStmt>(s); o["k"] = "Do"; o["cond"] = expr(x->getCond()); o["body"] = stmt(x->getBody()); break;
    }
    case Stmt::ForStmtClass: {
      auto *x = cast<ForStmt>(s); o["k"] = "For";
      if (x->getInit()) o["init"] = stmt(x->getInit());
      if (x->getCond()) o["cond"] = expr(x->getCond());
      if (x->getInc()) o["inc"] = expr(x->getInc());
      o["body"] = stmt(x->getBody()); break;
    }
    case Stmt::CXXForRangeStmtClass: {
      auto *x = cast<CXXForRangeStmt>(s); o["k"] = "ForRange";
      if (x->getInit()) o["init"] = stmt(x->getInit());
      o["range"] = stmt(x->getRangeStmt()); o["begin"] = stmt(x->getBeginStmt()); o["end"] = stmt(x->getEndStmt());
      o["cond"] = expr(x->getCond()); o["inc"] = expr(x->getInc()); o["var"] = stmt(x->getLoopVarStmt());
      o["body"] = stmt(x->getBody()); break;
    }
    case Stmt::ReturnStmtClass: {
      auto *x = cast<ReturnStmt>(s); o["k"] = "Return";
      if (x->getRetValue()) o["e"] = expr(x->getRetValue());
      break;
    }
    case Stmt::BreakStmtClass: o["k"] = "Break"; break;
    case Stmt::ContinueStmtClass: o["k"] = "Continue"; break;
    case Stmt::NullStmtClass: o["k"] = "Null"; break;
    case Stmt::SwitchStmtClass: {
      auto *x = cast<SwitchStmt>(s); o["k"] = "Switch";
      if (x->getConditionVariable()) o["cv"] = varDecl(x->getConditionVariable());
      o["cond"] = expr(x->getCond()); o["body"] = stmt(x->getBody()); break;
    }
    case Stmt::CaseStmtClass: {
      auto *x = cast<CaseStmt>(s); o["k"] = "Case";
      Expr::EvalResult r;
      if (x->getLHS()->EvaluateAsInt(r, C)) o["v"] = llvm::toString(r.Val.getInt(), 10);
      o["s"] = stmt(x->getSubStmt()); break;
    }
    case Stmt::DefaultStmtClass: o["k"] = "Default"; o["s"] = stmt(cast<DefaultStmt>(s)->getSubStmt()); break;
    case Stmt::CXXTryStmtClass: {
      auto *x = cast<CXXTryStmt>(s); o["k"] = "Try"; o["body"] = stmt(x->getTryBlock());
      json::Array a;
      for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
        auto *h = x->getHandler(i); json::Object ho;
        if (auto *v = h->getExceptionDecl()) { ho["t"] = type(v->getType()); ho["id"] = varId(v); ho["n"] = v->getNameAsString(); }
        ho["body"] = stmt(h->getHandlerBlock()); a.push_back(std::move(ho));
      }
      o["h"] = std::move(a); break;
    }
    case Stmt::AttributedStmtClass: return stmt(cast<AttributedStmt>(s)->getSubStmt());
    case Stmt::LabelStmtClass: o["k"] = "Label"; o["n"] = cast<LabelStmt>(s)->getName(); o["s"] = stmt(cast<LabelStmt>(s)->getSubStmt()); break;
    case Stmt::GotoStmtClass: o["k"] = "Goto"; o["n"] = cast<GotoStmt>(s)->getLabel()->getName().str(); break;
    default: o["k"] = "Unsupported"; o["w"] = s->getStmtClassName(); break;
    }
    return std::move(o);
  }

  json::Array args(llvm::iterator_range<CallExpr::const_arg_iterator> r) {
    json::Array a; for (auto *e : r) a.push_back(expr(e)); return a;
  }

  json::Value expr(const Expr *e) {
    if (!e) return nullptr;
    // transparent nodes
    if (auto *x = dyn_cast<ParenExpr>(e)) return expr(x->getSubExpr());
    if (auto *x = dyn_cast<ExprWithCleanups>(e)) return expr(x->getSubExpr());
    if (auto *x = dyn_cast<CXXBindTemporaryExpr>(e)) return expr(x->getSubExpr());
    if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return expr(x->getReplacement());
    if (auto *x = dyn_cast<CXXDefaultArgExpr>(e)) return expr(x->getExpr());
    if (auto *x = dyn_cast<CXXDefaultInitExpr>(e)) return expr(x->getExpr());
    if (auto *x = dyn_cast<ConstantExpr>(e)) return expr(x->getSubExpr());
    json::Object o;
    o["t"] = type(e->getType());
    o["l"] = (int64_t)line(e->getExprLoc());
    o["lv"] = e->isGLValue();
    if (!e->isGLValue() && !e->isValueDependent() && e->getType()->isIntegralOrEnumerationType() && !isa<CXXBoolLiteralExpr>(e)) {
      Expr::EvalResult r;
      if (e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects) && !r.HasSideEffects) o["cv"] = llvm::toString(r.Val.getInt(), 10);
    }
    switch (e->getStmtClass()) {
    case Stmt::IntegerLiteralClass: o["k"] = "Int"; o["v"] = llvm::toString(cast<IntegerLiteral>(e)->getValue(), 10, false); break;
    case Stmt::CharacterLiteralClass: o["k"] = "Int"; o["v"] = std::to_string(cast<CharacterLiteral>(e)->getValue()); break;
    case Stmt::CXXBoolLiteralExprClass: o["k"] = "Bool"; o["v"] = cast<CXXBoolLiteralExpr>(e)->getValue(); break;
    case Stmt::FloatingLiteralClass: {
      llvm::SmallString<64> b; auto v = cast<FloatingLiteral>(e)->getValue();
      o["k"] = "Float"; o["hex"] = [&] { bool l; llvm::APFloat f = v; f.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &l); char buf[64]; f.convertToHexString(buf, 0, false, llvm::APFloat::rmNearestTiesToEven); return std::string(buf); }();
      break;
    }
    case Stmt::StringLiteralClass: {
      auto *x = cast<StringLiteral>(e); o["k"] = "Str";
      json::Array a;
      if (x->getCharByteWidth() == 1) for (unsigned char ch : x->getString()) a.push_back((int)ch);
      o["v"] = std::move(a); break;
    }
    case Stmt::PredefinedExprClass: o["k"] = "Str"; o["v"] = json::Array{}; break;
    case Stmt::CXXNullPtrLiteralExprClass: case Stmt::GNUNullExprClass: o["k"] = "Null"; break;
    case Stmt::CXXThisExprClass: o["k"] = "This"; break;
    case Stmt::DeclRefExprClass: {
      auto *d = cast<DeclRefExpr>(e)->getDecl();
      o["k"] = "Ref"; o["n"] = d->getNameAsString();
      if (auto *ec = dyn_cast<EnumConstantDecl>(d)) { o["cv"] = llvm::toString(ec->getInitVal(), 10); o["k"] = "Int"; o["v"] = llvm::toString(ec->getInitVal(), 10); }
      else if (auto *f = dyn_cast<FunctionDecl>(d)) { o["fn"] = fn(f); }
      else if (auto *v = dyn_cast<VarDecl>(d)) {
        o["id"] = varId(v);
        if (v->hasGlobalStorage() && !v->isStaticLocal()) { o["g"] = qname(v); emitGlobal(v); }
        if (v->isStaticLocal()) { o["sl"] = true; emitStaticLocal(v); }
      }
      break;
    }
    case Stmt::MemberExprClass: {
      auto *x = cast<MemberExpr>(e); o["k"] = "Member"; o["arrow"] = x->isArrow();
      o["n"] = x->getMemberDecl()->getNameAsString();
      o["base"] = expr(x->getBase());
      if (auto *f = dyn_cast<FieldDecl>(x->getMemberDecl())) { o["cls"] = type(C.getRecordType(f->getParent())); }
      else if (auto *m = dyn_cast<CXXMethodDecl>(x->getMemberDecl())) { o["fn"] = fn(m); o["qual"] = x->hasQualifier(); }
      else if (auto *v = dyn_cast<VarDecl>(x->getMemberDecl())) { o["k"] = "Ref"; o["id"] = varId(v); o["g"] = qname(v); emitGlobal(v); }
      break;
    }
    case Stmt::ArraySubscriptExprClass: { auto *x = cast<ArraySubscriptExpr>(e); o["k"] = "Index"; o["b"] = expr(x->getBase()); o["i"] = expr(x->getIdx()); break; }
    case Stmt::CallExprClass: case Stmt::CXXMemberCallExprClass: case Stmt::CXXOperatorCallExprClass: case Stmt::UserDefinedLiteralClass: {
      auto *x = cast<CallExpr>(e); o["k"] = "Call";
      if (auto *mc = dyn_cast<CXXMemberCallExpr>(e)) {
        auto *me = dyn_cast<MemberExpr>(mc->getCallee()->IgnoreParens());
        if (me) {
          auto *md = cast<CXXMethodDecl>(me->getMemberDecl());
          o["fn"] = fn(md); o["obj"] = expr(me->getBase()); o["arrow"] = me->isArrow(); o["qual"] = me->hasQualifier();
          o["vcall"] = md->isVirtual() && !me->hasQualifier();
        } else o["callee"] = expr(mc->getCallee());
      } else if (auto *fd = x->getDirectCallee()) {
        o["fn"] = fn(fd);
        if (auto *oc = dyn_cast<CXXOperatorCallExpr>(e)) { o["op"] = getOperatorSpelling(oc->getOperator());
          o["opm"] = isa<CXXMethodDecl>(fd) && !cast<CXXMethodDecl>(fd)->isStatic(); 
          if (auto *md = dyn_cast<CXXMethodDecl>(fd)) o["vcall"] = md->isVirtual(); }
      } else o["callee"] = expr(x->getCallee());
      o["a"] = args(x->arguments()); break;
    }
    case Stmt::CXXConstructExprClass: case Stmt::CXXTemporaryObjectExprClass: {
      auto *x = cast<CXXConstructExpr>(e); o["k"] = "Construct"; o["fn"] = fn(x->getConstructor());
      json::Array a; for (auto *y : x->arguments()) a.push_back(expr(y)); o["a"] = std::move(a);
      o["elid"] = x->isElidable(); o["zi"] = x->requiresZeroInitialization(); o["il"] = x->isListInitialization(); o["sil"] = x->isStdInitListInitialization(); break;
    }
    case Stmt::CXXInheritedCtorInitExprClass: o["k"] = "Unsupported"; o["w"] = "inherited ctor"; break;
    case Stmt::CXXNewExprClass: {
      auto *x = cast<CXXNewExpr>(e); o["k"] = "New"; o["at"] = type(x->getAllocatedType()); o["arr"] = x->isArray();
      if (x->isArray() && x->getArraySize()) o["n"] = expr(*x->getArraySize());
      if (x->getInitializer()) o["i"] = expr(x->getInitializer());
      json::Array a; for (auto *y : x->placement_arguments()) a.push_back(expr(y)); o["pl"] = std::move(a); break;
    }
    case Stmt::CXXDeleteExprClass: { auto *x = cast<CXXDeleteExpr>(e); o["k"] = "Delete"; o["arr"] = x->isArrayForm(); o["e"] = expr(x->getArgument()); break; }
    case Stmt::ImplicitCastExprClass: case Stmt::CStyleCastExprClass: case Stmt::CXXStaticCastExprClass: case Stmt::CXXConstCastExprClass:
    case Stmt::CXXReinterpretCastExprClass: case Stmt::CXXDynamicCastExprClass: case Stmt::CXXFunctionalCastExprClass: {
      auto *x = cast<CastExpr>(e); o["k"] = "Cast"; o["ck"] = x->getCastKindName(); o["e"] = expr(x->getSubExpr()); break;
    }
    case Stmt::UnaryOperatorClass: { auto *x = cast<UnaryOperator>(e); o["k"] = "Unary"; o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str(); o["post"] = x->isPostfix(); o["e"] = expr(x->getSubExpr()); break; }
    case Stmt::BinaryOperatorClass: { auto *x = cast<BinaryOperator>(e); o["k"] = "Binary"; o["op"] = x->getOpcodeStr().str(); o["a"] = expr(x->getLHS()); o["b"] = expr(x->getRHS()); break; }
    case Stmt::CompoundAssignOperatorClass: { auto *x = cast<CompoundAssignOperator>(e); o["k"] = "CompoundAssign"; o["op"] = x->getOpcodeStr().str(); o["a"] = expr(x->getLHS()); o["b"] = expr(x->getRHS()); o["ct"] = type(x->getComputationLHSType()); o["crt"] = type(x->getComputationResultType()); break; }
    case Stmt::ConditionalOperatorClass: { auto *x = cast<ConditionalOperator>(e); o["k"] = "Cond"; o["c"] = expr(x->getCond()); o["a"] = expr(x->getTrueExpr()); o["b"] = expr(x->getFalseExpr()); break; }
    case Stmt::MaterializeTemporaryExprClass: { auto *x = cast<MaterializeTemporaryExpr>(e); o["k"] = "Temp"; o["e"] = expr(x->getSubExpr()); break; }
    case Stmt::InitListExprClass: {
      auto *x = cast<InitListExpr>(e); if (x->isSemanticForm() == false && x->getSemanticForm()) x = x->getSemanticForm();
      o["k"] = "InitList"; json::Array a; for (auto *y : x->inits()) a.push_back(expr(y)); o["a"] = std::move(a);
      if (x->hasArrayFiller()) o["fill"] = expr(x->getArrayFiller());
      break;
    }
    case Stmt::CXXStdInitializerListExprClass: o["k"] = "StdInitList"; o["e"] = expr(cast<CXXStdInitializerListExpr>(e)->getSubExpr()); break;
    case Stmt::ImplicitValueInitExprClass: case Stmt::CXXScalarValueInitExprClass: o["k"] = "ZeroInit"; break;
    case Stmt::UnaryExprOrTypeTraitExprClass: o["k"] = "SizeOf"; break;
    case Stmt::TypeTraitExprClass: o["k"] = "Trait"; break;
    case Stmt::CXXThrowExprClass: { o["k"] = "Throw"; if (cast<CXXThrowExpr>(e)->getSubExpr()) { o["e"] = expr(cast<CXXThrowExpr>(e)->getSubExpr()); o["et"] = type(cast<CXXThrowExpr>(e)->getSubExpr()->getType()); } break; }
    case Stmt::CXXTypeidExprClass: o["k"] = "Typeid"; break;
    case Stmt::LambdaExprClass: {
      auto *x = cast<LambdaExpr>(e); o["k"] = "Lambda"; o["fn"] = fn(x->getCallOperator()); 
      if (!x->getCallOperator()->isDependentContext()) queue(x->getCallOperator());
      json::Array a; auto ii = x->capture_init_begin();
      for (auto &c : x->captures()) { json::Object co; co["ref"] = c.getCaptureKind() == LCK_ByRef; co["this"] = c.capturesThis();
        if (c.capturesVariable()) { co["id"] = varId(c.getCapturedVar()); co["n"] = c.getCapturedVar()->getNameAsString(); }
        co["e"] = expr(*ii); ++ii; a.push_back(std::move(co)); }
      o["cap"] = std::move(a); break;
    }
    case Stmt::ArrayInitLoopExprClass: case Stmt::ArrayInitIndexExprClass: case Stmt::OpaqueValueExprClass:
      if (auto *ov = dyn_cast<OpaqueValueExpr>(e)) { if (ov->getSourceExpr()) return expr(ov->getSourceExpr()); }
      o["k"] = "Unsupported"; o["w"] = e->getStmtClassName(); break;
    default: o["k"] = "Unsupported"; o["w"] = e->getStmtClassName(); break;
    }
    return std::move(o);
  }
  void emitGlobal(const VarDecl *v) {
    std::string n = qname(v);
    if (Globals.get(n)) return;
    Globals[n] = json::Object{};
    json::Object o; o["t"] = type(v->getType()); o["id"] = varId(v);
    const VarDecl *def = v->getInitializingDeclaration();
    if (!def) def = v->getDefinition();
    if (!def) def = v;
    if (const Expr *in = v->getAnyInitializer()) if (!in->isValueDependent()) o["i"] = expr(in);
    o["root"] = inRoots(v->getLocation());
    Globals[n] = std::move(o);
  }
  void emitStaticLocal(const VarDecl *v) {
    std::string n = "static#" + std::to_string(varId(v));
    if (Globals.get(n)) return;
    Globals[n] = json::Object{};
    json::Object o; o["t"] = type(v->getType()); o["id"] = varId(v); o["n"] = v->getNameAsString();
    if (v->getInit()) o["i"] = expr(v->getInit());
    Globals[n] = std::move(o);
  }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
  Dumper &D;
  Visitor(Dumper &d) : D(d) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *fd) {
    if (fd->isThisDeclarationADefinition() && !fd->isDependentContext() && D.inRoots(fd->getLocation()) && !fd->isDefaulted() && !fd->isDeleted())
      D.queue(fd);
    return true;
  }
};

std::string OutPath;
std::string MainFile;

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Dumper D(C);
    Visitor V(D);
    V.TraverseDecl(C.getTranslationUnitDecl());
    while (!D.Work.empty()) { auto *f = D.Work.front(); D.Work.pop_front(); D.emitFunction(f); }
    json::Object out{{"types", std::move(D.Types)}, {"records", std::move(D.Records)}, {"enums", std::move(D.Enums)},
                     {"decls", std::move(D.Decls)}, {"functions", std::move(D.Functions)}, {"globals", std::move(D.Globals)}};
    std::error_code ec;
    llvm::raw_fd_ostream os(OutPath, ec);
    os << json::Value(std::move(out)) << "\n";
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};
} // namespace

int main(int argc, char **argv) {
  // astdump OUT SRC --root=R ... -- flags
  std::vector<std::string> flags;
  int i = 1;
  OutPath = argv[i++];
  MainFile = argv[i++];
  for (; i < argc && std::strcmp(argv[i], "--"); ++i)
    if (!std::strncmp(argv[i], "--root=", 7)) Roots.push_back(argv[i] + 7);
  for (++i; i < argc; ++i) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, {MainFile});
  class F : public tooling::FrontendActionFactory { public: std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); } } fac;
  return tool.run(&fac);
}
