// plasma-facts: emits the resolved program (types, callees, constants, OpenMP
// directives with their clauses) of C translation units as JSON, one line per
// item.  Built on clang's front end; nothing is executed.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Decl.h"
#include "clang/AST/Expr.h"
#include "clang/AST/ExprOpenMP.h"
#include "clang/AST/OpenMPClause.h"
#include "clang/AST/Stmt.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/FileSystem.h"
#include <map>
#include <set>
using namespace clang;

static std::string esc(StringRef s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c == '\t') o += "\\t";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

struct Emit {
  ASTContext &C;
  llvm::raw_ostream &os;
  std::map<const Decl *, unsigned> ids;
  std::set<const FunctionDecl *> called;
  std::set<const VarDecl *> globals;
  std::map<std::string, unsigned> typeIds;
  std::vector<std::string> types;
  Emit(ASTContext &c, llvm::raw_ostream &o) : C(c), os(o) {}

  unsigned id(const Decl *d) {
    d = d->getCanonicalDecl();
    auto it = ids.find(d);
    if (it != ids.end()) return it->second;
    unsigned n = ids.size() + 1;
    ids[d] = n;
    return n;
  }
  unsigned line(SourceLocation l) {
    return C.getSourceManager().getExpansionLineNumber(l);
  }
  std::string tyName(QualType t) {
    t = t.getCanonicalType();
    PrintingPolicy p(C.getLangOpts());
    return t.getAsString(p);
  }
  unsigned ty(QualType t) {
    std::string s = tyName(t);
    auto it = typeIds.find(s);
    if (it != typeIds.end()) return it->second;
    unsigned n = types.size();
    typeIds[s] = n; types.push_back(s);
    return n;
  }

  void expr(const Expr *e) {
    if (!e) { os << "null"; return; }
    if (auto *p = dyn_cast<ParenExpr>(e)) return expr(p->getSubExpr());
    if (auto *p = dyn_cast<ConstantExpr>(e)) return expr(p->getSubExpr());
    if (auto *p = dyn_cast<FullExpr>(e)) return expr(p->getSubExpr());
    if (auto *p = dyn_cast<ImplicitCastExpr>(e)) {
      // keep integer conversions: width matters to the overflow rules
      if (p->getCastKind() == CK_IntegralCast) {
        os << "[\"icast\"," << ty(p->getType()) << ",";
        expr(p->getSubExpr()); os << "]"; return;
      }
      return expr(p->getSubExpr());
    }
    if (auto *p = dyn_cast<OpaqueValueExpr>(e)) return expr(p->getSourceExpr());
    if (auto *p = dyn_cast<IntegerLiteral>(e)) {
      llvm::SmallString<32> s; p->getValue().toString(s, 10, p->getType()->isSignedIntegerType());
      os << "[\"int\"," << s << "," << ty(p->getType()) << "]"; return;
    }
    if (auto *p = dyn_cast<CharacterLiteral>(e)) {
      os << "[\"int\"," << p->getValue() << "," << ty(p->getType()) << "]"; return;
    }
    if (auto *p = dyn_cast<FloatingLiteral>(e)) {
      os << "[\"flt\"," << esc(std::to_string(p->getValueAsApproximateDouble())) << "]"; return;
    }
    if (auto *p = dyn_cast<ImaginaryLiteral>(e)) { os << "[\"imag\","; expr(p->getSubExpr()); os << "]"; return; }
    if (auto *p = dyn_cast<StringLiteral>(e)) { os << "[\"str\"," << esc(p->getString()) << "]"; return; }
    if (auto *p = dyn_cast<PredefinedExpr>(e)) { os << "[\"str\",\"__func__\"]"; return; }
    if (auto *p = dyn_cast<DeclRefExpr>(e)) {
      const ValueDecl *d = p->getDecl();
      if (auto *ec = dyn_cast<EnumConstantDecl>(d)) {
        llvm::SmallString<32> s; ec->getInitVal().toString(s, 10);
        os << "[\"enum\"," << esc(ec->getName()) << "," << s << "]"; return;
      }
      if (auto *f = dyn_cast<FunctionDecl>(d)) {
        called.insert(f->getCanonicalDecl());
        os << "[\"fn\"," << esc(f->getName()) << "]"; return;
      }
      auto *v = dyn_cast<VarDecl>(d);
      const char *k = "l";
      if (v && isa<ParmVarDecl>(v)) k = "p";
      else if (v && v->hasGlobalStorage()) { k = "g"; globals.insert(v->getCanonicalDecl()); }
      os << "[\"var\"," << id(d) << "," << esc(d->getName()) << ",\"" << k << "\"," << ty(d->getType()) << "]";
      return;
    }
    if (auto *p = dyn_cast<MemberExpr>(e)) {
      os << "[\"mem\","; expr(p->getBase());
      os << "," << esc(p->getMemberDecl()->getName()) << "," << (p->isArrow() ? 1 : 0) << "," << ty(p->getType()) << "]";
      return;
    }
    if (auto *p = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
      if (p->getKind() == UETT_SizeOf) {
        QualType t = p->getTypeOfArgument();
        os << "[\"sizeof\"," << ty(t) << "," << (t->isIncompleteType() || t->isVariableArrayType() ? 0 : (long)C.getTypeSizeInChars(t).getQuantity()) << "]";
        return;
      }
      os << "[\"unk\",\"trait\"]"; return;
    }
    if (auto *p = dyn_cast<UnaryOperator>(e)) {
      std::string op = UnaryOperator::getOpcodeStr(p->getOpcode()).str();
      if (p->isPostfix()) op = "p" + op;
      os << "[\"un\"," << esc(op) << ","; expr(p->getSubExpr()); os << "," << ty(p->getType()) << "]"; return;
    }
    if (auto *p = dyn_cast<BinaryOperator>(e)) {
      const char *k = p->isAssignmentOp() ? "asg" : "bin";
      os << "[\"" << k << "\"," << esc(p->getOpcodeStr()) << ","; expr(p->getLHS()); os << ",";
      expr(p->getRHS()); os << "," << ty(p->getType()) << "," << line(p->getOperatorLoc()) << "]"; return;
    }
    if (auto *p = dyn_cast<AbstractConditionalOperator>(e)) {
      os << "[\"cond\","; expr(p->getCond()); os << ","; expr(p->getTrueExpr()); os << ","; expr(p->getFalseExpr());
      os << "]"; return;
    }
    if (auto *p = dyn_cast<CallExpr>(e)) {
      os << "[\"call\",";
      if (auto *f = p->getDirectCallee()) { called.insert(f->getCanonicalDecl()); os << esc(f->getName()); }
      else expr(p->getCallee());
      os << ",[";
      bool first = true;
      for (auto *a : p->arguments()) { if (!first) os << ","; first = false; expr(a); }
      os << "]," << ty(p->getType()) << "," << line(p->getBeginLoc()) << "]"; return;
    }
    if (auto *p = dyn_cast<ArraySubscriptExpr>(e)) {
      os << "[\"idx\","; expr(p->getBase()); os << ","; expr(p->getIdx()); os << "," << ty(p->getType()) << "]"; return;
    }
    if (auto *p = dyn_cast<OMPArraySectionExpr>(e)) {
      os << "[\"sec\","; expr(p->getBase()); os << ","; expr(p->getLowerBound()); os << ","; expr(p->getLength()); os << "]"; return;
    }
    if (auto *p = dyn_cast<CStyleCastExpr>(e)) {
      os << "[\"cast\"," << ty(p->getType()) << ","; expr(p->getSubExpr()); os << "]"; return;
    }
    if (auto *p = dyn_cast<InitListExpr>(e)) {
      os << "[\"init\",[";
      for (unsigned i = 0; i < p->getNumInits(); i++) { if (i) os << ","; expr(p->getInit(i)); }
      os << "]," << ty(p->getType()) << "]"; return;
    }
    if (auto *p = dyn_cast<CompoundLiteralExpr>(e)) return expr(p->getInitializer());
    if (auto *p = dyn_cast<StmtExpr>(e)) { os << "[\"stmtexpr\","; stmt(p->getSubStmt()); os << "]"; return; }
    if (auto *p = dyn_cast<ImplicitValueInitExpr>(e)) { os << "[\"int\",0," << ty(e->getType()) << "]"; return; }
    os << "[\"unk\"," << esc(e->getStmtClassName()) << ",[";
    bool first = true;
    for (auto *c : e->children()) if (auto *ce = dyn_cast_or_null<Expr>(c)) { if (!first) os << ","; first = false; expr(ce); }
    os << "]]";
  }

  void exprs(llvm::ArrayRef<const Expr *> v) {
    os << "["; bool first = true;
    for (auto *x : v) { if (!first) os << ","; first = false; expr(x); }
    os << "]";
  }
  template <class T> void vlist(const T *c) {
    std::vector<const Expr *> v;
    for (auto *x : c->varlists()) v.push_back(x);
    exprs(v);
  }

  void clause(const OMPClause *c) {
    const char *nm = llvm::omp::getOpenMPClauseName(c->getClauseKind()).data();
    os << "[" << esc(nm) << ",";
    bool impl = c->isImplicit();
    if (auto *d = dyn_cast<OMPDependClause>(c)) {
      os << esc(getOpenMPSimpleClauseTypeName(llvm::omp::OMPC_depend, d->getDependencyKind())) << ","; vlist(d);
      os << "," << line(d->getBeginLoc());
    } else if (auto *d = dyn_cast<OMPFirstprivateClause>(c)) { os << (impl ? "\"impl\"," : "\"expl\","); vlist(d); }
    else if (auto *d = dyn_cast<OMPPrivateClause>(c)) { os << (impl ? "\"impl\"," : "\"expl\","); vlist(d); }
    else if (auto *d = dyn_cast<OMPSharedClause>(c)) { os << (impl ? "\"impl\"," : "\"expl\","); vlist(d); }
    else if (auto *d = dyn_cast<OMPLastprivateClause>(c)) { os << "\"\","; vlist(d); }
    else if (auto *d = dyn_cast<OMPReductionClause>(c)) { os << "\"\","; vlist(d); }
    else if (auto *d = dyn_cast<OMPIfClause>(c)) { os << "\"\",["; expr(d->getCondition()); os << "]"; }
    else if (auto *d = dyn_cast<OMPFinalClause>(c)) { os << "\"\",["; expr(d->getCondition()); os << "]"; }
    else if (auto *d = dyn_cast<OMPNumTasksClause>(c)) { os << "\"\",["; expr(d->getNumTasks()); os << "]"; }
    else if (auto *d = dyn_cast<OMPPriorityClause>(c)) { os << "\"\",["; expr(d->getPriority()); os << "]"; }
    else if (auto *d = dyn_cast<OMPNumThreadsClause>(c)) { os << "\"\",["; expr(d->getNumThreads()); os << "]"; }
    else if (auto *d = dyn_cast<OMPDefaultClause>(c)) { os << esc(getOpenMPSimpleClauseTypeName(llvm::omp::OMPC_default, unsigned(d->getDefaultKind()))) << ",[]"; }
    else os << "\"\",[]";
    os << "]";
  }

  void varDecl(const VarDecl *v) {
    os << "[" << id(v) << "," << esc(v->getName()) << "," << ty(v->getType()) << ",";
    expr(v->getInit());
    os << "," << (v->isStaticLocal() ? 1 : 0) << "," << line(v->getLocation()) << "]";
  }

  void stmt(const Stmt *s) {
    if (!s) { os << "null"; return; }
    if (auto *e = dyn_cast<Expr>(s)) { os << "[\"expr\","; expr(e); os << "," << line(e->getBeginLoc()) << "]"; return; }
    if (auto *p = dyn_cast<CompoundStmt>(s)) {
      os << "[\"block\",["; bool first = true;
      for (auto *c : p->body()) { if (!first) os << ","; first = false; stmt(c); }
      os << "]]"; return;
    }
    if (auto *p = dyn_cast<DeclStmt>(s)) {
      os << "[\"decl\",["; bool first = true;
      for (auto *d : p->decls()) if (auto *v = dyn_cast<VarDecl>(d)) { if (!first) os << ","; first = false; varDecl(v); }
      os << "]," << line(p->getBeginLoc()) << "]"; return;
    }
    unsigned ln = line(s->getBeginLoc());
    if (auto *p = dyn_cast<IfStmt>(s)) {
      os << "[\"if\","; expr(p->getCond()); os << ","; stmt(p->getThen()); os << ","; stmt(p->getElse()); os << "," << ln << "]"; return;
    }
    if (auto *p = dyn_cast<ForStmt>(s)) {
      os << "[\"for\","; stmt(p->getInit()); os << ","; expr(p->getCond()); os << ","; expr(p->getInc()); os << ",";
      stmt(p->getBody()); os << "," << ln << "]"; return;
    }
    if (auto *p = dyn_cast<WhileStmt>(s)) { os << "[\"while\","; expr(p->getCond()); os << ","; stmt(p->getBody()); os << "," << ln << "]"; return; }
    if (auto *p = dyn_cast<DoStmt>(s)) { os << "[\"do\","; expr(p->getCond()); os << ","; stmt(p->getBody()); os << "," << ln << "]"; return; }
    if (auto *p = dyn_cast<SwitchStmt>(s)) { os << "[\"switch\","; expr(p->getCond()); os << ","; stmt(p->getBody()); os << "," << ln << "]"; return; }
    if (auto *p = dyn_cast<CaseStmt>(s)) { os << "[\"case\","; expr(p->getLHS()); os << ","; stmt(p->getSubStmt()); os << "," << ln << "]"; return; }
    if (auto *p = dyn_cast<DefaultStmt>(s)) { os << "[\"default\","; stmt(p->getSubStmt()); os << "," << ln << "]"; return; }
    if (isa<BreakStmt>(s)) { os << "[\"break\"," << ln << "]"; return; }
    if (isa<ContinueStmt>(s)) { os << "[\"continue\"," << ln << "]"; return; }
    if (isa<NullStmt>(s)) { os << "[\"null\"," << ln << "]"; return; }
    if (auto *p = dyn_cast<ReturnStmt>(s)) { os << "[\"return\","; expr(p->getRetValue()); os << "," << ln << "]"; return; }
    if (auto *p = dyn_cast<GotoStmt>(s)) { os << "[\"goto\"," << esc(p->getLabel()->getName()) << "," << ln << "]"; return; }
    if (auto *p = dyn_cast<LabelStmt>(s)) { os << "[\"label\"," << esc(p->getName()) << ","; stmt(p->getSubStmt()); os << "," << ln << "]"; return; }
    if (auto *p = dyn_cast<AttributedStmt>(s)) return stmt(p->getSubStmt());
    if (auto *p = dyn_cast<CapturedStmt>(s)) return stmt(p->getCapturedStmt());
    if (auto *p = dyn_cast<OMPCanonicalLoop>(s)) return stmt(p->getLoopStmt());
    if (auto *p = dyn_cast<OMPExecutableDirective>(s)) {
      os << "[\"omp\"," << esc(llvm::omp::getOpenMPDirectiveName(p->getDirectiveKind())) << ",[";
      bool first = true;
      for (auto *c : p->clauses()) { if (!first) os << ","; first = false; clause(c); }
      os << "],";
      if (p->hasAssociatedStmt() && p->getAssociatedStmt()) {
        const Stmt *a = p->getAssociatedStmt();
        while (auto *cs = dyn_cast<CapturedStmt>(a)) a = cs->getCapturedStmt();
        stmt(a);
      } else os << "null";
      os << "," << ln << "]"; return;
    }
    os << "[\"unkstmt\"," << esc(s->getStmtClassName()) << "," << ln << "]";
  }

  void function(const FunctionDecl *f, StringRef file) {
    os << "{\"k\":\"func\",\"name\":" << esc(f->getName()) << ",\"file\":" << esc(file)
       << ",\"line\":" << line(f->getLocation()) << ",\"endline\":" << line(f->getBodyRBrace())
       << ",\"static\":" << (f->getFormalLinkage() == Linkage::Internal ? 1 : 0)
       << ",\"ret\":" << ty(f->getReturnType()) << ",\"params\":[";
    bool first = true;
    for (auto *p : f->parameters()) {
      if (!first) os << ","; first = false;
      os << "[" << id(p) << "," << esc(p->getName()) << "," << ty(p->getType()) << "]";
    }
    os << "],\"body\":"; stmt(f->getBody()); os << "}\n";
  }
  void proto(const FunctionDecl *f) {
    SourceManager &SM = C.getSourceManager();
    auto fe = SM.getFilename(SM.getExpansionLoc(f->getLocation()));
    os << "{\"k\":\"proto\",\"name\":" << esc(f->getName()) << ",\"file\":" << esc(fe) << ",\"ret\":" << ty(f->getReturnType()) << ",\"variadic\":" << (f->isVariadic() ? 1 : 0) << ",\"params\":[";
    bool first = true;
    for (auto *p : f->parameters()) {
      if (!first) os << ","; first = false;
      os << "[" << esc(p->getName()) << "," << ty(p->getType()) << "]";
    }
    os << "]}\n";
  }
};

static std::string Root, OutDir;
static bool Headers = false;

class Consumer : public ASTConsumer {
  std::string in;
public:
  Consumer(StringRef f) : in(f.str()) {}
  void HandleTranslationUnit(ASTContext &C) override {
    SourceManager &SM = C.getSourceManager();
    std::string rel = in;
    if (StringRef(rel).starts_with(Root)) rel = rel.substr(Root.size());
    while (!rel.empty() && rel[0] == '/') rel = rel.substr(1);
    std::string out = OutDir + "/";
    for (char c : rel) out += c == '/' ? '@' : c;
    out += ".json";
    std::error_code EC;
    llvm::raw_fd_ostream os(out, EC);
    if (EC) { llvm::errs() << "cannot write " << out << "\n"; exit(3); }
    Emit E(C, os);
    if (C.getDiagnostics().hasErrorOccurred()) os << "{\"k\":\"error\"}\n";
    for (auto *d : C.getTranslationUnitDecl()->decls()) {
      SourceLocation L = SM.getExpansionLoc(d->getLocation());
      bool main = SM.isInMainFile(L);
      StringRef fn = SM.getFilename(L);
      bool inRoot = fn.starts_with(Root);
      std::string frel = fn.str();
      if (inRoot) { frel = frel.substr(Root.size()); while (!frel.empty() && frel[0] == '/') frel = frel.substr(1); }
      if (auto *f = dyn_cast<FunctionDecl>(d)) {
        if (f->isThisDeclarationADefinition() && f->getBody()) {
          // header functions: only in the synthetic header unit
          if (main || (Headers && inRoot)) E.function(f, frel);
        } else if (Headers && inRoot) {
          E.called.insert(f->getCanonicalDecl());
          os << "{\"k\":\"hdecl\",\"name\":" << esc(f->getName()) << ",\"file\":" << esc(frel) << "}\n";
        }
      } else if (auto *v = dyn_cast<VarDecl>(d)) {
        if ((main || (Headers && inRoot)) && v->isThisDeclarationADefinition()) {
          os << "{\"k\":\"gvar\",\"name\":" << esc(v->getName()) << ",\"file\":" << esc(frel) << ",\"type\":" << E.ty(v->getType()) << ",\"static\":" << (v->getFormalLinkage() == Linkage::Internal ? 1 : 0) << ",\"init\":";
          E.expr(v->getInit()); os << "}\n";
        }
      } else if (auto *en = dyn_cast<EnumDecl>(d)) {
        if ((main || Headers) && inRoot && en->isThisDeclarationADefinition()) {
          os << "{\"k\":\"enumdef\",\"name\":" << esc(en->getName()) << ",\"file\":" << esc(frel) << ",\"items\":[";
          bool first = true;
          for (auto *c : en->enumerators()) {
            if (!first) os << ","; first = false;
            llvm::SmallString<32> s; c->getInitVal().toString(s, 10);
            os << "[" << esc(c->getName()) << "," << s << "]";
          }
          os << "]}\n";
        }
      } else if (auto *r = dyn_cast<RecordDecl>(d)) {
        if ((main || Headers) && inRoot && r->isThisDeclarationADefinition()) {
          std::string nm = r->getNameAsString();
          if (nm.empty()) if (auto *td = r->getTypedefNameForAnonDecl()) nm = td->getNameAsString();
          os << "{\"k\":\"record\",\"name\":" << esc(nm) << ",\"type\":" << E.ty(C.getRecordType(r)) << ",\"fields\":[";
          bool first = true;
          for (auto *f : r->fields()) { if (!first) os << ","; first = false; os << "[" << esc(f->getName()) << "," << E.ty(f->getType()) << "]"; }
          os << "]}\n";
        }
      }
    }
    for (auto *f : E.called) E.proto(f);
    os << "{\"k\":\"types\",\"types\":[";
    for (size_t i = 0; i < E.types.size(); i++) { if (i) os << ","; os << esc(E.types[i]); }
    os << "]}\n";
  }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef f) override {
    return std::make_unique<Consumer>(f);
  }
};

// usage: plasma-facts ROOT OUTDIR [--headers] FILE... -- FLAGS...
int main(int argc, char **argv) {
  if (argc < 4) return 2;
  Root = argv[1]; OutDir = argv[2];
  std::vector<std::string> files, flags;
  bool inflags = false;
  for (int i = 3; i < argc; i++) {
    std::string a = argv[i];
    if (inflags) flags.push_back(a);
    else if (a == "--") inflags = true;
    else if (a == "--headers") Headers = true;
    else files.push_back(a);
  }
  tooling::FixedCompilationDatabase db(Root, flags);
  tooling::ClangTool tool(db, files);
  tool.setPrintErrorMessage(true);
  return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
