// cxx2json: dumps the bodies of functions declared under a given source root as compact JSON.
// Usage: cxx2json ROOT FILE -- clang-args
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Sema/SemaConsumer.h"
#include "clang/Sema/Sema.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
namespace json = llvm::json;
static std::string Root;

struct Dumper {
  ASTContext &C; Sema *SemaP=nullptr; SourceManager &SM; PrintingPolicy PP;
  std::map<const Decl*, int> Ids;
  std::set<const FunctionDecl*> Done; std::vector<const FunctionDecl*> Queue;
  std::set<const CXXRecordDecl*> Recs; std::vector<const CXXRecordDecl*> RecQueue;
  Dumper(ASTContext &C): C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) { PP.SuppressTagKeyword=true; PP.Bool=true; PP.SuppressUnwrittenScope=true;}
  int id(const Decl*D){ D=D->getCanonicalDecl(); auto it=Ids.find(D); if(it!=Ids.end())return it->second; int n=Ids.size()+1; Ids[D]=n; return n; }
  bool inRoot(SourceLocation L){ if(L.isInvalid())return false; L=SM.getExpansionLoc(L); auto F=SM.getFilename(L); return F.starts_with(Root); }
  std::string fname(SourceLocation L){ return SM.getFilename(SM.getExpansionLoc(L)).str(); }
  unsigned line(SourceLocation L){ return SM.getExpansionLineNumber(L); }

  json::Value type(QualType T){
    json::Object o; QualType Q=T.getNonReferenceType();
    if(T->isReferenceType()) { o["ref"]=true; if(T->isRValueReferenceType()) o["rref"]=true; }
    if(Q.isConstQualified()) o["const"]=true;
    Q=Q.getCanonicalType().getUnqualifiedType();
    if(Q->isBooleanType()) { o["k"]="bool"; }
    else if(Q->isEnumeralType()) { o["k"]="int"; o["w"]=(int)C.getTypeSize(Q); o["s"]=true; o["enum"]=true;}
    else if(Q->isIntegerType()) { o["k"]="int"; o["w"]=(int)C.getTypeSize(Q); o["s"]=Q->isSignedIntegerType(); }
    else if(Q->isFloatingType()) { o["k"]="real"; o["w"]=(int)C.getTypeSize(Q);}
    else if(Q->isVoidType()) o["k"]="void";
    else if(Q->isPointerType()) { o["k"]="ptr"; o["to"]=type(Q->getPointeeType()); }
    else if(auto*R=Q->getAsCXXRecordDecl()) {
      std::string qn=R->getQualifiedNameAsString();
      o["k"]="rec"; o["n"]=qn;
      if(R->isLambda()) o["k"]="lambda";
      if(qn.rfind("Eigen::",0)==0) eigen(R,o);
      else if(inRoot(R->getLocation())&&!R->isLambda()) { o["repo"]=true; addRec(R); }
      if(auto*S=dyn_cast<ClassTemplateSpecializationDecl>(R)){
        json::Array ta; if(qn.rfind("std::",0)==0 && o["k"].getAsString()){
          int i=0; for(auto&A:S->getTemplateArgs().asArray()){ if(i++>1)break; if(A.getKind()==TemplateArgument::Type) ta.push_back(type(A.getAsType())); }
        }
        if(!ta.empty()) o["args"]=std::move(ta);
      }
    } else if(Q->isFunctionProtoType()) o["k"]="func";
    else { o["k"]="other"; o["n"]=Q.getAsString(PP); }
    return std::move(o);
  }
  static const EnumConstantDecl* findEnum(const CXXRecordDecl*R,StringRef N){
    for(auto*D:R->decls()){ if(auto*E=dyn_cast<EnumDecl>(D)) for(auto*K:E->enumerators()) if(K->getName()==N) return K; }
    return nullptr;
  }
  void eigen(const CXXRecordDecl*R, json::Object&o){
    o["eigen"]=true;
    if(!R->hasDefinition()) return; R=R->getDefinition();
    std::vector<const CXXRecordDecl*> st{R}; std::set<const CXXRecordDecl*> seen; 
    int rows=-2,cols=-2; 
    while(!st.empty()){ auto*X=st.back(); st.pop_back(); if(!X||!seen.insert(X).second)continue; if(!X->hasDefinition())continue; X=X->getDefinition();
      std::string n=X->getNameAsString();
      if(n=="ArrayBase") o["ek"]="array"; if(n=="MatrixBase") o["ek"]="matrix"; if(n=="SparseMatrixBase") o["ek"]="sparse"; if(n=="PlainObjectBase"||n=="SparseCompressedBase") o["plain"]=true;
      if(n=="DenseBase"||n=="SparseMatrixBase"){ if(auto*E=findEnum(X,"RowsAtCompileTime")) rows=(int)E->getInitVal().getExtValue(); if(auto*E=findEnum(X,"ColsAtCompileTime")) cols=(int)E->getInitVal().getExtValue(); }
      for(auto&B:X->bases()) st.push_back(B.getType()->getAsCXXRecordDecl()); }
    if(rows!=-2) o["rows"]=rows; if(cols!=-2) o["cols"]=cols;
    if(auto*S=dyn_cast<ClassTemplateSpecializationDecl>(R)){ // scalar type
      for(auto&A:S->getTemplateArgs().asArray()) { if(A.getKind()==TemplateArgument::Type && A.getAsType()->isArithmeticType()) o["sc"]=type(A.getAsType()); break; }
    }
  }
  void addRec(const CXXRecordDecl*R){ if(R->hasDefinition()) R=R->getDefinition(); if(Recs.insert(R).second) RecQueue.push_back(R); }
  json::Value S(const Stmt*s){
    if(!s) return nullptr;
    json::Object o; o["l"]=line(s->getBeginLoc());
    if(auto*x=dyn_cast<CompoundStmt>(s)){ o["k"]="block"; json::Array a; for(auto*c:x->body()) a.push_back(S(c)); o["s"]=std::move(a); return std::move(o);}    
    if(auto*x=dyn_cast<IfStmt>(s)){ o["k"]="if"; if(x->getInit()) o["init"]=S(x->getInit()); if(x->getConditionVariableDeclStmt()) o["cv"]=S(x->getConditionVariableDeclStmt()); o["c"]=E(x->getCond()); o["t"]=S(x->getThen()); o["e"]=S(x->getElse()); return std::move(o);}    
    if(auto*x=dyn_cast<ForStmt>(s)){ o["k"]="for"; o["init"]=S(x->getInit()); o["c"]=x->getCond()?E(x->getCond()):json::Value(nullptr); o["inc"]=x->getInc()?E(x->getInc()):json::Value(nullptr); o["b"]=S(x->getBody()); return std::move(o);}    
    if(auto*x=dyn_cast<WhileStmt>(s)){ o["k"]="while"; o["c"]=E(x->getCond()); o["b"]=S(x->getBody()); return std::move(o);}    
    if(auto*x=dyn_cast<DoStmt>(s)){ o["k"]="do"; o["c"]=E(x->getCond()); o["b"]=S(x->getBody()); return std::move(o);}    
    if(auto*x=dyn_cast<CXXForRangeStmt>(s)){ o["k"]="rangefor"; o["range"]=E(x->getRangeInit()); o["var"]=var(x->getLoopVariable()); o["b"]=S(x->getBody()); return std::move(o);}    
    if(auto*x=dyn_cast<ReturnStmt>(s)){ o["k"]="return"; if(x->getRetValue()) o["e"]=E(x->getRetValue()); return std::move(o);}    
    if(auto*x=dyn_cast<DeclStmt>(s)){ o["k"]="decl"; json::Array a; for(auto*d:x->decls()) if(auto*v=dyn_cast<VarDecl>(d)) a.push_back(var(v)); o["d"]=std::move(a); return std::move(o);}    
    if(isa<BreakStmt>(s)){o["k"]="break";return std::move(o);} if(isa<ContinueStmt>(s)){o["k"]="continue";return std::move(o);} if(isa<NullStmt>(s)){o["k"]="null";return std::move(o);}    
    if(auto*x=dyn_cast<SwitchStmt>(s)){ o["k"]="switch"; o["c"]=E(x->getCond()); o["b"]=S(x->getBody()); return std::move(o);}    
    if(auto*x=dyn_cast<CaseStmt>(s)){ o["k"]="case"; o["v"]=E(x->getLHS()); o["b"]=S(x->getSubStmt()); return std::move(o);}    
    if(auto*x=dyn_cast<DefaultStmt>(s)){ o["k"]="default"; o["b"]=S(x->getSubStmt()); return std::move(o);}    
    if(auto*x=dyn_cast<CXXTryStmt>(s)){ o["k"]="try"; o["b"]=S(x->getTryBlock()); return std::move(o);}    
    if(auto*x=dyn_cast<Expr>(s)){ o["k"]="expr"; o["e"]=E(x); return std::move(o);}    
    o["k"]="unknown"; o["cls"]=s->getStmtClassName(); return std::move(o);
  }
  json::Value var(const VarDecl*v){ json::Object o; o["id"]=id(v); o["n"]=v->getNameAsString(); o["t"]=type(v->getType()); if(v->isStaticLocal()) o["static"]=true; if(v->getInit()) { o["init"]=E(v->getInit()); if(v->getInitStyle()==VarDecl::ListInit) o["list"]=true;} return std::move(o);}  
  bool trivialCopy(const CXXConstructExpr*x){ return x->getConstructor()->isCopyOrMoveConstructor(); }
  void callee(json::Object&o,const FunctionDecl*F){
    o["fn"]=F->getQualifiedNameAsString(); const FunctionDecl*D=F; 
    if(auto*P=F->getTemplateInstantiationPattern()) if(inRoot(P->getLocation())) { o["repo"]=true; }
    if(inRoot(F->getLocation())) o["repo"]=true;
    if(o.get("repo")) { o["fid"]=id(F); Queue.push_back(F);}
    if(auto*M=dyn_cast<CXXMethodDecl>(F)){ if(M->isVirtual()) o["virt"]=true; if(M->isStatic()) o["static"]=true; if(M->isConst()) o["cm"]=true; }
    json::Array pr; for(auto*p:F->parameters()){ auto T=p->getType(); pr.push_back(T->isReferenceType()? (T->getPointeeType().isConstQualified()||T->isRValueReferenceType()?"cref":"ref"):"val"); }
    o["pr"]=std::move(pr);
  }
  json::Value E(const Expr*e){
    if(!e) return nullptr;
    // strip
    while(true){
      if(auto*x=dyn_cast<ParenExpr>(e)){e=x->getSubExpr();continue;}
      if(auto*x=dyn_cast<ExprWithCleanups>(e)){e=x->getSubExpr();continue;}
      if(auto*x=dyn_cast<MaterializeTemporaryExpr>(e)){e=x->getSubExpr();continue;}
      if(auto*x=dyn_cast<CXXBindTemporaryExpr>(e)){e=x->getSubExpr();continue;}
      if(auto*x=dyn_cast<ConstantExpr>(e)){e=x->getSubExpr();continue;}
      if(auto*x=dyn_cast<SubstNonTypeTemplateParmExpr>(e)){e=x->getReplacement();continue;}
      if(auto*x=dyn_cast<CXXDefaultArgExpr>(e)){e=x->getExpr();continue;}
      if(auto*x=dyn_cast<CXXDefaultInitExpr>(e)){e=x->getExpr();continue;}
      if(auto*x=dyn_cast<ImplicitCastExpr>(e)){
        switch(x->getCastKind()){ case CK_IntegralCast: case CK_IntegralToFloating: case CK_FloatingToIntegral: case CK_IntegralToBoolean: case CK_FloatingToBoolean: case CK_PointerToBoolean: case CK_FloatingCast: break; default: e=x->getSubExpr(); continue; }
      }
      break;
    }
    json::Object o; o["t"]=type(e->getType()); o["l"]=line(e->getBeginLoc());
    if(e->isLValue()) o["lv"]=true;
    if(auto*x=dyn_cast<IntegerLiteral>(e)){ o["k"]="int"; llvm::SmallString<32> s; x->getValue().toString(s,10,e->getType()->isSignedIntegerType()); o["v"]=s.str().str(); return std::move(o);}    
    if(auto*x=dyn_cast<FloatingLiteral>(e)){ o["k"]="real"; llvm::SmallString<64> s; x->getValue().toString(s,0,0); o["v"]=s.str().str(); o["d"]=x->getValueAsApproximateDouble(); return std::move(o);}    
    if(auto*x=dyn_cast<CXXBoolLiteralExpr>(e)){ o["k"]="bool"; o["v"]=x->getValue(); return std::move(o);}    
    if(auto*x=dyn_cast<StringLiteral>(e)){ o["k"]="str"; o["v"]=x->getString().str(); return std::move(o);}    
    if(isa<CXXNullPtrLiteralExpr>(e)){ o["k"]="null"; return std::move(o);}    
    if(isa<CXXThisExpr>(e)){ o["k"]="this"; return std::move(o);}    
    if(auto*x=dyn_cast<DeclRefExpr>(e)){ auto*D=x->getDecl(); o["k"]="ref"; o["n"]=D->getNameAsString();
      if(auto*EC=dyn_cast<EnumConstantDecl>(D)){ o["k"]="int"; llvm::SmallString<32> s; EC->getInitVal().toString(s,10); o["v"]=s.str().str(); return std::move(o);}    
      if(auto*F=dyn_cast<FunctionDecl>(D)){ o["k"]="fnref"; callee(o,F); return std::move(o);}    
      o["id"]=id(D); if(auto*V=dyn_cast<VarDecl>(D)) if(V->hasGlobalStorage()&&!V->isStaticLocal()) { o["global"]=V->getQualifiedNameAsString(); if(V->getAnyInitializer()&&inRoot(V->getLocation())) o["ginit"]=E(V->getAnyInitializer()); }
      if(x->refersToEnclosingVariableOrCapture()) o["cap"]=true; return std::move(o);}    
    if(auto*x=dyn_cast<MemberExpr>(e)){ auto*D=x->getMemberDecl(); o["k"]="member"; o["n"]=D->getNameAsString(); o["b"]=E(x->getBase()); if(x->isArrow()) o["arrow"]=true; if(!isa<FieldDecl>(D)) o["nf"]=true; return std::move(o);}    
    if(auto*x=dyn_cast<BinaryOperator>(e)){ o["k"]= x->isAssignmentOp()? (x->isCompoundAssignmentOp()?"opassign":"assign"):"bin"; o["op"]=x->getOpcodeStr().str(); o["a"]=E(x->getLHS()); o["b"]=E(x->getRHS()); if(auto*ca=dyn_cast<CompoundAssignOperator>(x)) o["ct"]=type(ca->getComputationResultType()); return std::move(o);}    
    if(auto*x=dyn_cast<UnaryOperator>(e)){ o["k"]="un"; o["op"]=UnaryOperator::getOpcodeStr(x->getOpcode()).str(); if(x->isPostfix()) o["post"]=true; o["a"]=E(x->getSubExpr()); return std::move(o);}    
    if(auto*x=dyn_cast<ConditionalOperator>(e)){ o["k"]="cond"; o["c"]=E(x->getCond()); o["a"]=E(x->getTrueExpr()); o["b"]=E(x->getFalseExpr()); return std::move(o);}    
    if(auto*x=dyn_cast<ArraySubscriptExpr>(e)){ o["k"]="index"; o["a"]=E(x->getBase()); o["i"]=E(x->getIdx()); return std::move(o);}    
    if(auto*x=dyn_cast<CXXOperatorCallExpr>(e)){ o["k"]="call"; o["opc"]=getOperatorSpelling(x->getOperator()); if(auto*F=x->getDirectCallee()) callee(o,F); json::Array a; for(auto*g:x->arguments()) a.push_back(E(g)); o["args"]=std::move(a); if(x->getDirectCallee()&&isa<CXXMethodDecl>(x->getDirectCallee())) o["m"]=true; return std::move(o);}    
    if(auto*x=dyn_cast<CXXMemberCallExpr>(e)){ o["k"]="call"; o["m"]=true; if(auto*F=x->getMethodDecl()) {callee(o,F); if(isa<CXXConversionDecl>(F)) o["conv"]=true;} json::Array a; a.push_back(E(x->getImplicitObjectArgument())); for(auto*g:x->arguments()) a.push_back(E(g)); o["args"]=std::move(a); return std::move(o);}    
    if(auto*x=dyn_cast<CallExpr>(e)){ o["k"]="call"; if(auto*F=x->getDirectCallee()) callee(o,F); else o["callee"]=E(x->getCallee()); json::Array a; for(auto*g:x->arguments()) a.push_back(E(g)); o["args"]=std::move(a); return std::move(o);}    
    if(auto*x=dyn_cast<CXXConstructExpr>(e)){ o["k"]="construct"; auto*K=x->getConstructor(); o["copy"]=K->isCopyOrMoveConstructor(); o["default"]=K->isDefaultConstructor(); if(x->isListInitialization()) o["list"]=true; if(x->isStdInitListInitialization()) o["stdlist"]=true; callee(o,K); if(K->isImplicit()||K->isDefaulted()) o["implicit"]=true; json::Array a; for(auto*g:x->arguments()) { if(isa<CXXDefaultArgExpr>(g)) break; a.push_back(E(g)); } o["args"]=std::move(a); return std::move(o);}    
    if(auto*x=dyn_cast<CXXNewExpr>(e)){ o["k"]="new"; o["e"]= x->getInitializer()?E(x->getInitializer()):json::Value(nullptr); return std::move(o);}    
    if(auto*x=dyn_cast<CXXThrowExpr>(e)){ o["k"]="throw"; if(x->getSubExpr()) o["e"]=E(x->getSubExpr()); return std::move(o);}    
    if(auto*x=dyn_cast<LambdaExpr>(e)){ o["k"]="lambda"; json::Array cs; for(auto&c:x->captures()){ json::Object co; if(c.capturesThis()) co["this"]=true; else if(c.capturesVariable()){ co["id"]=id(c.getCapturedVar()); co["n"]=c.getCapturedVar()->getNameAsString(); co["byref"]=c.getCaptureKind()==LCK_ByRef; } cs.push_back(std::move(co)); } o["caps"]=std::move(cs); auto*op=x->getCallOperator(); json::Array ps; for(auto*p:op->parameters()) ps.push_back(param(p)); o["params"]=std::move(ps); o["ret"]=type(op->getReturnType()); o["body"]=S(x->getBody()); return std::move(o);}    
    if(auto*x=dyn_cast<InitListExpr>(e)){ o["k"]="initlist"; json::Array a; for(auto*g:x->inits()) a.push_back(E(g)); o["args"]=std::move(a); return std::move(o);}    
    if(auto*x=dyn_cast<CXXStdInitializerListExpr>(e)) return E(x->getSubExpr());
    if(auto*x=dyn_cast<CXXFunctionalCastExpr>(e)) { if(x->getCastKind()==CK_ConstructorConversion||x->getCastKind()==CK_NoOp) return E(x->getSubExpr()); }
    if(auto*x=dyn_cast<CastExpr>(e)){ o["k"]="cast"; o["ck"]=x->getCastKindName(); o["e"]=E(x->getSubExpr()); return std::move(o);}    
    if(isa<CXXScalarValueInitExpr>(e)||isa<ImplicitValueInitExpr>(e)){ o["k"]="zero"; return std::move(o);}    
    if(auto*x=dyn_cast<UnaryExprOrTypeTraitExpr>(e)){ Expr::EvalResult r; if(!x->isValueDependent()&&x->EvaluateAsInt(r,C)){ o["k"]="int"; llvm::SmallString<32> s; r.Val.getInt().toString(s,10); o["v"]=s.str().str(); return std::move(o);} }
    o["k"]="unknown"; o["cls"]=e->getStmtClassName(); return std::move(o);
  }
  json::Value param(const ParmVarDecl*p){ json::Object o; o["id"]=id(p); o["n"]=p->getNameAsString(); o["t"]=type(p->getType()); return std::move(o);}  
  json::Value func(const FunctionDecl*F){
    const FunctionDecl*Def=nullptr; F->hasBody(Def);
    if(!Def && SemaP && F->isTemplateInstantiation()) { // pending instantiations are not performed for a TU prefix: do ours
      if(auto*P=F->getTemplateInstantiationPattern()) if(inRoot(P->getLocation())) { SemaP->InstantiateFunctionDefinition(F->getLocation(), const_cast<FunctionDecl*>(F), false, true); F->hasBody(Def);} } json::Object o; o["name"]=F->getQualifiedNameAsString(); o["fid"]=id(F);
    const FunctionDecl*U=Def?Def:F; json::Array ps; for(auto*p:U->parameters()) ps.push_back(param(p)); o["params"]=std::move(ps); o["ret"]=type(F->getReturnType());
    if(auto*M=dyn_cast<CXXMethodDecl>(F)){ o["cls"]=M->getParent()->getQualifiedNameAsString(); addRec(M->getParent()); if(M->isConst())o["const"]=true; if(M->isVirtual())o["virt"]=true; if(M->isStatic()) o["static"]=true; }
    if(isa<CXXConstructorDecl>(F)) { o["ctor"]=true; if(F->isImplicit()||F->isDefaulted()) o["implicit"]=true; }
    if(isa<CXXDestructorDecl>(F)) o["dtor"]=true;
    if(Def){ o["file"]=fname(Def->getLocation()); o["line"]=line(Def->getLocation());
      if(auto*K=dyn_cast<CXXConstructorDecl>(Def)){ json::Array is; for(auto*I:K->inits()){ json::Object io; if(I->isMemberInitializer()) io["m"]=I->getMember()->getNameAsString(); else if(I->isBaseInitializer()) { io["base"]=QualType(I->getBaseClass(),0)->getAsCXXRecordDecl()->getQualifiedNameAsString(); } else io["deleg"]=true; io["written"]=I->isWritten(); io["e"]=E(I->getInit()); is.push_back(std::move(io)); } o["inits"]=std::move(is); }
      if(!Def->isDefaulted()||!isa<CXXMethodDecl>(Def)||isa<CXXConstructorDecl>(Def)) o["body"]=S(Def->getBody()); }
    return std::move(o);
  }
  void run(){
    struct V: RecursiveASTVisitor<V>{ Dumper&D; V(Dumper&D):D(D){} bool shouldVisitTemplateInstantiations()const{return true;}
      bool VisitFunctionDecl(FunctionDecl*F){ if(F->isDependentContext()) return true; if(!D.inRoot(F->getLocation())) return true; if(F->doesThisDeclarationHaveABody()) { if(auto*M=dyn_cast<CXXMethodDecl>(F)) if(M->getParent()->isLambda()) return true; D.Queue.push_back(F);} return true; } };
    V v(*this); v.TraverseDecl(C.getTranslationUnitDecl());
    json::Array fs; for(size_t i=0;i<Queue.size();++i){ auto*F=Queue[i]->getCanonicalDecl(); if(!Done.insert(F).second)continue; fs.push_back(func(F)); }
    json::Array rs; for(size_t i=0;i<RecQueue.size();++i){ auto*R=RecQueue[i]; json::Object o; o["name"]=R->getQualifiedNameAsString(); if(R->hasDefinition()){ json::Array fl; for(auto*f:R->fields()){ json::Object fo; fo["n"]=f->getNameAsString(); fo["t"]=type(f->getType()); fl.push_back(std::move(fo)); } o["fields"]=std::move(fl); json::Array bs; for(auto&B:R->bases()) if(auto*b=B.getType()->getAsCXXRecordDecl()) { bs.push_back(b->getQualifiedNameAsString()); if(inRoot(b->getLocation())) addRec(b);} o["bases"]=std::move(bs);} rs.push_back(std::move(o)); }
    json::Object top; top["functions"]=std::move(fs); top["records"]=std::move(rs); llvm::outs()<<json::Value(std::move(top))<<"\n";
  }
};
struct Cons: SemaConsumer { Sema*S=nullptr; void InitializeSema(Sema&X) override {S=&X;} void ForgetSema() override {S=nullptr;} void HandleTranslationUnit(ASTContext&C) override { if(C.getDiagnostics().hasErrorOccurred()) return; Dumper D(C); D.SemaP=S; D.run(); } };
struct Act: ASTFrontendAction { TranslationUnitKind getTranslationUnitKind() override { return TU_Prefix; } std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&CI,StringRef) override { return std::make_unique<Cons>(); } };
int main(int argc,const char**argv){
  Root=argv[1]; std::string file=argv[2]; std::vector<std::string> args; for(int i=4;i<argc;i++) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".",args); tooling::ClangTool T(db,{file}); T.clearArgumentsAdjusters(); T.appendArgumentsAdjuster(tooling::getClangStripOutputAdjuster());
  return T.run(tooling::newFrontendActionFactory<Act>().get());
}
