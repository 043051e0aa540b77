// dlbfacts: dumps the type-checked program of one translation unit (AST, CFG, records, enums,
// initialisers, declarations) as JSON, for the analyses in /verif/analysis.
// usage: dlbfacts OUT.json REPO_PREFIX -- clang-args... file.c
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace clang;
namespace json = llvm::json;

static std::string OutPath, Prefix;

static int64_t toI64(const llvm::APSInt &V) { return V.isRepresentableByInt64() ? V.getExtValue() : (int64_t)V.getLimitedValue(INT64_MAX); }
struct Dumper {
  ASTContext &C; SourceManager &SM;
  json::Array Types; std::map<std::string,int> TypeIdx;
  json::Array Records, Enums; std::set<const RecordDecl*> RecSeen; std::set<const EnumDecl*> EnumSeen;
  std::map<const Decl*, std::string> LocalIds; int LocalCnt = 0;
  std::map<const Stmt*, int> Ids; json::Object Nodes; std::set<const Stmt*> Done;
  Dumper(ASTContext &c) : C(c), SM(c.getSourceManager()) {}

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L); if (L.isInvalid()) return "";
    PresumedLoc P = SM.getPresumedLoc(L, false); if (P.isInvalid()) return "";
    llvm::SmallString<256> B(P.getFilename());
    SM.getFileManager().makeAbsolutePath(B); llvm::sys::path::remove_dots(B, true);
    return std::string(B.str());
  }
  int lineOf(SourceLocation L) { L = SM.getExpansionLoc(L); return L.isInvalid() ? 0 : SM.getExpansionLineNumber(L); }

  std::string recName(const RecordDecl *R) {
    R = R->getDefinition() ? R->getDefinition() : R;
    std::string F = llvm::sys::path::filename(fileOf(R->getLocation())).str();
    // records private to a translation unit are distinct even when they share a name
    std::string Own = (F.size() > 2 && F.substr(F.size() - 2) == ".c") ? "@" + F : "";
    if (auto *T = R->getTypedefNameForAnonDecl()) return T->getNameAsString() + Own;
    if (!R->getNameAsString().empty()) return R->getNameAsString() + Own;
    return "anon@" + F + ":" + std::to_string(lineOf(R->getLocation()));
  }
  std::string enumName(const EnumDecl *E) {
    if (!E->getNameAsString().empty()) return E->getNameAsString();
    if (auto *T = E->getTypedefNameForAnonDecl()) return T->getNameAsString();
    return "anon@" + llvm::sys::path::filename(fileOf(E->getLocation())).str() + ":" + std::to_string(lineOf(E->getLocation()));
  }
  void addEnum(const EnumDecl *E) {
    E = E->getDefinition() ? E->getDefinition() : E;
    if (!EnumSeen.insert(E).second) return;
    json::Array A;
    for (auto *K : E->enumerators()) A.push_back(json::Array{K->getNameAsString(), toI64(K->getInitVal())});
    Enums.push_back(json::Object{{"name", enumName(E)}, {"consts", std::move(A)}, {"file", fileOf(E->getLocation())}, {"line", lineOf(E->getLocation())}});
  }
  void addRecord(const RecordDecl *R) {
    R = R->getDefinition(); if (!R || !RecSeen.insert(R).second) return;
    if (R->isInvalidDecl() || R->isDependentType()) return;
    const ASTRecordLayout &Lay = C.getASTRecordLayout(R);
    json::Array F; unsigned i = 0;
    for (auto *FD : R->fields()) {
      F.push_back(json::Object{{"n", FD->getNameAsString()}, {"t", type(FD->getType())}, {"off", (int64_t)Lay.getFieldOffset(i)}});
      ++i;
    }
    Records.push_back(json::Object{{"name", recName(R)}, {"fields", std::move(F)}, {"size", (int64_t)Lay.getSize().getQuantity()},
      {"union", R->isUnion()}, {"file", fileOf(R->getLocation())}, {"line", lineOf(R->getLocation())}});
  }
  int type(QualType Q) {
    std::string S = Q.getAsString();
    auto It = TypeIdx.find(S); if (It != TypeIdx.end()) return It->second;
    int Id = Types.size(); TypeIdx[S] = Id; Types.push_back(nullptr);
    json::Object O; QualType K = Q.getCanonicalType();
    O["s"] = S; O["c"] = K.getUnqualifiedType().getAsString();
    if (K.isConstQualified()) O["const"] = true;
    if (K.isVolatileQualified()) O["vol"] = true;
    const clang::Type *T = K.getTypePtr();
    if (auto *AT = T->getAs<AtomicType>()) { O["atomic"] = true; T = AT->getValueType().getCanonicalType().getTypePtr(); }
    if (!T->isPlaceholderType() && !T->isIncompleteType() && !T->isFunctionType() && !T->isDependentType() && !T->isVariablyModifiedType()) O["size"] = (int64_t)C.getTypeSizeInChars(T).getQuantity();
    if (T->isPointerType()) { O["k"] = "ptr"; O["p"] = type(T->getPointeeType()); }
    else if (auto *CA = C.getAsConstantArrayType(QualType(T,0))) { O["k"] = "arr"; O["n"] = (int64_t)CA->getSize().getZExtValue(); O["p"] = type(CA->getElementType()); }
    else if (auto *IA = C.getAsArrayType(QualType(T,0))) { O["k"] = "arr"; O["n"] = -1; O["p"] = type(IA->getElementType()); }
    else if (auto *RT = T->getAs<RecordType>()) { O["k"] = "rec"; O["r"] = recName(RT->getDecl()); addRecord(RT->getDecl()); }
    else if (auto *ET = T->getAs<EnumType>()) { O["k"] = "enum"; O["e"] = enumName(ET->getDecl()); addEnum(ET->getDecl()); O["u"] = T->isUnsignedIntegerOrEnumerationType(); }
    else if (T->isBooleanType()) { O["k"] = "bool"; O["u"] = true; }
    else if (T->isIntegerType()) { O["k"] = "int"; O["u"] = T->isUnsignedIntegerType(); }
    else if (T->isFloatingType()) O["k"] = "fp";
    else if (T->isVoidType()) O["k"] = "void";
    else if (auto *FT = T->getAs<FunctionProtoType>()) {
      O["k"] = "fn"; O["ret"] = type(FT->getReturnType()); json::Array A;
      for (auto P : FT->param_types()) A.push_back(type(P));
      O["args"] = std::move(A); if (FT->isVariadic()) O["va"] = true;
    } else if (T->isFunctionType()) { O["k"] = "fn"; O["noproto"] = true; O["ret"] = type(T->getAs<FunctionType>()->getReturnType()); O["args"] = json::Array(); }
    else O["k"] = "other";
    Types[Id] = std::move(O); return Id;
  }
  std::string declId(const ValueDecl *D) {
    if (auto *V = dyn_cast<VarDecl>(D)) {
      V = V->getCanonicalDecl();
      if (V->isLocalVarDecl() || isa<ParmVarDecl>(V)) {
        if (V->isStaticLocal()) {
          auto *F = dyn_cast<FunctionDecl>(V->getDeclContext());
          return "S:" + (F ? F->getNameAsString() : "?") + ":" + V->getNameAsString();
        }
        auto &S = LocalIds[V]; if (S.empty()) S = (isa<ParmVarDecl>(V) ? "P" : "L") + std::to_string(LocalCnt++) + ":" + V->getNameAsString();
        return S;
      }
      if (V->getStorageClass() == SC_Static || !V->isExternallyVisible()) return "G:" + V->getNameAsString() + "@" + llvm::sys::path::filename(fileOf(V->getLocation())).str();
      return "G:" + V->getNameAsString();
    }
    if (auto *F = dyn_cast<FunctionDecl>(D)) return fnId(F);
    return D->getNameAsString();
  }
  std::string fnId(const FunctionDecl *F) {
    if (F->getStorageClass() == SC_Static) {
      const FunctionDecl *Def = F->getDefinition() ? F->getDefinition() : F;
      return F->getNameAsString() + "@" + llvm::sys::path::filename(fileOf(Def->getLocation())).str();
    }
    return F->getNameAsString();
  }
  json::Object declRef(const ValueDecl *D) {
    json::Object O; O["n"] = D->getNameAsString(); O["id"] = declId(D);
    if (isa<ParmVarDecl>(D)) O["k"] = "parm";
    else if (auto *V = dyn_cast<VarDecl>(D)) { O["k"] = V->hasGlobalStorage() ? "gvar" : "var"; if (V->getTLSKind() != VarDecl::TLS_None) O["tls"] = true; }
    else if (isa<FunctionDecl>(D)) O["k"] = "func";
    else if (auto *E = dyn_cast<EnumConstantDecl>(D)) { O["k"] = "enum"; O["v"] = toI64(E->getInitVal()); addEnum(cast<EnumDecl>(E->getDeclContext())); }
    else O["k"] = "other";
    return O;
  }
  json::Array macros(SourceLocation L) {
    json::Array A; int n = 0;
    while (L.isMacroID() && n++ < 12) {
      if (SM.isMacroBodyExpansion(L)) {
        A.push_back(Lexer::getImmediateMacroName(L, SM, C.getLangOpts()).str());
        L = SM.getImmediateExpansionRange(L).getBegin();
      } else L = SM.getImmediateSpellingLoc(L).isMacroID() ? SM.getImmediateExpansionRange(L).getBegin() : SM.getImmediateExpansionRange(L).getBegin();
    }
    return A;
  }
  int id(const Stmt *S) { auto It = Ids.find(S); if (It != Ids.end()) return It->second; int n = Ids.size(); Ids[S] = n; return n; }

  int node(const Stmt *S) {
    if (!S) return -1;
    int I = id(S);
    if (!Done.insert(S).second) return I;
    json::Object O; O["k"] = S->getStmtClassName(); O["l"] = lineOf(S->getBeginLoc());
    std::string F = fileOf(S->getBeginLoc()); O["f"] = F;
    json::Array Ch; bool chDone = false;
    if (auto *E = dyn_cast<Expr>(S)) {
      O["t"] = type(E->getType());
      if (E->isLValue()) O["lv"] = true;
      if (!E->isValueDependent() && !E->getType().isNull() && E->getType()->isIntegralOrEnumerationType()) {
        Expr::EvalResult R;
        if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) { auto V = R.Val.getInt(); if (V.isRepresentableByInt64()) O["v"] = (int64_t)V.getExtValue(); else O["vs"] = llvm::toString(V, 10); }
      }
    }
    if (S->getBeginLoc().isMacroID() && (isa<CallExpr>(S) || isa<AtomicExpr>(S) || isa<DeclRefExpr>(S) || isa<IfStmt>(S) || isa<IntegerLiteral>(S) || isa<StringLiteral>(S) || isa<BinaryOperator>(S)))
      O["mac"] = macros(S->getBeginLoc());
    if (auto *D = dyn_cast<DeclRefExpr>(S)) O["d"] = declRef(D->getDecl());
    else if (auto *M = dyn_cast<MemberExpr>(S)) {
      O["m"] = M->getMemberDecl()->getNameAsString(); O["arrow"] = M->isArrow();
      if (auto *FD = dyn_cast<FieldDecl>(M->getMemberDecl())) { O["r"] = recName(FD->getParent()); addRecord(FD->getParent()); }
    }
    else if (auto *B = dyn_cast<BinaryOperator>(S)) O["op"] = B->getOpcodeStr().str();
    else if (auto *U = dyn_cast<UnaryOperator>(S)) { O["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str(); O["post"] = U->isPostfix(); }
    else if (auto *K = dyn_cast<CastExpr>(S)) O["ck"] = K->getCastKindName();
    else if (auto *L = dyn_cast<StringLiteral>(S)) { if (L->getCharByteWidth() == 1) O["str"] = json::fixUTF8(L->getString()); }
    else if (auto *L = dyn_cast<FloatingLiteral>(S)) O["fv"] = L->getValueAsApproximateDouble();
    else if (auto *CE = dyn_cast<CallExpr>(S)) {
      if (auto *FD = CE->getDirectCallee()) { O["fn"] = fnId(FD); O["nr"] = FD->isNoReturn(); if (FD->getBuiltinID()) O["bi"] = true; }
    }
    else if (auto *U = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
      O["trait"] = U->getKind() == UETT_SizeOf ? "sizeof" : "other";
      O["st"] = type(U->getTypeOfArgument());
      if (!U->isArgumentType()) Ch.push_back(node(U->getArgumentExpr()));
      chDone = true;
    }
    else if (auto *OO = dyn_cast<OffsetOfExpr>(S)) {
      json::Array A; std::string R;
      for (unsigned i = 0; i < OO->getNumComponents(); ++i) { auto &N = OO->getComponent(i); if (N.getKind() == OffsetOfNode::Field) { A.push_back(N.getField()->getNameAsString()); O["fty"] = type(N.getField()->getType()); if (R.empty()) R = recName(N.getField()->getParent()); addRecord(N.getField()->getParent()); } }
      O["of"] = std::move(A); O["r"] = R;
    }
    else if (auto *AE = dyn_cast<AtomicExpr>(S)) {
      std::string Op;
      switch (AE->getOp()) {
#define BUILTIN(ID, TYPE, ATTRS)
#define ATOMIC_BUILTIN(ID, TYPE, ATTRS) case AtomicExpr::AO##ID: Op = #ID; break;
#include "clang/Basic/Builtins.def"
      default: Op = "?"; }
      O["op"] = Op; O["ptr"] = node(AE->getPtr());
      if (AE->getNumSubExprs() > 2) O["val1"] = node(AE->getVal1());
      if (AE->getNumSubExprs() > 3 || AE->isCmpXChg()) { }
      if (AE->isCmpXChg()) O["val2"] = node(AE->getVal2());
    }
    else if (auto *IL = dyn_cast<InitListExpr>(S)) {
      if (IL->isSyntacticForm() && IL->getSemanticForm()) IL = IL->getSemanticForm();
      json::Array FN;
      if (auto *RT = IL->getType()->getAs<RecordType>()) {
        if (RT->getDecl()->isUnion()) { if (IL->getInitializedFieldInUnion()) FN.push_back(IL->getInitializedFieldInUnion()->getNameAsString()); }
        else for (auto *FD : RT->getDecl()->fields()) { if (FD->isUnnamedBitfield()) continue; FN.push_back(FD->getNameAsString()); }
      }
      O["fields"] = std::move(FN);
      for (auto *X : IL->inits()) Ch.push_back(node(X));
      chDone = true;
    }
    else if (auto *DS = dyn_cast<DeclStmt>(S)) {
      json::Array A;
      for (auto *D : DS->decls()) if (auto *V = dyn_cast<VarDecl>(D)) {
        json::Object Q = declRef(V); Q["t"] = type(V->getType()); Q["l"] = lineOf(V->getLocation());
        Q["static"] = V->isStaticLocal();
        if (V->getInit()) Q["init"] = node(V->getInit());
        A.push_back(std::move(Q));
      }
      O["decls"] = std::move(A); chDone = true;
      for (auto *D : DS->decls()) if (auto *V = dyn_cast<VarDecl>(D)) if (V->getInit()) Ch.push_back(node(V->getInit()));
    }
    else if (auto *CS = dyn_cast<CaseStmt>(S)) {
      Expr::EvalResult R; if (CS->getLHS()->EvaluateAsInt(R, C)) O["case"] = toI64(R.Val.getInt());
      if (auto *DR = dyn_cast<DeclRefExpr>(CS->getLHS()->IgnoreParenCasts())) O["casen"] = DR->getDecl()->getNameAsString();
    }
    else if (auto *IS = dyn_cast<IfStmt>(S)) { O["cond"] = node(IS->getCond()); O["then"] = node(IS->getThen()); O["else"] = node(IS->getElse()); }
    else if (auto *WS = dyn_cast<WhileStmt>(S)) { O["cond"] = node(WS->getCond()); O["body"] = node(WS->getBody()); }
    else if (auto *DW = dyn_cast<DoStmt>(S)) { O["cond"] = node(DW->getCond()); O["body"] = node(DW->getBody()); }
    else if (auto *FS = dyn_cast<ForStmt>(S)) { O["init"] = node(FS->getInit()); O["cond"] = node(FS->getCond()); O["inc"] = node(FS->getInc()); O["body"] = node(FS->getBody()); }
    else if (auto *SS = dyn_cast<SwitchStmt>(S)) { O["cond"] = node(SS->getCond()); O["body"] = node(SS->getBody()); }
    else if (auto *GS = dyn_cast<GotoStmt>(S)) O["label"] = GS->getLabel()->getNameAsString();
    else if (auto *LS = dyn_cast<LabelStmt>(S)) O["label"] = LS->getDecl()->getNameAsString();
    if (!chDone) for (const Stmt *X : S->children()) Ch.push_back(node(X));
    O["ch"] = std::move(Ch);
    Nodes[std::to_string(I)] = std::move(O);
    return I;
  }
  json::Object cfg(const FunctionDecl *F) {
    CFG::BuildOptions BO; BO.setAllAlwaysAdd(); BO.PruneTriviallyFalseEdges = true;
    auto G = CFG::buildCFG(F, F->getBody(), &C, BO);
    json::Object O; if (!G) return O;
    json::Array Bs;
    for (auto *B : *G) {
      json::Object X; X["id"] = (int64_t)B->getBlockID();
      json::Array El; for (auto &E : *B) if (auto S = E.getAs<CFGStmt>()) El.push_back(node(S->getStmt()));
      X["e"] = std::move(El);
      if (B->hasNoReturnElement()) X["noret"] = true;
      if (const Stmt *T = B->getTerminatorStmt()) {
        X["term"] = T->getStmtClassName(); X["tid"] = node(T);
        if (const Stmt *Cd = B->getTerminatorCondition(false)) X["cond"] = node(Cd);
        if (auto *LC = B->getLastCondition()) X["last"] = node(LC);
      }
      if (const Stmt *Lb = B->getLabel()) {
        if (auto *CS = dyn_cast<CaseStmt>(Lb)) {
          Expr::EvalResult R; json::Array A; if (CS->getLHS()->EvaluateAsInt(R, C)) A.push_back(toI64(R.Val.getInt()));
          if (CS->getRHS() && CS->getRHS()->EvaluateAsInt(R, C)) A.push_back(toI64(R.Val.getInt()));
          X["case"] = std::move(A);
        } else if (isa<DefaultStmt>(Lb)) X["default"] = true;
      }
      if (const Stmt *LT = B->getLoopTarget()) X["loop"] = node(LT);
      json::Array Su; for (auto &Sc : B->succs()) { const CFGBlock *R = Sc.getReachableBlock(); Su.push_back(R ? (int64_t)R->getBlockID() : (int64_t)-1); }
      X["s"] = std::move(Su); Bs.push_back(std::move(X));
    }
    O["b"] = std::move(Bs); O["entry"] = (int64_t)G->getEntry().getBlockID(); O["exit"] = (int64_t)G->getExit().getBlockID();
    return O;
  }
};

class Cons : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    Dumper D(C); auto &SM = C.getSourceManager();
    json::Array Fns, Glob, Decls;
    for (Decl *X : C.getTranslationUnitDecl()->decls()) {
      std::string File = D.fileOf(X->getLocation());
      bool InRepo = llvm::StringRef(File).starts_with(Prefix) || File.find("/.dlbbuild/") != std::string::npos || File.find("/cpuset_model.h") != std::string::npos;
      if (auto *E = dyn_cast<EnumDecl>(X)) { if (InRepo) D.addEnum(E); continue; }
      if (auto *R = dyn_cast<RecordDecl>(X)) { if (InRepo) D.addRecord(R); continue; }
      if (auto *V = dyn_cast<VarDecl>(X)) {
        if (!InRepo) continue;
        D.Nodes = json::Object(); D.Ids.clear(); D.Done.clear();
        json::Object O = D.declRef(V); O["t"] = D.type(V->getType()); O["file"] = File; O["line"] = D.lineOf(V->getLocation());
        O["def"] = V->isThisDeclarationADefinition() != VarDecl::DeclarationOnly; O["static"] = V->getStorageClass() == SC_Static;
        if (V->getInit()) { O["init"] = D.node(V->getInit()); O["nodes"] = std::move(D.Nodes); }
        Glob.push_back(std::move(O)); continue;
      }
      auto *F = dyn_cast<FunctionDecl>(X); if (!F) continue;
      if (!InRepo) continue;
      json::Object O; O["n"] = F->getNameAsString(); O["id"] = D.fnId(F); O["file"] = File; O["line"] = D.lineOf(F->getLocation());
      O["static"] = F->getStorageClass() == SC_Static; O["inline"] = F->isInlined(); O["t"] = D.type(F->getType());
      O["vis"] = F->getVisibility() == DefaultVisibility ? "default" : "hidden";
      O["nr"] = F->isNoReturn(); if (F->hasAttr<WeakAttr>()) O["weak"] = true;
      if (auto *AA = F->getAttr<AliasAttr>()) O["alias"] = AA->getAliasee().str();
      if (auto *FA = F->getAttr<FormatAttr>()) { O["fmt"] = FA->getFormatIdx(); }
      if (F->hasAttr<ConstructorAttr>()) O["ctor"] = true;
      if (F->hasAttr<DestructorAttr>()) O["dtor"] = true;
      D.LocalIds.clear(); D.LocalCnt = 0;
      json::Array Ps; for (auto *P : F->parameters()) { json::Object Q = D.declRef(P); Q["t"] = D.type(P->getType()); Ps.push_back(std::move(Q)); }
      O["params"] = std::move(Ps);
      if (F->isThisDeclarationADefinition() && F->getBody()) {
        D.Nodes = json::Object(); D.Ids.clear(); D.Done.clear();
        O["body"] = D.node(F->getBody()); O["cfg"] = D.cfg(F); O["nodes"] = std::move(D.Nodes);
        O["endline"] = D.lineOf(F->getEndLoc());
        Fns.push_back(std::move(O));
      } else Decls.push_back(std::move(O));
    }
    json::Object Top; Top["functions"] = std::move(Fns); Top["globals"] = std::move(Glob); Top["decls"] = std::move(Decls);
    Top["records"] = std::move(D.Records); Top["enums"] = std::move(D.Enums); Top["types"] = std::move(D.Types);
    auto FE = SM.getFileEntryRefForID(SM.getMainFileID()); Top["file"] = FE ? FE->getName().str() : "";
    std::error_code EC; llvm::raw_fd_ostream OS(OutPath, EC); OS << json::Value(std::move(Top)); OS << "\n";
  }
};
class Act : public ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override { return std::make_unique<Cons>(); }
};

int main(int argc, const char **argv) {
  if (argc < 5) { llvm::errs() << "usage: dlbfacts OUT PREFIX -- args file\n"; return 2; }
  OutPath = argv[1]; Prefix = argv[2];
  std::vector<std::string> Args; Args.push_back("clang"); Args.push_back("-fsyntax-only");
  for (int i = 4; i < argc; ++i) Args.push_back(argv[i]);
  llvm::IntrusiveRefCntPtr<FileManager> FM(new FileManager(FileSystemOptions()));
  tooling::ToolInvocation TI(Args, std::make_unique<Act>(), FM.get());
  return TI.run() ? 0 : 1;
}
