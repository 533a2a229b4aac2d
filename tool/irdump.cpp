// irdump: reads the LLVM bitcode of one translation unit of /repo, canonicalises it with a few
// semantics-preserving passes and prints the functions that are defined in /repo (one JSON object
// per line) for the Python analyses in /verif/lib.  Nothing is executed.
//
//   irdump IN.bc OUT.jsonl --root=/repo [--inline-std] [--inline-repo] [--noinline=REGEX]
//          [--passes=PIPELINE] [--keep=REGEX] [--alwaysinline=REGEX]
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Support/Path.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/ADT/MapVector.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;
static std::string Root = "/repo";
static raw_ostream *OS;

static void jstr(StringRef s) {
  *OS << '"';
  for (unsigned char c : s) {
    switch (c) {
      case '"': *OS << "\\\""; break;
      case '\\': *OS << "\\\\"; break;
      case '\n': *OS << "\\n"; break;
      case '\t': *OS << "\\t"; break;
      case '\r': *OS << "\\r"; break;
      default:
        if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); *OS << b; }
        else *OS << c;
    }
  }
  *OS << '"';
}
static std::map<Type *, std::string> TyCache;
static const std::string &ty(Type *T) {
  auto it = TyCache.find(T);
  if (it != TyCache.end()) return it->second;
  std::string s; raw_string_ostream o(s);
  if (auto *ST = dyn_cast<StructType>(T)) { if (ST->hasName()) o << "%" << ST->getName(); else ST->print(o); }
  else T->print(o);
  o.flush();
  return TyCache[T] = s;
}
static std::string fileOf(const DIFile *F) {
  if (!F) return "";
  std::string p;
  if (sys::path::is_absolute(F->getFilename())) p = F->getFilename().str();
  else p = (F->getDirectory() + "/" + F->getFilename()).str();
  SmallString<256> S(p);
  sys::path::remove_dots(S, true);
  return std::string(S.str());
}
static bool inRoot(const std::string &f) { return f.compare(0, Root.size() + 1, Root + "/") == 0; }
static std::string rel(const std::string &f) { return inRoot(f) ? f.substr(Root.size() + 1) : f; }

static std::map<std::string, int> FileIdx; static std::vector<std::string> Files;
static int fidx(const std::string &f) {
  auto it = FileIdx.find(f); if (it != FileIdx.end()) return it->second;
  int n = Files.size(); Files.push_back(f); FileIdx[f] = n; return n;
}

struct FnPrinter {
  const Function &F; const DataLayout &DL;
  DenseMap<const Value *, int> Id; DenseMap<const BasicBlock *, int> Bb;
  FnPrinter(const Function &F) : F(F), DL(F.getParent()->getDataLayout()) {
    int n = 0;
    for (auto &A : F.args()) Id[&A] = n++;
    int b = 0;
    for (auto &B : F) { Bb[&B] = b++; for (auto &I : B) Id[&I] = n++; }
  }
  void fp(const APFloat &f) {
    APFloat g = f; bool lose; g.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lose);
    if (g.isNaN()) *OS << "\"nan\""; else if (g.isInfinity()) *OS << (g.isNegative() ? "\"-inf\"" : "\"inf\"");
    else { char b[40]; snprintf(b, 40, "%.17g", g.convertToDouble()); *OS << "\"" << b << "\""; }
  }
  void gepParts(const GEPOperator *G) {
    unsigned BW = DL.getIndexTypeSizeInBits(G->getType());
    MapVector<Value *, APInt> Var; APInt C(BW, 0);
    if (isa<VectorType>(G->getType()) || !G->collectOffset(DL, BW, Var, C)) { *OS << "null"; return; }
    *OS << "[" << C.getSExtValue() << ",[";
    bool f = true;
    for (auto &p : Var) { if (!f) *OS << ","; f = false; *OS << "["; op(p.first); *OS << "," << p.second.getSExtValue() << "]"; }
    *OS << "],"; jstr(ty(G->getSourceElementType())); 
    *OS << ",[";
    f = true;
    for (auto it = G->idx_begin(); it != G->idx_end(); ++it) { if (!f) *OS << ","; f = false; op(it->get()); }
    *OS << "]]";
  }
  void cst(const Constant *C) {
    if (auto *CI = dyn_cast<ConstantInt>(C)) {
      *OS << "[\"ci\"," << CI->getBitWidth() << ",";
      SmallString<32> S; CI->getValue().toString(S, 10, true); *OS << S << "]"; return;
    }
    if (auto *CF = dyn_cast<ConstantFP>(C)) { *OS << "[\"cf\","; jstr(ty(CF->getType())); *OS << ","; fp(CF->getValueAPF()); *OS << "]"; return; }
    if (auto *GV = dyn_cast<GlobalValue>(C)) { *OS << "[\"g\","; jstr(GV->getName()); *OS << "]"; return; }
    if (isa<ConstantPointerNull>(C)) { *OS << "[\"null\"]"; return; }
    if (isa<UndefValue>(C)) { *OS << "[\"undef\"]"; return; }
    if (isa<ConstantAggregateZero>(C)) { *OS << "[\"cz\","; jstr(ty(C->getType())); *OS << "]"; return; }
    if (auto *CD = dyn_cast<ConstantDataSequential>(C)) {
      *OS << "[\"cv\",[";
      for (unsigned i = 0; i < CD->getNumElements(); i++) { if (i) *OS << ","; cst(CD->getElementAsConstant(i)); }
      *OS << "]]"; return;
    }
    if (isa<ConstantVector>(C) || isa<ConstantArray>(C) || isa<ConstantStruct>(C)) {
      *OS << "[\"cv\",[";
      for (unsigned i = 0; i < C->getNumOperands(); i++) { if (i) *OS << ","; cst(cast<Constant>(C->getOperand(i))); }
      *OS << "]]"; return;
    }
    if (auto *CE = dyn_cast<ConstantExpr>(C)) {
      *OS << "[\"ce\","; jstr(CE->getOpcodeName()); *OS << ",[";
      for (unsigned i = 0; i < CE->getNumOperands(); i++) { if (i) *OS << ","; op(CE->getOperand(i)); }
      *OS << "]";
      if (auto *G = dyn_cast<GEPOperator>(CE)) { *OS << ","; gepParts(G); }
      *OS << "]"; return;
    }
    *OS << "[\"c?\"]";
  }
  void op(const Value *V) {
    if (auto *C = dyn_cast<Constant>(V)) { cst(C); return; }
    if (auto *B = dyn_cast<BasicBlock>(V)) { *OS << "[\"b\"," << Bb[B] << "]"; return; }
    auto it = Id.find(V);
    if (it != Id.end()) { *OS << it->second; return; }
    *OS << "[\"?\"]";
  }
  void loc(const DebugLoc &L) {
    if (!L) { *OS << "null"; return; }
    const DILocation *D = L.get();
    *OS << "[";
    bool first = true; int depth = 0;
    while (D && depth < 6) {
      if (!first) *OS << ","; first = false;
      *OS << fidx(rel(fileOf(D->getFile()))) << "," << D->getLine();
      D = D->getInlinedAt(); depth++;
    }
    *OS << "]";
  }
  void inst(const Instruction &I) {
    // [id, op, type, [operands], loc, extra, name]
    *OS << "[" << Id[&I] << ","; 
    std::string opn = I.getOpcodeName();
    jstr(opn); *OS << ","; jstr(ty(I.getType())); *OS << ",[";
    bool f = true;
    auto comma = [&] { if (!f) *OS << ","; f = false; };
    if (auto *P = dyn_cast<PHINode>(&I)) {
      for (unsigned i = 0; i < P->getNumIncomingValues(); i++) { comma(); *OS << "["; op(P->getIncomingValue(i)); *OS << "," << Bb[P->getIncomingBlock(i)] << "]"; }
    } else if (auto *CB = dyn_cast<CallBase>(&I)) {
      for (auto &A : CB->args()) { comma(); 
        if (isa<MetadataAsValue>(A.get())) *OS << "[\"md\"]"; else op(A.get()); }
    } else if (auto *Br = dyn_cast<BranchInst>(&I)) {
      if (Br->isConditional()) { comma(); op(Br->getCondition()); }
      for (unsigned i = 0; i < Br->getNumSuccessors(); i++) { comma(); op(Br->getSuccessor(i)); }
    } else if (auto *Sw = dyn_cast<SwitchInst>(&I)) {
      comma(); op(Sw->getCondition()); comma(); op(Sw->getDefaultDest());
      for (auto &C : Sw->cases()) { comma(); *OS << "[\"case\"," ; SmallString<32> S; C.getCaseValue()->getValue().toString(S, 10, true); *OS << S << "," << Bb[C.getCaseSuccessor()] << "]"; }
    } else
      for (auto &U : I.operands()) { comma(); op(U.get()); }
    *OS << "],"; loc(I.getDebugLoc()); *OS << ",";
    // extra
    if (auto *A = dyn_cast<AllocaInst>(&I)) { jstr(ty(A->getAllocatedType())); 
    } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) gepParts(cast<GEPOperator>(G));
    else if (auto *CB = dyn_cast<CallBase>(&I)) {
      if (auto *Cal = CB->getCalledFunction()) jstr(Cal->getName());
      else { *OS << "["; op(CB->getCalledOperand()); *OS << "]"; }
    } else if (auto *C = dyn_cast<CmpInst>(&I)) jstr(CmpInst::getPredicateName(C->getPredicate()));
    else if (auto *SV = dyn_cast<ShuffleVectorInst>(&I)) { *OS << "["; for (unsigned i = 0; i < SV->getShuffleMask().size(); i++) { if (i) *OS << ","; *OS << SV->getShuffleMask()[i]; } *OS << "]"; }
    else if (auto *L = dyn_cast<LoadInst>(&I)) { *OS << (L->isAtomic() ? 1 : 0); }
    else if (auto *S = dyn_cast<StoreInst>(&I)) { *OS << (S->isAtomic() ? 1 : 0); }
    else if (auto *R = dyn_cast<AtomicRMWInst>(&I)) { jstr(AtomicRMWInst::getOperationName(R->getOperation())); }
    else if (auto *EV = dyn_cast<ExtractValueInst>(&I)) { *OS << "["; for (unsigned i = 0; i < EV->getIndices().size(); i++) { if (i) *OS << ","; *OS << EV->getIndices()[i]; } *OS << "]"; }
    else if (auto *IV = dyn_cast<InsertValueInst>(&I)) { *OS << "["; for (unsigned i = 0; i < IV->getIndices().size(); i++) { if (i) *OS << ","; *OS << IV->getIndices()[i]; } *OS << "]"; }
    else *OS << "null";
    *OS << ","; if (I.hasName()) jstr(I.getName()); else *OS << "null";
    *OS << ","; if (isa<CastInst>(&I)) jstr(ty(I.getOperand(0)->getType())); 
    else if (isa<StoreInst>(&I) || isa<CmpInst>(&I)) jstr(ty(I.getOperand(0)->getType())); else *OS << "null";
    *OS << "]";
  }
  void print() {
    const DISubprogram *SP = F.getSubprogram();
    *OS << "{\"k\":\"fn\",\"name\":"; jstr(F.getName());
    *OS << ",\"dem\":"; jstr(demangle(F.getName().str()));
    *OS << ",\"file\":"; jstr(SP ? rel(fileOf(SP->getFile())) : "");
    *OS << ",\"line\":" << (SP ? SP->getLine() : 0);
    *OS << ",\"ret\":"; jstr(ty(F.getReturnType()));
    *OS << ",\"internal\":" << (F.hasLocalLinkage() ? 1 : 0);
    *OS << ",\"args\":[";
    bool f = true;
    for (auto &A : F.args()) { if (!f) *OS << ","; f = false; *OS << "["; jstr(A.getName()); *OS << ","; jstr(ty(A.getType())); *OS << ","; 
      Type *bt = A.getParamByValType(); if (!bt) bt = A.getParamStructRetType(); if (bt) jstr(ty(bt)); else *OS << "null"; *OS << "]"; }
    *OS << "],\"blocks\":[";
    f = true;
    for (auto &B : F) {
      if (!f) *OS << ","; f = false;
      *OS << "[";
      bool g = true;
      for (auto &I : B) { if (isa<DbgInfoIntrinsic>(&I)) continue; if (auto *II = dyn_cast<IntrinsicInst>(&I)) { auto id = II->getIntrinsicID(); if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end) continue; } 
        if (!g) *OS << ",\n "; g = false; inst(I); }
      *OS << "]\n";
    }
    *OS << "],\"dbg\":[";
    // variables: [value id, variable name, line]
    f = true;
    for (auto &B : F) for (auto &I : B) if (auto *D = dyn_cast<DbgVariableIntrinsic>(&I)) {
      if (isa<DbgAssignIntrinsic>(D)) continue;
      for (Value *V : D->location_ops()) { auto it = Id.find(V); if (it == Id.end()) continue;
        if (D->getDebugLoc() && D->getDebugLoc()->getInlinedAt()) continue;
        if (!f) *OS << ","; f = false; *OS << "[" << it->second << ","; jstr(D->getVariable()->getName()); *OS << "," << D->getVariable()->getLine() << "]"; }
    }
    *OS << "]}\n";
  }
};

int main(int argc, char **argv) {
  if (argc < 3) { errs() << "usage\n"; return 2; }
  std::string in = argv[1], out = argv[2], passes = "", keep = "", noinl = "", ainl = "";
  bool inlStd = false, inlRepo = false, inlLam = false;
  for (int i = 3; i < argc; i++) {
    StringRef a(argv[i]);
    if (a.consume_front("--root=")) Root = a.str();
    else if (a == "--inline-std") inlStd = true;
    else if (a == "--inline-repo") inlRepo = true;
    else if (a.consume_front("--passes=")) passes = a.str();
    else if (a == "--inline-lambdas") inlLam = true;
    else if (a.consume_front("--keep=")) keep = a.str();
    else if (a.consume_front("--noinline=")) noinl = a.str();
    else if (a.consume_front("--alwaysinline=")) ainl = a.str();
    else { errs() << "bad arg " << argv[i] << "\n"; return 2; }
  }
  LLVMContext Ctx; SMDiagnostic Err;
  auto M = parseIRFile(in, Err, Ctx);
  if (!M) { Err.print("irdump", errs()); return 2; }
  Regex K(keep), NI(noinl), AI(ainl);
  for (Function &F : *M) {
    if (F.isDeclaration()) continue;
    std::string d = demangle(F.getName().str());
    std::string file = F.getSubprogram() ? fileOf(F.getSubprogram()->getFile()) : "";
    bool repo = inRoot(file);
    bool want = F.hasFnAttribute(Attribute::AlwaysInline);
    if (inlStd && !repo) want = true;
    if (inlRepo && repo) want = true;
    if (!ainl.empty() && AI.match(d)) want = true;
    if (!noinl.empty() && NI.match(d)) want = false;
    if (!keep.empty() && repo && K.match(d)) want = false;
    // a lambda belongs to the function it is written in
    if (inlLam && repo && (d.find("::$_") != std::string::npos || d.find("'lambda") != std::string::npos)) want = true;
    F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::OptimizeNone);
    if (want) { F.addFnAttr(Attribute::AlwaysInline); }
    else { F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); }
  }
  if (!passes.empty()) {
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
    PassBuilder PB;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
    ModulePassManager MPM;
    if (auto E = PB.parsePassPipeline(MPM, passes)) { errs() << "pipeline: " << toString(std::move(E)) << "\n"; return 2; }
    MPM.run(*M, MAM);
  }
  std::error_code EC; raw_fd_ostream O(out, EC); if (EC) { errs() << EC.message() << "\n"; return 2; }
  OS = &O;
  std::set<const GlobalVariable *> GVs;
  int nf = 0;
  for (Function &F : *M) {
    if (F.isDeclaration()) continue;
    std::string file = F.getSubprogram() ? fileOf(F.getSubprogram()->getFile()) : "";
    bool repo = inRoot(file) || F.getName().contains(".omp") || F.getName().starts_with("__omp") || F.getName().starts_with("_GLOBAL__") || F.getName().starts_with("__cxx_global");
    if (!repo) continue;
    if (!keep.empty() && !K.match(demangle(F.getName().str()))) continue;
    FnPrinter(F).print(); nf++;
  }
  for (GlobalVariable &G : M->globals()) {
    *OS << "{\"k\":\"gv\",\"name\":"; jstr(G.getName()); *OS << ",\"type\":"; jstr(ty(G.getValueType()));
    *OS << ",\"const\":" << (G.isConstant() ? 1 : 0) << ",\"ext\":" << (G.isDeclaration() ? 1 : 0);
    *OS << ",\"tls\":" << (G.isThreadLocal() ? 1 : 0);
    *OS << ",\"dem\":"; jstr(demangle(G.getName().str()));
    if (G.hasInitializer()) {
      const Constant *C = G.getInitializer();
      if (auto *CD = dyn_cast<ConstantDataSequential>(C); CD && CD->isString()) { *OS << ",\"str\":"; StringRef s = CD->getAsString(); if (CD->isCString()) s = CD->getAsCString(); jstr(s); }
      else if (isa<ConstantDataSequential>(C) || isa<ConstantInt>(C) || isa<ConstantFP>(C) || isa<ConstantAggregateZero>(C) || isa<ConstantPointerNull>(C) || isa<ConstantArray>(C) || isa<ConstantStruct>(C)) {
        if (G.getName().starts_with("_ZTV") == false || true) { static Function *Fn0 = nullptr; for (Function &F : *M) { Fn0 = &F; break; } if (Fn0) { *OS << ",\"init\":"; FnPrinter P(*Fn0); P.cst(C); } }
      }
    }
    *OS << "}\n";
  }
  // source-level struct layouts
  DebugInfoFinder DF; DF.processModule(*M);
  for (DIType *T : DF.types()) if (auto *CT = dyn_cast<DICompositeType>(T)) {
    if (CT->getTag() != dwarf::DW_TAG_structure_type && CT->getTag() != dwarf::DW_TAG_class_type && CT->getTag() != dwarf::DW_TAG_enumeration_type) continue;
    if (!inRoot(fileOf(CT->getFile())) ) continue;
    bool en = CT->getTag() == dwarf::DW_TAG_enumeration_type;
    *OS << "{\"k\":\"" << (en ? "enum" : "struct") << "\",\"name\":"; jstr(CT->getName());
    *OS << ",\"id\":"; jstr(CT->getIdentifier());
    *OS << ",\"size\":" << CT->getSizeInBits() / 8 << ",\"m\":[";
    bool f = true;
    for (auto *E : CT->getElements()) {
      if (auto *MT = dyn_cast<DIDerivedType>(E)) {
        if (MT->getTag() != dwarf::DW_TAG_member && MT->getTag() != dwarf::DW_TAG_inheritance) continue;
        if (MT->isStaticMember()) continue;
        if (!f) *OS << ","; f = false;
        *OS << "[" << MT->getOffsetInBits() / 8 << "," << MT->getSizeInBits() / 8 << ","; jstr(MT->getTag() == dwarf::DW_TAG_inheritance ? "<base>" : MT->getName()); 
        const DIType *BT = MT->getBaseType(); 
        *OS << ","; jstr(BT ? BT->getName() : ""); *OS << "]";
      } else if (auto *EN = dyn_cast<DIEnumerator>(E)) {
        if (!f) *OS << ","; f = false; *OS << "["; jstr(EN->getName()); *OS << "," ; SmallString<32> S; EN->getValue().toString(S, 10, true); *OS << S << "]";
      }
    }
    *OS << "]}\n";
  }
  *OS << "{\"k\":\"files\",\"files\":[";
  for (size_t i = 0; i < Files.size(); i++) { if (i) *OS << ","; jstr(Files[i]); }
  *OS << "]}\n";
  // name table: demangled names of everything called
  *OS << "{\"k\":\"names\",\"names\":{";
  bool f = true;
  for (Function &F : *M) { if (!f) *OS << ","; f = false; jstr(F.getName()); *OS << ":["; jstr(demangle(F.getName().str())); 
     std::string file = F.getSubprogram() ? rel(fileOf(F.getSubprogram()->getFile())) : ""; *OS << ","; jstr(file); *OS << "," << (F.isDeclaration() ? 1 : 0) << "," << (F.doesNotReturn() ? 1 : 0) << "]"; }
  *OS << "}}\n";
  return 0;
}
