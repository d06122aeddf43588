// laikir: reads LLVM bitcode produced from /repo's sources, links it, optionally
// inlines / runs LLVM passes for single functions ("jobs"), and dumps the
// resolved program as JSON for the rules in /verif/laikcheck.
//
//  laikir OUT.json JOBS.json FILE.bc...
//
// Nothing is executed: the tool only loads, transforms and prints the IR.
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/ScalarEvolutionExpressions.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include <map>
#include <set>

using namespace llvm;

static std::string tyStr(Type *T) {
  std::string s; raw_string_ostream os(s); T->print(os, false, true); return os.str();
}
static std::string stripSuffix(StringRef n) {
  // linked modules rename duplicates to name.123
  size_t p = n.rfind('.');
  if (p != StringRef::npos && p + 1 < n.size()) {
    bool dig = true;
    for (size_t i = p + 1; i < n.size(); i++) if (!isdigit((unsigned char)n[i])) dig = false;
    if (dig) return n.substr(0, p).str();
  }
  return n.str();
}

// The linker unifies structurally equal struct types; the source-level type names
// are recorded on the instructions / globals before linking.
static std::map<std::string, std::string> StructJson;  // name -> JSON text
static std::string typeName(Type *T) { std::string s; raw_string_ostream os(s); T->print(os, false, true); return os.str(); }
static MDNode *mdNames(LLVMContext &C, ArrayRef<std::string> v) {
  std::vector<Metadata *> m; for (auto &s : v) m.push_back(MDString::get(C, s)); return MDNode::get(C, m);
}
static void annotate(Module &M) {
  LLVMContext &C = M.getContext();
  const DataLayout &DL = M.getDataLayout();
  for (auto &G : M.globals()) G.setMetadata("laik.ty", mdNames(C, {typeName(G.getValueType())}));
  for (auto &F : M) for (auto &I : instructions(F)) {
    if (auto *A = dyn_cast<AllocaInst>(&I)) A->setMetadata("laik.ty", mdNames(C, {typeName(A->getAllocatedType())}));
    else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
      std::vector<std::string> v{typeName(G->getSourceElementType())};
      for (auto GI = gep_type_begin(G), E = gep_type_end(G); GI != E; ++GI) {
        StructType *ST = GI.getStructTypeOrNull();
        v.push_back(ST ? (ST->hasName() ? stripSuffix(ST->getName()) : "anon") : typeName(GI.getIndexedType()));
      }
      G->setMetadata("laik.ty", mdNames(C, v));
    }
  }
  for (StructType *ST : M.getIdentifiedStructTypes()) {
    if (ST->isOpaque() || !ST->isSized()) continue;
    std::string n = stripSuffix(ST->getName());
    if (StructJson.count(n)) continue;
    std::string t; raw_string_ostream os(t);
    json::OStream J(os);
    J.object([&] {
      J.attribute("name", n);
      auto *SL = DL.getStructLayout(ST);
      J.attribute("size", (int64_t)SL->getSizeInBytes());
      J.attributeArray("el", [&] { for (unsigned i = 0; i < ST->getNumElements(); i++) J.array([&] {
        J.value((int64_t)SL->getElementOffset(i)); J.value(typeName(ST->getElementType(i)));
        J.value((int64_t)DL.getTypeAllocSize(ST->getElementType(i)).getFixedValue()); }); });
    });
    StructJson[n] = os.str();
  }
}
static std::string noted(MDNode *N, unsigned i, std::string dflt) {
  if (!N || i >= N->getNumOperands()) return dflt;
  return cast<MDString>(N->getOperand(i))->getString().str();
}

struct Dumper {
  json::OStream &J;
  Module &M;
  const DataLayout &DL;
  Dumper(json::OStream &J, Module &M) : J(J), M(M), DL(M.getDataLayout()) {}

  std::map<const Value *, int> ids;

  void constant(const Constant *C, int depth = 0) {
    if (auto *CI = dyn_cast<ConstantInt>(C)) {
      J.array([&] { J.value("c");
        if (CI->getBitWidth() <= 64) J.value((int64_t)CI->getSExtValue()); else J.value(0);
        J.value((int64_t)CI->getBitWidth()); });
    } else if (isa<ConstantPointerNull>(C)) {
      J.array([&] { J.value("n"); });
    } else if (auto *GV = dyn_cast<GlobalValue>(C)) {
      J.array([&] { J.value("g"); J.value(GV->getName()); });
    } else if (isa<UndefValue>(C)) {
      J.array([&] { J.value("u"); });
    } else if (auto *CF = dyn_cast<ConstantFP>(C)) {
      SmallString<32> S; CF->getValueAPF().toString(S);
      J.array([&] { J.value("f"); J.value(StringRef(S)); });
    } else if (isa<ConstantAggregateZero>(C)) {
      J.array([&] { J.value("z"); J.value(tyStr(C->getType())); });
    } else if (auto *CD = dyn_cast<ConstantDataSequential>(C)) {
      if (CD->isString()) {
        StringRef R = CD->getAsString();
        std::string s;
        for (unsigned char ch : R) { if (ch < 0x80) s.push_back(ch); else s.push_back('?'); }
        while (!s.empty() && s.back() == 0) s.pop_back();
        J.array([&] { J.value("s"); J.value(s); J.value((int64_t)R.size()); });
      } else {
        J.array([&] { J.value("A");
          for (unsigned i = 0; i < CD->getNumElements() && i < 4096; i++) constant(CD->getElementAsConstant(i), depth + 1); });
      }
    } else if (isa<ConstantAggregate>(C)) {
      J.array([&] { J.value("A");
        for (const Use &U : C->operands()) constant(cast<Constant>(U.get()), depth + 1); });
    } else if (auto *CE = dyn_cast<ConstantExpr>(C)) {
      J.array([&] { J.value("x"); J.value(CE->getOpcodeName());
        if (auto *G = dyn_cast<GEPOperator>(CE)) J.value(tyStr(G->getSourceElementType()));
        else J.value(tyStr(CE->getType()));
        J.array([&] { for (const Use &U : CE->operands()) constant(cast<Constant>(U.get()), depth + 1); });
        APInt off(64, 0);
        if (auto *G = dyn_cast<GEPOperator>(CE)) { if (G->accumulateConstantOffset(DL, off)) J.value((int64_t)off.getSExtValue()); else J.value(nullptr); }
      });
    } else J.array([&] { J.value("?"); });
  }

  void operand(const Value *V) {
    if (isa<Instruction>(V)) J.array([&] { J.value("i"); J.value(ids.count(V) ? ids[V] : -1); });
    else if (auto *A = dyn_cast<Argument>(V)) J.array([&] { J.value("a"); J.value((int64_t)A->getArgNo()); });
    else if (auto *B = dyn_cast<BasicBlock>(V)) J.array([&] { J.value("b"); J.value(ids.count(B) ? ids[B] : -1); });
    else if (auto *C = dyn_cast<Constant>(V)) constant(C);
    else if (isa<MetadataAsValue>(V)) J.array([&] { J.value("m"); });
    else if (isa<InlineAsm>(V)) J.array([&] { J.value("asm"); });
    else J.array([&] { J.value("?"); });
  }

  void scev(ScalarEvolution &SE, const SCEV *S) {
    if (auto *C = dyn_cast<SCEVConstant>(S)) { J.array([&] { J.value("c"); J.value((int64_t)C->getAPInt().getSExtValue()); }); return; }
    if (auto *U = dyn_cast<SCEVUnknown>(S)) { J.array([&] { J.value("v"); operand(U->getValue()); }); return; }
    if (auto *AR = dyn_cast<SCEVAddRecExpr>(S)) {
      J.array([&] { J.value("rec"); J.value(ids[AR->getLoop()->getHeader()]);
        J.array([&] { for (unsigned i = 0; i < AR->getNumOperands(); i++) scev(SE, AR->getOperand(i)); }); });
      return;
    }
    const char *n = "?";
    switch (S->getSCEVType()) {
    case scAddExpr: n = "add"; break; case scMulExpr: n = "mul"; break;
    case scUDivExpr: n = "udiv"; break; case scSMaxExpr: n = "smax"; break;
    case scUMaxExpr: n = "umax"; break; case scSMinExpr: n = "smin"; break;
    case scUMinExpr: n = "umin"; break; case scTruncate: n = "trunc"; break;
    case scZeroExtend: n = "zext"; break; case scSignExtend: n = "sext"; break;
    case scPtrToInt: n = "ptrtoint"; break; case scVScale: n = "vscale"; break;
    case scSequentialUMinExpr: n = "umin_seq"; break;
    default: break;
    }
    if (isa<SCEVCouldNotCompute>(S)) { J.array([&] { J.value("nc"); }); return; }
    J.array([&] { J.value(n); J.array([&] { for (const SCEV *O : S->operands()) scev(SE, O); });
      J.value((int64_t)DL.getTypeSizeInBits(S->getType()).getFixedValue()); });
  }

  void function(Function &F, bool withScev, FunctionAnalysisManager *FAM) {
    ids.clear();
    int n = 0;
    for (auto &B : F) ids[&B] = n++;
    n = 0;
    for (auto &B : F) for (auto &I : B) ids[&I] = n++;
    std::map<const Value *, std::string> names;
    for (auto &B : F) for (auto &I : B) {
      if (auto *D = dyn_cast<DbgDeclareInst>(&I)) { if (D->getAddress()) names[D->getAddress()] = D->getVariable()->getName().str(); }
      else if (auto *D = dyn_cast<DbgValueInst>(&I)) {
        if (D->getNumVariableLocationOps() == 1 && D->getValue() && D->getExpression()->getNumElements() == 0) {
          const Value *V = D->getValue(); if (V && !names.count(V)) names[V] = D->getVariable()->getName().str(); }
      }
    }
    J.object([&] {
      J.attribute("name", F.getName());
      DISubprogram *SP = F.getSubprogram();
      J.attribute("src", SP ? SP->getName().str() : stripSuffix(F.getName()));
      J.attribute("file", SP ? SP->getFilename().str() : "");
      J.attribute("line", SP ? (int64_t)SP->getLine() : 0);
      J.attribute("internal", F.hasLocalLinkage());
      J.attribute("ret", tyStr(F.getReturnType()));
      J.attribute("vararg", F.isVarArg());
      J.attribute("noreturn", F.hasFnAttribute(Attribute::NoReturn));
      J.attribute("decl", F.isDeclaration());
      J.attributeArray("args", [&] { for (auto &A : F.args()) J.array([&] { J.value(tyStr(A.getType()));
          J.value(names.count(&A) ? names[&A] : std::string(A.getName()));
          J.value(A.hasByValAttr() ? tyStr(A.getParamByValType()) : "");
          J.value(A.hasStructRetAttr() ? tyStr(A.getParamStructRetType()) : ""); }); });
      // parameter types by name from the debug info
      J.attributeArray("ptypes", [&] {
        if (SP && SP->getType()) for (auto *T : SP->getType()->getTypeArray()) J.value(diType(T)); });
      if (F.isDeclaration()) return;
      J.attributeArray("blocks", [&] {
        for (auto &B : F) J.array([&] {
          for (auto &I : B) {
            if (isa<DbgInfoIntrinsic>(&I)) continue;
            inst(I, names);
          }
        });
      });
      if (withScev && FAM) {
        auto &SE = FAM->getResult<ScalarEvolutionAnalysis>(F);
        auto &LI = FAM->getResult<LoopAnalysis>(F);
        J.attributeArray("scev", [&] {
          for (auto &B : F) for (auto &I : B) {
            const Value *V = nullptr;
            if (auto *L = dyn_cast<LoadInst>(&I)) V = L->getPointerOperand();
            else if (auto *S = dyn_cast<StoreInst>(&I)) V = S->getPointerOperand();
            if (V && SE.isSCEVable(V->getType())) J.array([&] { J.value(ids[&I]); scev(SE, SE.getSCEV(const_cast<Value *>(V))); });
            if (!V && SE.isSCEVable(I.getType()) && I.getType()->isIntOrPtrTy()) J.array([&] { J.value(ids[&I]); scev(SE, SE.getSCEV(&I)); });
          }
        });
        J.attributeArray("loops", [&] {
          for (Loop *L : LI.getLoopsInPreorder()) J.array([&] { J.value(ids[L->getHeader()]);
            J.value(L->getParentLoop() ? ids[L->getParentLoop()->getHeader()] : -1);
            J.array([&] { for (auto *BB : L->blocks()) J.value(ids[BB]); });
            scev(SE, SE.getBackedgeTakenCount(L)); });
        });
      }
    });
  }

  std::string diType(const Metadata *MD, int depth = 0) {
    if (!MD) return "void";
    if (depth > 12) return "...";
    if (auto *B = dyn_cast<DIBasicType>(MD)) return B->getName().str();
    if (auto *D = dyn_cast<DIDerivedType>(MD)) {
      switch (D->getTag()) {
      case dwarf::DW_TAG_pointer_type: return diType(D->getBaseType(), depth + 1) + "*";
      case dwarf::DW_TAG_const_type: return "const " + diType(D->getBaseType(), depth + 1);
      case dwarf::DW_TAG_volatile_type: return diType(D->getBaseType(), depth + 1);
      case dwarf::DW_TAG_typedef: return D->getName().str();
      default: return D->getName().str();
      }
    }
    if (auto *C = dyn_cast<DICompositeType>(MD)) {
      if (C->getTag() == dwarf::DW_TAG_array_type) return diType(C->getBaseType(), depth + 1) + "[]";
      return C->getName().str();
    }
    if (isa<DISubroutineType>(MD)) return "fn";
    return "?";
  }

  void inst(Instruction &I, std::map<const Value *, std::string> &names) {
    J.object([&] {
      J.attribute("i", ids[&I]);
      J.attribute("o", I.getOpcodeName());
      J.attribute("t", tyStr(I.getType()));
      if (const DebugLoc &L = I.getDebugLoc()) {
        J.attribute("l", (int64_t)L.getLine());
        if (auto *Sc = dyn_cast_or_null<DIScope>(L.getScope())) {
          if (L.getInlinedAt()) {
            J.attribute("inl", true);
            if (auto *SPx = cast<DILocalScope>(Sc)->getSubprogram()) J.attribute("ifn", SPx->getName());
          }
          J.attribute("fl", Sc->getFilename());
        }
      }
      if (names.count(&I)) J.attribute("nm", names[&I]);
      if (auto *C = dyn_cast<CmpInst>(&I)) J.attribute("p", CmpInst::getPredicateName(C->getPredicate()));
      if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
        MDNode *Nt = G->getMetadata("laik.ty");
        J.attribute("st", noted(Nt, 0, tyStr(G->getSourceElementType())));
        APInt off(64, 0);
        if (G->accumulateConstantOffset(DL, off)) J.attribute("off", (int64_t)off.getSExtValue());
        J.attribute("ss", (int64_t)DL.getTypeAllocSize(G->getSourceElementType()).getFixedValue());
        // field path: list of [structname, fieldindex] or ["[]"]
        J.attributeArray("fp", [&] {
          bool first = true;
          unsigned k = 0;
          for (auto GI = gep_type_begin(G), E = gep_type_end(G); GI != E; ++GI) {
            if (StructType *ST = GI.getStructTypeOrNull()) {
              J.array([&] { J.value(noted(Nt, ++k, ST->hasName() ? stripSuffix(ST->getName()) : "anon"));
                J.value((int64_t)cast<ConstantInt>(GI.getOperand())->getZExtValue()); });
            } else J.array([&] { J.value(first ? "*" : "[]"); operand(GI.getOperand());
                J.value(noted(Nt, ++k, tyStr(GI.getIndexedType()))); });
            first = false;
          }
        });
      }
      if (auto *A = dyn_cast<AllocaInst>(&I)) {
        J.attribute("at", noted(A->getMetadata("laik.ty"), 0, tyStr(A->getAllocatedType())));
        if (auto s = A->getAllocationSize(DL)) J.attribute("sz", (int64_t)s->getFixedValue());
        else J.attribute("esz", (int64_t)DL.getTypeAllocSize(A->getAllocatedType()).getFixedValue());
      }
      if (auto *W = dyn_cast<AtomicRMWInst>(&I)) {
        J.attribute("p", AtomicRMWInst::getOperationName(W->getOperation()));
        J.attribute("sz", (int64_t)DL.getTypeStoreSize(W->getType()).getFixedValue());
      }
      if (auto *L = dyn_cast<LoadInst>(&I)) { J.attribute("sz", (int64_t)DL.getTypeStoreSize(L->getType()).getFixedValue()); }
      if (auto *S = dyn_cast<StoreInst>(&I)) { J.attribute("sz", (int64_t)DL.getTypeStoreSize(S->getValueOperand()->getType()).getFixedValue());
        J.attribute("vt", tyStr(S->getValueOperand()->getType())); }
      if (auto *C = dyn_cast<CastInst>(&I)) J.attribute("ft", tyStr(C->getSrcTy()));
      if (auto *CB = dyn_cast<CallBase>(&I)) {
        if (Function *F = CB->getCalledFunction()) J.attribute("f", F->getName());
        J.attributeArray("a", [&] { for (auto &U : CB->args()) operand(U.get()); });
        J.attributeArray("aty", [&] { for (auto &U : CB->args()) {
            unsigned n = CB->getArgOperandNo(&U);
            if (CB->isByValArgument(n)) J.value("byval " + tyStr(CB->getParamByValType(n)));
            else J.value(tyStr(U->getType())); } });
        if (!CB->getCalledFunction()) { J.attributeBegin("fp_op"); operand(CB->getCalledOperand()); J.attributeEnd(); }
        if (CB->hasFnAttr(Attribute::NoReturn)) J.attribute("nr", true);
      } else if (auto *P = dyn_cast<PHINode>(&I)) {
        J.attributeArray("ops", [&] { for (unsigned k = 0; k < P->getNumIncomingValues(); k++) operand(P->getIncomingValue(k)); });
        J.attributeArray("in", [&] { for (unsigned k = 0; k < P->getNumIncomingValues(); k++) J.value(ids[P->getIncomingBlock(k)]); });
      } else if (auto *B = dyn_cast<BranchInst>(&I)) {
        if (B->isConditional()) { J.attributeArray("ops", [&] { operand(B->getCondition()); }); }
        J.attributeArray("s", [&] { for (unsigned k = 0; k < B->getNumSuccessors(); k++) J.value(ids[B->getSuccessor(k)]); });
      } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
        J.attributeArray("ops", [&] { operand(S->getCondition()); });
        J.attribute("d", ids[S->getDefaultDest()]);
        J.attributeArray("cs", [&] { for (auto &C : S->cases()) J.array([&] { J.value((int64_t)C.getCaseValue()->getSExtValue()); J.value(ids[C.getCaseSuccessor()]); }); });
      } else {
        J.attributeArray("ops", [&] { for (auto &U : I.operands()) operand(U.get()); });
      }
    });
  }

  void globals() {
    J.attributeArray("globals", [&] {
      for (auto &G : M.globals()) {
        if (G.getName().starts_with("llvm.")) continue;
        J.object([&] {
          J.attribute("name", G.getName());
          J.attribute("ty", noted(G.getMetadata("laik.ty"), 0, tyStr(G.getValueType())));
          J.attribute("const", G.isConstant());
          J.attribute("internal", G.hasLocalLinkage());
          if (G.getValueType()->isSized()) J.attribute("sz", (int64_t)DL.getTypeAllocSize(G.getValueType()).getFixedValue());
          SmallVector<DIGlobalVariableExpression *, 2> D; G.getDebugInfo(D);
          if (!D.empty()) { J.attribute("src", D[0]->getVariable()->getName());
            J.attribute("file", D[0]->getVariable()->getFilename());
            J.attribute("line", (int64_t)D[0]->getVariable()->getLine());
            J.attribute("dty", diType(D[0]->getVariable()->getType())); }
          if (G.hasInitializer()) { J.attributeBegin("init"); constant(G.getInitializer()); J.attributeEnd(); }
        });
      }
    });
  }
  void structs() {
    J.attributeArray("structs", [&] { for (auto &kv : StructJson) J.rawValue(kv.second); });
    DebugInfoFinder DF; DF.processModule(M);
    J.attributeArray("ditypes", [&] {
      std::set<std::string> seen;
      for (DIType *T : DF.types()) {
        auto *C = dyn_cast<DICompositeType>(T);
        if (!C) {
          if (auto *D = dyn_cast<DIDerivedType>(T)) if (D->getTag() == dwarf::DW_TAG_typedef)
            if (auto *B = dyn_cast_or_null<DICompositeType>(D->getBaseType())) {
              std::string key = "td:" + D->getName().str();
              if (seen.insert(key).second) J.object([&] { J.attribute("k", "typedef"); J.attribute("name", D->getName());
                J.attribute("of", B->getName()); if (B->getName().empty()) comp(B); });
            }
          continue;
        }
        if (C->getName().empty()) continue;
        if (C->getTag() != dwarf::DW_TAG_structure_type && C->getTag() != dwarf::DW_TAG_enumeration_type && C->getTag() != dwarf::DW_TAG_union_type) continue;
        if (C->isForwardDecl()) continue;
        std::string key = C->getName().str();
        if (!seen.insert(key).second) continue;
        J.object([&] { J.attribute("k", "comp"); J.attribute("name", C->getName()); comp(C); });
      }
    });
  }
  void comp(DICompositeType *C) {
    J.attribute("tag", C->getTag() == dwarf::DW_TAG_enumeration_type ? "enum" : C->getTag() == dwarf::DW_TAG_union_type ? "union" : "struct");
    J.attributeArray("m", [&] {
      for (auto *E : C->getElements()) {
        if (auto *En = dyn_cast<DIEnumerator>(E)) J.array([&] { J.value(En->getName()); J.value((int64_t)En->getValue().getSExtValue()); });
        else if (auto *D = dyn_cast<DIDerivedType>(E)) J.array([&] { J.value(D->getName()); J.value((int64_t)D->getOffsetInBits()); J.value((int64_t)D->getSizeInBits()); J.value(diType(D->getBaseType())); });
      }
    });
  }
};

struct PM {
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM; PassBuilder PB;
  PM() { PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM); }
  void run(Module &M, StringRef p) {
    ModulePassManager MPM;
    if (auto E = PB.parsePassPipeline(MPM, p)) { errs() << "bad pipeline " << p << "\n"; exit(2); }
    MPM.run(M, MAM);
  }
  void runF(Function &F, StringRef p) {
    FunctionPassManager FPM;
    if (auto E = PB.parsePassPipeline(FPM, p)) { errs() << "bad pipeline " << p << "\n"; exit(2); }
    FPM.run(F, FAM);
  }
};

// functions on a call-graph cycle
static void recursiveSet(Module &M, std::set<Function *> &R) {
  std::map<Function *, std::set<Function *>> E;
  for (auto &F : M) for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *C = CB->getCalledFunction()) if (!C->isDeclaration()) E[&F].insert(C);
  for (auto &F : M) {
    std::set<Function *> seen; std::vector<Function *> w(E[&F].begin(), E[&F].end());
    while (!w.empty()) { auto *f = w.back(); w.pop_back(); if (!seen.insert(f).second) continue; for (auto *g : E[f]) w.push_back(g); }
    if (seen.count(&F)) R.insert(&F);
  }
}

int main(int argc, char **argv) {
  if (argc < 4) { errs() << "usage: laikir OUT JOBS FILE.bc...\n"; return 2; }
  LLVMContext Ctx;
  std::unique_ptr<Module> M;
  std::unique_ptr<Linker> L;
  for (int i = 3; i < argc; i++) {
    SMDiagnostic D;
    auto N = parseIRFile(argv[i], D, Ctx);
    if (!N) { D.print(argv[0], errs()); return 2; }
    annotate(*N);
    if (!M) { M = std::move(N); L = std::make_unique<Linker>(*M); }
    else if (L->linkInModule(std::move(N))) { errs() << "link failed: " << argv[i] << "\n"; return 2; }
  }
  auto JB = MemoryBuffer::getFile(argv[2]);
  if (!JB) { errs() << "no jobs file\n"; return 2; }
  auto JV = json::parse((*JB)->getBuffer());
  if (!JV) { errs() << "bad jobs file\n"; return 2; }
  json::Object *JO = JV->getAsObject();
  std::error_code EC;
  raw_fd_ostream OS(argv[1], EC);
  if (EC) { errs() << "cannot write\n"; return 2; }
  json::OStream J(OS);
  J.objectBegin();
  // base dump
  std::string basePasses = JO->getString("base").value_or("function(mem2reg)").str();
  bool wantBase = JO->getBoolean("dump").value_or(true);
  {
    auto C = CloneModule(*M);
    PM P; if (!basePasses.empty()) P.run(*C, basePasses);
    Dumper D(J, *C);
    D.globals(); D.structs();
    J.attributeArray("functions", [&] {
      if (wantBase) for (auto &F : *C) { if (F.isIntrinsic()) continue; D.function(F, false, nullptr); }
    });
  }
  std::set<Function *> rec; recursiveSet(*M, rec);
  J.attributeArray("jobs", [&] {
    if (auto *A = JO->getArray("jobs")) for (auto &V : *A) {
      json::Object *O = V.getAsObject();
      std::string root = O->getString("root")->str();
      Function *F0 = M->getFunction(root);
      J.object([&] {
        J.attribute("id", O->getString("id").value_or(root));
        if (!F0 || F0->isDeclaration()) { J.attribute("missing", true); return; }
        ValueToValueMapTy VM;
        Function *F = CloneFunction(F0, VM);
        std::string mode = O->getString("inline").value_or("none").str();
        std::set<std::string> only, no;
        if (auto *a = O->getArray("only")) for (auto &x : *a) only.insert(x.getAsString()->str());
        if (auto *a = O->getArray("noinline")) for (auto &x : *a) no.insert(x.getAsString()->str());
        int64_t budget = O->getInteger("budget").value_or(200000);
        // bind constant arguments
        if (auto *b = O->getObject("bind")) for (auto &kv : *b) {
          unsigned k = atoi(kv.first.str().c_str());
          if (k >= F->arg_size()) continue;
          Argument *A = F->getArg(k);
          if (A->getType()->isIntegerTy()) A->replaceAllUsesWith(ConstantInt::get(A->getType(), *kv.second.getAsInteger(), true));
          else if (A->getType()->isPointerTy() && *kv.second.getAsInteger() == 0) A->replaceAllUsesWith(Constant::getNullValue(A->getType()));
        }
        if (auto *a = O->getArray("nonnull")) for (auto &x : *a) {
          unsigned k = (unsigned)*x.getAsInteger();
          if (k < F->arg_size() && F->getArg(k)->getType()->isPointerTy()) F->addParamAttr(k, Attribute::NonNull);
        }
        if (mode != "none") {
          bool changed = true; int64_t inlined = 0;
          while (changed) {
            changed = false;
            std::vector<CallBase *> calls;
            for (auto &I : instructions(*F)) if (auto *CB = dyn_cast<CallBase>(&I)) calls.push_back(CB);
            for (auto *CB : calls) {
              Function *G = CB->getCalledFunction();
              if (!G || G->isDeclaration() || G == F || G == F0 || rec.count(G) || G->isVarArg()) continue;
              if (no.count(stripSuffix(G->getName()))) continue;
              bool ok = mode == "all" || (mode == "static" && G->hasLocalLinkage()) || (mode == "list" && only.count(stripSuffix(G->getName()))) ||
                        (mode == "static" && only.count(stripSuffix(G->getName())));
              if (!ok) continue;
              if ((int64_t)F->getInstructionCount() > budget) continue;
              InlineFunctionInfo IFI;
              if (InlineFunction(*CB, IFI).isSuccess()) { changed = true; inlined++; }
            }
          }
          J.attribute("inlined", inlined);
        }
        std::string passes = O->getString("passes").value_or("mem2reg").str();
        if (!passes.empty()) { PM Q; Q.runF(*F, passes); }
        {
          PM R;
          Dumper D(J, *M);
          J.attributeBegin("fn"); D.function(*F, O->getBoolean("scev").value_or(false), &R.FAM); J.attributeEnd();
        }
        F->eraseFromParent();
      });
    }
  });
  J.objectEnd();
  return 0;
}
