// irdump: load LLVM IR (.ll/.bc), promote allocas, and print a compact JSON
// description of globals, types and functions for the Python analyses.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include "llvm/Passes/PassBuilder.h"
#include <map>
#include <set>
using namespace llvm;
typedef json::OStream JO;
static const DataLayout *DL;
static std::string hex(const APInt &A) { SmallString<40> s; A.toString(s, 16, false); return std::string(s.str()); }
static std::map<const Value*, int> Ids;

static void ty(JO &J, Type *T) {
  if (T->isVoidTy()) J.value("v");
  else if (T->isIntegerTy()) J.value((int64_t)T->getIntegerBitWidth());
  else if (T->isPointerTy()) J.value("p");
  else if (T->isFloatTy()) J.value("f32");
  else if (T->isDoubleTy()) J.value("f64");
  else if (T->isSized()) J.value("s" + std::to_string((uint64_t)DL->getTypeAllocSize(T)));
  else J.value("x");
}

static void opnd(JO &J, const Value *V);

static void constant(JO &J, const Constant *C) {
  if (auto *CI = dyn_cast<ConstantInt>(C)) {
    J.array([&]{ J.value("i"); J.value((int64_t)CI->getBitWidth());
      if (CI->getBitWidth() <= 64) J.value(CI->getSExtValue()); else J.value("0x" + hex(CI->getValue())); });
    return;
  }
  if (auto *CF = dyn_cast<ConstantFP>(C)) {
    APInt b = CF->getValueAPF().bitcastToAPInt();
    J.array([&]{ J.value("f"); J.value((int64_t)b.getBitWidth()); J.value(hex(b)); });
    return;
  }
  if (isa<ConstantPointerNull>(C)) { J.array([&]{ J.value("n"); }); return; }
  if (isa<UndefValue>(C)) { J.array([&]{ J.value("u"); }); return; }
  if (auto *F = dyn_cast<Function>(C)) { J.array([&]{ J.value("fn"); J.value(F->getName()); }); return; }
  if (auto *G = dyn_cast<GlobalVariable>(C)) { J.array([&]{ J.value("g"); J.value(G->getName()); J.value(0); }); return; }
  if (auto *CE = dyn_cast<ConstantExpr>(C)) {
    if (auto *GEP = dyn_cast<GEPOperator>(CE)) {
      APInt off(64, 0);
      APInt o2(DL->getIndexTypeSizeInBits(GEP->getType()), 0);
      if (GEP->accumulateConstantOffset(*DL, o2)) {
        const Value *B = GEP->getPointerOperand();
        int64_t o = o2.getSExtValue();
        // chase nested
        while (auto *G2 = dyn_cast<GEPOperator>(B)) {
          APInt o3(DL->getIndexTypeSizeInBits(G2->getType()), 0);
          if (!G2->accumulateConstantOffset(*DL, o3)) break;
          o += o3.getSExtValue(); B = G2->getPointerOperand();
        }
        if (auto *G = dyn_cast<GlobalVariable>(B)) { J.array([&]{ J.value("g"); J.value(G->getName()); J.value(o); }); return; }
        if (isa<ConstantPointerNull>(B)) { J.array([&]{ J.value("ip"); J.value(o); }); return; }
      }
    }
    if (CE->getOpcode() == Instruction::IntToPtr)
      if (auto *CI = dyn_cast<ConstantInt>(CE->getOperand(0))) { J.array([&]{ J.value("ip"); J.value(CI->getSExtValue()); }); return; }
    J.array([&]{ J.value("ce"); J.value(CE->getOpcodeName()); ty(J, CE->getType()); for (auto &O : CE->operands()) opnd(J, O.get()); });
    return;
  }
  J.array([&]{ J.value("c?"); });
}

static void opnd(JO &J, const Value *V) {
  if (auto *C = dyn_cast<Constant>(V)) { constant(J, C); return; }
  if (auto *A = dyn_cast<Argument>(V)) { J.array([&]{ J.value("a"); J.value((int64_t)A->getArgNo()); }); return; }
  if (auto *B = dyn_cast<BasicBlock>(V)) { J.value((int64_t)Ids[B]); return; }
  if (auto *IA = dyn_cast<InlineAsm>(V)) { J.array([&]{ J.value("asm"); J.value(IA->getAsmString()); J.value(IA->getConstraintString()); }); return; }
  if (isa<MetadataAsValue>(V)) { J.array([&]{ J.value("md"); }); return; }
  J.array([&]{ J.value("v"); J.value((int64_t)Ids[V]); });
}

static void initbytes(const Constant *C, uint64_t off, std::vector<std::array<std::string,3>> &out) {
  // list of (offset, kind:value)
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
  if (auto *CD = dyn_cast<ConstantDataSequential>(C)) {
    uint64_t es = CD->getElementByteSize();
    for (unsigned i = 0; i < CD->getNumElements(); i++) {
      if (CD->getElementType()->isIntegerTy()) {
        out.push_back({std::to_string(off + i*es), "i" + std::to_string(es*8), std::to_string(CD->getElementAsAPInt(i).getSExtValue())});
      } else {
        out.push_back({std::to_string(off + i*es), "f" + std::to_string(es*8), hex(CD->getElementAsAPFloat(i).bitcastToAPInt())});
      }
    }
    return;
  }
  if (auto *CA = dyn_cast<ConstantArray>(C)) {
    uint64_t es = DL->getTypeAllocSize(CA->getType()->getElementType());
    for (unsigned i = 0; i < CA->getNumOperands(); i++) initbytes(CA->getOperand(i), off + i*es, out);
    return;
  }
  if (auto *CS = dyn_cast<ConstantStruct>(C)) {
    const StructLayout *SL = DL->getStructLayout(CS->getType());
    for (unsigned i = 0; i < CS->getNumOperands(); i++) initbytes(CS->getOperand(i), off + SL->getElementOffset(i), out);
    return;
  }
  std::string s; raw_string_ostream so(s); { JO J(so); constant(J, C); }
  out.push_back({std::to_string(off), "c" + std::to_string((uint64_t)DL->getTypeStoreSize(C->getType())*8), so.str()});
}

int main(int argc, char **argv) {
  if (argc < 2) return 2;
  LLVMContext Ctx; SMDiagnostic Err;
  auto M = parseIRFile(argv[1], Err, Ctx);
  if (!M) { Err.print("irdump", errs()); return 2; }
  {
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
    PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
    ModulePassManager MPM;
    const char *P = argc > 2 ? argv[2] : "function(mem2reg)";
    if (auto E = PB.parsePassPipeline(MPM, P)) { errs() << toString(std::move(E)) << "\n"; return 2; }
    MPM.run(*M, MAM);
  }
  DL = &M->getDataLayout();
  JO J(outs(), 0);
  J.object([&]{
    J.attribute("ptrsize", (int64_t)DL->getPointerSize());
    J.attributeArray("structs", [&]{
      DebugInfoFinder F; F.processModule(*M);
      std::set<std::string> seen;
      std::map<const DICompositeType*, std::string> nm;
      for (auto *T : F.types()) if (auto *D = dyn_cast<DIDerivedType>(T)) if (D->getTag() == dwarf::DW_TAG_typedef)
        if (auto *C = dyn_cast_or_null<DICompositeType>(D->getBaseType())) nm[C] = std::string(D->getName());
      for (auto *T : F.types()) if (auto *C = dyn_cast<DICompositeType>(T)) {
        if (C->getTag() != dwarf::DW_TAG_structure_type && C->getTag() != dwarf::DW_TAG_union_type && C->getTag() != dwarf::DW_TAG_enumeration_type) continue;
        if (C->getTag() == dwarf::DW_TAG_enumeration_type) {
          J.object([&]{ J.attribute("enum", C->getName()); J.attributeArray("vals", [&]{ for (auto *E : C->getElements()) if (auto *EE = dyn_cast<DIEnumerator>(E)) J.array([&]{ J.value(EE->getName()); J.value(EE->getValue().getSExtValue()); }); }); });
          continue;
        }
        J.object([&]{
          J.attribute("name", C->getName()); J.attribute("typedef", nm.count(C) ? nm[C] : ""); J.attribute("size", (int64_t)C->getSizeInBits()/8);
          J.attributeArray("fields", [&]{
            for (auto *E : C->getElements()) if (auto *D = dyn_cast<DIDerivedType>(E)) {
              J.array([&]{ J.value(D->getName()); J.value((int64_t)D->getOffsetInBits()/8); J.value((int64_t)D->getSizeInBits()/8);
                std::string tn; if (auto *bt = D->getBaseType()) { tn = std::string(bt->getName()); if (tn.empty()) if (auto *cc = dyn_cast<DICompositeType>(bt)) if (nm.count(cc)) tn = nm[cc]; }
                J.value(tn); });
            }
          });
        });
      }
    });
    J.attributeArray("globals", [&]{
      for (auto &G : M->globals()) {
        J.object([&]{
          J.attribute("name", G.getName());
          J.attribute("size", (int64_t)(G.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 0));
          uint64_t el = 0; Type *T = G.getValueType(); bool arr = false;
          while (auto *AT = dyn_cast<ArrayType>(T)) { arr = true; T = AT->getElementType(); }
          if (T->isSized()) el = DL->getTypeAllocSize(T);
          J.attribute("elsize", (int64_t)el); J.attribute("isarray", arr); J.attribute("const", G.isConstant());
          J.attribute("local", G.hasLocalLinkage()); J.attribute("decl", G.isDeclaration());
          J.attributeBegin("elty"); ty(J, T); J.attributeEnd();
          SmallVector<DIGlobalVariableExpression*, 1> gv; G.getDebugInfo(gv);
          if (!gv.empty()) { J.attribute("line", (int64_t)gv[0]->getVariable()->getLine()); J.attribute("file", gv[0]->getVariable()->getFilename()); J.attribute("dname", gv[0]->getVariable()->getName());}
          if (G.hasInitializer()) {
            const Constant *C = G.getInitializer();
            auto *CDS = dyn_cast<ConstantDataSequential>(C);
            if (CDS && CDS->isString()) { std::string s; for (char c : CDS->getAsString()) { char b[3]; snprintf(b, 3, "%02x", (unsigned char)c); s += b; } J.attribute("str", s); }
            else {
              std::vector<std::array<std::string,3>> o; initbytes(C, 0, o);
              J.attributeArray("init", [&]{ for (auto &e : o) J.array([&]{ J.value((int64_t)std::stoll(e[0])); J.value(e[1]); J.value(e[2]); }); });
            }
          }
        });
      }
    });
    J.attributeArray("functions", [&]{
      for (auto &F : *M) {
        J.object([&]{
          J.attribute("name", F.getName()); J.attribute("decl", F.isDeclaration());
          J.attribute("noreturn", F.doesNotReturn()); J.attribute("local", F.hasLocalLinkage()); J.attribute("vararg", F.isVarArg());
          J.attributeBegin("ret"); ty(J, F.getReturnType()); J.attributeEnd();
          J.attributeArray("params", [&]{ for (auto &A : F.args()) ty(J, A.getType()); });
          if (F.isDeclaration()) return;
          if (auto *SP = F.getSubprogram()) {
            J.attribute("line", (int64_t)SP->getLine()); J.attribute("file", SP->getFilename());
            std::map<int,std::string> pn;
            for (auto *N : SP->getRetainedNodes()) if (auto *LV = dyn_cast<DILocalVariable>(N)) if (LV->getArg()) pn[LV->getArg()] = std::string(LV->getName());
            for (auto &B : F) for (auto &I : B) if (auto *D = dyn_cast<DbgVariableIntrinsic>(&I)) if (D->getVariable()->getArg()) pn[D->getVariable()->getArg()] = std::string(D->getVariable()->getName());
            J.attributeArray("pnames", [&]{ for (unsigned i = 1; i <= F.arg_size(); i++) J.value(pn[i]); });
          }
          Ids.clear(); int n = 0, b = 0;
          for (auto &B : F) { Ids[&B] = b++; for (auto &I : B) Ids[&I] = n++; }
          std::map<int,std::string> vn; // value names from debug
          for (auto &B : F) for (auto &I : B) if (auto *D = dyn_cast<DbgVariableIntrinsic>(&I)) if (D->getNumVariableLocationOps() == 1) if (auto *V = D->getVariableLocationOp(0)) if (isa<Instruction>(V)) vn[Ids[V]] = std::string(D->getVariable()->getName());
          J.attributeArray("blocks", [&]{
            for (auto &B : F) {
              J.array([&]{
                for (auto &I : B) {
                  if (isa<DbgInfoIntrinsic>(I)) continue;
                  J.array([&]{
                    J.value((int64_t)Ids[&I]);
                    std::string op = I.getOpcodeName();
                    J.value(op);
                    ty(J, I.getType());
                    J.value((int64_t)(I.getDebugLoc() ? I.getDebugLoc().getLine() : 0));
                    if (auto *A = dyn_cast<AllocaInst>(&I)) {
                      auto sz = A->getAllocationSize(*DL); J.value(sz ? (int64_t)sz->getFixedValue() : (int64_t)-1);
                      J.value(vn.count(Ids[&I]) ? vn[Ids[&I]] : std::string(A->getName())); opnd(J, A->getArraySize());
                      J.value((int64_t)DL->getTypeAllocSize(A->getAllocatedType()));
                    } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
                      unsigned bw = DL->getIndexTypeSizeInBits(G->getType());
                      MapVector<Value*, APInt> VO; APInt CO(bw, 0);
                      if (!G->collectOffset(*DL, bw, VO, CO)) { errs() << "gep?\n"; exit(2); }
                      opnd(J, G->getPointerOperand()); J.value(CO.getSExtValue());
                      J.array([&]{ for (auto &p : VO) J.array([&]{ opnd(J, p.first); J.value(p.second.getSExtValue()); ty(J, p.first->getType()); }); });
                    } else if (auto *C = dyn_cast<CallBase>(&I)) {
                      opnd(J, C->getCalledOperand());
                      J.array([&]{ for (auto &A : C->args()) opnd(J, A.get()); });
                      J.array([&]{ for (auto &A : C->args()) ty(J, A->getType()); });
                    } else if (auto *P = dyn_cast<PHINode>(&I)) {
                      J.array([&]{ for (unsigned i = 0; i < P->getNumIncomingValues(); i++) J.array([&]{ opnd(J, P->getIncomingValue(i)); J.value((int64_t)Ids[P->getIncomingBlock(i)]); }); });
                      J.value(vn.count(Ids[&I]) ? vn[Ids[&I]] : "");
                    } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
                      opnd(J, S->getCondition()); J.value((int64_t)Ids[S->getDefaultDest()]);
                      J.array([&]{ for (auto &c : S->cases()) J.array([&]{ J.value(c.getCaseValue()->getSExtValue()); J.value((int64_t)Ids[c.getCaseSuccessor()]); }); });
                      ty(J, S->getCondition()->getType());
                    } else if (auto *C = dyn_cast<CmpInst>(&I)) {
                      J.value(CmpInst::getPredicateName(C->getPredicate())); opnd(J, C->getOperand(0)); opnd(J, C->getOperand(1)); ty(J, C->getOperand(0)->getType());
                    } else if (auto *EV = dyn_cast<ExtractValueInst>(&I)) {
                      opnd(J, EV->getOperand(0)); J.array([&]{ for (auto i : EV->indices()) J.value((int64_t)i); });
                    } else if (auto *IV = dyn_cast<InsertValueInst>(&I)) {
                      opnd(J, IV->getOperand(0)); opnd(J, IV->getOperand(1)); J.array([&]{ for (auto i : IV->indices()) J.value((int64_t)i); });
                    } else if (isa<CastInst>(I)) {
                      opnd(J, I.getOperand(0)); ty(J, I.getOperand(0)->getType());
                    } else if (auto *BR = dyn_cast<BranchInst>(&I)) {
                      if (BR->isConditional()) { opnd(J, BR->getCondition()); J.value((int64_t)Ids[BR->getSuccessor(0)]); J.value((int64_t)Ids[BR->getSuccessor(1)]); }
                      else J.value((int64_t)Ids[BR->getSuccessor(0)]);
                    } else if (auto *ST = dyn_cast<StoreInst>(&I)) {
                      opnd(J, ST->getValueOperand()); opnd(J, ST->getPointerOperand()); ty(J, ST->getValueOperand()->getType());
                    } else {
                      for (auto &O : I.operands()) opnd(J, O.get());
                    }
                  });
                }
              });
            }
          });
        });
      }
    });
  });
  outs() << "\n";
  return 0;
}
