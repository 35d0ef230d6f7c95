// irtool: front half of the static analyser.
//
//   irtool IN.bc OUT.json [--flatten] [--keep=REGEX]... [--root=REGEX]...
//                         [--passes=PIPELINE] [--scev] [--only=REGEX]
//
// Reads LLVM bitcode produced by clang from /repo's current sources, brings it
// into a normal form (optionally: everything that has a body is inlined into
// its callers, so that extracting or merging helpers does not change what the
// analyses see) and prints the resolved program as JSON: functions, blocks,
// instructions, operands, byte offsets of every address computation, inline
// assembly, atomic orderings, debug locations with their inlining stack, class
// layouts from debug info, and (with --scev) LLVM's scalar-evolution closed
// forms for addresses and loop trip counts.  It decides nothing by itself.
#include <map>
#include <set>
#include <string>
#include <vector>

#include "llvm/ADT/MapVector.h"
#include "llvm/ADT/SCCIterator.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/ScalarEvolutionExpressions.h"
#include "llvm/Analysis/TargetLibraryInfo.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"

using namespace llvm;
using json::Array;
using json::Object;
typedef json::Value JV;

static const DataLayout *DL;

static std::string tyStr(Type *T) {
  std::string S;
  raw_string_ostream O(S);
  T->print(O, false, true);
  return O.str();
}

struct Emitter {
  std::map<const Value *, int> Ids;
  std::map<const BasicBlock *, int> BIds;

  JV ref(const Value *V, int depth = 0) {
    if (auto *BB = dyn_cast<BasicBlock>(V)) return Array{"b", BIds.count(BB) ? BIds[BB] : -1};
    if (auto *A = dyn_cast<Argument>(V)) return Array{"a", (int64_t)A->getArgNo()};
    if (isa<Instruction>(V)) return Array{"i", Ids.count(V) ? Ids[V] : -1};
    if (auto *IA = dyn_cast<InlineAsm>(V))
      return Array{"asm", IA->getAsmString(), IA->getConstraintString(), IA->hasSideEffects()};
    if (auto *CI = dyn_cast<ConstantInt>(V)) {
      SmallString<40> S;
      CI->getValue().toStringSigned(S);
      return Array{"c", std::string(S.str()), (int64_t)CI->getBitWidth()};
    }
    if (auto *GV = dyn_cast<GlobalValue>(V)) {
      if (auto *GA = dyn_cast<GlobalAlias>(V))
        if (auto *B = GA->getAliaseeObject()) return Array{"g", B->getName().str()};
      return Array{"g", GV->getName().str()};
    }
    if (isa<ConstantPointerNull>(V)) return Array{"n"};
    if (isa<UndefValue>(V)) return Array{"u", tyStr(V->getType())};
    if (auto *CF = dyn_cast<ConstantFP>(V)) {
      SmallString<32> S;
      CF->getValueAPF().toString(S);
      APInt Bits = CF->getValueAPF().bitcastToAPInt();
      if (Bits.getBitWidth() <= 64)
        return Array{"f", std::string(S.str()), Bits.getSExtValue(), (int64_t)Bits.getBitWidth()};
      return Array{"f", std::string(S.str())};
    }
    if (auto *CZ = dyn_cast<ConstantAggregateZero>(V)) {
      (void)CZ;
      return Array{"z", tyStr(V->getType())};
    }
    if (auto *CDS = dyn_cast<ConstantDataSequential>(V)) {
      Array E;
      unsigned N = std::min<unsigned>(CDS->getNumElements(), 4096);
      for (unsigned i = 0; i < N; i++) E.push_back(ref(CDS->getElementAsConstant(i), depth + 1));
      return Array{"cv", std::move(E)};
    }
    if (auto *CA = dyn_cast<ConstantAggregate>(V)) {
      Array E;
      for (auto &Op : CA->operands()) E.push_back(ref(Op, depth + 1));
      return Array{"cv", std::move(E)};
    }
    if (auto *CE = dyn_cast<ConstantExpr>(V)) {
      if (auto *GEP = dyn_cast<GEPOperator>(CE)) {
        APInt Off(DL->getIndexTypeSizeInBits(GEP->getType()), 0);
        if (GEP->accumulateConstantOffset(*DL, Off))
          return Array{"cg", ref(GEP->getPointerOperand(), depth + 1), Off.getSExtValue()};
      }
      Array E;
      for (auto &Op : CE->operands()) E.push_back(ref(Op, depth + 1));
      return Array{"ce", CE->getOpcodeName(), std::move(E)};
    }
    if (auto *MV = dyn_cast<MetadataAsValue>(V)) {
      (void)MV;
      return Array{"m"};
    }
    if (isa<ConstantTokenNone>(V)) return Array{"n"};
    return Array{"?", tyStr(V->getType())};
  }
};

// ---- scalar evolution -------------------------------------------------------
struct ScevEmitter {
  Emitter &E;
  std::map<const Loop *, int> &LIds;
  ScevEmitter(Emitter &E, std::map<const Loop *, int> &L) : E(E), LIds(L) {}
  JV emit(const SCEV *S, int d = 0) {
    if (d > 24) return Array{"?"};
    switch (S->getSCEVType()) {
      case scConstant: {
        SmallString<40> T;
        cast<SCEVConstant>(S)->getAPInt().toStringSigned(T);
        return Array{"c", std::string(T.str())};
      }
      case scUnknown:
        return Array{"v", E.ref(cast<SCEVUnknown>(S)->getValue())};
      case scTruncate:
      case scZeroExtend:
      case scSignExtend:
      case scPtrToInt: {
        auto *C = cast<SCEVCastExpr>(S);
        const char *N = S->getSCEVType() == scTruncate     ? "trunc"
                        : S->getSCEVType() == scZeroExtend ? "zext"
                        : S->getSCEVType() == scSignExtend ? "sext"
                                                           : "p2i";
        return Array{N, emit(C->getOperand(), d + 1),
                     (int64_t)DL->getTypeSizeInBits(S->getType()).getFixedValue()};
      }
      case scAddExpr:
      case scMulExpr:
      case scSMaxExpr:
      case scUMaxExpr:
      case scSMinExpr:
      case scUMinExpr:
      case scSequentialUMinExpr: {
        const char *N = nullptr;
        switch (S->getSCEVType()) {
          case scAddExpr: N = "add"; break;
          case scMulExpr: N = "mul"; break;
          case scSMaxExpr: N = "smax"; break;
          case scUMaxExpr: N = "umax"; break;
          case scSMinExpr: N = "smin"; break;
          default: N = "umin"; break;
        }
        Array A{N};
        for (auto *Op : S->operands()) A.push_back(emit(Op, d + 1));
        return JV(std::move(A));
      }
      case scUDivExpr: {
        auto *U = cast<SCEVUDivExpr>(S);
        return Array{"udiv", emit(U->getLHS(), d + 1), emit(U->getRHS(), d + 1)};
      }
      case scAddRecExpr: {
        auto *R = cast<SCEVAddRecExpr>(S);
        Array A{"rec", LIds.count(R->getLoop()) ? LIds[R->getLoop()] : -1};
        for (auto *Op : R->operands()) A.push_back(emit(Op, d + 1));
        return JV(std::move(A));
      }
      default:
        return Array{"?"};
    }
  }
};

static std::vector<Regex> Keep, Roots, Only;
static bool Flatten = false, Scev = false;

static bool matchAny(std::vector<Regex> &Rs, StringRef S) {
  for (auto &R : Rs)
    if (R.match(S)) return true;
  return false;
}

static std::map<std::string, std::string> DemCache;
static std::string dem(StringRef N) {
  auto it = DemCache.find(N.str());
  if (it != DemCache.end()) return it->second;
  return DemCache[N.str()] = demangle(N.str());
}

int main(int argc, char **argv) {
  std::string In, Out, Passes, LL;
  for (int i = 1; i < argc; i++) {
    StringRef A = argv[i];
    if (A == "--flatten") Flatten = true;
    else if (A == "--scev") Scev = true;
    else if (A.consume_front("--keep=")) Keep.emplace_back(A);
    else if (A.consume_front("--root=")) Roots.emplace_back(A);
    else if (A.consume_front("--only=")) Only.emplace_back(A);
    else if (A.consume_front("--ll=")) LL = A.str();
    else if (A.consume_front("--passes=")) Passes = A.str();
    else if (In.empty()) In = A.str();
    else Out = A.str();
  }
  LLVMContext Ctx;
  SMDiagnostic Err;
  auto M = parseIRFile(In, Err, Ctx);
  if (!M) {
    Err.print("irtool", errs());
    return 3;
  }
  DL = &M->getDataLayout();

  LoopAnalysisManager LAM;
  FunctionAnalysisManager FAM;
  CGSCCAnalysisManager CGAM;
  ModuleAnalysisManager MAM;
  PassBuilder PB;
  PB.registerModuleAnalyses(MAM);
  PB.registerCGSCCAnalyses(CGAM);
  PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);

  if (!Roots.empty()) {
    // Everything else becomes internal, so that unreachable code disappears.
    for (auto &F : *M)
      if (!F.isDeclaration()) {
        bool Root = matchAny(Roots, dem(F.getName())) || matchAny(Roots, F.getName());
        if (Root) {
          F.setLinkage(GlobalValue::ExternalLinkage);
          F.setComdat(nullptr);
        } else {
          F.setLinkage(GlobalValue::InternalLinkage);
          F.setComdat(nullptr);
        }
      }
  }
  if (Flatten) {
    for (auto &F : *M) {
      if (F.isDeclaration()) continue;
      F.removeFnAttr(Attribute::OptimizeNone);
      std::string D = dem(F.getName());
      if (matchAny(Keep, D) || matchAny(Roots, D) || matchAny(Roots, F.getName())) {
        F.removeFnAttr(Attribute::AlwaysInline);
        F.addFnAttr(Attribute::NoInline);
      } else {
        F.removeFnAttr(Attribute::NoInline);
        F.addFnAttr(Attribute::AlwaysInline);
      }
      for (auto &I : instructions(F))
        if (auto *CB = dyn_cast<CallBase>(&I)) {
          CB->removeFnAttr(Attribute::NoInline);
        }
    }
  }
  if (Passes.empty())
    Passes = Flatten ? "always-inline,function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,"
                       "simplifycfg,jump-threading,simplifycfg),globaldce"
                     : "function(mem2reg),globaldce";
  if (Passes == "unroll") {
    // full unrolling of constant-trip loops, for loop-free evaluation
    const char *Opt[] = {"irtool", "-unroll-threshold=1000000", "-unroll-max-iteration-count-to-analyze=4096"};
    cl::ParseCommandLineOptions(3, Opt);
    for (auto &F : *M)
      for (auto &BB : F)
        if (auto *T = BB.getTerminator()) T->setMetadata(LLVMContext::MD_loop, nullptr);
    Passes = "always-inline,function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,"
             "simplifycfg,loop-simplify,lcssa,loop(loop-rotate,indvars,loop-deletion),loop-simplify,lcssa,loop-unroll<O3;full-unroll-max=512;no-partial;no-runtime;no-peeling>,"
             "sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg,jump-threading,simplifycfg),globaldce";
  }
  ModulePassManager MPM;
  if (auto E = PB.parsePassPipeline(MPM, Passes)) {
    errs() << "irtool: bad pipeline: " << toString(std::move(E)) << "\n";
    return 3;
  }
  MPM.run(*M, MAM);
  if (verifyModule(*M, &errs())) return 3;

  if (!LL.empty()) {
    std::error_code EC;
    raw_fd_ostream OS(LL, EC);
    M->print(OS, nullptr);
  }

  // ---- intern tables ----
  std::vector<std::string> Strs;
  std::map<std::string, int> StrIds;
  auto S = [&](StringRef X) -> int64_t {
    auto it = StrIds.find(X.str());
    if (it != StrIds.end()) return it->second;
    int id = Strs.size();
    Strs.push_back(X.str());
    StrIds[X.str()] = id;
    return id;
  };
  std::map<const DILocation *, int> LocIds;
  Array Locs;
  std::function<int64_t(const DILocation *)> loc = [&](const DILocation *L) -> int64_t {
    if (!L) return -1;
    auto it = LocIds.find(L);
    if (it != LocIds.end()) return it->second;
    int64_t up = loc(L->getInlinedAt());
    auto *SP = L->getScope()->getSubprogram();
    std::string Fn = SP ? (SP->getLinkageName().empty() ? SP->getName().str()
                                                        : SP->getLinkageName().str())
                        : "";
    std::string File = L->getFilename().str();
    int id = Locs.size();
    LocIds[L] = id;
    Locs.push_back(Array{S(File), (int64_t)L->getLine(), S(Fn), up});
    return id;
  };

  Array Funcs;
  for (auto &F : *M) {
    Object FO;
    FO["name"] = F.getName().str();
    FO["dem"] = dem(F.getName());
    FO["decl"] = F.isDeclaration();
    FO["linkage"] = (int64_t)F.getLinkage();
    if (F.doesNotReturn()) FO["noreturn"] = true;
    if (F.doesNotAccessMemory()) FO["readnone"] = true;
    if (F.onlyReadsMemory()) FO["readonly"] = true;
    FO["ret"] = tyStr(F.getReturnType());
    Array Args;
    for (auto &A : F.args()) {
      Object AO;
      AO["t"] = tyStr(A.getType());
      AO["n"] = A.getName().str();
      if (A.hasByValAttr()) AO["byval"] = true;
      if (A.hasStructRetAttr()) AO["sret"] = true;
      if (A.onlyReadsMemory()) AO["ro"] = true;
      if (A.hasNoAliasAttr()) AO["noalias"] = true;
      Args.push_back(std::move(AO));
    }
    FO["args"] = std::move(Args);
    if (auto *SP = F.getSubprogram()) {
      FO["file"] = SP->getFilename().str();
      FO["line"] = (int64_t)SP->getLine();
    }
    if (!F.isDeclaration() && (Only.empty() || matchAny(Only, dem(F.getName())) ||
                               matchAny(Only, F.getName()))) {
      Emitter E;
      int n = 0, b = 0;
      for (auto &BB : F) {
        E.BIds[&BB] = b++;
        for (auto &I : BB) E.Ids[&I] = n++;
      }
      std::map<const Loop *, int> LIds;
      LoopInfo *LI = nullptr;
      ScalarEvolution *SE = nullptr;
      if (Scev) {
        LI = &FAM.getResult<LoopAnalysis>(F);
        SE = &FAM.getResult<ScalarEvolutionAnalysis>(F);
        int l = 0;
        for (auto *L : LI->getLoopsInPreorder()) LIds[L] = l++;
      }
      ScevEmitter SEm(E, LIds);
      Array Blocks;
      for (auto &BB : F) {
        Array Ins;
        for (auto &I : BB) {
          if (isa<DbgInfoIntrinsic>(I)) continue;
          Object O;
          O["id"] = (int64_t)E.Ids[&I];
          O["op"] = std::string(I.getOpcodeName());
          O["t"] = S(tyStr(I.getType()));
          Array Ops;
          if (auto *P = dyn_cast<PHINode>(&I)) {
            for (unsigned k = 0; k < P->getNumIncomingValues(); k++)
              Ops.push_back(
                  Array{E.ref(P->getIncomingValue(k)), (int64_t)E.BIds[P->getIncomingBlock(k)]});
          } else if (auto *CB = dyn_cast<CallBase>(&I)) {
            for (auto &A : CB->args()) Ops.push_back(E.ref(A));
            const Value *CV = CB->getCalledOperand()->stripPointerCasts();
            O["callee"] = E.ref(CV);
            if (auto *CF = dyn_cast<Function>(CV))
              if (CF->isIntrinsic()) O["intr"] = true;
            if (CB->doesNotReturn()) O["noreturn"] = true;
            Array AT;
            for (auto &A : CB->args()) AT.push_back(S(tyStr(A->getType())));
            O["at"] = std::move(AT);
            if (auto *IA = dyn_cast<InlineAsm>(CV)) {
              (void)IA;
              O["asmt"] = S(tyStr(CB->getType()));
              Array ET;  // elementtype attributes of indirect operands
              for (unsigned k = 0; k < CB->arg_size(); k++) {
                Type *T = CB->getParamElementType(k);
                ET.push_back(T ? S(tyStr(T)) : -1);
              }
              O["et"] = std::move(ET);
            }
            if (auto *II = dyn_cast<InvokeInst>(&I)) {
              O["inv"] = Array{(int64_t)E.BIds[II->getNormalDest()],
                               (int64_t)E.BIds[II->getUnwindDest()]};
            }
          } else if (auto *SV = dyn_cast<ShuffleVectorInst>(&I)) {
            Ops.push_back(E.ref(SV->getOperand(0)));
            Ops.push_back(E.ref(SV->getOperand(1)));
            Array Mk;
            for (int x : SV->getShuffleMask()) Mk.push_back((int64_t)x);
            O["mask"] = std::move(Mk);
          } else if (auto *SW = dyn_cast<SwitchInst>(&I)) {
            Ops.push_back(E.ref(SW->getCondition()));
            Array Cs;
            for (auto &C : SW->cases())
              Cs.push_back(Array{C.getCaseValue()->getSExtValue(),
                                 (int64_t)E.BIds[C.getCaseSuccessor()]});
            O["cases"] = std::move(Cs);
            O["def"] = (int64_t)E.BIds[SW->getDefaultDest()];
          } else if (auto *BI = dyn_cast<BranchInst>(&I)) {
            if (BI->isConditional()) Ops.push_back(E.ref(BI->getCondition()));
            Array Ss;
            for (unsigned k = 0; k < BI->getNumSuccessors(); k++)
              Ss.push_back((int64_t)E.BIds[BI->getSuccessor(k)]);
            O["succ"] = std::move(Ss);
          } else {
            for (auto &Op : I.operands()) Ops.push_back(E.ref(Op));
          }
          O["ops"] = std::move(Ops);
          if (auto *C = dyn_cast<CmpInst>(&I))
            O["pred"] = CmpInst::getPredicateName(C->getPredicate()).str();
          if (auto *L = dyn_cast<LoadInst>(&I)) {
            if (L->isAtomic()) O["ord"] = toIRString(L->getOrdering());
            if (L->isVolatile()) O["vol"] = true;
            O["sz"] = (int64_t)DL->getTypeStoreSize(L->getType()).getFixedValue();
          }
          if (auto *St = dyn_cast<StoreInst>(&I)) {
            if (St->isAtomic()) O["ord"] = toIRString(St->getOrdering());
            if (St->isVolatile()) O["vol"] = true;
            O["sz"] =
                (int64_t)DL->getTypeStoreSize(St->getValueOperand()->getType()).getFixedValue();
            O["vt"] = S(tyStr(St->getValueOperand()->getType()));
          }
          if (auto *R = dyn_cast<AtomicRMWInst>(&I)) {
            O["ord"] = toIRString(R->getOrdering());
            O["rmw"] = AtomicRMWInst::getOperationName(R->getOperation()).str();
          }
          if (auto *R = dyn_cast<AtomicCmpXchgInst>(&I)) {
            O["ord"] = toIRString(R->getSuccessOrdering());
            O["ord2"] = toIRString(R->getFailureOrdering());
          }
          if (auto *Fe = dyn_cast<FenceInst>(&I)) O["ord"] = toIRString(Fe->getOrdering());
          if (auto *PE = dyn_cast<PossiblyExactOperator>(&I))
            if (PE->isExact()) O["exact"] = true;
          if (auto *OB = dyn_cast<OverflowingBinaryOperator>(&I)) {
            if (OB->hasNoSignedWrap()) O["nsw"] = true;
            if (OB->hasNoUnsignedWrap()) O["nuw"] = true;
            if (OB->hasNoUnsignedWrap()) O["nuw"] = true;
          }
          if (isa<BinaryOperator>(&I) || isa<CastInst>(&I) || isa<ICmpInst>(&I)) {
            O["ot"] = S(tyStr(I.getOperand(0)->getType()));
          }
          if (auto *A = dyn_cast<AllocaInst>(&I)) {
            O["aty"] = S(tyStr(A->getAllocatedType()));
            if (auto Sz = A->getAllocationSize(*DL)) O["asz"] = (int64_t)Sz->getFixedValue();
          }
          if (auto *EV = dyn_cast<ExtractValueInst>(&I)) {
            Array X;
            for (unsigned k : EV->indices()) X.push_back((int64_t)k);
            O["idx"] = std::move(X);
          }
          if (auto *IV = dyn_cast<InsertValueInst>(&I)) {
            Array X;
            for (unsigned k : IV->indices()) X.push_back((int64_t)k);
            O["idx"] = std::move(X);
          }
          if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
            unsigned W = DL->getIndexTypeSizeInBits(G->getType());
            MapVector<Value *, APInt> VO;
            APInt CO(W, 0);
            auto *GO = cast<GEPOperator>(G);
            if (!G->getType()->isVectorTy() && GO->collectOffset(*DL, W, VO, CO)) {
              O["off"] = CO.getSExtValue();
              Array Vs;
              for (auto &P : VO) Vs.push_back(Array{E.ref(P.first), P.second.getSExtValue()});
              O["var"] = std::move(Vs);
            }
            O["srcty"] = S(tyStr(G->getSourceElementType()));
          }
          if (Scev && SE->isSCEVable(I.getType())) {
            O["scev"] = SEm.emit(SE->getSCEV(&I));
          }
          if (I.getDebugLoc()) O["dl"] = loc(I.getDebugLoc().get());
          Ins.push_back(std::move(O));
        }
        Blocks.push_back(std::move(Ins));
      }
      FO["blocks"] = std::move(Blocks);
      if (Scev) {
        Array Ls;
        for (auto *L : LI->getLoopsInPreorder()) {
          Object LO;
          LO["id"] = (int64_t)LIds[L];
          LO["header"] = (int64_t)E.BIds[L->getHeader()];
          LO["parent"] = L->getParentLoop() ? (int64_t)LIds[L->getParentLoop()] : (int64_t)-1;
          Array Bs;
          for (auto *B : L->blocks()) Bs.push_back((int64_t)E.BIds[B]);
          LO["blocks"] = std::move(Bs);
          auto *BT = SE->getBackedgeTakenCount(L);
          LO["btc"] = isa<SCEVCouldNotCompute>(BT) ? JV(nullptr) : SEm.emit(BT);
          SmallVector<BasicBlock *, 4> Ex;
          L->getExitingBlocks(Ex);
          Array Es;
          for (auto *B : Ex) {
            auto *EC = SE->getExitCount(L, B);
            Es.push_back(Array{(int64_t)E.BIds[B],
                               isa<SCEVCouldNotCompute>(EC) ? JV(nullptr) : SEm.emit(EC)});
          }
          LO["exits"] = std::move(Es);
          Ls.push_back(std::move(LO));
        }
        FO["loops"] = std::move(Ls);
      }
    }
    Funcs.push_back(std::move(FO));
  }

  Array Globals;
  {
    Emitter E;
    for (auto &G : M->globals()) {
      Object O;
      O["name"] = G.getName().str();
      O["dem"] = dem(G.getName());
      O["const"] = G.isConstant();
      O["tls"] = G.isThreadLocal();
      O["decl"] = G.isDeclaration();
      O["ty"] = tyStr(G.getValueType());
      if (G.hasInitializer() && (G.getName().starts_with("_ZTV") || G.isConstant() ||
                                 G.getName() == "llvm.global_ctors"))
        O["init"] = E.ref(G.getInitializer());
      else if (G.hasInitializer()) {
        O["start"] = E.ref(G.getInitializer());
        O["zero"] = G.getInitializer()->isNullValue();
        O["size"] = (int64_t)M->getDataLayout().getTypeAllocSize(G.getValueType());
      }
      SmallVector<DIGlobalVariableExpression *, 1> GVs;
      G.getDebugInfo(GVs);
      for (auto *GV : GVs) {
        O["file"] = GV->getVariable()->getFilename().str();
        O["line"] = (int64_t)GV->getVariable()->getLine();
        if (auto *Sc = dyn_cast_or_null<DISubprogram>(GV->getVariable()->getScope()))
          O["infn"] = Sc->getName().str();
      }
      Globals.push_back(std::move(O));
    }
  }

  // ---- class layouts from debug info ----
  Object Types;
  DebugInfoFinder DIF;
  DIF.processModule(*M);
  std::function<std::string(const DIScope *)> scopeName = [&](const DIScope *Sc) -> std::string {
    if (!Sc) return "";
    std::string P;
    if (isa<DINamespace>(Sc) || isa<DICompositeType>(Sc)) {
      P = scopeName(Sc->getScope());
      std::string N = Sc->getName().str();
      return P.empty() ? N : P + "::" + N;
    }
    return "";
  };
  std::function<std::string(const DIType *)> tname = [&](const DIType *T) -> std::string {
    if (!T) return "void";
    if (auto *D = dyn_cast<DIDerivedType>(T)) {
      switch (D->getTag()) {
        case dwarf::DW_TAG_pointer_type: return tname(D->getBaseType()) + "*";
        case dwarf::DW_TAG_reference_type: return tname(D->getBaseType()) + "&";
        case dwarf::DW_TAG_const_type: return "const " + tname(D->getBaseType());
        case dwarf::DW_TAG_volatile_type: return "volatile " + tname(D->getBaseType());
        case dwarf::DW_TAG_typedef: return tname(D->getBaseType());
        default: return tname(D->getBaseType());
      }
    }
    if (isa<DISubroutineType>(T)) return "fn";
    std::string P = scopeName(T->getScope());
    std::string N = T->getName().str();
    if (auto *C = dyn_cast<DICompositeType>(T))
      if (C->getTag() == dwarf::DW_TAG_array_type) return tname(C->getBaseType()) + "[]";
    return P.empty() ? N : P + "::" + N;
  };
  for (auto *T : DIF.types()) {
    auto *C = dyn_cast<DICompositeType>(T);
    if (!C) continue;
    auto Tag = C->getTag();
    if (Tag == dwarf::DW_TAG_enumeration_type) {
      Object En;
      for (auto *E : C->getElements())
        if (auto *V = dyn_cast_or_null<DIEnumerator>(E))
          En[V->getName()] = V->getValue().getSExtValue();
      Object O;
      O["enum"] = std::move(En);
      Types[tname(C)] = std::move(O);
      continue;
    }
    if (Tag != dwarf::DW_TAG_class_type && Tag != dwarf::DW_TAG_structure_type) continue;
    if (C->isForwardDecl()) continue;
    Object O;
    O["size"] = (int64_t)C->getSizeInBits() / 8;
    O["id"] = C->getIdentifier().str();
    Array Ms, Bases;
    for (auto *E : C->getElements()) {
      auto *D = dyn_cast_or_null<DIDerivedType>(E);
      if (!D || D->isStaticMember()) continue;
      if (D->getTag() == dwarf::DW_TAG_member)
        Ms.push_back(Array{D->getName().str(), (int64_t)D->getOffsetInBits() / 8,
                           (int64_t)D->getSizeInBits() / 8, tname(D->getBaseType())});
      else if (D->getTag() == dwarf::DW_TAG_inheritance)
        Bases.push_back(Array{tname(D->getBaseType()), (int64_t)D->getOffsetInBits() / 8});
    }
    O["members"] = std::move(Ms);
    O["bases"] = std::move(Bases);
    O["file"] = C->getFilename().str();
    O["line"] = (int64_t)C->getLine();
    Types[tname(C)] = std::move(O);
  }

  Object Root;
  Root["funcs"] = std::move(Funcs);
  Root["globals"] = std::move(Globals);
  Root["types"] = std::move(Types);
  Array SA;
  for (auto &X : Strs) SA.push_back(X);
  Root["strs"] = std::move(SA);
  Root["locs"] = std::move(Locs);
  Root["triple"] = M->getTargetTriple();
  Root["ptrsize"] = (int64_t)DL->getPointerSize();
  std::error_code EC;
  raw_fd_ostream OS(Out, EC);
  if (EC) {
    errs() << "irtool: cannot write " << Out << "\n";
    return 3;
  }
  OS << JV(std::move(Root));
  return 0;
}
