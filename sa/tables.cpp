// Subscripts of arrays whose length is fixed at compile time: bounded on every path that reaches the access?
#include "absint.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/LazyValueInfo.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/ScalarEvolutionExpressions.h"
#include "llvm/Analysis/TargetLibraryInfo.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/TargetParser/Triple.h"

namespace {
// a constructor: _ZN...C1E / C2E
bool isa_ctor(const Function &F) { return F.getName().contains("C1E") || F.getName().contains("C2E"); }
std::string site_of(const Instruction *I) {
  const DILocation *L = I->getDebugLoc();
  while (L && L->getInlinedAt() && L->getFilename().contains("/c++/")) L = L->getInlinedAt();
  if (!L) return where_of(I);
  std::string f = L->getFilename().str();
  if (!f.empty() && f[0] != '/') f = L->getDirectory().str() + "/" + f;
  return f + ":" + std::to_string(L->getLine());
}
bool std_name(StringRef n) { return n.starts_with("_ZNSt") || n.starts_with("_ZNKSt") || n.starts_with("_ZSt") || n.starts_with("_ZN9__gnu_cxx") || n.starts_with("_ZNK9__gnu_cxx"); }

// Where does a value come from?  'o': this object (or a closure's captures), 'p': a parameter or call result, 'c': constants only
struct Origin {
  Function &F;
  const DataLayout &DL;
  uint64_t N;
  bool object = false, free_ = false, bad_const = false;
  std::set<const Value *> seen;
  bool ctor = false;
  void go(const Value *v, unsigned d = 0) {
    if (d > 40 || !seen.insert(v).second) return;
    if (auto *C = dyn_cast<ConstantInt>(v)) {
      (void)C;
      return;
    }
    if (isa<Constant>(v)) return;
    if (auto *A = dyn_cast<Argument>(v)) {
      unsigned me = F.hasStructRetAttr() ? 1 : 0;
      if (A->getArgNo() == me + 2 && F.getName().contains("7resolveE")) { // what the calling callable prepared
        object = true;
        return;
      }
      (A->getArgNo() == me && A->getType()->isPointerTy() ? object : ctor ? object : free_) = true;
      return;
    }
    if (auto *L = dyn_cast<LoadInst>(v)) {
      const Value *b = getUnderlyingObject(L->getPointerOperand(), 12);
      if (auto *A = dyn_cast<Argument>(b)) return go(A, d + 1);
      if (auto *P = dyn_cast<LoadInst>(b)) return go(P, d + 1);
      if (auto *A = dyn_cast<AllocaInst>(b)) return local(A, d);
      if (isa<GlobalVariable>(b)) {
        auto *G = cast<GlobalVariable>(b);
        if (G->isConstant()) return;
        free_ = true;
        return;
      }
      if (auto *P = dyn_cast<PHINode>(b)) {
        for (const Use &U : P->incoming_values()) {
          const Value *u = getUnderlyingObject(U.get(), 12);
          if (u == b) continue;
          if (auto *A = dyn_cast<AllocaInst>(u)) local(A, d);
          else if (!isa<PHINode>(u)) free_ = true;
        }
        return;
      }
      free_ = true;
      return;
    }
    if (isa<CallBase>(v) || isa<AllocaInst>(v)) {
      free_ = true;
      return;
    }
    if (auto *I = dyn_cast<Instruction>(v))
      for (const Use &U : I->operands()) go(U.get(), d + 1);
  }
  // a local: whatever was stored into it
  void local(const AllocaInst *A, unsigned d) {
    if (!seen.insert(A).second) return;
    for (const Instruction &I : instructions(F)) {
      if (auto *S = dyn_cast<StoreInst>(&I)) {
        if (getUnderlyingObject(S->getPointerOperand(), 12) != A) continue;
        if (auto *C = dyn_cast<ConstantInt>(S->getValueOperand())) bad_const |= C->getValue().uge(N);
        else if (S->getValueOperand()->getType()->isIntegerTy()) go(S->getValueOperand(), d + 1);
      } else if (auto *MT = dyn_cast<MemTransferInst>(&I)) {
        if (getUnderlyingObject(MT->getRawDest(), 12) != A) continue;
        auto *G = dyn_cast<GlobalVariable>(getUnderlyingObject(MT->getRawSource(), 12));
        if (!G || !G->isConstant()) free_ = true;
        else if (auto *CD = dyn_cast<ConstantDataArray>(G->getInitializer())) {
          for (unsigned i = 0; i < CD->getNumElements(); ++i) bad_const |= CD->getElementAsInteger(i) >= N;
        }
      } else if (auto *CB = dyn_cast<CallBase>(&I)) {
        if (CB->isLifetimeStartOrEnd() || isa<DbgInfoIntrinsic>(CB)) continue;
        if (auto *MS = dyn_cast<MemSetInst>(CB))
          if (auto *C = dyn_cast<ConstantInt>(MS->getValue()))
            if (C->isZero()) continue;
        for (auto &a : CB->args())
          if (a->getType()->isPointerTy() && getUnderlyingObject(a.get(), 12) == A) free_ = true;
      }
    }
  }
};

int m_tables(Module &M, const std::vector<std::string> &args) {
  std::string filter = args.empty() ? "" : args[0];
  std::vector<Function *> fs;
  for (Function &F : M)
    if (!F.isDeclaration() && !F.getName().ends_with(".sa") && !std_name(F.getName())) fs.push_back(&F);
  TargetLibraryInfoImpl TLII{Triple(M.getTargetTriple())};
  TargetLibraryInfo TLI(TLII);
  const DataLayout &DL = M.getDataLayout();
  unsigned seen = 0;
  // enumerations: number of values, by size in bits
  std::set<std::pair<uint64_t, uint64_t>> enums;
  DebugInfoFinder DIF;
  DIF.processModule(M);
  for (DIType *T : DIF.types())
    if (auto *CT = dyn_cast<DICompositeType>(T))
      if (CT->getTag() == dwarf::DW_TAG_enumeration_type && CT->getElements()) {
        uint64_t top = 0;
        for (DINode *e : CT->getElements())
          if (auto *E = dyn_cast<DIEnumerator>(e)) top = std::max(top, E->getValue().getLimitedValue());
        enums.insert({top + 1, CT->getSizeInBits()});
      }
  for (Function *F : fs) {
    std::string name = demangle_(F->getName());
    if (!filter.empty() && name.find(filter) == std::string::npos) continue;
    bool any = false;
    for (Instruction &I : instructions(*F)) {
      if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
        if (!G->hasAllConstantIndices()) any = true;
      } else if (auto *CB = dyn_cast<CallBase>(&I))
        if (auto *C = CB->getCalledFunction())
          if (C->getName().contains("St5arrayI") && C->getName().contains("ixE")) any = true;
    }
    if (!any) continue;
    ++seen;
    Function *W = private_copy(*F);
    InlinePolicy P;
    P.ok = [&](const CallBase &, const Function &C) {
      StringRef n = C.getName();
      return n.contains("St5arrayI") || n.contains("St14__array_traitsI") || n.starts_with("_ZSt3min") || n.starts_with("_ZSt3max");
    };
    flatten(*W, P);
    cleanup(*W, "sroa,early-cse,simplifycfg<no-switch-to-lookup;no-hoist-common-insts;no-sink-common-insts;bonus-inst-threshold=0>,early-cse,loop-simplify,early-cse");
    if (getenv("SA_DUMP") && name.find(getenv("SA_DUMP")) != std::string::npos) W->print(errs());
    DominatorTree DT(*W);
    LoopInfo LI(DT);
    AssumptionCache AC(*W);
    ScalarEvolution SE(*W, TLI, AC, DT, LI);
    LazyValueInfo LVI(&AC, &DL);
    std::vector<GetElementPtrInst *> gs;
    for (Instruction &I : instructions(*W))
      if (auto *G = dyn_cast<GetElementPtrInst>(&I))
        if (!G->hasAllConstantIndices()) gs.push_back(G);
    for (GetElementPtrInst *G : gs) {
      // which table?
      uint64_t N = 0;
      Value *idx = nullptr;
      std::string what;
      Type *T = G->getSourceElementType();
      if (auto *A = dyn_cast<ArrayType>(T)) {
        if (G->getNumIndices() >= 2 && isa<ConstantInt>(G->getOperand(1)) && cast<ConstantInt>(G->getOperand(1))->isZero() && !isa<ConstantInt>(G->getOperand(2))) {
          N = A->getNumElements();
          idx = G->getOperand(2);
        }
      } else if (isa<StructType>(T)) {
        Type *t = T;
        for (unsigned i = 2; i < G->getNumOperands(); ++i) {
          Value *o = G->getOperand(i);
          if (auto *A = dyn_cast<ArrayType>(t)) {
            if (!isa<ConstantInt>(o)) {
              N = A->getNumElements();
              idx = o;
            }
            t = A->getElementType();
          } else if (auto *ST = dyn_cast<StructType>(t))
            t = isa<ConstantInt>(o) ? ST->getElementType(cast<ConstantInt>(o)->getZExtValue()) : t;
        }
      }
      if (!idx && G->getNumIndices() == 1) {
        // a decayed array
        APInt off(64, 0);
        Value *b = G->getPointerOperand()->stripAndAccumulateConstantOffsets(DL, off, true);
        Type *O = nullptr;
        if (auto *A = dyn_cast<AllocaInst>(b)) O = A->isArrayAllocation() ? nullptr : A->getAllocatedType();
        else if (auto *V = dyn_cast<GlobalVariable>(b)) O = V->hasInitializer() ? V->getValueType() : nullptr;
        if (auto *A = dyn_cast_or_null<ArrayType>(O)) {
          uint64_t es = DL.getTypeAllocSize(A->getElementType()), gs = DL.getTypeAllocSize(T);
          if (off.isZero() && gs == es) {
            N = A->getNumElements();
            idx = G->getOperand(1);
          }
        }
      }
      if (!idx || N <= 1) continue;
      const SCEV *S = SE.getSCEV(idx);
      unsigned w = SE.getTypeSizeInBits(S->getType());
      const SCEV *lim = SE.getConstant(APInt(w, N));
      bool ok = w < 64 && (w >= 64 || N >= (1ull << w));
      auto under = [&](const SCEV *x, Instruction *at) {
        if (SE.isKnownPredicate(ICmpInst::ICMP_ULT, x, lim) || SE.isKnownPredicateAt(ICmpInst::ICMP_ULT, x, lim, at)) return true;
        return SE.isKnownPredicateAt(ICmpInst::ICMP_SLT, x, lim, at) && SE.isKnownPredicateAt(ICmpInst::ICMP_SGE, x, SE.getZero(x->getType()), at);
      };
      if (!ok) ok = under(S, G);
      // what a dominating block of the same iteration has established still holds
      for (auto *D = DT.getNode(G->getParent()); !ok && D; D = D->getIDom()) {
        if (auto *AR = dyn_cast<SCEVAddRecExpr>(S))
          if (!AR->getLoop()->contains(D->getBlock())) break;
        if (auto *X = dyn_cast<Instruction>(idx))
          if (!DT.dominates(X, &*D->getBlock()->getFirstInsertionPt())) break;
        ok = under(S, &*D->getBlock()->getFirstInsertionPt());
      }
      if (!ok) ok = LVI.getConstantRange(idx, G, false).getUnsignedMax().ult(N);
      if (!ok)
        if (Loop *L = LI.getLoopFor(G->getParent())) {
          const SCEV *g = SE.applyLoopGuards(S, L);
          ok = under(g, G) || SE.getUnsignedRange(g).getUnsignedMax().ult(N);
          if (!ok)
            if (auto *AR = dyn_cast<SCEVAddRecExpr>(S)) {
              // counted: the last value is start + step * backedge count
              const SCEV *be = SE.getBackedgeTakenCount(AR->getLoop());
              if (!isa<SCEVCouldNotCompute>(be)) {
                const SCEV *last = SE.applyLoopGuards(AR->evaluateAtIteration(be, SE), AR->getLoop());
                ok = SE.getUnsignedRange(last).getUnsignedMax().ult(N) && SE.getUnsignedRange(SE.applyLoopGuards(AR->getStart(), AR->getLoop())).getUnsignedMax().ult(N);
              }
              if (!ok) {
                const SCEV *mx = SE.getConstantMaxBackedgeTakenCount(AR->getLoop());
                if (auto *c = dyn_cast<SCEVConstant>(mx))
                  if (auto *st = dyn_cast<SCEVConstant>(AR->getStart()))
                    if (auto *sp = dyn_cast<SCEVConstant>(AR->getStepRecurrence(SE)))
                      ok = sp->getAPInt().isOne() && (st->getAPInt() + c->getAPInt().zextOrTrunc(w)).ult(N);
              }
            }
        }
      std::string why;
      if (!ok)
        if (auto *Z = dyn_cast<ZExtInst>(idx))
          if (!isa<BinaryOperator>(Z->getOperand(0)) && !isa<CallBase>(Z->getOperand(0)) && enums.count({N, Z->getOperand(0)->getType()->getIntegerBitWidth()})) {
            ok = true;
            why = "enumeration";
          }
      bool judged = true;
      if (!ok) {
        Origin O{*W, DL, N};
        O.ctor = isa_ctor(*F);
        bool bounded = false;
        if (auto *AR = dyn_cast<SCEVAddRecExpr>(S)) {
          if (auto *U = dyn_cast<SCEVUnknown>(AR->getStart())) O.go(U->getValue());
          SmallVector<BasicBlock *, 4> ex;
          const_cast<Loop *>(AR->getLoop())->getExitingBlocks(ex);
          for (BasicBlock *b : ex)
            if (auto *B = dyn_cast<BranchInst>(b->getTerminator()))
              if (B->isConditional())
                if (auto *C = dyn_cast<ICmpInst>(B->getCondition())) {
                  bool mine = false;
                  for (Value *o : C->operands())
                    if (SE.isSCEVable(o->getType()) && isa<SCEVAddRecExpr>(SE.getSCEV(o))) mine = true;
                  if (!mine) continue;
                  bounded = true;
                  for (Value *o : C->operands())
                    if (!(SE.isSCEVable(o->getType()) && isa<SCEVAddRecExpr>(SE.getSCEV(o)))) O.go(o);
                }
          if (!bounded) O.free_ = true;
        } else
          O.go(idx);
        if (O.object && !O.free_) judged = false;
        else if (!O.free_ && !O.bad_const && !isa<SCEVAddRecExpr>(S)) ok = true, why = "listed";
      }
      std::string d;
      raw_string_ostream os(d);
      S->print(os);
      Json j;
      j.kv("k", "tab").kv("fn", name).kv("where", site_of(G)).kv("n", (int)N).kv("ok", ok).kv("idx", os.str()).kv("judged", judged).kv("why", why);
      j.out();
    }
    W->eraseFromParent();
  }
  Json j;
  j.kv("k", "sum").kv("functions", (int)seen);
  j.out();
  return 0;
}
ModeReg r_tables("tables", m_tables);
} // namespace
