// Many-element kernel forms: every operand pointer must move by its own stride, once per element,
// for exactly the requested number of elements.
//
// strides <name regex>: for every function of the signature (self, dst, dst_stride, src, src_stride, count)
#include "common.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/ScalarEvolutionExpressions.h"
#include "llvm/Analysis/TargetLibraryInfo.h"
#include "llvm/IR/IRBuilder.h"
#include <regex>

namespace {
struct Root {
  enum K { None, Dst, Src, SrcArr, DStride, SStride, StrideArr, Count, Mixed } k = None;
  int i = 0;
  bool operator==(const Root &o) const { return k == o.k && i == o.i; }
};
std::string rname(const Root &r) {
  switch (r.k) {
  case Root::Dst: return "dst";
  case Root::Src: return "src" + std::to_string(r.i);
  case Root::SrcArr: return "the operand array";
  case Root::DStride: return "the destination stride";
  case Root::SStride: return "the stride of src" + std::to_string(r.i);
  case Root::StrideArr: return "the stride array";
  case Root::Count: return "the count";
  default: return "?";
  }
}

struct Op {
  std::string what;
  bool single = false;                     // a call of a single-element form: (self, dst, src[])
  bool strided = false;                    // a call of a many-element form
  std::vector<std::pair<int, int>> from;   // new argument -> (argument, element or -1)
};

struct Strides {
  Function &F;
  std::map<Function *, Op> ops;
  std::vector<std::string> bad;
  unsigned nops = 0, nloops = 0, nsteps = 0, unjudged = 0;
  Argument *dst, *ds, *src, *ss, *cnt;
  std::map<int, Instruction *> srcv, strv;

  explicit Strides(Function &F) : F(F) {
    dst = F.getArg(1);
    ds = F.getArg(2);
    src = F.getArg(3);
    ss = F.getArg(4);
    cnt = F.getArg(5);
  }

  void complain(const std::string &s, const Instruction *I) {
    std::string w = s + (I ? " (" + where_of(I) + ")" : "");
    if (std::find(bad.begin(), bad.end(), w) == bad.end()) bad.push_back(w);
  }

  // calls that take the address of local arrays get the elements by value
  void by_value() {
    Module &M = *F.getParent();
    const DataLayout &DL = M.getDataLayout();
    std::vector<CallBase *> calls;
    for (Instruction &I : instructions(F))
      if (auto *CB = dyn_cast<CallInst>(&I))
        if (!isa<IntrinsicInst>(CB) && !CB->isInlineAsm()) calls.push_back(CB);
    unsigned n = 0;
    for (CallBase *CB : calls) {
      Function *C = CB->getCalledFunction();
      std::string d = C ? demangle_(C->getName()) : "";
      if (C && C->getName().starts_with("sa.")) continue;
      Op op;
      op.what = C ? d.substr(0, d.find('(')) : "child";
      if (d.find("::single") != std::string::npos || (!C && CB->arg_size() == 3)) op.single = true;
      if (d.find("::strided") != std::string::npos || (!C && CB->arg_size() == 6)) op.strided = true;
      if (!op.single && !op.strided) continue;
      IRBuilder<> B(CB);
      std::vector<Value *> args;
      std::vector<Type *> tys;
      for (unsigned a = 0; a < CB->arg_size(); ++a) {
        Value *v = CB->getArgOperand(a);
        auto *A = dyn_cast<AllocaInst>(v->stripPointerCasts());
        uint64_t sz = 0;
        if (A && A->getAllocationSize(DL)) sz = *A->getAllocationSize(DL);
        Type *el = nullptr;
        if (A && a > 1) {
          Type *t = A->getAllocatedType();
          while (t->isAggregateType()) {
            if (auto *S = dyn_cast<StructType>(t)) {
              if (S->getNumElements() != 1) break;
              t = S->getElementType(0);
            } else
              t = cast<ArrayType>(t)->getElementType();
          }
          if (t->isPointerTy() || t->isIntegerTy(64)) el = t;
        }
        if (el && sz <= 128) {
          for (unsigned k = 0; k < sz / 8; ++k) {
            Value *p = k ? B.CreateConstGEP1_64(B.getInt8Ty(), A, 8 * k) : A;
            args.push_back(B.CreateLoad(el, p));
            tys.push_back(el);
            op.from.push_back({(int)a, (int)k});
          }
        } else {
          args.push_back(v);
          tys.push_back(v->getType());
          op.from.push_back({(int)a, -1});
        }
      }
      auto *FT = FunctionType::get(CB->getType(), tys, false);
      Function *N = Function::Create(FT, GlobalValue::ExternalLinkage, "sa.op." + std::to_string(n++), M);
      auto *NC = B.CreateCall(N, args);
      NC->setDebugLoc(CB->getDebugLoc());
      CB->replaceAllUsesWith(NC);
      CB->eraseFromParent();
      ops[N] = op;
    }
  }

  static bool all_null(Value *v, std::set<Value *> &seen) {
    v = v->stripPointerCasts();
    if (!seen.insert(v).second) return true;
    if (isa<ConstantPointerNull>(v)) return true;
    if (auto *G = dyn_cast<GEPOperator>(v)) return all_null(G->getPointerOperand(), seen);
    if (auto *P = dyn_cast<PHINode>(v)) {
      for (Value *x : P->incoming_values())
        if (!all_null(x, seen)) return false;
      return true;
    }
    return false;
  }

  // loads from the operand and stride arrays become one opaque value each
  void name_inputs() {
    Module &M = *F.getParent();
    const DataLayout &DL = M.getDataLayout();
    std::vector<LoadInst *> loads;
    for (Instruction &I : instructions(F))
      if (auto *L = dyn_cast<LoadInst>(&I)) loads.push_back(L);
    for (LoadInst *L : loads) {
      APInt off(64, 0);
      Value *b = L->getPointerOperand()->stripAndAccumulateConstantOffsets(DL, off, true);
      if (b != src && b != ss) continue;
      if (off.getSExtValue() % 8 || off.isNegative()) continue;
      bool isp = b == src;
      if (isp ? !L->getType()->isPointerTy() : !L->getType()->isIntegerTy(64)) continue;
      int k = off.getSExtValue() / 8;
      Instruction *&v = (isp ? srcv : strv)[k];
      if (!v) {
        FunctionCallee fc = M.getOrInsertFunction((isp ? "sa.src." : "sa.stride.") + std::to_string(k), L->getType());
        v = CallInst::Create(fc, "", &*F.getEntryBlock().getFirstNonPHIOrDbgOrAlloca());
      }
      L->replaceAllUsesWith(v);
      L->eraseFromParent();
    }
  }

  Root root(Value *V) {
    std::set<Value *> seen;
    Root r;
    walk(V, r, seen);
    return r;
  }
  static void join(Root &r, const Root &x) {
    if (x.k == Root::None) return;
    if (r.k == Root::None)
      r = x;
    else if (!(r == x))
      r.k = Root::Mixed;
  }
  void walk(Value *V, Root &r, std::set<Value *> &seen) {
    if (!seen.insert(V).second) return;
    if (V == dst) return join(r, {Root::Dst, 0});
    if (V == src) return join(r, {Root::SrcArr, 0});
    if (V == ss) return join(r, {Root::StrideArr, 0});
    if (V == ds) return join(r, {Root::DStride, 0});
    for (auto &p : srcv)
      if (V == p.second) return join(r, {Root::Src, p.first});
    for (auto &p : strv)
      if (V == p.second) return join(r, {Root::SStride, p.first});
    if (auto *P = dyn_cast<PHINode>(V)) {
      for (Value *x : P->incoming_values()) walk(x, r, seen);
    } else if (auto *S = dyn_cast<SelectInst>(V)) {
      walk(S->getTrueValue(), r, seen);
      walk(S->getFalseValue(), r, seen);
    } else if (auto *G = dyn_cast<GEPOperator>(V)) {
      walk(G->getPointerOperand(), r, seen);
    } else if (auto *C = dyn_cast<CastInst>(V)) {
      walk(C->getOperand(0), r, seen);
    }
  }
  // the stride an integer expression scales, if any
  void strides_of(Value *V, Root &r, std::set<Value *> &seen) {
    if (!seen.insert(V).second) return;
    if (V == ds) return join(r, {Root::DStride, 0});
    for (auto &p : strv)
      if (V == p.second) return join(r, {Root::SStride, p.first});
    if (auto *B = dyn_cast<BinaryOperator>(V)) {
      strides_of(B->getOperand(0), r, seen);
      strides_of(B->getOperand(1), r, seen);
    } else if (auto *C = dyn_cast<CastInst>(V))
      strides_of(C->getOperand(0), r, seen);
    else if (auto *P = dyn_cast<PHINode>(V))
      for (Value *x : P->incoming_values()) strides_of(x, r, seen);
  }
  static bool fits(const Root &p, const Root &s) {
    return (p.k == Root::Dst && s.k == Root::DStride) || (p.k == Root::Src && s.k == Root::SStride && p.i == s.i);
  }
  // Is this block only reached when the destination stride is zero?
  bool zero_dst(BasicBlock *BB, DominatorTree &DT) {
    for (BasicBlock &X : F) {
      auto *BI = dyn_cast<BranchInst>(X.getTerminator());
      if (!BI || !BI->isConditional()) continue;
      auto *C = dyn_cast<ICmpInst>(BI->getCondition());
      if (!C || !C->isEquality()) continue;
      auto *z = dyn_cast<ConstantInt>(C->getOperand(1));
      if (C->getOperand(0) != ds || !z || !z->isZero()) continue;
      BasicBlockEdge e(&X, BI->getSuccessor(C->getPredicate() == ICmpInst::ICMP_EQ ? 0 : 1));
      if (BI->getSuccessor(0) != BI->getSuccessor(1) && DT.dominates(e, BB)) return true;
    }
    return false;
  }

  void run() {
    InlinePolicy P;
    P.max_depth = 5;
    P.callee_limit = 150;
    P.max_insts = 2500;
    P.ok = [&](const CallBase &, const Function &c) {
      std::string d = demangle_(c.getName());
      d = d.substr(0, d.find('('));
      return d.find("::single") == std::string::npos && d.find("::strided") == std::string::npos;
    };
    flatten(F, P);
    prune_exceptions(F);
    for (BasicBlock &BB : F) BB.getTerminator()->setMetadata(LLVMContext::MD_loop, nullptr); // may forbid unrolling
    run_pipeline(F, "sroa,early-cse,simplifycfg");
    by_value();
    run_pipeline(F, "sroa,early-cse,simplifycfg,loop-simplify,lcssa,loop(loop-rotate),loop(loop-unroll-full),sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,loop-simplify,lcssa,loop(indvars,loop-unroll-full),sroa,early-cse,simplifycfg,sroa,instcombine<no-verify-fixpoint>,simplifycfg,loop-simplify,lcssa");
    name_inputs();
    run_pipeline(F, "early-cse,instcombine<no-verify-fixpoint>,simplifycfg,loop-simplify,lcssa");
    // names may have been replaced
    srcv.clear();
    strv.clear();
    for (Instruction &I : instructions(F))
      if (auto *CB = dyn_cast<CallInst>(&I))
        if (Function *c = CB->getCalledFunction()) {
          StringRef n = c->getName();
          if (n.starts_with("sa.src.")) srcv[atoi(n.substr(7).str().c_str())] = CB;
          if (n.starts_with("sa.stride.")) strv[atoi(n.substr(10).str().c_str())] = CB;
        }

    DominatorTree DT(F);
    LoopInfo LI(DT);
    AssumptionCache AC(F);
    TargetLibraryInfoImpl TLII(Triple(F.getParent()->getTargetTriple()));
    TargetLibraryInfo TLI(TLII);
    ScalarEvolution SE(F, TLI, AC, DT, LI);

    // 1. pointer arithmetic mixes no operands
    for (Instruction &I : instructions(F))
      if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
        Root s;
        std::set<Value *> seen;
        for (Value *x : G->indices()) strides_of(x, s, seen);
        if (s.k == Root::None) continue;
        Root p = root(G->getPointerOperand());
        if (p.k == Root::None || p.k == Root::Mixed) {
          ++unjudged;
          continue;
        }
        ++nsteps;
        if (s.k == Root::Mixed)
          complain(rname(p) + " is moved by several strides at once", G);
        else if (p.k == Root::SrcArr || p.k == Root::StrideArr)
          complain(rname(p) + " itself is moved by " + rname(s), G);
        else if (!fits(p, s))
          complain(rname(p) + " is moved by " + rname(s), G);
      }

    // 2. uses of operands
    struct Use {
      Instruction *I;
      Value *ptr;
      Root r;
      int pos; // position in an operand array, or -1
      bool op;
    };
    std::vector<Use> uses;
    for (Instruction &I : instructions(F)) {
      if (auto *L = dyn_cast<LoadInst>(&I)) {
        Root r = root(L->getPointerOperand());
        if (r.k == Root::Dst || r.k == Root::Src) uses.push_back({&I, L->getPointerOperand(), r, -1, false});
      } else if (auto *S = dyn_cast<StoreInst>(&I)) {
        Root r = root(S->getPointerOperand());
        if (r.k == Root::Dst || r.k == Root::Src) uses.push_back({&I, S->getPointerOperand(), r, -1, false});
      } else if (auto *CB = dyn_cast<CallInst>(&I)) {
        Function *c = CB->getCalledFunction();
        auto it = ops.find(c);
        if (it == ops.end()) continue;
        ++nops;
        Op &op = it->second;
        std::map<int, Root> ptrs, strs;
        std::vector<int> nulls;
        Root pd, sd;
        for (unsigned a = 0; a < op.from.size(); ++a) {
          Value *v = CB->getArgOperand(a);
          auto f = op.from[a];
          if (f.first == 1) {
            Root r = root(v);
            if (r.k == Root::Dst || r.k == Root::Src) uses.push_back({&I, v, r, -1, true});
            pd = r;
          }
          int srcarg = op.single ? 2 : 3;
          if (f.first == srcarg && f.second >= 0) {
            Root r = root(v);
            if (r.k == Root::Dst || r.k == Root::Src) uses.push_back({&I, v, r, f.second, true});
            ptrs[f.second] = r;
            std::set<Value *> seenn;
            if (r.k == Root::None && all_null(v, seenn)) nulls.push_back(f.second);
          }
          if (op.strided && f.first == 2) {
            std::set<Value *> seen;
            strides_of(v, sd, seen);
          }
          if (op.strided && f.first == 4 && f.second >= 0) {
            std::set<Value *> seen;
            strides_of(v, strs[f.second], seen);
          }
        }
        bool anysrc = false;
        for (auto &p : ptrs) anysrc |= p.second.k == Root::Src;
        if (anysrc)
          for (int k : nulls) complain("operand " + std::to_string(k) + " is passed on as a null pointer", CB);
        if (op.strided) {
          bool elem = sd.k != Root::None; // passes the caller's strides on
          for (auto &s : strs) elem |= s.second.k != Root::None;
          if (sd.k != Root::None && (pd.k == Root::Dst || pd.k == Root::Src)) {
            ++nsteps;
            if (!fits(pd, sd)) complain(rname(pd) + " is passed on with " + rname(sd), CB);
          }
          for (auto &s : strs)
            if (s.second.k != Root::None && ptrs.count(s.first) && ptrs[s.first].k != Root::None && ptrs[s.first].k != Root::Mixed) {
              ++nsteps;
              if (!fits(ptrs[s.first], s.second)) complain(rname(ptrs[s.first]) + " is passed on with " + rname(s.second), CB);
            }
          (void)elem;
        }
        // the single-element form of the same class gets the operands in order
        if (op.single && c && op.what != "child")
          for (auto &p : ptrs)
            if (p.second.k == Root::Src && p.second.i != p.first && ptrs.size() > 1 && op.what.find("prefix") == std::string::npos)
              complain("operand " + std::to_string(p.first) + " of the single-element form is " + rname(p.second), CB);
      }
    }

    // 3. loops over the elements
    for (Loop *L : LI.getLoopsInPreorder()) {
      std::vector<Use *> in;
      bool moves = false;
      for (Use &u : uses)
        if (LI.getLoopFor(u.I->getParent()) == L) {
          in.push_back(&u);
          const SCEV *S = SE.getSCEV(u.ptr);
          if (!SE.isLoopInvariant(S, L)) moves = true;
        }
      if (in.empty()) continue;
      // a loop that is not over elements (every operand stays put) is not judged
      const SCEV *bt = SE.getBackedgeTakenCount(L);
      bool counted = false; // does the trip count depend on the requested count?
      bool exact = false;
      const SCEV *N = SE.getSCEV(cnt);
      const SCEV *one = SE.getOne(N->getType());
      int peeled = 0;
      if (!isa<SCEVCouldNotCompute>(bt)) {
        counted = SCEVExprContains(bt, [&](const SCEV *s) { return s == N; });
        // the loop may be entered only when there is something to do
        const SCEV *g = SE.applyLoopGuards(bt, L);
        const SCEV *trip = SE.getAddExpr(bt, one), *tripg = SE.getAddExpr(g, one);
        auto is = [&](const SCEV *s, int k) {
          const SCEV *w = SE.getMinusSCEV(N, SE.getConstant(N->getType(), k));
          const SCEV *m1 = SE.getMinusSCEV(SE.getUMaxExpr(SE.getConstant(N->getType(), k + 1), N), SE.getConstant(N->getType(), k));
          const SCEV *m2 = SE.getMinusSCEV(SE.getSMaxExpr(SE.getConstant(N->getType(), k + 1), N), SE.getConstant(N->getType(), k));
          return s == w || s == m1 || s == m2 || s == SE.getAddExpr(m1, SE.getConstant(N->getType(), 0));
        };
        // how often a use runs: once more than the back edge unless it sits behind the exit
        BasicBlock *E = L->getExitingBlock();
        auto runs = [&](Use *u, int k) {
          if (E && u->I->getParent() != E && DT.dominates(E, u->I->getParent())) return is(bt, k) || is(g, k);
          return is(trip, k) || is(tripg, k);
        };
        for (int k = 0; k < 2; ++k) {
          bool all = true;
          for (Use *u : in) all &= runs(u, k);
          if (all) {
            exact = true;
            peeled = k;
          }
        }
      }
      if (!moves && !counted) continue;
      ++nloops;
      Instruction *at = in[0]->I;
      for (Use *u : in)
        if (u->op) at = u->I;
      if (counted && !exact) {
        std::string s;
        raw_string_ostream o(s);
        bt->print(o);
        // an unknown start (begin()) is not judged
        bool other = SCEVExprContains(bt, [&](const SCEV *x) { return isa<SCEVUnknown>(x) && x != N; });
        if (other)
          ++unjudged;
        else
          complain("the loop runs a number of times other than the count: backedges " + s, at);
      }
      for (Use *u : in) {
        const SCEV *S = SE.getSCEV(u->ptr);
        Value *own = u->r.k == Root::Dst ? (Value *)ds : strv.count(u->r.i) ? (Value *)strv[u->r.i] : nullptr;
        if (SE.isLoopInvariant(S, L)) {
          // written through a fixed pointer: right only for a zero stride
          if (u->r.k == Root::Dst && zero_dst(L->getHeader(), DT)) continue;
          ++nsteps;
          complain(rname(u->r) + " does not advance in a loop over the elements", u->I);
          continue;
        }
        auto *AR = dyn_cast<SCEVAddRecExpr>(S);
        if (!AR || AR->getLoop() != L || !AR->isAffine()) {
          ++unjudged; // chunked loops; rule 1 still applies
          continue;
        }
        ++nsteps;
        const SCEV *step = AR->getStepRecurrence(SE);
        if (!own || step != SE.getSCEV(own)) {
          std::string s;
          raw_string_ostream o(s);
          step->print(o);
          complain(rname(u->r) + " advances by " + s + " per element instead of its stride", u->I);
          continue;
        }
        // first element
        Value *base = u->r.k == Root::Dst ? (Value *)dst : (Value *)srcv[u->r.i];
        const SCEV *d = SE.getMinusSCEV(AR->getStart(), SE.getSCEV(base));
        if (isa<SCEVCouldNotCompute>(d)) {
          ++unjudged;
          continue;
        }
        if (isa<SCEVConstant>(d)) {
          if (peeled == 1 && exact) complain(rname(u->r) + " starts at the first element although one was handled before", u->I);
          // field offsets inside an element are fine
          continue;
        }
        const SCEV *rest = SE.getMinusSCEV(d, SE.getMulExpr(SE.getConstant(d->getType(), peeled), SE.getSCEV(own)));
        if (exact && !isa<SCEVConstant>(rest)) {
          std::string s;
          raw_string_ostream o(s);
          d->print(o);
          complain(rname(u->r) + " starts at offset " + s, u->I);
        }
      }
    }
  }
};
} // namespace

static int m_strides(Module &M, const std::vector<std::string> &args) {
  std::regex re(args[0]);
  bool dump = args.size() > 1;
  std::vector<Function *> fs;
  for (Function &F : M) {
    if (F.isDeclaration() || F.arg_size() != 6) continue;
    auto a = [&](int i) { return F.getArg(i)->getType(); };
    if (!a(0)->isPointerTy() || !a(1)->isPointerTy() || !a(2)->isIntegerTy(64) || !a(3)->isPointerTy() || !a(4)->isPointerTy() || !a(5)->isIntegerTy(64)) continue;
    std::string d = demangle_(F.getName());
    if (!std::regex_search(d, re)) continue;
    fs.push_back(&F);
  }
  for (Function *F : fs) {
    std::string d = demangle_(F->getName()), w = where_fn(F);
    Function *C = private_copy(*F);
    Strides s(*C);
    s.run();
    if (dump) C->print(errs());
    Json().kv("fn", d).kv("where", w).list("bad", s.bad).kv("ops", (int)s.nops).kv("loops", (int)s.nloops).kv("steps", (int)s.nsteps).kv("unjudged", (int)s.unjudged).out();
    C->eraseFromParent();
  }
  return 0;
}
static ModeReg r1("strides", m_strides);
