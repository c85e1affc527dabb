// Missing values: what computes with a value is reached only where the value was found not to be missing.
#include "common.h"

namespace {
const Value *strip(const Value *v) { return v->stripPointerCasts(); }

enum Kind { None, Flag, Na, Val };

const Value *root(const Value *v) {
  for (int i = 0; i < 30; ++i) {
    v = strip(v);
    if (auto *G = dyn_cast<GEPOperator>(v)) v = G->getPointerOperand();
    else break;
  }
  return v;
}

// where a memory location is tested: the flag's location, and whether the condition holds when it is set
const Value *flag_of(const Value *c, bool &set, int depth = 0) {
  if (depth > 8) return nullptr;
  if (auto *L = dyn_cast<LoadInst>(c)) {
    const Value *r = root(L->getPointerOperand());
    set = true;
    return isa<AllocaInst>(r) ? r : nullptr;
  }
  if (auto *C = dyn_cast<CallBase>(c)) {
    const Function *F = C->getCalledFunction();
    if (!F) return nullptr;
    if (F->getName().contains("8parse_na")) return set = true, C;
    if (F->getName().contains("12old_is_avail") || F->getName().contains("16is_avail_builtin")) return set = false, C;
    return nullptr;
  }
  if (auto *K = dyn_cast<CastInst>(c)) return flag_of(K->getOperand(0), set, depth + 1);
  if (auto *I = dyn_cast<ICmpInst>(c)) {
    auto *K = dyn_cast<ConstantInt>(I->getOperand(1));
    if (!K || !I->isEquality() || !(K->isZero() || K->isOne())) return nullptr;
    const Value *r = flag_of(I->getOperand(0), set, depth + 1);
    if ((I->getPredicate() == ICmpInst::ICMP_EQ) == K->isZero()) set = !set;
    return r;
  }
  if (auto *X = dyn_cast<BinaryOperator>(c)) {
    auto *K = dyn_cast<ConstantInt>(X->getOperand(1));
    if (X->getOpcode() == Instruction::Xor && K && (K->isOne() || K->isAllOnesValue())) {
      const Value *r = flag_of(X->getOperand(0), set, depth + 1);
      set = !set;
      return r;
    }
    if (X->getOpcode() == Instruction::And && K && K->isOne()) return flag_of(X->getOperand(0), set, depth + 1);
  }
  return nullptr;
}

int mode_missing(Module &M, const std::vector<std::string> &) {
  std::vector<Function *> fs;
  std::set<Function *> users;
  for (Function &F : M) {
    StringRef n = F.getName();
    if (F.isDeclaration() || n.ends_with(".sa") || !n.contains("4dynd")) continue;
    bool kernel = (n.contains("option") || n.contains("_na_")) && (n.contains("6singleE") || n.contains("7stridedE"));
    bool user = false;
    for (Instruction &I : instructions(F))
      if (auto *C = dyn_cast<CallBase>(&I))
        if (auto *G = C->getCalledFunction()) user = user || G->getName().contains("12old_is_avail") || G->getName().contains("16is_avail_builtin");
    if (n.contains("12old_is_avail") || n.contains("16is_avail_builtin")) user = false;
    if (kernel || user) fs.push_back(&F);
    if (user) users.insert(&F);
  }
  for (Function *Fp : fs) {
    Function &F = *Fp;
    StringRef n = F.getName();
    bool strided = n.contains("7stridedE");
    Function *W = private_copy(F);
    InlinePolicy P;
    P.ok = [&](const CallBase &, const Function &C) {
      if (users.count(&F)) return false;
      StringRef m = C.getName();
      return (C.hasLinkOnceODRLinkage() || C.hasLocalLinkage()) && !m.contains("8parse_na") && !m.contains("12old_is_avail") && !m.contains("16is_avail_builtin");
    };
    flatten(*W, P);
    cleanup(*W);
    if (const char *d = getenv("SA_DUMP"))
      if (n.contains(d)) W->print(errs());
    SmallPtrSet<BasicBlock *, 32> doomed;
    doomed_blocks(*W, doomed);
    DominatorTree DT(*W);
    LoopInfo LI(DT);
    std::map<CallBase *, Kind> kind;
    std::map<BasicBlock *, std::vector<CallBase *>> in;
    const Value *data = nullptr; // what a test function looked at
    for (Instruction &I : instructions(*W))
      if (auto *C = dyn_cast<CallBase>(&I))
        if (auto *G = C->getCalledFunction(); G && (G->getName().contains("12old_is_avail") || G->getName().contains("16is_avail_builtin"))) {
          kind[C] = Flag;
          data = strip(C->getArgOperand(C->arg_size() - 1));
        } else if (G && G->getName().contains("8parse_na"))
          kind[C] = Flag;
    bool of_data = data != nullptr;
    for (BasicBlock &B : *W)
      for (Instruction &I : B) {
        auto *C = dyn_cast<CallBase>(&I);
        if (!C || isa<IntrinsicInst>(C)) continue;
        if (!kind.count(C)) {
          if (of_data) {
            for (const Value *a : C->args())
              if (a->getType()->isPointerTy() && root(a) == root(data) && !isa<AllocaInst>(root(a))) kind[C] = Val;
          } else if (!C->getCalledFunction() && !C->isInlineAsm() && C->arg_size() >= (strided ? 6u : 3u)) {
            const Value *d = root(C->getArgOperand(1)), *s = C->getArgOperand(strided ? 3 : 2);
            if (!s->getType()->isPointerTy() || !C->getArgOperand(1)->getType()->isPointerTy()) continue;
            kind[C] = isa<AllocaInst>(d) ? Flag : isa<ConstantPointerNull>(strip(s)) ? Na : Val;
          }
        }
        if (kind.count(C)) in[&B].push_back(C);
      }
    bool any = false, has_val = false, has_na = false;
    for (auto &x : kind) any = any || x.second == Flag, has_val = has_val || x.second == Val, has_na = has_na || x.second == Na;
    std::string name = demangle_(n);
    if (!any || !has_val) continue;
    std::set<std::string> bad;
    unsigned tests = 0;
    auto at = [&](const Instruction *I) { return where_of(I); };
    std::set<const Value *> flags;
    for (auto &x : kind)
      if (x.second == Flag && x.first->arg_size() > 1 && isa<AllocaInst>(root(x.first->getArgOperand(1)))) flags.insert(root(x.first->getArgOperand(1)));
    // what can happen from a block on before the next test
    struct Reach {
      std::vector<CallBase *> calls;
      bool returns_without = false; // a return without a call of the wanted kind
    };
    auto reach = [&](BasicBlock *from, BasicBlock *test, Kind want) {
      Reach r;
      // numbers known along the way (which way a block was reached)
      using Env = std::map<const Value *, int64_t>;
      std::set<std::tuple<BasicBlock *, BasicBlock *, bool, Env>> seen;
      std::vector<std::tuple<BasicBlock *, BasicBlock *, bool, Env>> work{{from, test, false, Env()}};
      unsigned steps = 0;
      while (!work.empty() && ++steps < 20000) {
        auto [B, pred, had, env] = work.back();
        work.pop_back();
        if (!seen.insert({B, pred, had, env}).second) continue;
        auto val = [&env = env](const Value *v, int64_t &k) {
          if (auto *K = dyn_cast<ConstantInt>(v)) {
            if (K->getBitWidth() > 64) return false;
            return k = K->getSExtValue(), true;
          }
          auto It = env.find(v);
          return It != env.end() && (k = It->second, true);
        };
        Env in_phis;
        for (PHINode &Ph : B->phis()) {
          int64_t k;
          if (pred && Ph.getBasicBlockIndex(pred) >= 0 && Ph.getType()->isIntegerTy() && val(Ph.getIncomingValueForBlock(pred), k)) in_phis[&Ph] = k;
        }
        for (PHINode &Ph : B->phis()) env.erase(&Ph);
        for (auto &x : in_phis) env[x.first] = x.second;
        bool stop = false;
        for (Instruction &I : *B) {
          if (auto *C = dyn_cast<CallBase>(&I); C && kind.count(C)) {
            if (kind[C] == Flag) {
              stop = true;
              break;
            }
            r.calls.push_back(C);
            if (kind[C] == want) had = true;
          }
          // a flag read anew is a new test
          if (auto *L = dyn_cast<LoadInst>(&I); L && flags.count(root(L->getPointerOperand()))) {
            stop = true;
            break;
          }
          if (isa<PHINode>(I) || !I.getType()->isIntegerTy()) continue;
          int64_t a, b;
          env.erase(&I);
          if (auto *Cm = dyn_cast<ICmpInst>(&I)) {
            if (val(Cm->getOperand(0), a) && val(Cm->getOperand(1), b)) env[&I] = ICmpInst::compare(APInt(64, a, true), APInt(64, b, true), Cm->getPredicate()) ? -1 : 0;
          } else if (auto *Se = dyn_cast<SelectInst>(&I)) {
            if (val(Se->getCondition(), a)) {
              if (val(a ? Se->getTrueValue() : Se->getFalseValue(), b)) env[&I] = b;
            }
          } else if (isa<CastInst>(I) && I.getOperand(0)->getType()->isIntegerTy()) {
            if (val(I.getOperand(0), a) && I.getOperand(0)->getType()->getIntegerBitWidth() > 1) env[&I] = a;
          }
        }
        if (stop || doomed.count(B)) continue;
        if (isa<ReturnInst>(B->getTerminator()) && !had) r.returns_without = true;
        BasicBlock *only = nullptr;
        int64_t k;
        if (auto *Sw = dyn_cast<SwitchInst>(B->getTerminator())) {
          if (val(Sw->getCondition(), k)) only = Sw->findCaseValue(ConstantInt::get(cast<IntegerType>(Sw->getCondition()->getType()), (uint64_t)k, true))->getCaseSuccessor();
        } else if (auto *Br = dyn_cast<BranchInst>(B->getTerminator()); Br && Br->isConditional()) {
          if (val(Br->getCondition(), k)) only = Br->getSuccessor(k ? 0 : 1);
        }
        for (BasicBlock *S : successors(B))
          if (!only || S == only) work.push_back({S, B, had, env});
      }
      if (!work.empty()) r = Reach();
      return r;
    };
    for (BasicBlock &B : *W) {
      auto *Br = dyn_cast<BranchInst>(B.getTerminator());
      bool set = false;
      const Value *fl = Br && Br->isConditional() ? flag_of(Br->getCondition(), set) : nullptr;
      if (!fl) continue;
      // only a location some test writes
      bool ours = isa<CallBase>(fl);
      for (auto &x : kind)
        if (x.second == Flag && !ours && x.first->arg_size() > 1) ours = root(x.first->getArgOperand(1)) == fl;
      if (!ours) continue;
      ++tests;
      BasicBlock *miss = Br->getSuccessor(set ? 0 : 1), *avail = Br->getSuccessor(set ? 1 : 0);
      // what was done on the way from the last test to here
      bool na_before = false, val_before = false;
      {
        std::set<BasicBlock *> seen;
        std::vector<BasicBlock *> work{&B};
        for (size_t k = 0; k < work.size() && k < 2000; ++k) {
          bool stop = false;
          if (in.count(work[k]))
            for (auto It = in[work[k]].rbegin(); It != in[work[k]].rend() && !stop; ++It) {
              na_before = na_before || kind[*It] == Na;
              val_before = val_before || kind[*It] == Val;
              stop = kind[*It] == Flag;
            }
          if (stop) continue;
          for (BasicBlock *Q : predecessors(work[k]))
            if (seen.insert(Q).second) work.push_back(Q);
        }
      }
      auto rm = reach(miss, &B, Na), ra = reach(avail, &B, Val);
      for (CallBase *C : rm.calls)
        if (kind[C] == Val) bad.insert("where the value is missing it is used all the same (" + at(C) + ")");
      if (!of_data && rm.returns_without && !na_before) bad.insert("where the value is missing neither a missing value is stored nor an error raised (" + at(Br) + ")");
      for (CallBase *C : ra.calls)
        if (kind[C] == Na) bad.insert("where the value is there a missing one is stored (" + at(C) + ")");
      if (ra.returns_without && !val_before) bad.insert("where the value is there it is not used (" + at(Br) + ")");
    }
    // the same without a test at all
    if (tests) {
      bool loops = false;
      for (auto &x : kind) loops = loops || (x.second == Flag && LI.getLoopFor(x.first->getParent()));
      if (!loops) {
        auto r = reach(&W->getEntryBlock(), nullptr, Val);
        for (CallBase *C : r.calls) bad.insert("a value is used or a missing one stored before any test (" + at(C) + ")");
      }
    }
    // runs of equal flags
    unsigned runs = 0;
    for (auto &x : kind) {
      if (x.second == Flag) continue;
      BasicBlock *B = x.first->getParent();
      CallBase *last = nullptr;
      for (auto *Nd = DT.getNode(B); Nd && !last; Nd = Nd->getIDom())
        for (auto It = Nd->getBlock()->rbegin(); It != Nd->getBlock()->rend(); ++It) {
          auto *C = dyn_cast<CallBase>(&*It);
          if (!C || (Nd->getBlock() == B && !C->comesBefore(x.first))) continue;
          if (C->getCalledFunction() && C->getCalledFunction()->getName() == "memchr" && isa<ConstantInt>(C->getArgOperand(1))) {
            last = C;
            break;
          }
        }
      if (!last) continue;
      ++runs;
      bool one = !cast<ConstantInt>(last->getArgOperand(1))->isZero();
      if (one != (x.second == Val)) bad.insert(std::string(x.second == Val ? "a value is used over a run of missing ones (" : "missing values are stored over a run of values that are there (") + at(x.first) + ")");
    }
    // the test and the use look at the same thing
    for (auto &x : kind)
      for (auto &y : kind) {
        if (of_data || x.second != Flag || y.second != Val || isa<IntrinsicInst>(x.first) || x.first->getCalledFunction()) continue;
        unsigned s = strided ? 3 : 2;
        const Value *a = strip(x.first->getArgOperand(s)), *b = strip(y.first->getArgOperand(s));
        if (!LI.getLoopFor(x.first->getParent()) && (isa<Argument>(b) || isa<AllocaInst>(b)) && a != b && root(a) == b) bad.insert("what is tested is not what is used (" + at(x.first) + ")");
        if (strided && isa<AllocaInst>(a) && isa<AllocaInst>(b) && a != b) bad.insert("what is tested is not what is used (" + at(x.first) + ")");
        if (strided && !runs && x.first->getArgOperand(5) != y.first->getArgOperand(5) && !isa<ConstantInt>(y.first->getArgOperand(5))) {
          auto *p = dyn_cast<Instruction>(x.first->getArgOperand(5)), *q = dyn_cast<Instruction>(y.first->getArgOperand(5));
          if (q && p && (is_contained(q->operands(), p) || is_contained(p->operands(), q))) bad.insert("the number tested is not the number used (" + at(y.first) + ")");
        }
      }
    // an operand's test is the operand's own
    for (auto &x : kind) {
      if (x.second != Flag || strided || x.first->getCalledFunction() || of_data) continue;
      const Value *src = strip(x.first->getArgOperand(2));
      auto *G = dyn_cast<GEPOperator>(src);
      if (G ? !isa<Argument>(root(G)) || G->getNumIndices() != 1 || isa<Constant>(G->getOperand(1)) : !isa<Argument>(src)) continue;
      // the subscripts that the child's place is computed from
      std::set<const Value *> subs;
      std::vector<const Value *> work{x.first->getArgOperand(0)};
      std::set<const Value *> seen;
      bool clear = true;
      for (size_t k = 0; k < work.size() && k < 64; ++k) {
        if (!seen.insert(work[k]).second) continue;
        if (auto *L = dyn_cast<LoadInst>(work[k])) {
          auto *Q = dyn_cast<GEPOperator>(strip(L->getPointerOperand()));
          if (!Q) {
            clear = false;
            continue;
          }
          for (auto It = Q->idx_begin(); It != Q->idx_end(); ++It)
            if (!isa<Constant>(*It)) subs.insert(*It);
          if (auto *Q2 = dyn_cast<GEPOperator>(strip(Q->getPointerOperand())))
            for (auto It = Q2->idx_begin(); It != Q2->idx_end(); ++It)
              if (!isa<Constant>(*It)) subs.insert(*It);
        } else if (auto *I = dyn_cast<Instruction>(work[k])) {
          if (isa<PHINode>(I) || isa<CallBase>(I)) clear = false;
          else
            for (const Value *o : I->operands()) work.push_back(o);
        }
      }
      if (clear && (G ? subs.size() != 1 || *subs.begin() != G->getOperand(1) : !subs.empty())) bad.insert("an operand is tested by another operand's test (" + at(x.first) + ")");
    }
    std::string why;
    for (auto &b : bad) why += (why.empty() ? "" : "; ") + b;
    Json().kv("fn", name).kv("tests", (int)tests).kv("runs", (int)runs).kv("bad", why).kv("values", has_val).kv("na", has_na).kv("user", of_data).kv("where", where_fn(&F)).out();
  }
  return 0;
}
ModeReg reg_missing("missing", mode_missing);
} // namespace
