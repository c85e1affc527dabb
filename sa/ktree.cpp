// Trees of kernels: which children a kernel gets when it is built, which of them its destructor releases,
// whether building keeps addresses into the builder's buffer across growth, and whether the recorded nodes
// are consumed in the order they were recorded.
#include "common.h"
#include "absint.h"
#include "llvm/Analysis/CFG.h"
#include "llvm/Analysis/PostDominators.h"

namespace {
struct Sym {
  bool ok = false;
  int64_t c = 0;
  std::map<std::string, int64_t> t;
  static Sym num(int64_t c) {
    Sym s;
    s.ok = true;
    s.c = c;
    return s;
  }
  static Sym var(const std::string &n) {
    Sym s;
    s.ok = true;
    s.t[n] = 1;
    return s;
  }
  Sym plus(const Sym &o, int64_t k = 1) const {
    Sym r = *this;
    r.ok = ok && o.ok;
    r.c += k * o.c;
    for (auto &x : o.t) {
      int64_t &v = r.t[x.first];
      v += k * x.second;
      if (!v) r.t.erase(x.first);
    }
    return r;
  }
  Sym scaled(int64_t k) const {
    Sym r = Sym::num(0);
    r.ok = ok;
    return r.plus(*this, k);
  }
  bool konst() const { return ok && t.empty(); }
  bool operator==(const Sym &o) const { return ok && o.ok && c == o.c && t == o.t; }
  bool has(const std::string &n) const { return t.count(n); }
};

// the terms that only select an element: loop counters and other unknown integers
bool varying(const std::string &n) { return n[0] == '~'; }

std::string place(const Sym &a) {
  std::string s;
  bool any = false;
  for (auto &x : a.t) {
    if (varying(x.first)) {
      any = true;
      continue;
    }
    s += (s.empty() ? "" : "+") + (x.second != 1 ? std::to_string(x.second) + "*" : std::string()) + x.first;
  }
  return s + (a.c ? "+" + std::to_string(a.c) : "") + (any ? ",*" : "");
}
// where a child lies relative to its parent: C<constant> or the memory that holds its offset
std::string designator(Sym off) {
  if (!off.ok) return "";
  if (off.konst()) return "C" + std::to_string(off.c);
  if (off.t.size() == 1 && off.t.begin()->second == 1 && off.c == 0 && off.t.begin()->first[0] == 'L') return off.t.begin()->first;
  return "";
}

typedef std::function<Sym(const Value *)> Sub;
// one step of evaluation; sub gives the operands, load the contents of memory
Sym step_eval(const Value *v, const DataLayout &DL, const Sub &sub, const std::function<Sym(const LoadInst *, const Sym &)> &load) {
  std::string id = std::to_string((uintptr_t)v);
  Sym unknown = Sym::var((v->getType()->isPointerTy() ? "?" : "~") + id);
  if (auto *C = dyn_cast<ConstantInt>(v)) return C->getBitWidth() <= 64 ? Sym::num(C->getSExtValue()) : unknown;
  if (isa<ConstantPointerNull>(v)) return Sym::num(0);
  if (auto *G = dyn_cast<GEPOperator>(v)) {
    unsigned w = DL.getIndexSizeInBits(0);
    MapVector<Value *, APInt> vo;
    APInt co(w, 0);
    if (!G->collectOffset(DL, w, vo, co)) return unknown;
    Sym r = sub(G->getPointerOperand());
    r.c += co.getSExtValue();
    for (auto &x : vo) r = r.plus(sub(x.first), x.second.getSExtValue());
    return r;
  }
  auto *I = dyn_cast<Instruction>(v);
  if (!I) return unknown;
  switch (I->getOpcode()) {
  case Instruction::Add: return sub(I->getOperand(0)).plus(sub(I->getOperand(1)));
  case Instruction::Sub: return sub(I->getOperand(0)).plus(sub(I->getOperand(1)), -1);
  case Instruction::Mul:
  case Instruction::Shl:
    if (auto *C = dyn_cast<ConstantInt>(I->getOperand(1))) {
      int64_t k = C->getSExtValue();
      if (I->getOpcode() == Instruction::Shl) k = k >= 0 && k < 62 ? (int64_t)1 << k : 0;
      if (k) return sub(I->getOperand(0)).scaled(k);
    }
    return unknown;
  case Instruction::And:
    if (auto *C = dyn_cast<ConstantInt>(I->getOperand(1)))
      if (C->getSExtValue() == -8) { // rounding up to a multiple of 8 of something that is one already
        Sym a = sub(I->getOperand(0));
        a.c &= ~7;
        return a;
      }
    return unknown;
  case Instruction::PtrToInt:
  case Instruction::IntToPtr:
  case Instruction::BitCast:
  case Instruction::ZExt:
  case Instruction::SExt:
  case Instruction::Trunc:
  case Instruction::Freeze: return sub(I->getOperand(0));
  case Instruction::Load: return load(cast<LoadInst>(I), sub(I->getOperand(0)));
  default: return unknown;
  }
}

struct Builder {
  int64_t off_data = -1, off_size = -1;
};

enum Ev { NONE, EMPLACE, RAW, CHILD, PASS, RESERVE };
Ev event_of(const CallBase &CB) {
  auto *C = dyn_cast<Function>(CB.getCalledOperand()->stripPointerCasts());
  if (!C) return NONE;
  StringRef n = C->getName();
  if (!n.contains("14kernel_builder")) return NONE;
  if (n.starts_with("_ZN4dynd2nd14kernel_builderclE")) return CHILD;
  if (n.starts_with("_ZN4dynd2nd14kernel_builder4passE")) return PASS;
  bool own = n.starts_with("_ZN4dynd2nd14kernel_builder"), base = n.starts_with("_ZN4dynd10storagebufINS_2nd13kernel_prefixENS1_14kernel_builderEE");
  if (!own && !base) return NONE;
  if (n.contains("12emplace_backEm") || n.contains("12emplace_backEy")) return RAW;
  if (n.contains("E12emplace_backI") || n.contains("r12emplace_backI")) return EMPLACE;
  if (n.contains("E7reserveE")) return RESERVE;
  return NONE;
}

struct KernelInfo {
  std::string cls;
  int64_t size = 0;
  std::set<Function *> dtors, funs;
};

std::string kernel_class(const Function &C) {
  std::string d = demangle_(C.getName());
  size_t p = d.find("::emplace_back<");
  if (p == std::string::npos) return "";
  auto a = template_args(d, p + 14);
  return a.empty() ? "" : a[0];
}

void func_operands(Value *v, std::set<Function *> &out, std::set<Value *> &seen) {
  v = v->stripPointerCasts();
  if (!seen.insert(v).second) return;
  if (auto *F = dyn_cast<Function>(v)) out.insert(F);
  else if (auto *P = dyn_cast<PHINode>(v))
    for (auto &x : P->incoming_values()) func_operands(x, out, seen);
  else if (auto *S = dyn_cast<SelectInst>(v)) {
    func_operands(S->getTrueValue(), out, seen);
    func_operands(S->getFalseValue(), out, seen);
  }
}

KernelInfo kernel_info(Function &C, const Builder &B) {
  KernelInfo K;
  K.cls = kernel_class(C);
  Function *W = private_copy(C);
  InlinePolicy P;
  P.ok = [](const CallBase &, const Function &F) {
    std::string n = F.getName().str();
    return n.find("7reserveE") == std::string::npos;
  };
  P.callee_limit = 400;
  flatten(*W, P);
  prune_exceptions(*W);
  cleanup(*W);
  if (getenv("SA_KI") && K.cls.find(getenv("SA_KI")) != std::string::npos) W->print(errs());
  const DataLayout &DL = W->getParent()->getDataLayout();
  for (Instruction &I : instructions(*W))
    if (auto *S = dyn_cast<StoreInst>(&I)) {
      std::set<Function *> fs;
      std::set<Value *> seen;
      func_operands(S->getValueOperand(), fs, seen);
      for (Function *f : fs) (f->arg_size() == 1 ? K.dtors : K.funs).insert(f);
      APInt off(64, 0);
      Value *b = S->getPointerOperand()->stripAndAccumulateConstantOffsets(DL, off, true);
      if (b == W->getArg(0) && off.getSExtValue() == B.off_size)
        if (auto *A = dyn_cast<BinaryOperator>(S->getValueOperand()))
          if (A->getOpcode() == Instruction::Add && isa<LoadInst>(A->getOperand(0)))
            if (auto *k = dyn_cast<ConstantInt>(A->getOperand(1))) K.size = k->getSExtValue();
    }
  W->eraseFromParent();
  return K;
}

// --- what a kernel's own code does with its children
struct Own {
  Function &F;
  const DataLayout &DL;
  DominatorTree DT;
  PostDominatorTree PDT;
  LoopInfo LI;
  std::map<const Value *, Sym> memo;
  explicit Own(Function &F) : F(F), DL(F.getParent()->getDataLayout()), DT(F), PDT(F), LI(DT) {}
  Sym nf(const Value *v, int d = 0) {
    auto it = memo.find(v);
    if (it != memo.end()) return it->second;
    Sym &m = memo[v];
    m = Sym::var("?" + std::to_string((uintptr_t)v));
    if (d > 60) return m;
    Sym r;
    if (v == F.getArg(0)) r = Sym::var("self");
    else if (auto *P = dyn_cast<PHINode>(v)) {
      Loop *L = LI.getLoopFor(P->getParent());
      bool head = L && L->getHeader() == P->getParent();
      bool first = true, same = true;
      for (unsigned i = 0; i < P->getNumIncomingValues(); ++i) {
        if (head && L->contains(P->getIncomingBlock(i))) continue;
        Sym x = nf(P->getIncomingValue(i), d + 1);
        if (first) r = x;
        else if (!(r == x)) same = false;
        first = false;
      }
      if (!same || first) r = memo[v];
      else if (head) r = r.plus(Sym::var("~" + std::to_string((uintptr_t)v)));
    } else
      r = step_eval(v, DL, [&](const Value *x) { return nf(x, d + 1); }, [&](const LoadInst *L, const Sym &a) {
        Sym u = Sym::var((L->getType()->isPointerTy() ? "?" : "~") + std::to_string((uintptr_t)L));
        if (!a.ok || !a.has("self")) {
          bool in = false;
          for (auto &x : a.t)
            if (x.first[0] == 'L') in = true;
          if (!a.ok || !in) return u;
        }
        for (auto &x : a.t)
          if (x.first[0] == '?') return u;
        return Sym::var("L[" + place(a) + "]");
      });
    return memo[v] = r;
  }
  // the child a call goes to, when the callee comes from the child's own header
  bool child_call(const CallBase &CB, int64_t slot, Sym &off, const LoadInst *&fn) {
    if (CB.getCalledFunction() || CB.isInlineAsm() || CB.arg_size() < 1) return false;
    fn = dyn_cast<LoadInst>(CB.getCalledOperand()->stripPointerCasts());
    if (!fn) return false;
    Sym a = nf(fn->getPointerOperand()), c = nf(CB.getArgOperand(0));
    if (!(a == c.plus(Sym::num(slot)))) return false;
    off = c.plus(Sym::var("self"), -1);
    return off.ok && !off.has("self");
  }
};

Function *flat(Function &G, const std::function<bool(const CallBase &, const Function &)> &ok, unsigned limit = 4000) {
  Function *W = private_copy(G);
  InlinePolicy P;
  P.ok = ok;
  P.callee_limit = limit;
  flatten(*W, P);
  prune_exceptions(*W);
  cleanup(*W, "sroa,early-cse,simplifycfg<no-switch-to-lookup;no-hoist-common-insts;no-sink-common-insts;bonus-inst-threshold=0>,loop-simplify,sroa,early-cse");
  return W;
}

struct Release {
  std::map<std::string, std::string> at; // designator -> where released
  std::vector<std::string> issues;
  unsigned unknown = 0;
};

std::string partial(Loop *L, Own &O);
Release releases(Function &D) {
  Release R;
  Function *W = flat(D, [](const CallBase &, const Function &) { return true; });
  if (getenv("SA_DUMP") && demangle_(D.getName()).find(getenv("SA_DUMP")) != std::string::npos) W->print(errs());
  Own O(*W);
  BasicBlock *entry = &W->getEntryBlock();
  std::map<std::string, std::vector<const CallBase *>> calls;
  for (Instruction &I : instructions(*W)) {
    auto *CB = dyn_cast<CallBase>(&I);
    Sym off;
    const LoadInst *fn;
    if (!CB || CB->arg_size() != 1 || !O.child_call(*CB, 0, off, fn)) continue;
    std::string d = designator(off);
    if (d.empty()) {
      ++R.unknown;
      continue;
    }
    R.at[d] = where_of(&I);
    calls[d].push_back(CB);
    const BasicBlock *b = fn->getParent();
    bool every = true;
    // stepping over "if (offset != 0)": there is no child while its offset is not set
    for (unsigned n = 0; n < 4; ++n) {
      const BasicBlock *p = b->getSinglePredecessor();
      auto *Br = p ? dyn_cast<BranchInst>(p->getTerminator()) : nullptr;
      auto *Cmp = Br && Br->isConditional() ? dyn_cast<ICmpInst>(Br->getCondition()) : nullptr;
      if (!Cmp || !Cmp->isEquality()) break;
      Sym x = O.nf(Cmp->getOperand(0)).plus(O.nf(Cmp->getOperand(1)), -1);
      bool ne = (Cmp->getPredicate() == ICmpInst::ICMP_NE) == (Br->getSuccessor(0) == b);
      if (designator(x) != d || !ne) break;
      b = p;
    }
    if (Loop *L = O.LI.getLoopFor(b)) {
      BasicBlock *h = L->getHeader(), *latch = L->getLoopLatch();
      SmallVector<std::pair<BasicBlock *, BasicBlock *>, 4> ex;
      L->getExitEdges(ex);
      unsigned live = 0;
      for (auto &e : ex)
        if (!isa<UnreachableInst>(e.second->getTerminator())) ++live;
      bool guarded = h == entry || O.PDT.dominates(h, entry);
      // a rotated loop is entered behind a test of its own
      every = latch && live == 1 && O.DT.dominates(b, latch) && (guarded || L->getLoopPreheader());
    } else
      every = b == entry || O.PDT.dominates(b, entry);
    if (Loop *L = O.LI.getLoopFor(b))
      if (d.find(",*") != std::string::npos) {
        std::string p = partial(L, O);
        if (!p.empty()) R.issues.push_back("the loop releasing the children at " + d + " " + p + " (" + where_of(&I) + ")");
      }
    if (!every) R.issues.push_back("the child at " + d + " is released only on some paths (" + where_of(&I) + ")");
  }
  for (auto &x : calls) {
    // two releases of one child, one after the other
    for (size_t i = 0; i < x.second.size(); ++i)
      for (size_t j = 0; j < x.second.size(); ++j)
        if (i != j && x.first.find(",*") == std::string::npos && isPotentiallyReachable(x.second[i]->getParent(), x.second[j]->getParent(), nullptr, &O.DT, &O.LI) && (x.second[i]->getParent() != x.second[j]->getParent() || x.second[i]->comesBefore(x.second[j]))) {
          std::string w = "the child at " + x.first + " is released twice (" + where_of(x.second[j]) + ")";
          if (std::find(R.issues.begin(), R.issues.end(), w) == R.issues.end()) R.issues.push_back(w);
        }
  }
  W->eraseFromParent();
  return R;
}

// does a loop over a table run through all of it, from the first to the last?
std::string partial(Loop *L, Own &O) {
  BasicBlock *h = L->getHeader();
  bool ascending = false;
  for (PHINode &P : h->phis())
    if (P.getType()->isIntegerTy() && P.getNumIncomingValues() == 2)
      for (unsigned i = 0; i < 2; ++i)
        if (!L->contains(P.getIncomingBlock(i)))
          if (auto *C = dyn_cast<ConstantInt>(P.getIncomingValue(i)))
            if (auto *A = dyn_cast<BinaryOperator>(P.getIncomingValue(1 - i)))
              if (A->getOpcode() == Instruction::Add && A->getOperand(0) == &P && isa<ConstantInt>(A->getOperand(1)) && cast<ConstantInt>(A->getOperand(1))->isOne()) {
                if (!C->isZero()) return "starts at " + std::to_string(C->getSExtValue());
                ascending = true;
              }
  if (!ascending) return "";
  auto *Br = dyn_cast<BranchInst>(h->getTerminator());
  auto *C = Br && Br->isConditional() ? dyn_cast<ICmpInst>(Br->getCondition()) : nullptr;
  if (!C || L->getExitingBlock() != h || !C->getOperand(0)->getType()->isIntegerTy()) return "";
  Sym x = O.nf(C->getOperand(0)).plus(O.nf(C->getOperand(1)), -1);
  bool stay = L->contains(Br->getSuccessor(0));
  ICmpInst::Predicate p = stay ? C->getPredicate() : C->getInversePredicate();
  if (!ICmpInst::isStrictPredicate(p) && p != ICmpInst::ICMP_NE) return "runs past the end";
  if (x.ok && x.c != 0) return "leaves out " + std::to_string(x.c < 0 ? -x.c : x.c) + " of them";
  return "";
}

void uses(Function &G, std::map<std::string, std::string> &out, unsigned &unknown) {
  Function *W = flat(G, [](const CallBase &, const Function &) { return true; });
  Own O(*W);
  for (Instruction &I : instructions(*W)) {
    auto *CB = dyn_cast<CallBase>(&I);
    Sym off;
    const LoadInst *fn;
    if (!CB || !O.child_call(*CB, 8, off, fn)) continue;
    std::string d = designator(off);
    if (d.empty()) ++unknown;
    else out[d] = where_of(&I);
  }
  W->eraseFromParent();
}

// --- building
struct Child {
  Sym start;
  bool loop = false;
  std::string where;
  std::set<std::string> des;
};
struct Made {
  std::string cls;
  Function *emplace = nullptr;
  Sym start;
  std::vector<Child> kids;
};

struct Walk {
  Function &F;
  const DataLayout &DL;
  Argument *kb;
  const Builder &B;
  std::map<Function *, KernelInfo> &infos;
  Explorer E;
  std::set<const BasicBlock *> moving; // headers of loops that build
  // results
  unsigned paths = 0, derefs = 0, vague = 0;
  std::set<std::string> stale, order;
  std::map<std::string, std::map<std::string, std::set<std::string>>> kids; // class -> child site -> designators lacking on some path are absent
  struct Site {
    std::set<std::string> des;
    bool seen = false;
  };
  std::map<std::string, std::map<std::string, Site>> sites; // class -> child -> designators common to all paths
  std::map<std::string, std::set<std::string>> covered;     // class -> designators that some child has
  std::set<std::string> counts;                             // children taken per path ("*": any number)
  std::set<Function *> emplaced;
  std::map<std::string, unsigned> complete;                 // class -> paths that end normally

  Walk(Function &F, Argument *kb, const Builder &B, std::map<Function *, KernelInfo> &infos) : F(F), DL(F.getParent()->getDataLayout()), kb(kb), B(B), infos(infos), E(F) {
    E.loops = true;
    E.max_paths = 3000;
    DominatorTree DT(F);
    LoopInfo LI(DT);
    for (Loop *L : LI.getLoopsInPreorder())
      for (BasicBlock *b : L->blocks())
        for (Instruction &I : *b)
          if (auto *CB = dyn_cast<CallBase>(&I))
            if (event_of(*CB)) moving.insert(L->getHeader());
    E.on_ret = [&](State &S, const ReturnInst &) { replay(S, nullptr); };
    E.on_back = [&](State &S, const BasicBlock &h) { replay(S, &h); };
  }

  void replay(State &S, const BasicBlock *back) {
    ++paths;
    DominatorTree DT(F);
    LoopInfo LI(DT);
    std::map<const Value *, Sym> val;
    Sym size = Sym::var("S0");
    unsigned epoch = 0, ns = 0, consumed = 0, nk = 0;
    bool many = false, any = false;
    std::vector<Made> made;
    std::map<std::string, Sym> mem; // fields of the kernel written on this path
    std::vector<std::pair<std::string, Sym>> stores;
    auto fresh = [&] { return Sym::var("S" + std::to_string(++ns)); };
    auto cur = [&] { return "D" + std::to_string(epoch); };
    auto in_buffer = [&](const Sym &a, bool &old) {
      for (auto &x : a.t)
        if (x.first[0] == 'D') {
          old = x.first != cur();
          return true;
        }
      return false;
    };
    auto self_rel = [&](const Sym &a, Sym &r) { // relative to the kernel made last
      if (made.empty() || !a.has(cur())) return false;
      r = a.plus(Sym::var(cur()), -1).plus(made.back().start, -1);
      for (auto &x : r.t)
        if (x.first[0] == 'S' || x.first[0] == 'D') return false;
      r = r.plus(Sym::var("self"));
      return true;
    };
    std::function<Sym(const Value *)> sub = [&](const Value *v) -> Sym {
      const Value *w = E.look(S, v);
      auto it = val.find(w);
      if (it != val.end()) return it->second;
      if (isa<Instruction>(w)) {
        auto j = val.find(v);
        if (j != val.end()) return j->second;
        return Sym::var((w->getType()->isPointerTy() ? "?" : "~") + std::to_string((uintptr_t)w));
      }
      if (w == kb) return Sym::var("kb");
      return step_eval(w, DL, sub, [&](const LoadInst *, const Sym &) { return Sym(); });
    };
    auto check = [&](const Value *p, const Instruction &I, const char *what) {
      bool old = false;
      Sym a = sub(p);
      if (!a.ok || !in_buffer(a, old)) return;
      ++derefs;
      if (old) stale.insert(where_of(&I) + "|" + what + " an address inside the kernel buffer taken before the buffer could move");
    };
    for (size_t bi = 0; bi < S.path.size(); ++bi) {
      const BasicBlock *b = S.path[bi];
      if (E.headers.count(b)) {
        for (const PHINode &P : b->phis()) {
          // an arbitrary iteration: somewhere after the initial value
          Loop *L = LI.getLoopFor(b);
          Sym r = Sym::var((P.getType()->isPointerTy() ? "?" : "~") + std::to_string((uintptr_t)&P));
          for (unsigned i = 0; i < P.getNumIncomingValues(); ++i)
            if (!L->contains(P.getIncomingBlock(i)) && bi && P.getIncomingBlock(i) == S.path[bi - 1]) {
              Sym x = sub(P.getIncomingValue(i));
              bool old = false;
              if (x.ok && !(moving.count(b) && in_buffer(x, old))) r = x.plus(Sym::var("~" + std::to_string((uintptr_t)&P)));
            }
          val[&P] = r;
        }
        if (moving.count(b)) {
          size = fresh();
          ++epoch;
          many = true;
        }
      }
      for (const Instruction &I : *b) {
        if (isa<PHINode>(I) || I.isDebugOrPseudoInst()) continue;
        if (auto *L = dyn_cast<LoadInst>(&I)) {
          Sym a = sub(L->getPointerOperand());
          check(L->getPointerOperand(), I, "reads");
          if (a == Sym::var("kb").plus(Sym::num(B.off_data))) val[&I] = Sym::var(cur());
          else if (a == Sym::var("kb").plus(Sym::num(B.off_size))) val[&I] = size;
          else {
            Sym r;
            if (self_rel(a, r)) {
              std::string n = "L[" + place(r) + "]";
              auto it = mem.find(n);
              val[&I] = it != mem.end() && n.find(",*") == std::string::npos ? it->second : Sym::var(n);
            } else {
              bool self = false;
              for (auto &x : a.t)
                if (x.first.find("self") != std::string::npos) self = true;
              for (auto &x : a.t)
                if (x.first[0] == '?') self = false;
              val[&I] = a.ok && self ? Sym::var("L[" + place(a) + "]") : Sym::var((I.getType()->isPointerTy() ? "?" : "~") + std::to_string((uintptr_t)&I));
            }
          }
          continue;
        }
        if (auto *St = dyn_cast<StoreInst>(&I)) {
          check(St->getPointerOperand(), I, "writes to");
          Sym a = sub(St->getPointerOperand()), r;
          if (self_rel(a, r)) {
            std::string n = "L[" + place(r) + "]";
            mem[n] = sub(St->getValueOperand());
            stores.push_back({n, mem[n]});
          } else if (a.ok) {
            bool self = false, bad = false;
            for (auto &x : a.t) {
              if (x.first.find("self") != std::string::npos) self = true;
              if (x.first[0] == '?') bad = true;
            }
            if (self && !bad) stores.push_back({"L[" + place(a) + "]", sub(St->getValueOperand())});
          }
          continue;
        }
        if (auto *CB = dyn_cast<CallBase>(&I)) {
          Ev ev = CB->arg_size() && sub(CB->getArgOperand(0)) == Sym::var("kb") ? event_of(*CB) : NONE;
          bool grows = ev == EMPLACE || ev == RAW || ev == CHILD || ev == RESERVE;
          for (unsigned a = ev ? 1 : 0; a < CB->arg_size(); ++a) {
            const Value *v = CB->getArgOperand(a);
            if (!v->getType()->isPointerTy()) continue;
            check(v, I, "passes on");
            bool old = false;
            Sym x = sub(v);
            if (ev == NONE && x == Sym::var("kb")) {
              Function *C = CB->getCalledFunction();
              if (C && (C->onlyReadsMemory() || C->isIntrinsic())) continue;
              ++vague;
            }
            // the data argument of a child is opaque to this kernel: whoever receives it fetches it before building anything
            if (grows && !(ev == CHILD && a == 2) && x.ok && in_buffer(x, old)) {
              stale.insert(where_of(&I) + "|hands an address inside the kernel buffer to a call that may move the buffer");
            }
          }
          switch (ev) {
          case EMPLACE: {
            Function *C = CB->getCalledFunction();
            auto it = infos.find(C);
            if (it == infos.end()) it = infos.insert({C, kernel_info(*C, B)}).first;
            Made m;
            m.cls = it->second.cls;
            m.emplace = C;
            m.start = size;
            made.push_back(m);
            emplaced.insert(C);
            mem.clear();
            stores.clear();
            size = it->second.size ? size.plus(Sym::num(it->second.size)) : fresh();
            ++epoch;
            if (C->getName().starts_with("_ZN4dynd2nd14kernel_builder")) ++consumed;
            if (nk || many) order.insert(where_of(&I) + "|adds its own kernel after a child");
            any = true;
            break;
          }
          case RAW: {
            Sym n = sub(CB->getArgOperand(1));
            if (n.konst()) size = size.plus(Sym::num((n.c + 7) & ~7));
            else size = fresh();
            ++epoch;
            any = true;
            break;
          }
          case RESERVE: ++epoch; break;
          case PASS:
            ++consumed;
            any = true;
            if (nk || many) order.insert(where_of(&I) + "|steps over its own node after a child");
            break;
          case CHILD: {
            any = true;
            if (!consumed) order.insert(where_of(&I) + "|builds a child before taking its own node, so the node is taken for the child's");
            ++nk;
            if (!made.empty()) {
              Child c;
              c.start = size;
              c.where = where_of(&I);
              Loop *L = LI.getLoopFor(b);
              c.loop = L != nullptr;
              made.back().kids.push_back(c);
            }
            size = fresh();
            ++epoch;
            break;
          }
          default:
            if (!I.getType()->isVoidTy()) val[&I] = Sym::var((I.getType()->isPointerTy() ? "?" : "~") + std::to_string((uintptr_t)&I));
            if (auto *MI = dyn_cast<MemIntrinsic>(CB)) {
              Sym a = sub(MI->getRawDest()), r;
              (void)a;
              (void)r;
            }
          }
          continue;
        }
        if (!I.getType()->isVoidTy()) {
          const Value *w = E.look(S, &I);
          val[&I] = w != &I ? sub(w) : step_eval(&I, DL, sub, [&](const LoadInst *, const Sym &) { return Sym(); });
        }
      }
    }
    (void)any;
    // where each child's offset was recorded
    for (Made &m : made)
      for (Child &c : m.kids) {
        Sym rel = c.start.plus(m.start, -1);
        if (rel.konst()) c.des.insert("C" + std::to_string(rel.c));
        for (size_t i = 0; i < stores.size(); ++i) {
          if (!(stores[i].second == rel)) continue;
          bool over = false; // overwritten later
          if (stores[i].first.find(",*") == std::string::npos)
            for (size_t j = i + 1; j < stores.size(); ++j)
              if (stores[j].first == stores[i].first && !(stores[j].second == rel)) over = true;
          if (!over && (!c.loop || stores[i].first.find(",*") != std::string::npos)) c.des.insert(stores[i].first);
        }
      }
    for (Made &m : made)
      for (Child &c : m.kids) {
        if (back && !c.loop) continue; // the path goes on elsewhere
        Site &s = sites[m.cls][c.where];
        if (!s.seen) s.des = c.des;
        else {
          std::set<std::string> x;
          for (auto &d : c.des)
            if (s.des.count(d)) x.insert(d);
          s.des = x;
        }
        s.seen = true;
      }
    if (!back) {
      if (consumed != 1) order.insert(where_fn(&F) + "|takes " + std::to_string(consumed) + " nodes instead of its own one");
      counts.insert(many ? "*" : std::to_string(nk));
      for (Made &m : made) complete[m.cls]++;
    }
  }
};

bool takes_builder(const Function &F) { return F.getName().ends_with("14kernel_builderEjPcPKcmPKS5_") || F.getName().contains("14kernel_builderEjPcPKcmP"); }

Builder builder_layout(Module &M) {
  Builder B;
  for (Function &F : M) {
    StringRef n = F.getName();
    if (F.isDeclaration() || !n.contains("10storagebufINS_2nd13kernel_prefixENS1_14kernel_builderEE")) continue;
    bool sz = n.ends_with("4sizeEv"), at = n.contains("6get_atI");
    if (!sz && !at) continue;
    Function *W = private_copy(F);
    cleanup(*W);
    for (Instruction &I : instructions(*W))
      if (auto *L = dyn_cast<LoadInst>(&I)) {
        APInt off(64, 0);
        Value *b = L->getPointerOperand()->stripAndAccumulateConstantOffsets(M.getDataLayout(), off, true);
        if (b == W->getArg(0)) (sz ? B.off_size : B.off_data) = off.getSExtValue();
      }
    W->eraseFromParent();
    if (B.off_size >= 0 && B.off_data >= 0) break;
  }
  if (B.off_data < 0) B.off_data = 0;
  // the size grows by the size of each kernel added
  for (Function &F : M) {
    if (B.off_size >= 0) break;
    StringRef n = F.getName();
    if (F.isDeclaration() || !n.starts_with("_ZN4dynd10storagebufINS_2nd13kernel_prefixENS1_14kernel_builderEE12emplace_backI")) continue;
    Function *W = flat(F, [](const CallBase &, const Function &C) { return C.getName().contains("aligned_size"); });
    for (Instruction &I : instructions(*W))
      if (auto *S = dyn_cast<StoreInst>(&I)) {
        APInt off(64, 0);
        Value *b = S->getPointerOperand()->stripAndAccumulateConstantOffsets(M.getDataLayout(), off, true);
        auto *A = dyn_cast<BinaryOperator>(S->getValueOperand());
        if (b == W->getArg(0) && A && A->getOpcode() == Instruction::Add && isa<ConstantInt>(A->getOperand(1)))
          if (auto *L = dyn_cast<LoadInst>(A->getOperand(0))) {
            APInt lo(64, 0);
            if (L->getPointerOperand()->stripAndAccumulateConstantOffsets(M.getDataLayout(), lo, true) == b && lo == off) B.off_size = off.getSExtValue();
          }
      }
    W->eraseFromParent();
  }
  return B;
}

std::string short_where(const std::string &s) { return s; }

int m_ktree(Module &M, const std::vector<std::string> &args) {
  std::string filter = args.empty() ? "" : args[0];
  Builder B = builder_layout(M);
  // every function that instantiates: those stored as the instantiation function of a recorded node
  std::vector<Function *> roots;
  for (Function &F : M) {
    if (F.isDeclaration() || F.getName().ends_with(".sa")) continue;
    if (F.arg_size() != 7 || !F.getName().contains("call_node4init")) continue;
    std::string d = demangle_(F.getName());
    if (d.find("kernel_builder*") == std::string::npos) continue;
    roots.push_back(&F);
  }
  std::map<Function *, KernelInfo> infos;
  std::set<Function *> used;
  std::map<std::string, Function *> one; // one spelling of each class
  for (Function *F : roots) {
    std::string d = demangle_(F->getName());
    if (!filter.empty() && d.find(filter) == std::string::npos) continue;
    Function *W = flat(*F, [](const CallBase &CB, const Function &C) {
      if (event_of(CB)) return false;
      StringRef n = C.getName();
      if (n.contains("14kernel_builder") || n.contains("10storagebuf")) return true;
      if (n.starts_with("_ZN4dynd3ndt4type") || n.starts_with("_ZNK4dynd3ndt4type") || n.contains("intrusive_ptr")) return false;
      return C.getInstructionCount() < 60;
    });
    Argument *kb = W->getArg(1);
    bool events = false;
    for (Instruction &I : instructions(*W))
      if (auto *CB = dyn_cast<CallBase>(&I))
        if (event_of(*CB)) events = true;
    if (getenv("SA_DUMP") && d.find(getenv("SA_DUMP")) != std::string::npos) W->print(errs());
    Walk K(*W, kb, B, infos);
    K.E.run();
    Json j;
    j.kv("k", "build").kv("fn", d).kv("where", where_fn(F)).kv("events", events).kv("aborted", K.E.aborted ? K.E.abort_why : std::string()).kv("paths", (int)K.paths).kv("derefs", (int)K.derefs).kv("vague", (int)K.vague);
    j.list("stale", std::vector<std::string>(K.stale.begin(), K.stale.end()));
    j.list("order", std::vector<std::string>(K.order.begin(), K.order.end()));
    j.list("counts", std::vector<std::string>(K.counts.begin(), K.counts.end()));
    std::vector<std::string> kids;
    for (auto &c : K.sites)
      for (auto &s : c.second) {
        std::string x = c.first + "\t" + s.first + "\t";
        for (auto &d : s.second.des) x += (x.back() == '\t' ? "" : " ; ") + d;
        kids.push_back(x);
      }
    j.list("kids", kids);
    std::vector<std::string> made;
    for (auto &x : K.complete) made.push_back(x.first);
    j.list("made", made);
    j.out();
    for (Function *e : K.emplaced) used.insert(e);
    W->eraseFromParent();
  }
  std::set<std::string> done;
  for (Function *e : used) {
    KernelInfo &K = infos[e];
    if (!done.insert(K.cls).second) continue;
    Release R;
    std::string fn;
    for (Function *d : K.dtors)
      if (!d->isDeclaration()) {
        Release r = releases(*d);
        for (auto &x : r.at) R.at.insert(x);
        for (auto &x : r.issues) R.issues.push_back(x);
        R.unknown += r.unknown;
        fn = where_fn(d);
      }
    std::map<std::string, std::string> u;
    unsigned unknown = 0;
    for (Function *f : K.funs)
      if (!f->isDeclaration()) uses(*f, u, unknown);
    Json j;
    j.kv("k", "kernel").kv("cls", K.cls).kv("where", fn).kv("size", (long)K.size).kv("dtors", (unsigned long)K.dtors.size()).kv("funs", (unsigned long)K.funs.size()).kv("unknown", (int)R.unknown).kv("unknown_uses", (int)unknown);
    std::vector<std::string> a, b;
    for (auto &x : R.at) a.push_back(x.first);
    for (auto &x : u) b.push_back(x.first + "\t" + x.second);
    j.list("releases", a).list("issues", R.issues).list("uses", b);
    j.out();
  }
  return 0;
}
ModeReg r_ktree("ktree", m_ktree);

// --- what resolving records
// NODE: a node with its closure; SUB: another callable is resolved into the graph; PART: a helper that records one node
enum Rec { RNONE, NODE, SUB, PART };
Rec record_of(const CallBase &CB, const Value *cg) {
  bool has = false;
  for (auto &a : CB.args())
    if (a->stripPointerCasts() == cg) has = true;
  if (!has) return RNONE;
  auto *C = dyn_cast<Function>(CB.getCalledOperand()->stripPointerCasts());
  if (C && C->isIntrinsic()) return RNONE;
  if (C && C->getName().contains("call_graph") && C->getName().contains("12emplace_backI")) return NODE;
  if (C && C->getName().contains("10storagebuf") && C->getName().contains("emplace_back")) return NODE;
  if (CB.arg_size() >= 9 && CB.arg_size() <= 11) return SUB;
  if (CB.arg_size() == 3 && CB.getArgOperand(1)->stripPointerCasts() == cg) return PART;
  return C && !C->isDeclaration() ? SUB : RNONE;
}

void closures_of(Function &C, std::set<std::string> &out) {
  Function *W = flat(C, [](const CallBase &, const Function &F) { return !F.getName().contains("7reserveE"); }, 400);
  for (Instruction &I : instructions(*W))
    if (auto *S = dyn_cast<StoreInst>(&I)) {
      std::set<Function *> fs;
      std::set<Value *> seen;
      func_operands(S->getValueOperand(), fs, seen);
      for (Function *f : fs)
        if (f->arg_size() == 7) out.insert(demangle_(f->getName()));
    }
  W->eraseFromParent();
}

int m_kplan(Module &M, const std::vector<std::string> &args) {
  std::string filter = args.empty() ? "" : args[0];
  std::vector<std::pair<Function *, unsigned>> fs;
  for (Function &F : M) {
    if (F.isDeclaration() || F.getName().ends_with(".sa") || !F.getName().contains("7resolveE")) continue;
    std::string d = demangle_(F.getName());
    size_t p = d.rfind("::resolve(");
    if (p == std::string::npos || d.find("call_graph&", p) == std::string::npos || d.find("lambda", p) != std::string::npos) continue;
    if (!filter.empty() && d.find(filter) == std::string::npos) continue;
    unsigned idx = d.find("::resolve(dynd::nd::base_callable*, char*, dynd::nd::call_graph&") != std::string::npos ? (F.hasStructRetAttr() ? 4 : 3) : d.find("::resolve(dynd::nd::call_graph&, char*)") != std::string::npos ? 1 : 99;
    if (idx >= F.arg_size()) continue;
    fs.push_back({&F, idx});
  }
  for (auto &f : fs) {
    Function *W = private_copy(*f.first);
    const Argument *cg = W->getArg(f.second);
    InlinePolicy P;
    P.ok = [&](const CallBase &CB, const Function &C) {
      StringRef n = C.getName();
      if (n.contains("12emplace_backI") || n.contains("7resolveE")) return false;
      return n.contains("10call_graph");
    };
    P.callee_limit = 2000;
    flatten(*W, P);
    prune_exceptions(*W);
    cleanup(*W);
    Explorer E(*W);
    E.loops = true;
    E.max_paths = 3000;
    std::set<const BasicBlock *> many;
    bool any = false;
    {
      DominatorTree DT(*W);
      LoopInfo LI(DT);
      for (Loop *L : LI.getLoopsInPreorder())
        for (BasicBlock *b : L->blocks())
          for (Instruction &I : *b)
            if (auto *CB = dyn_cast<CallBase>(&I))
              if (record_of(*CB, cg)) many.insert(L->getHeader());
      for (Instruction &I : instructions(*W))
        if (auto *CB = dyn_cast<CallBase>(&I))
          if (record_of(*CB, cg)) any = true;
    }
    std::map<Function *, std::set<std::string>> cl;
    std::set<std::string> plans, order;
    E.on_ret = [&](State &S, const ReturnInst &) {
      unsigned nodes = 0, subs = 0;
      bool star = false;
      std::string what;
      for (const BasicBlock *b : S.path) {
        if (many.count(b)) star = true;
        if (E.headers.count(b) && many.count(b)) continue;
        for (const Instruction &I : *b)
          if (auto *CB = dyn_cast<CallBase>(&I)) {
            Rec r = record_of(*CB, cg);
            if (r == NODE || r == PART) {
              if (nodes) order.insert(where_of(&I) + "|records a second node of its own");
              else if (subs || star) order.insert(where_of(&I) + "|records its own node after resolving another callable");
              ++nodes;
              if (r == PART) what = "?";
              else {
                Function *C = CB->getCalledFunction();
                if (!cl.count(C)) closures_of(*C, cl[C]);
                what = cl[C].size() == 1 ? *cl[C].begin() : "?";
              }
            } else if (r == SUB)
              ++subs;
          }
      }
      plans.insert(std::to_string(nodes) + "\t" + (star ? "*" : std::to_string(subs)) + "\t" + what);
    };
    E.run();
    Json j;
    j.kv("k", "plan").kv("fn", demangle_(f.first->getName())).kv("where", where_fn(f.first)).kv("any", any).kv("aborted", E.aborted ? E.abort_why : std::string()).kv("paths", (int)E.paths).kv("whole", f.second != 1);
    j.list("order", std::vector<std::string>(order.begin(), order.end())).list("plans", std::vector<std::string>(plans.begin(), plans.end()));
    j.out();
    W->eraseFromParent();
  }
  return 0;
}
ModeReg r_kplan("kplan", m_kplan);
} // namespace
