// Reference counts: the retain/release primitives (refcount) and the handles built on them (handles).
#include "absint.h"

static bool is_destroy(const CallBase *CB, const Value *obj) {
  if (isa<IntrinsicInst>(CB)) return false;
  Function *f = CB->getCalledFunction();
  std::string n = f ? demangle_(f->getName()) : "";
  if (f && n.compare(0, 3, "sa.") == 0) return false;
  if (CB->arg_size() == 0) return false;
  const Value *a = CB->getArgOperand(0)->stripInBoundsOffsets();
  if (!f) return true; // virtual destructor or resource callback
  (void)a;
  return n.find("operator delete") != std::string::npos || n.find("::~") != std::string::npos;
}

// refcount <prefix>: one-pointer witnesses <prefix>retain__*, <prefix>release__*
static int m_refcount(Module &M, const std::vector<std::string> &args) {
  std::vector<Function *> fs;
  for (Function &F : M)
    if (!F.isDeclaration() && F.getName().starts_with(args[0]) && F.arg_size() == 1) fs.push_back(&F);
  for (Function *F : fs) {
    InlinePolicy P;
    P.ok = [](const CallBase &, const Function &f) {
      std::string n = demangle_(f.getName());
      return n.find("::~") == std::string::npos && n.find("operator delete") == std::string::npos;
    };
    flatten(*F, P);
    prune_exceptions(*F);
    cleanup(*F, "sroa,early-cse,simplifycfg<no-switch-to-lookup>,instsimplify,early-cse");
    const DataLayout &DL = M.getDataLayout();
    std::vector<const Value *> pint;
    for (Instruction &I : instructions(*F))
      if (isa<PtrToIntInst>(I) && I.getOperand(0) == F->getArg(0)) pint.push_back(&I);
    Explorer E(*F);
    E.loops = true;
    bool ok = true;
    auto finish = [&](State &S, const char *how) {
      std::string ev;
      const AtomicRMWInst *rmw = nullptr;
      bool fence = false;
      int nrmw = 0, ndes = 0;
      std::set<const BasicBlock *> once;
      for (const BasicBlock *B : S.path)
        for (const Instruction &I : *B) {
          if (auto *A = dyn_cast<AtomicRMWInst>(&I)) {
            APInt off(64, 0);
            const Value *b = A->getPointerOperand()->stripAndAccumulateConstantOffsets(DL, off, true);
            auto *C = dyn_cast<ConstantInt>(A->getValOperand());
            int64_t d = C ? C->getSExtValue() : 99;
            if (A->getOperation() == AtomicRMWInst::Sub) d = -d;
            else if (A->getOperation() != AtomicRMWInst::Add) d = 99;
            ev += std::string(ev.empty() ? "" : " ") + (b == F->getArg(0) ? "rmw@" + std::to_string(off.getSExtValue()) : "rmw@?") + ":" + std::to_string(d) + ":" + toIRString(A->getOrdering());
            ++nrmw;
            rmw = A;
          } else if (auto *X = dyn_cast<AtomicCmpXchgInst>(&I)) {
            (void)X;
            ev += " cas";
          } else if (auto *Fe = dyn_cast<FenceInst>(&I)) {
            ev += std::string(" fence:") + toIRString(Fe->getOrdering());
            fence = true;
          } else if (auto *St = dyn_cast<StoreInst>(&I)) {
            const Value *b = getUnderlyingObject(St->getPointerOperand());
            if (!isa<AllocaInst>(b)) ev += std::string(" store") + (St->isAtomic() ? ":atomic" : "");
          } else if (auto *L = dyn_cast<LoadInst>(&I)) {
            (void)L;
          } else if (auto *CB = dyn_cast<CallBase>(&I)) {
            if (is_destroy(CB, F->getArg(0))) {
              ev += " destroy";
              ++ndes;
              if (rmw) {
                AV o = E.eval(S, rmw);
                ev += o.k == AV::INT && o.r.isSingleElement() ? ":old=" + std::to_string(o.r.getSingleElement()->getSExtValue()) : ":old=?";
              }
            }
          }
        }
      std::string old = "";
      if (rmw) {
        AV o = E.eval(S, rmw);
        if (o.k == AV::INT && o.r.isSingleElement()) old = std::to_string(o.r.getSingleElement()->getSExtValue());
        else old = o.containsInt(APInt(rmw->getType()->getIntegerBitWidth(), 1)) ? "any" : "not1";
      }
      bool small = false;
      for (const Value *p : pint) {
        AV a = E.eval(S, p);
        if (a.k == AV::INT && a.r.getUnsignedMax().ult(4096)) small = true;
      }
      Json().kv("k", "path").kv("fn", F->getName().str()).kv("end", how).kv("ev", ev).kv("old", old).kv("tagged", small).kv("fence", fence).out();
    };
    E.on_ret = [&](State &S, const ReturnInst &) { finish(S, "ret"); };
    E.on_stub = [&](State &S, const Instruction &, bool t) { finish(S, t ? "throw" : "noreturn"); };
    E.run();
    ok = !E.aborted;
    Json().kv("k", "fn").kv("fn", F->getName().str()).kv("ok", ok).kv("why", E.abort_why).out();
  }
  return 0;
}
static ModeReg r1("refcount", m_refcount);

// ---------------------------------------------------------------- handles
// Symbolic execution of loop-free handle operations. A value is a symbol: the null pointer, an
// argument, the initial content of a cell, or something computed.
namespace {
struct Cell {
  int base;
  int64_t off;
  bool operator<(const Cell &o) const { return base != o.base ? base < o.base : off < o.off; }
};
struct HState {
  std::map<const Value *, std::pair<int, int64_t>> env; // value -> symbol + offset
  std::map<Cell, int> mem;
  std::map<int, bool> isnull; // symbol known null / non-null
  std::map<int, int> same;    // merged symbols
  std::map<const Value *, bool> conds;
  std::vector<std::string> ev;
  int nsym = 0;
};
struct HExec {
  Function &F;
  bool alias;
  std::map<int, std::string> names;
  int next = 1; // 0 is null
  int paths = 0;
  bool bad = false;
  std::string why;
  std::vector<std::string> lines;
  HExec(Function &f, bool a) : F(f), alias(a) { names[0] = "null"; }
  int fresh(const std::string &n) {
    names[next] = n;
    return next++;
  }
  int rep(HState &S, int x) {
    while (S.same.count(x)) x = S.same[x];
    return x;
  }
  std::pair<int, int64_t> val(HState &S, const Value *V) {
    V = V->stripPointerCasts();
    if (isa<ConstantPointerNull>(V)) return {0, 0};
    auto it = S.env.find(V);
    if (it != S.env.end()) return {rep(S, it->second.first), it->second.second};
    if (auto *G = dyn_cast<GEPOperator>(V)) {
      APInt off(64, 0);
      if (G->accumulateConstantOffset(F.getParent()->getDataLayout(), off)) {
        auto p = val(S, G->getPointerOperand());
        return {p.first, p.second + off.getSExtValue()};
      }
    }
    if (auto *C = dyn_cast<ConstantInt>(V)) {
      int s = fresh("#" + std::to_string(C->getSExtValue()));
      S.env[V] = {s, 0};
      return {s, 0};
    }
    int s = fresh("?" + V->getName().str());
    S.env[V] = {s, 0};
    return {s, 0};
  }
  int load(HState &S, std::pair<int, int64_t> p) {
    Cell c{p.first, p.second};
    auto it = S.mem.find(c);
    if (it != S.mem.end()) return rep(S, it->second);
    int s = fresh("[" + names[p.first] + (p.second ? "+" + std::to_string(p.second) : "") + "]");
    S.mem[c] = s;
    return s;
  }
  // truth of an i1 on this path: 1, 0, or -1 undecided
  int truth(HState &S, const Value *V) {
    if (auto *C = dyn_cast<ConstantInt>(V)) return C->isOne();
    if (S.conds.count(V)) return S.conds[V];
    if (auto *IC = dyn_cast<ICmpInst>(V))
      if (IC->isEquality() && IC->getOperand(0)->getType()->isPointerTy()) {
        auto a = val(S, IC->getOperand(0)), b = val(S, IC->getOperand(1));
        bool eq = IC->getPredicate() == ICmpInst::ICMP_EQ;
        if (a == b) return eq;
        if (b.first == 0 && b.second == 0) std::swap(a, b);
        if (a.first == 0 && a.second == 0) {
          if (b.second) return !eq;
          if (S.isnull.count(b.first)) return S.isnull[b.first] == eq;
          return -1;
        }
        if (names[a.first][0] == '%' && names[b.first][0] == '%') return !eq; // distinct objects in this scenario
        return -1;
      }
    if (auto *B = dyn_cast<BinaryOperator>(V))
      if (B->getOpcode() == Instruction::Xor && isa<ConstantInt>(B->getOperand(1))) {
        int t = truth(S, B->getOperand(0));
        return t < 0 ? -1 : !t;
      }
    return -1;
  }
  void assume(HState &S, const Value *V, bool t) {
    if (auto *B = dyn_cast<BinaryOperator>(V))
      if (B->getOpcode() == Instruction::Xor && isa<ConstantInt>(B->getOperand(1))) return assume(S, B->getOperand(0), !t);
    S.conds[V] = t;
    if (auto *IC = dyn_cast<ICmpInst>(V))
      if (IC->isEquality() && IC->getOperand(0)->getType()->isPointerTy()) {
        bool e = (IC->getPredicate() == ICmpInst::ICMP_EQ) == t;
        auto a = val(S, IC->getOperand(0)), b = val(S, IC->getOperand(1));
        if (b.first == 0) std::swap(a, b);
        if (a.first == 0 && !a.second && !b.second) S.isnull[b.first] = e;
        else if (e && !a.second && !b.second && a.first != b.first) {
          S.same[b.first] = a.first;
          if (S.isnull.count(b.first)) S.isnull[a.first] = S.isnull[b.first];
        }
      }
  }
  std::string nm(HState &S, std::pair<int, int64_t> p) {
    int s = rep(S, p.first);
    if (s && S.isnull.count(s) && S.isnull[s] && !p.second) return "null";
    return names[s] + (p.second ? "+" + std::to_string(p.second) : "");
  }
  void done(HState &S, const std::string &ret) {
    ++paths;
    std::vector<std::string> cells, facts;
    for (auto &m : S.mem) {
      std::string b = names[m.first.base];
      if (b[0] != '%') continue;
      std::string init = "[" + b + (m.first.off ? "+" + std::to_string(m.first.off) : "") + "]";
      cells.push_back(b + "+" + std::to_string(m.first.off) + "=" + nm(S, {m.second, 0}));
    }
    for (auto &n : S.isnull)
      if (n.second) facts.push_back("null " + names[n.first]);
      else facts.push_back("nonnull " + names[n.first]);
    for (auto &n : S.same) facts.push_back("same " + names[n.first] + " " + names[rep(S, n.first)]);
    Json().kv("k", "path").kv("fn", F.getName().str()).kv("alias", alias).list("ev", S.ev).list("cells", cells).list("facts", facts).kv("ret", ret).out();
  }
  void fail(const std::string &w) {
    bad = true;
    why = w;
  }
  void run() {
    HState S;
    int i = 0;
    for (Argument &A : F.args()) {
      int s = alias && i ? S.env[F.getArg(0)].first : fresh("%" + std::to_string(i));
      if (!A.getType()->isPointerTy()) s = fresh("#arg" + std::to_string(i));
      else if (!(alias && i)) S.isnull[s] = false;
      S.env[&A] = {s, 0};
      ++i;
    }
    walk(S, &F.getEntryBlock(), nullptr, 0);
    Json().kv("k", "fn").kv("fn", F.getName().str()).kv("alias", alias).kv("paths", paths).kv("ok", !bad).kv("why", why).out();
  }
  void walk(HState S, BasicBlock *B, BasicBlock *from, int depth) {
    if (bad) return;
    if (depth > 400 || paths > 500) return fail("too many steps");
    std::vector<std::pair<const Value *, std::pair<int, int64_t>>> phis;
    for (PHINode &P : B->phis()) {
      Value *v = P.getIncomingValueForBlock(from);
      if (P.getType()->isIntegerTy(1)) {
        int t = truth(S, v);
        if (t >= 0) S.conds[&P] = t;
        else return fail("undecided flag");
      } else
        phis.push_back({&P, val(S, v)});
    }
    for (auto &p : phis) S.env[p.first] = p.second;
    for (Instruction &I : *B) {
      if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
      if (auto *A = dyn_cast<AllocaInst>(&I)) S.env[A] = {fresh("local"), 0};
      else if (auto *L = dyn_cast<LoadInst>(&I)) {
        auto p = val(S, L->getPointerOperand());
        S.ev.push_back("load " + nm(S, p));
        if (L->getType()->isPointerTy()) S.env[L] = {load(S, p), 0};
      } else if (auto *St = dyn_cast<StoreInst>(&I)) {
        auto p = val(S, St->getPointerOperand());
        auto v = val(S, St->getValueOperand());
        S.ev.push_back("store " + nm(S, p));
        if (v.second) S.mem[{p.first, p.second}] = fresh(nm(S, v));
        else S.mem[{p.first, p.second}] = v.first;
      } else if (auto *Se = dyn_cast<SelectInst>(&I)) {
        int t = truth(S, Se->getCondition());
        if (t < 0) {
          for (int k = 0; k < 2; ++k) {
            HState T = S;
            assume(T, Se->getCondition(), k);
            T.env[Se] = val(T, k ? Se->getTrueValue() : Se->getFalseValue());
            rest(T, I.getNextNode(), B, depth);
          }
          return;
        }
        S.env[Se] = val(S, t ? Se->getTrueValue() : Se->getFalseValue());
      } else if (auto *CB = dyn_cast<CallBase>(&I)) {
        if (!call(S, CB)) return;
      } else if (I.isTerminator())
        return term(S, B, depth);
    }
  }
  bool call(HState &S, CallBase *CB) {
    if (auto *II = dyn_cast<IntrinsicInst>(CB)) {
      switch (II->getIntrinsicID()) {
      case Intrinsic::lifetime_start:
      case Intrinsic::lifetime_end:
      case Intrinsic::assume:
        return true;
      default:
        break;
      }
      fail("intrinsic " + II->getCalledFunction()->getName().str());
      return false;
    }
    Function *f = CB->getCalledFunction();
    std::string n = f ? demangle_(f->getName()) : "?";
    bool rt = n.find("intrusive_ptr_retain(") != std::string::npos, rl = n.find("intrusive_ptr_release(") != std::string::npos;
    if (rt || rl) {
      S.ev.push_back((rt ? "retain " : "release ") + nm(S, val(S, CB->getArgOperand(0))));
      return true;
    }
    if (n == "sa.throw" || n == "sa.noreturn") return false;
    fail("call of " + n);
    return false;
  }
  void rest(HState S, Instruction *I, BasicBlock *B, int depth) {
    for (; I && !bad; I = I->getNextNode()) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      if (auto *L = dyn_cast<LoadInst>(I)) {
        auto p = val(S, L->getPointerOperand());
        S.ev.push_back("load " + nm(S, p));
        if (L->getType()->isPointerTy()) S.env[L] = {load(S, p), 0};
      } else if (auto *St = dyn_cast<StoreInst>(I)) {
        auto p = val(S, St->getPointerOperand());
        auto v = val(S, St->getValueOperand());
        S.ev.push_back("store " + nm(S, p));
        S.mem[{p.first, p.second}] = v.first;
      } else if (auto *Se = dyn_cast<SelectInst>(I)) {
        int t = truth(S, Se->getCondition());
        if (t < 0) {
          for (int k = 0; k < 2; ++k) {
            HState T = S;
            assume(T, Se->getCondition(), k);
            T.env[Se] = val(T, k ? Se->getTrueValue() : Se->getFalseValue());
            rest(T, I->getNextNode(), B, depth);
          }
          return;
        }
        S.env[Se] = val(S, t ? Se->getTrueValue() : Se->getFalseValue());
      } else if (auto *CB = dyn_cast<CallBase>(I)) {
        if (!call(S, CB)) return;
      } else if (I->isTerminator())
        return term(S, B, depth);
    }
  }
  void term(HState S, BasicBlock *B, int depth) {
    Instruction *T = B->getTerminator();
    if (auto *R = dyn_cast<ReturnInst>(T)) {
      std::string r = "";
      if (R->getReturnValue()) {
        if (R->getReturnValue()->getType()->isPointerTy()) r = nm(S, val(S, R->getReturnValue()));
        else if (R->getReturnValue()->getType()->isIntegerTy(1) || isa<ZExtInst>(R->getReturnValue())) {
          const Value *v = R->getReturnValue();
          if (auto *Z = dyn_cast<ZExtInst>(v)) v = Z->getOperand(0);
          int t = v->getType()->isIntegerTy(1) ? truth(S, v) : -1;
          if (t < 0 && v->getType()->isIntegerTy(1)) {
            for (int k = 0; k < 2; ++k) {
              HState U = S;
              assume(U, v, k);
              done(U, std::to_string(k));
            }
            return;
          }
          r = std::to_string(t);
        }
      }
      return done(S, r);
    }
    if (auto *Br = dyn_cast<BranchInst>(T)) {
      if (!Br->isConditional()) return walk(S, Br->getSuccessor(0), B, depth + 1);
      int t = truth(S, Br->getCondition());
      for (int k = 0; k < 2; ++k)
        if (t < 0 || t == k) {
          HState U = S;
          if (t < 0) assume(U, Br->getCondition(), k);
          walk(U, Br->getSuccessor(k ? 0 : 1), B, depth + 1);
        }
      return;
    }
    if (isa<UnreachableInst>(T)) return;
    fail("terminator");
  }
};
} // namespace

// handles <prefix>
static int m_handles(Module &M, const std::vector<std::string> &args) {
  std::vector<Function *> fs;
  for (Function &F : M)
    if (!F.isDeclaration() && F.getName().starts_with(args[0])) fs.push_back(&F);
  for (Function *F : fs) {
    InlinePolicy P;
    P.ok = [](const CallBase &, const Function &f) {
      std::string n = demangle_(f.getName());
      return n.find("intrusive_ptr_retain(") == std::string::npos && n.find("intrusive_ptr_release(") == std::string::npos;
    };
    flatten(*F, P);
    prune_exceptions(*F);
    cleanup(*F, "sroa,early-cse,simplifycfg<no-switch-to-lookup>,instsimplify");
    if (getenv("REFS_DEBUG")) F->print(errs());
    HExec(*F, false).run();
    if (F->arg_size() == 2 && F->getArg(1)->getType()->isPointerTy()) HExec(*F, true).run();
  }
  return 0;
}
static ModeReg r2("handles", m_handles);
