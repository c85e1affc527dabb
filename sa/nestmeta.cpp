// Nested metadata: the operations of composite types on per-array metadata reach each component's metadata at its place.
#include "common.h"

namespace {
const char *OPS[] = {"25arrmeta_default_construct", "22arrmeta_copy_construct", "21arrmeta_reset_buffers", "24arrmeta_finalize_buffers", "16arrmeta_destruct", "13data_destruct", "21data_destruct_strided"};
const char *NAMES[] = {"arrmeta_default_construct", "arrmeta_copy_construct", "arrmeta_reset_buffers", "arrmeta_finalize_buffers", "arrmeta_destruct", "data_destruct", "data_destruct_strided"};

const Value *strip(const Value *v) { return v->stripPointerCasts(); }

struct Canon {
  const DataLayout &DL;
  std::set<const Value *> idx; // what subscripts were used
  const Value *base = nullptr; // the argument a pointer starts from
  // the value comes back to itself
  static bool loops(const PHINode *P) {
    std::vector<const Value *> work{P};
    std::set<const Value *> seen;
    for (size_t k = 0; k < work.size() && k < 64; ++k) {
      auto *I = dyn_cast<Instruction>(work[k]);
      if (!I || !(isa<PHINode>(I) || isa<BinaryOperator>(I) || isa<CastInst>(I) || isa<SelectInst>(I))) continue;
      for (const Value *x : I->operands()) {
        if (x == P) return true;
        if (seen.insert(x).second) work.push_back(x);
      }
    }
    return false;
  }
  // a pointer as its base plus a sum of terms
  std::string ptr(const Value *v, int depth = 0) {
    v = strip(v);
    long c = 0;
    std::vector<std::string> terms;
    for (int i = 0; i < 20; ++i) {
      auto *G = dyn_cast<GEPOperator>(v);
      if (!G) break;
      APInt k(64, 0);
      MapVector<Value *, APInt> vars;
      if (!G->collectOffset(DL, 64, vars, k)) return "?";
      c += (long)k.getSExtValue();
      for (auto &x : vars) terms.push_back(num(x.first, depth + 1) + "*" + std::to_string(x.second.getSExtValue()));
      v = strip(G->getPointerOperand());
    }
    std::sort(terms.begin(), terms.end());
    std::string r;
    if (auto *A = dyn_cast<Argument>(v)) {
      base = A;
      r = "arg" + std::to_string(A->getArgNo());
    } else if (auto *L = dyn_cast<LoadInst>(v))
      r = "[" + Canon{DL, {}, nullptr}.sub(*this, L->getPointerOperand(), depth + 1) + "]";
    else
      return "?";
    if (c) r += "+" + std::to_string(c);
    for (auto &t : terms) r += "+" + t;
    return r;
  }
  std::string sub(Canon &out, const Value *p, int depth) {
    if (depth > 12) return "?";
    std::string s = ptr(p, depth);
    out.idx.insert(idx.begin(), idx.end());
    return s;
  }
  std::string num(const Value *v, int depth) {
    if (depth > 12) return "?";
    while (auto *K = dyn_cast<CastInst>(v)) v = K->getOperand(0);
    if (auto *C = dyn_cast<ConstantInt>(v)) return std::to_string(C->getSExtValue());
    if (auto *L = dyn_cast<LoadInst>(v)) return "[" + Canon{DL, {}, nullptr}.sub(*this, L->getPointerOperand(), depth + 1) + "]";
    if (auto *Ph = dyn_cast<PHINode>(v)) {
      bool counts = loops(Ph);
      if (!counts && Ph->getNumIncomingValues() <= 40 && depth < 6) {
        std::set<std::string> in;
        for (const Value *x : Ph->incoming_values()) in.insert(num(x, depth + 3));
        if (in.size() == 1) return *in.begin();
        std::string r = "one of";
        for (auto &x : in) r += " " + x;
        return "{" + r + "}";
      }
      idx.insert(v);
      return "i";
    }
    if (auto *B = dyn_cast<BinaryOperator>(v)) {
      auto *C = dyn_cast<ConstantInt>(B->getOperand(1));
      if (C && (B->getOpcode() == Instruction::Shl || B->getOpcode() == Instruction::Mul || B->getOpcode() == Instruction::Add || B->getOpcode() == Instruction::Sub || B->getOpcode() == Instruction::SDiv || B->getOpcode() == Instruction::AShr))
        return "(" + num(B->getOperand(0), depth + 1) + B->getOpcodeName() + std::to_string(C->getSExtValue()) + ")";
      return "(" + num(B->getOperand(0), depth + 1) + B->getOpcodeName() + num(B->getOperand(1), depth + 1) + ")";
    }
    if (auto *A = dyn_cast<Argument>(v)) return "arg" + std::to_string(A->getArgNo());
    return "?";
  }
  // a condition that holds: predicate and its two sides
  std::string cond(const Value *v, bool holds) {
    auto *I = dyn_cast<ICmpInst>(v);
    if (!I) {
      if (auto *X = dyn_cast<BinaryOperator>(v); X && X->getOpcode() == Instruction::Xor)
        if (auto *K = dyn_cast<ConstantInt>(X->getOperand(1)); K && K->isOne()) return cond(X->getOperand(0), !holds);
      return std::string(holds ? "is " : "not ") + num(v, 1);
    }
    auto p = holds ? I->getPredicate() : I->getInversePredicate();
    const Value *a = I->getOperand(0), *b = I->getOperand(1);
    if (isa<Constant>(a) && !isa<Constant>(b)) std::swap(a, b), p = ICmpInst::getSwappedPredicate(p);
    auto side = [&](const Value *x) -> std::string {
      if (isa<ConstantPointerNull>(x)) return "0";
      if (auto *E = dyn_cast<ConstantExpr>(x); E && E->getOpcode() == Instruction::IntToPtr) return num(E->getOperand(0), 1);
      return x->getType()->isPointerTy() ? ptr(x, 1) : num(x, 1);
    };
    return std::string(ICmpInst::getPredicateName(p)) + " " + side(a) + " " + side(b);
  }
};

// the slot of a virtual call, or -1, and the object it is made on
int slot_of(const CallBase *C, const DataLayout &DL, const Value *&obj) {
  auto *L = dyn_cast<LoadInst>(strip(C->getCalledOperand()));
  if (!L || !C->arg_size()) return -1;
  APInt k(64, 0);
  const Value *t = strip(L->getPointerOperand())->stripAndAccumulateConstantOffsets(DL, k, true);
  auto *T = dyn_cast<LoadInst>(strip(t));
  if (!T || strip(T->getPointerOperand()) != strip(C->getArgOperand(0))) return -1;
  obj = strip(C->getArgOperand(0));
  return (int)k.getZExtValue() / 8;
}

int mode_nestmeta(Module &M, const std::vector<std::string> &) {
  const DataLayout &DL = M.getDataLayout();
  // where the operations stand in the table of virtual functions
  std::map<std::string, int> slot; // operation -> slot
  for (GlobalVariable &G : M.globals()) {
    if (!G.getName().starts_with("_ZTVN4dynd3ndt") || !G.hasInitializer()) continue;
    auto *S = dyn_cast<ConstantStruct>(G.getInitializer());
    auto *A = S && S->getNumOperands() ? dyn_cast<ConstantArray>(S->getOperand(0)) : nullptr;
    if (!A) continue;
    for (unsigned i = 2; i < A->getNumOperands(); ++i)
      if (auto *F = dyn_cast<Function>(A->getOperand(i)->stripPointerCasts()))
        for (unsigned o = 0; o < 7; ++o)
          if (F->getName().contains(std::string(OPS[o]) + "E")) slot[OPS[o]] = (int)i - 2;
  }
  // where a type keeps the size of its metadata
  if (Function *Z = M.getFunction("_ZNK4dynd3ndt9base_type16get_arrmeta_sizeEv"); Z && !Z->isDeclaration()) {
    Function *W = private_copy(*Z);
    cleanup(*W);
    for (BasicBlock &B : *W)
      if (auto *Rt = dyn_cast<ReturnInst>(B.getTerminator())) Json().kv("k", "size").kv("at", Canon{DL, {}, nullptr}.num(Rt->getReturnValue(), 0)).out();
  }
  for (Function &F : M) {
    StringRef n = F.getName();
    if (F.isDeclaration() || n.ends_with(".sa") || !n.starts_with("_ZNK4dynd3ndt")) continue;
    int op = -1;
    for (unsigned o = 0; o < 7; ++o)
      if (n.contains(std::string(OPS[o]) + "E")) op = (int)o;
    if (op < 0) continue;
    StringRef rest = n.substr(13);
    unsigned len = 0;
    if (rest.consumeInteger(10, len)) continue;
    std::string cls = rest.substr(0, len).str();
    Function *W = private_copy(F);
    InlinePolicy P;
    P.ok = [](const CallBase &, const Function &C) {
      for (const char *o : OPS)
        if (C.getName().contains(std::string(o) + "E")) return false;
      return true;
    };
    P.into_doomed = true;
    flatten(*W, P);
    cleanup(*W);
    if (const char *d = getenv("SA_DUMP"))
      if (n.contains(d)) W->print(errs());
    bool returns = false, uses = false;
    SmallPtrSet<BasicBlock *, 32> doomed;
    doomed_blocks(*W, doomed);
    for (BasicBlock &B : *W) returns = returns || (isa<ReturnInst>(B.getTerminator()) && !doomed.count(&B));
    for (unsigned a = 1; a < W->arg_size(); ++a) uses = uses || !W->getArg(a)->use_empty();
    // anything else that is given the metadata, or runs when a construction fails
    bool opaque = false, opaque_cleanup = false;
    for (Instruction &I : instructions(*W)) {
      auto *C = dyn_cast<CallBase>(&I);
      if (!C || isa<IntrinsicInst>(C)) continue;
      const Function *Cd = C->getCalledFunction();
      StringRef cn = Cd ? Cd->getName() : "";
      const Value *obj = nullptr;
      if (cn == "memcpy" || cn.starts_with("__cxa_") || cn.starts_with("_Unwind") || cn == "__clang_call_terminate" || (!Cd && slot_of(C, DL, obj) >= 0)) continue;
      if (doomed.count(C->getParent()) && (!Cd || (cn.contains("dynd") && !cn.contains("D2Ev") && !cn.contains("D1Ev")))) opaque_cleanup = true;
      for (const Value *a : C->args())
        if (a->getType()->isPointerTy()) {
          Canon X{DL, {}, nullptr};
          std::string p = X.ptr(a);
          if (StringRef(p).starts_with("arg1")) opaque = true;
        }
    }
    // references of the type's own that are kept or given up
    std::set<std::string> kept, read;
    for (Instruction &I : instructions(*W)) {
      if (doomed.count(I.getParent())) continue;
      if (auto *S = dyn_cast<StoreInst>(&I); S && S->getValueOperand()->getType()->isPointerTy() && !isa<ConstantPointerNull>(S->getValueOperand())) {
        std::string p = Canon{DL, {}, nullptr}.ptr(S->getPointerOperand());
        if (StringRef(p).starts_with("arg1")) kept.insert(p);
      }
      if (auto *L = dyn_cast<LoadInst>(&I); L && L->getType()->isPointerTy()) {
        std::string p = Canon{DL, {}, nullptr}.ptr(L->getPointerOperand());
        if (StringRef(p).starts_with("arg1")) read.insert(p);
      }
    }
    auto join = [](const std::set<std::string> &x) {
      std::string r;
      for (auto &y : x) r += (r.empty() ? "" : ";") + y;
      return r;
    };
    unsigned calls = 0;
    for (Instruction &I : instructions(*W)) {
      auto *C = dyn_cast<CallBase>(&I);
      const Value *obj = nullptr;
      int s = C && !C->getCalledFunction() ? slot_of(C, DL, obj) : -1;
      if (s < 0) continue;
      int to = -1;
      for (unsigned o = 0; o < 7; ++o)
        if (slot.count(OPS[o]) && slot[OPS[o]] == s) to = (int)o;
      if (to < 0) continue;
      Canon O{DL, {}, nullptr}, A{DL, {}, nullptr}, B{DL, {}, nullptr};
      std::string child = O.ptr(obj), at = C->arg_size() > 1 ? A.ptr(C->getArgOperand(1)) : "?", from = to == 1 ? B.ptr(C->getArgOperand(2)) : "";
      if (child == "arg0") continue; // its own operation
      ++calls;
      // the data a component's elements are destroyed at
      Canon Dt{DL, {}, nullptr};
      std::string data = to >= 5 && C->arg_size() > 2 ? Dt.ptr(C->getArgOperand(2)) : "";
      auto same = [](const std::set<const Value *> &x, const std::set<const Value *> &y) { return x == y; };
      // the loop over the components
      std::string loop;
      if (O.idx.size() == 1) {
        auto *Ph = cast<PHINode>(*O.idx.begin());
        std::string init = "?", step = "?", bound = "?";
        if (Ph->getNumIncomingValues() == 2)
          for (unsigned i = 0; i < 2; ++i) {
            const Value *v = Ph->getIncomingValue(i);
            auto *Bo = dyn_cast<BinaryOperator>(v);
            if (Bo && Bo->getOpcode() == Instruction::Add && Bo->getOperand(0) == Ph && isa<ConstantInt>(Bo->getOperand(1))) {
              step = std::to_string(cast<ConstantInt>(Bo->getOperand(1))->getSExtValue());
            } else
              init = Canon{DL, {}, nullptr}.num(v, 0);
          }
        std::vector<const Value *> its{Ph};
        for (const User *U : Ph->users())
          if (auto *Bo = dyn_cast<BinaryOperator>(U)) its.push_back(Bo);
        for (const Value *v : its)
          for (const User *U : v->users())
            if (auto *Cm = dyn_cast<ICmpInst>(U)) {
              const Value *o = Cm->getOperand(0) == v ? Cm->getOperand(1) : Cm->getOperand(0);
              bound = isa<PHINode>(o) ? "outer" : Canon{DL, {}, nullptr}.num(o, 0);
              if (auto *Bo = dyn_cast<BinaryOperator>(v); Bo && bound != "outer" && !isa<PHINode>(v)) {
                auto *K = dyn_cast<ConstantInt>(Bo->getOperand(1));
                if (K && !(Bo->getOpcode() == Instruction::Add && std::to_string(K->getSExtValue()) == step)) bound = "?";
              }
            }
        loop = init + "|" + step + "|" + bound;
      }
      // what it is made under
      std::string guards;
      DominatorTree DT(*W);
      for (BasicBlock &D : *W) {
        auto *Br = dyn_cast<BranchInst>(D.getTerminator());
        if (!Br || !Br->isConditional() || &D == C->getParent() || !DT.dominates(&D, C->getParent())) continue;
        bool y = DT.dominates(BasicBlockEdge(&D, Br->getSuccessor(0)), C->getParent()), nn = DT.dominates(BasicBlockEdge(&D, Br->getSuccessor(1)), C->getParent());
        if (y == nn) continue;
        std::string g = Canon{DL, {}, nullptr}.cond(Br->getCondition(), y);
        guards += (guards.empty() ? "" : ";") + g;
      }
      // leaving the loop before its end
      bool left = false;
      std::string exits;
      if (O.idx.size() == 1) {
        LoopInfo LI(DT);
        if (Loop *L = LI.getLoopFor(cast<PHINode>(*O.idx.begin())->getParent())) {
          left = !L->contains(C->getParent());
          SmallVector<Loop::Edge, 8> es;
          L->getExitEdges(es);
          for (auto &e : es) {
            if (doomed.count(e.second) && !doomed.count(e.first)) continue;
            auto *Br = dyn_cast<BranchInst>(e.first->getTerminator());
            auto *Sw = dyn_cast<SwitchInst>(e.first->getTerminator());
            if (!Sw && (!Br || !Br->isConditional())) continue;
            // a branch on which way a block was reached: the conditions of that way
            auto *Cm = Br ? dyn_cast<ICmpInst>(Br->getCondition()) : nullptr;
            auto *Ph = Sw ? dyn_cast<PHINode>(Sw->getCondition()) : Cm ? dyn_cast<PHINode>(Cm->getOperand(0)) : nullptr;
            auto *K = Cm ? dyn_cast<ConstantInt>(Cm->getOperand(1)) : nullptr;
            bool consts = Ph && (Sw || (K && Cm->isEquality()));
            if (Ph)
              for (const Value *x : Ph->incoming_values()) consts = consts && isa<ConstantInt>(x);
            if (Sw && !consts) {
              exits += (exits.empty() ? "" : ";") + std::string("kind");
              continue;
            }
            if (consts) {
              bool at_end = false, found = false;
              for (unsigned i = 0; i < Ph->getNumIncomingValues(); ++i) {
                auto *In = cast<ConstantInt>(Ph->getIncomingValue(i));
                bool taken = Sw ? Sw->findCaseValue(In)->getCaseSuccessor() == e.second
                                : ((In->getValue() == K->getValue()) == (Cm->getPredicate() == ICmpInst::ICMP_EQ)) == (e.second == Br->getSuccessor(0));
                if (!taken) continue;
                found = true;
                for (BasicBlock *D : L->blocks()) {
                  auto *Bd = dyn_cast<BranchInst>(D->getTerminator());
                  if (!Bd || !Bd->isConditional() || !DT.dominates(D, Ph->getIncomingBlock(i)) || D == e.first) continue;
                  std::string g = " " + Canon{DL, {}, nullptr}.cond(Bd->getCondition(), true) + " ";
                  bool direct = D == Ph->getIncomingBlock(i), y = DT.dominates(BasicBlockEdge(D, Bd->getSuccessor(0)), Ph->getIncomingBlock(i)), nn = DT.dominates(BasicBlockEdge(D, Bd->getSuccessor(1)), Ph->getIncomingBlock(i));
                  // the way out by the loop's own condition, not the way past it
                  if (D != L->getHeader() && (direct || y != nn) && StringRef(g).contains(" i ")) at_end = true;
                  if (D == L->getHeader() && !L->contains(Bd->getSuccessor(0)) == L->contains(Bd->getSuccessor(1))) continue;
                  if (D == L->getHeader() && (direct || y != nn) && StringRef(g).contains(" i ")) at_end = true;
                }
              }
              if (found) exits += (exits.empty() ? "" : ";") + std::string(at_end ? "end" : "kind");
              continue;
            }
            exits += (exits.empty() ? "" : ";") + Canon{DL, {}, nullptr}.cond(Br->getCondition(), e.second == Br->getSuccessor(0));
          }
        }
      }
      bool cleanup_path = doomed.count(C->getParent()) != 0;
      Json().kv("k", "call").kv("cls", cls).kv("op", NAMES[op]).kv("to", NAMES[to]).kv("child", child).kv("at", at).kv("from", from).kv("idx", same(O.idx, A.idx) && (to != 1 || same(A.idx, B.idx))).kv("guards", guards).kv("left", left).kv("exits", exits).kv("data", data).kv("dataidx", same(O.idx, Dt.idx)).kv("nidx", (int)O.idx.size()).kv("loop", loop).kv("cleanup", cleanup_path).kv("where", where_of(C)).out();
    }
    Json().kv("k", "fn").kv("cls", cls).kv("op", NAMES[op]).kv("returns", returns).kv("uses", uses).kv("kept", join(kept)).kv("read", join(read)).kv("opaque", opaque).kv("opaque_cleanup", opaque_cleanup).kv("calls", (int)calls).kv("where", where_fn(&F)).out();
  }
  return 0;
}
ModeReg reg_nestmeta("nestmeta", mode_nestmeta);
} // namespace
