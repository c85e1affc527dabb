// N05: no integer division or remainder is reached with a zero divisor or the overflowing pair,
// and a zero divisor always raises.
#include "kernels.h"

static bool is_div(const Instruction &I) {
  switch (I.getOpcode()) {
  case Instruction::SDiv: case Instruction::UDiv: case Instruction::SRem: case Instruction::URem:
    return true;
  default:
    return false;
  }
}

// leaf an integer is a widened copy of
static const Value *leaf_of(const Value *v) {
  for (;;) {
    if (auto *C = dyn_cast<CastInst>(v)) {
      if (!C->getOperand(0)->getType()->isIntegerTy()) return nullptr;
      v = C->getOperand(0);
    } else if (auto *C = dyn_cast<ICmpInst>(v)) { // bool: x != 0
      if (!isa<Constant>(C->getOperand(1))) return nullptr;
      v = C->getOperand(0);
    } else
      break;
  }
  return isa<LoadInst>(v) ? v : nullptr;
}

static int m_intdiv(Module &M, const std::vector<std::string> &args) {
  for (Kernel &K : find_kernels(M, args.empty() ? "" : args[0])) {
    Function *W = flat_kernel(K);
    std::vector<Instruction *> divs;
    for (Instruction &I : instructions(*W))
      if (is_div(I)) divs.push_back(&I);
    if (divs.empty()) {
      W->eraseFromParent();
      continue;
    }
    std::vector<std::string> bad, badw;
    std::set<std::string> seen;
    auto fail = [&](const Instruction *I, const std::string &w) {
      if (!seen.insert(w + where_of(I)).second) return;
      bad.push_back(w);
      badw.push_back(where_of(I));
    };
    unsigned reached = 0, zero_throws = 0;
    // 1. every reachable division is defined
    {
      Explorer E(*W);
      E.loops = true;
      E.on_inst = [&](State &S, const Instruction &I) {
        if (!is_div(I)) return;
        ++reached;
        AV b = E.eval(S, I.getOperand(1)), a = E.eval(S, I.getOperand(0));
        if (a.bot() || b.bot()) return;
        unsigned w = I.getType()->getIntegerBitWidth();
        if (b.k != AV::INT || b.containsInt(APInt(w, 0))) {
          fail(&I, "the divisor can be zero: " + b.str());
          return;
        }
        if (I.getOpcode() == Instruction::SDiv || I.getOpcode() == Instruction::SRem)
          if (b.containsInt(APInt::getAllOnes(w)) && (a.k != AV::INT || a.containsInt(APInt::getSignedMinValue(w))))
            fail(&I, "smallest value divided by -1: dividend " + a.str() + ", divisor " + b.str());
      };
      E.run();
      if (E.aborted) fail(&W->getEntryBlock().front(), "path analysis gave up: " + E.abort_why);
    }
    // 2. with a zero divisor, an error is raised before anything is stored
    std::set<const Value *> leaves;
    for (Instruction *D : divs) {
      const Value *l = leaf_of(D->getOperand(1));
      if (l && root_of(K, *W, cast<LoadInst>(l)->getPointerOperand()).k == Root::SRC)
        leaves.insert(l);
      else if (!isa<Constant>(D->getOperand(1)))
        fail(D, "the divisor is not the operand's value");
    }
    for (const Value *l : leaves) {
      // all loads of the same operand element in the block region count as the same value
      Explorer E(*W);
      E.loops = true;
      const BasicBlock *lb = cast<Instruction>(l)->getParent();
      auto ptr = cast<LoadInst>(l)->getPointerOperand();
      for (Instruction &I : instructions(*W))
        if (auto *L = dyn_cast<LoadInst>(&I))
          if (L != l && L->getPointerOperand() == ptr && L->getType() == l->getType()) E.canon[L] = l;
      E.init[l] = AV::integer(ConstantRange(APInt(l->getType()->getIntegerBitWidth(), 0)));
      auto on_path = [&](State &S) { return std::find(S.path.begin(), S.path.end(), lb) != S.path.end(); };
      E.on_inst = [&](State &S, const Instruction &I) {
        if (!on_path(S)) return;
        if (auto *St = dyn_cast<StoreInst>(&I)) {
          if (root_of(K, *W, St->getPointerOperand()).k == Root::DST) fail(&I, "a result is stored for a zero divisor");
        }
      };
      E.on_stub = [&](State &S, const Instruction &, bool th) {
        if (th && on_path(S)) ++zero_throws;
      };
      E.on_ret = [&](State &S, const ReturnInst &R) {
        if (on_path(S)) fail(&R, "no error is raised for a zero divisor");
      };
      E.on_back = [&](State &S, const BasicBlock &B) {
        if (on_path(S)) fail(B.getTerminator(), "no error is raised for a zero divisor");
      };
      E.run();
      if (E.aborted) fail(&W->getEntryBlock().front(), "path analysis gave up: " + E.abort_why);
    }
    Json j;
    j.kv("k", "intdiv").kv("cls", K.cls).kv("kind", K.kind == Kernel::SINGLE ? "single" : "strided").kv("where", where_fn(K.orig)).kv("divs", (int)divs.size()).kv("reached", (int)reached).kv("zero_throws", (int)zero_throws).list("bad", bad).list("badw", badw).out();
    W->eraseFromParent();
  }
  return 0;
}
static ModeReg r1("intdiv", m_intdiv);
