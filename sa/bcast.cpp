// What a kernel that runs its child over a dimension hands to it: for every path of its single() to a call of the child's
// many-element form, where each operand starts, how far apart its elements are and how many there are, as terms over
// the kernel's fields and the operands' own data, with the comparisons made on the way.
#include "common.h"
#include "absint.h"
#include "sym.h"
#include "llvm/Support/CommandLine.h"

namespace {
struct Bcast {
  Function &F;
  const DataLayout &DL;
  Explorer E;
  std::set<std::string> out;
  std::map<const Value *, int> ids;
  explicit Bcast(Function &F) : F(F), DL(F.getParent()->getDataLayout()), E(F) {
    E.loops = true;
    E.max_paths = 3000;
    E.on_ret = [&](State &S, const ReturnInst &) { replay(S); };
  }
  std::string fresh(const Value *v) { return "?" + std::to_string(ids.insert({v, (int)ids.size()}).first->second); }
  void replay(State &S) {
    std::map<const Value *, Sym> val;
    std::map<std::string, Sym> mem;
    std::vector<std::string> events;
    std::function<Sym(const Value *)> sub = [&](const Value *v) -> Sym {
      const Value *w = E.look(S, v);
      auto it = val.find(w);
      if (it != val.end()) return it->second;
      if (auto *C = dyn_cast<ConstantInt>(w)) return C->getBitWidth() <= 64 ? Sym::num(C->getSExtValue()) : Sym::var(fresh(w));
      if (isa<ConstantPointerNull>(w)) return Sym::num(0);
      if (auto *A = dyn_cast<Argument>(w)) {
        static const char *N[] = {"this", "dst", "src"};
        return Sym::var(A->getArgNo() < 3 ? N[A->getArgNo()] : fresh(w));
      }
      if (isa<AllocaInst>(w)) return Sym::var("m" + fresh(w));
      if (auto *G = dyn_cast<GEPOperator>(w)) {
        unsigned bits = DL.getIndexSizeInBits(0);
        MapVector<Value *, APInt> vo;
        APInt co(bits, 0);
        if (G->collectOffset(DL, bits, vo, co)) {
          Sym r = sub(G->getPointerOperand());
          r.c += co.getSExtValue();
          for (auto &x : vo) r = r.plus(sub(x.first), x.second.getSExtValue());
          return r;
        }
      }
      auto *I = dyn_cast<Instruction>(w);
      if (!I) return Sym::var(fresh(w));
      switch (I->getOpcode()) {
      case Instruction::Add: return sub(I->getOperand(0)).plus(sub(I->getOperand(1)));
      case Instruction::Sub: return sub(I->getOperand(0)).plus(sub(I->getOperand(1)), -1);
      case Instruction::Select: {
        AV c = E.eval(S, I->getOperand(0));
        if (c.k == AV::INT)
          if (const APInt *k = c.r.getSingleElement()) return sub(I->getOperand(k->isZero() ? 2 : 1));
        return Sym::var(fresh(w));
      }
      case Instruction::PtrToInt:
      case Instruction::IntToPtr:
      case Instruction::BitCast:
      case Instruction::ZExt:
      case Instruction::SExt:
      case Instruction::Trunc:
      case Instruction::Freeze: return sub(I->getOperand(0));
      default: return Sym::var(fresh(w));
      }
    };
    auto load = [&](const Value *v, const Sym &a) -> Sym {
      auto it = mem.find(a.str());
      if (it != mem.end()) return it->second;
      std::string r;
      if (a.root(r) && r[0] == 'm' && r.size() > 1 && r[1] == '?') return Sym::var("unset");
      if (!a.ok || a.str().find('?') != std::string::npos) return Sym::var(fresh(v));
      return Sym::var("[" + a.str() + "]");
    };
    for (const BasicBlock *b : S.path)
      for (const Instruction &I : *b) {
        if (I.isDebugOrPseudoInst() || isa<PHINode>(I)) continue;
        if (auto *L = dyn_cast<LoadInst>(&I)) {
          val[&I] = load(&I, sub(L->getPointerOperand()));
          continue;
        }
        if (auto *St = dyn_cast<StoreInst>(&I)) {
          Sym a = sub(St->getPointerOperand()), v = sub(St->getValueOperand());
          mem[a.str()] = v;
          std::string r;
          if (!(a.root(r) && r[0] == 'm')) events.push_back("store\t" + a.str() + "\t" + v.str());
          continue;
        }
        if (auto *CB = dyn_cast<CallBase>(&I)) {
          if (isa<IntrinsicInst>(CB)) continue;
          if (!CB->getCalledFunction() && CB->arg_size() == 6 && CB->getArgOperand(5)->getType()->isIntegerTy() && CB->getArgOperand(2)->getType()->isIntegerTy()) {
            std::string e = "child " + where_of(&I) + "\t" + sub(CB->getArgOperand(1)).str() + "\t" + sub(CB->getArgOperand(2)).str() + "\t" + sub(CB->getArgOperand(5)).str();
            for (int t = 3; t <= 4; ++t) {
              Sym p = sub(CB->getArgOperand(t));
              e += "\t";
              for (unsigned i = 0; i < 4; ++i) {
                Sym q = p.plus(Sym::num(8 * i));
                e += (i ? "," : "") + load(CB->getArgOperand(t), q).str();
              }
            }
            events.push_back(e);
          } else {
            std::string e = "call\t" + fresh(&I);
            for (const Use &U : CB->args()) e += "\t" + sub(U.get()).str();
            events.push_back(e);
          }
          if (!I.getType()->isVoidTy()) val[&I] = Sym::var(fresh(&I));
          continue;
        }
        if (!I.getType()->isVoidTy()) val[&I] = sub(&I);
      }
    std::string path;
    for (auto &f : S.facts) {
      std::string s;
      if (auto *C = dyn_cast<ICmpInst>(f.cond)) {
        auto p = C->getPredicate();
        std::string op = p == ICmpInst::ICMP_EQ ? "==" : p == ICmpInst::ICMP_NE ? "!=" : CmpInst::getPredicateName(p).str();
        if (!f.truth) op = op == "==" ? "!=" : op == "!=" ? "==" : "not " + op;
        s = sub(C->getOperand(0)).str() + " " + op + " " + sub(C->getOperand(1)).str();
      } else
        s = sub(f.cond).str() + (f.truth ? " != 0" : " == 0");
      path += (path.empty() ? "" : " && ") + s;
    }
    for (auto &e : events) path += "\n" + e;
    out.insert(path);
  }
};
int m_bcast(Module &M, const std::vector<std::string> &args) {
  std::string filter = args.empty() ? "" : args[0];
  auto &opts = cl::getRegisteredOptions();
  auto o = opts.find("unroll-threshold");
  if (o != opts.end()) o->second->addOccurrence(0, "unroll-threshold", "4000");
  std::vector<Function *> roots;
  for (Function &F : M) {
    if (F.isDeclaration() || F.getName().ends_with(".sa") || F.arg_size() != 3) continue;
    std::string d = demangle_(F.getName());
    size_t p = d.find("::single(");
    if (p == std::string::npos || !any_of_filter(d.substr(0, p), filter)) continue;
    if (args.size() > 1 && any_of_filter(d.substr(0, p), args[1])) continue;
    roots.push_back(&F);
  }
  for (Function *F : roots) {
    Function *W = private_copy(*F);
    InlinePolicy P;
    P.ok = [](const CallBase &, const Function &C) { return C.getInstructionCount() < 60; };
    flatten(*W, P);
    prune_exceptions(*W);
    cleanup(*W);
    for (BasicBlock &BB : *W) BB.getTerminator()->setMetadata(LLVMContext::MD_loop, nullptr);
    run_pipeline(*W, "sroa,early-cse,simplifycfg<no-switch-to-lookup;no-hoist-common-insts;no-sink-common-insts;bonus-inst-threshold=0>,loop-simplify,lcssa,loop(loop-rotate),loop(indvars),loop-unroll<full-unroll-max=16;no-runtime;no-partial>,sroa,early-cse,simplifycfg<no-switch-to-lookup;no-hoist-common-insts;no-sink-common-insts;bonus-inst-threshold=0>,loop-simplify");
    if (getenv("SA_DUMP")) W->print(errs());
    Bcast K(*W);
    K.E.run();
    Json j;
    j.kv("k", "bcast").kv("fn", demangle_(F->getName())).kv("where", where_fn(F)).kv("aborted", K.E.aborted ? K.E.abort_why : std::string()).kv("paths", (int)K.E.paths);
    j.list("out", std::vector<std::string>(K.out.begin(), K.out.end()));
    j.out();
    W->eraseFromParent();
  }
  return 0;
}
ModeReg r_bcast("bcast", m_bcast);
} // namespace
