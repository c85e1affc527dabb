// Dispatch on a type id: for every case of every switch (or equality test) over a constant in the named
// functions, the functions only that case can reach, filtered by a name pattern.
#include "common.h"
#include "llvm/Analysis/PostDominators.h"
#include <regex>

static void refs_of(const Value *V, std::vector<Function *> &out, std::set<const Value *> &seen) {
  if (!seen.insert(V).second) return;
  if (auto *F = dyn_cast<Function>(V)) {
    out.push_back(const_cast<Function *>(F));
    return;
  }
  if (auto *C = dyn_cast<Constant>(V)) {
    if (auto *G = dyn_cast<GlobalVariable>(C)) {
      if (G->hasInitializer() && G->isConstant()) refs_of(G->getInitializer(), out, seen);
      return;
    }
    for (const Use &U : C->operands()) refs_of(U.get(), out, seen);
  }
}

static void reach(const std::vector<BasicBlock *> &bs, const std::regex &stop, std::set<Function *> &seen) {
  std::vector<Function *> work;
  auto scan = [&](Instruction &I) {
    std::set<const Value *> s;
    for (Use &U : I.operands())
      if (isa<Constant>(U.get())) refs_of(U.get(), work, s);
  };
  for (BasicBlock *B : bs)
    for (Instruction &I : *B) scan(I);
  while (!work.empty()) {
    Function *F = work.back();
    work.pop_back();
    if (!seen.insert(F).second || F->isDeclaration()) continue;
    if (std::regex_search(demangle_(F->getName()), stop)) continue;
    for (Instruction &I : instructions(*F)) scan(I);
  }
}

// dispatch <function regex> <name regex, group 1 is reported>
static int m_dispatch(Module &M, const std::vector<std::string> &args) {
  std::regex fn(args[0]), pat(args[1]);
  std::vector<Function *> fs;
  for (Function &F : M)
    if (!F.isDeclaration() && std::regex_search(demangle_(F.getName()), fn)) fs.push_back(&F);
  for (Function *F : fs) {
    Function *W = private_copy(*F, ".disp");
    prune_exceptions(*W);
    run_pipeline(*W, "simplifycfg<no-switch-to-lookup>");
    DominatorTree DT(*W);
    for (BasicBlock &B : *W) {
      std::vector<std::pair<int64_t, BasicBlock *>> cs;
      if (auto *S = dyn_cast<SwitchInst>(B.getTerminator())) {
        for (auto &c : S->cases()) cs.push_back({c.getCaseValue()->getSExtValue(), c.getCaseSuccessor()});
      }
      if (auto *Br = dyn_cast<BranchInst>(B.getTerminator()))
        if (Br->isConditional())
          if (auto *IC = dyn_cast<ICmpInst>(Br->getCondition()))
            if (IC->isEquality())
              if (auto *CI = dyn_cast<ConstantInt>(IC->getOperand(1)))
                if (CI->getBitWidth() == 32) cs.push_back({CI->getSExtValue(), Br->getSuccessor(IC->getPredicate() == ICmpInst::ICMP_EQ ? 0 : 1)});
      for (auto &c : cs) {
        std::vector<BasicBlock *> bs;
        for (BasicBlock &X : *W)
          if (DT.dominates(c.second, &X)) bs.push_back(&X);
        std::set<Function *> fs2;
        reach(bs, pat, fs2);
        std::set<std::string> hit;
        for (Function *f : fs2) {
          std::smatch m;
          std::string d = demangle_(f->getName());
          if (std::regex_search(d, m, pat)) hit.insert(m[1].str());
        }
        Json().kv("k", "case").kv("fn", demangle_(F->getName())).kv("val", (long)c.first).list("hit", std::vector<std::string>(hit.begin(), hit.end())).kv("where", where_of(B.getTerminator())).out();
      }
    }
    W->eraseFromParent();
  }
  return 0;
}
static ModeReg r1("dispatch", m_dispatch);
