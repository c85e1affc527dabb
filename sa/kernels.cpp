#include "kernels.h"

static bool ends(const std::string &s, const std::string &t) { return s.size() >= t.size() && !s.compare(s.size() - t.size(), t.size(), t); }

std::vector<Kernel> find_kernels(Module &M, const std::string &filter) {
  std::vector<Kernel> r;
  for (Function &F : M) {
    if (F.isDeclaration() || !F.getName().starts_with("_ZN") || F.getName().ends_with(".sa")) continue;
    StringRef n0 = F.getName();
    if (!n0.contains("14single_wrapper") && !n0.contains("15strided_wrapper")) continue;
    std::string n = demangle_(n0);
    Kernel K;
    K.orig = &F;
    size_t p;
    if ((p = n.rfind("::single_wrapper(")) != std::string::npos && F.arg_size() == 3)
      K.kind = Kernel::SINGLE;
    else if ((p = n.rfind("::strided_wrapper(")) != std::string::npos && F.arg_size() == 6)
      K.kind = Kernel::STRIDED;
    else
      continue;
    K.cls = n.substr(0, p);
    if (!filter.empty() && K.cls.find(filter) == std::string::npos) continue;
    r.push_back(K);
  }
  std::sort(r.begin(), r.end(), [](const Kernel &a, const Kernel &b) { return a.cls != b.cls ? a.cls < b.cls : a.kind < b.kind; });
  return r;
}

Function *flat_kernel(const Kernel &K) {
  Function *W = private_copy(*K.orig);
  InlinePolicy P;
  P.ok = [](const CallBase &, const Function &) { return true; };
  flatten(*W, P);
  prune_exceptions(*W);
  for (Instruction &I : instructions(*W)) I.setMetadata(LLVMContext::MD_loop, nullptr); // clang -O1 says "do not unroll"
  run_pipeline(*W, "sroa,early-cse,simplifycfg<no-switch-to-lookup;no-hoist-common-insts;no-sink-common-insts;bonus-inst-threshold=0>,loop-simplify,lcssa,loop(loop-rotate),loop(loop-unroll-full),sroa");
  scalarize_memory(*W);
  cleanup(*W, "early-cse,memcpyopt,dse,sroa,instsimplify,scalarizer,sroa,instsimplify,early-cse,simplifycfg<no-switch-to-lookup;no-hoist-common-insts;no-sink-common-insts;bonus-inst-threshold=0>");
  return W;
}

std::string Root::str() const {
  switch (k) {
  case DST: return "dst";
  case SRC: return "src[" + std::to_string(i) + "]";
  case SELF: return "self";
  case MIXED: return "mixed";
  case OTHER: return "other";
  default: return "?";
  }
}

static void roots(const Kernel &K, Function &F, const Value *p, std::set<const Value *> &seen, std::vector<Root> &out) {
  p = p->stripPointerCasts();
  if (!seen.insert(p).second) return;
  if (auto *G = dyn_cast<GEPOperator>(p)) return roots(K, F, G->getPointerOperand(), seen, out);
  if (auto *P = dyn_cast<PHINode>(p)) {
    for (auto &v : P->incoming_values()) roots(K, F, v, seen, out);
    return;
  }
  if (auto *S = dyn_cast<SelectInst>(p)) {
    roots(K, F, S->getTrueValue(), seen, out);
    roots(K, F, S->getFalseValue(), seen, out);
    return;
  }
  unsigned srcarg = K.kind == Kernel::SINGLE ? 2 : 3;
  Root r;
  if (p == F.getArg(0)) r.k = Root::SELF;
  else if (p == F.getArg(1)) r.k = Root::DST;
  else if (auto *L = dyn_cast<LoadInst>(p)) {
    APInt off(64, 0);
    const Value *b = L->getPointerOperand()->stripAndAccumulateConstantOffsets(F.getParent()->getDataLayout(), off, true);
    if (b == F.getArg(srcarg) && off.getSExtValue() >= 0 && off.getSExtValue() % 8 == 0) {
      r.k = Root::SRC;
      r.i = off.getSExtValue() / 8;
    } else
      r.k = Root::OTHER;
  } else
    r.k = Root::OTHER;
  out.push_back(r);
}

Root root_of(const Kernel &K, Function &F, const Value *p) {
  std::set<const Value *> seen;
  std::vector<Root> out;
  roots(K, F, p, seen, out);
  if (out.empty()) return Root();
  for (auto &x : out)
    if (!(x == out[0])) {
      Root m;
      m.k = Root::MIXED;
      return m;
    }
  return out[0];
}

static int m_kdump(Module &M, const std::vector<std::string> &args) {
  for (Kernel &K : find_kernels(M, args[0])) {
    Function *W = flat_kernel(K);
    outs() << "; " << K.cls << "\n";
    W->print(outs());
  }
  return 0;
}
static ModeReg r_kdump("kdump", m_kdump);
