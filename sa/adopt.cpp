// Construction sites of counted handles: what pointer, and does the handle add a reference?
#include "common.h"
#include <regex>

static const Value *resolve_arg(const Value *V) { return V->stripPointerCasts(); }

static std::string origin(const Value *V, Function &F, std::set<const Value *> &seen, int depth = 0) {
  V = resolve_arg(V);
  if (!seen.insert(V).second) return "";
  if (isa<ConstantPointerNull>(V)) return "null";
  if (auto *CE = dyn_cast<ConstantExpr>(V)) {
    if (CE->getOpcode() == Instruction::IntToPtr) return "tag";
    return "constant";
  }
  if (isa<IntToPtrInst>(V)) return "tag";
  if (auto *A = dyn_cast<Argument>(V)) return "arg" + std::to_string(A->getArgNo());
  if (auto *CB = dyn_cast<CallBase>(V)) {
    Function *f = CB->getCalledFunction();
    std::string n = f ? demangle_(f->getName()) : "?";
    if (n.compare(0, 12, "operator new") == 0 || n.find("::operator new") != std::string::npos) return "new";
    return "call " + n;
  }
  if (isa<LoadInst>(V)) return "load";
  if (auto *P = dyn_cast<PHINode>(V)) {
    std::set<std::string> s;
    for (auto &v : P->incoming_values()) {
      std::string o = origin(v, F, seen, depth + 1);
      if (!o.empty()) s.insert(o);
    }
    std::string r;
    for (auto &x : s) r += (r.empty() ? "" : "|") + x;
    return r;
  }
  if (auto *S = dyn_cast<SelectInst>(V)) {
    std::set<std::string> s;
    for (const Value *v : {S->getTrueValue(), S->getFalseValue()}) {
      std::string o = origin(v, F, seen, depth + 1);
      if (!o.empty()) s.insert(o);
    }
    std::string r;
    for (auto &x : s) r += (r.empty() ? "" : "|") + x;
    return r;
  }
  if (isa<GEPOperator>(V)) return "interior";
  if (isa<AllocaInst>(V)) return "local";
  return "other";
}

// adopt <regex of constructors taking (pointer, bool)>
static int m_adopt(Module &M, const std::vector<std::string> &args) {
  std::regex ctor(args[0]);
  std::set<Function *> cs;
  for (Function &F : M)
    if (std::regex_search(demangle_(F.getName()), ctor)) cs.insert(&F);
  std::set<Function *> users;
  for (Function *C : cs)
    for (User *U : C->users())
      if (auto *CB = dyn_cast<CallBase>(U))
        if (CB->getCalledFunction() == C) users.insert(CB->getFunction());
  std::set<const Function *> members; // forwarding constructors of derived handles
  for (Function *F : users) {
    Function *W = private_copy(*F, ".ad");
    prune_exceptions(*W);
    cleanup(*W);
    for (Instruction &I : instructions(*W)) {
      auto *CB = dyn_cast<CallBase>(&I);
      if (!CB || !CB->getCalledFunction() || !cs.count(CB->getCalledFunction()) || CB->arg_size() != 3) continue;
      std::string d = demangle_(F->getName());
      std::set<const Value *> seen;
      std::string o = origin(CB->getArgOperand(1), *W, seen);
      auto *fl = dyn_cast<ConstantInt>(CB->getArgOperand(2));
      // a fresh object: which constructor initialised it?
      std::string cls;
      const Value *p = resolve_arg(CB->getArgOperand(1));
      for (Instruction &J : instructions(*W))
        if (auto *K = dyn_cast<CallBase>(&J))
          if (K != CB && K->arg_size() >= 1 && K->getCalledFunction() && resolve_arg(K->getArgOperand(0)) == p) {
            std::string n = demangle_(K->getCalledFunction()->getName());
            if (n.find("operator") == std::string::npos) cls = n.substr(0, n.find('('));
          }
      Json().kv("k", "site").kv("fn", d).kv("ctor", demangle_(CB->getCalledFunction()->getName())).kv("origin", o).kv("flag", fl ? (fl->isZero() ? "adopt" : "share") : "?").kv("cls", cls).kv("where", where_of(&I)).out();
    }
    W->eraseFromParent();
  }
  return 0;
}
static ModeReg r1("adopt", m_adopt);

// initcount <regex>: constants the constructors store into the object, by offset
static int m_initcount(Module &M, const std::vector<std::string> &args) {
  std::regex ctor(args[0]);
  std::vector<Function *> fs;
  for (Function &F : M)
    if (!F.isDeclaration() && std::regex_search(demangle_(F.getName()), ctor)) fs.push_back(&F);
  for (Function *F : fs) {
    Function *W = private_copy(*F, ".ic");
    InlinePolicy P;
    P.ok = [](const CallBase &, const Function &f) { return demangle_(f.getName()).find("atomic") != std::string::npos; };
    flatten(*W, P);
    cleanup(*W);
    for (Instruction &I : instructions(*W))
      if (auto *S = dyn_cast<StoreInst>(&I)) {
        APInt off(64, 0);
        const Value *b = S->getPointerOperand()->stripAndAccumulateConstantOffsets(M.getDataLayout(), off, true);
        if (b == W->getArg(0)) {
          auto *C = dyn_cast<ConstantInt>(S->getValueOperand());
          Json().kv("k", "init").kv("fn", demangle_(F->getName())).kv("off", (long)off.getSExtValue()).kv("val", C ? std::to_string(C->getSExtValue()) : "?").kv("where", where_of(S)).out();
        }
      }
    W->eraseFromParent();
  }
  return 0;
}
static ModeReg r2("initcount", m_initcount);
