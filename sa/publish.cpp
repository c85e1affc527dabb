// Published names, operators and the initialisers of published functions.
#include "common.h"
#include <regex>

static std::string const_string(const Value *V) {
  V = V->stripPointerCasts();
  if (auto *G = dyn_cast<GlobalVariable>(V))
    if (G->hasInitializer() && G->isConstant())
      if (auto *D = dyn_cast<ConstantDataSequential>(G->getInitializer()))
        if (D->isCString()) return D->getAsCString().str();
  return "";
}

static std::string gname(const Value *V) {
  V = V->stripPointerCasts();
  if (auto *G = dyn_cast<GlobalVariable>(V)) return demangle_(G->getName());
  return "";
}

static void refs_in(const Value *V, std::vector<Function *> &out, std::set<const Value *> &seen) {
  if (!seen.insert(V).second) return;
  if (auto *F = dyn_cast<Function>(V)) {
    out.push_back(const_cast<Function *>(F));
    return;
  }
  if (auto *C = dyn_cast<Constant>(V)) {
    if (auto *G = dyn_cast<GlobalVariable>(C)) {
      if (G->hasInitializer() && G->isConstant()) refs_in(G->getInitializer(), out, seen);
      return;
    }
    for (const Use &U : C->operands()) refs_in(U.get(), out, seen);
  }
}

static int m_publish(Module &M, const std::vector<std::string> &args) {
  std::regex glob("^dynd::nd::[a-z_:]+$");
  std::regex pat(args[0]);
  for (Function &F : M) {
    if (F.isDeclaration()) continue;
    std::string fn = demangle_(F.getName());
    // name -> function pairs
    if (fn.compare(0, 6, "dynd::") == 0 && fn.find("registered") != std::string::npos) {
      for (Instruction &I : instructions(F)) {
        auto *CB = dyn_cast<CallBase>(&I);
        if (!CB) continue;
        std::string s, g;
        for (Value *A : CB->args()) {
          if (!A->getType()->isPointerTy()) continue;
          if (s.empty()) s = const_string(A);
          std::string x = gname(A);
          if (std::regex_match(x, glob)) g = x;
        }
        if (!s.empty() && !g.empty()) Json().kv("k", "name").kv("fn", fn).kv("name", s).kv("global", g).kv("where", where_of(&I)).out();
      }
    }
    // operators
    if (std::regex_search(fn, std::regex("^dynd::nd::(array::)?operator[^a-zA-Z(]+\\(dynd::nd::array const&(, dynd::nd::array const&)?\\)$"))) {
      bool sret = F.arg_size() && F.getArg(0)->hasStructRetAttr();
      InlinePolicy P;
      P.max_depth = 4;
      P.callee_limit = 400;
      P.ok = [](const CallBase &, const Function &c) {
        std::string d = demangle_(c.getName());
        return d.find("callable::") == std::string::npos && d.find("::array::array(") == std::string::npos && d.find("~") == std::string::npos;
      };
      flatten(F, P);
      cleanup(F);
      std::map<const Value *, std::string> copies;
      for (int round = 0; round < 2; ++round)
        for (Instruction &I : instructions(F))
          if (auto *CB = dyn_cast<CallBase>(&I))
            if (Function *c = CB->getCalledFunction())
              if (CB->arg_size() == 2 && std::regex_search(demangle_(c->getName()), std::regex("::array::array\\(dynd::nd::array (const)?&")))
                if (auto *A = dyn_cast<Argument>(CB->getArgOperand(1)->stripPointerCasts())) copies[CB->getArgOperand(0)->stripPointerCasts()] = std::to_string(A->getArgNo() - sret);
      std::vector<std::string> calls;
      for (Instruction &I : instructions(F)) {
        auto *CB = dyn_cast<CallBase>(&I);
        if (!CB) continue;
        std::string g;
        std::vector<std::string> ops;
        for (Value *A : CB->args()) {
          Value *v = A->stripPointerCasts();
          std::string x = gname(v);
          if (std::regex_match(x, glob)) {
            if (g.empty()) g = x;
            continue;
          }
          if (auto *P = dyn_cast<Argument>(v)) {
            if (!(sret && P->getArgNo() == 0)) ops.push_back(std::to_string(P->getArgNo() - sret));
          } else if (copies.count(v))
            ops.push_back(copies[v]);
        }
        if (!g.empty()) {
          std::string s = g + "(";
          for (auto &o : ops) s += o + ",";
          calls.push_back(s + ")");
        }
      }
      Json().kv("k", "op").kv("fn", fn).list("calls", calls).kv("where", where_fn(&F)).out();
    }
  }
  // initialisers
  for (GlobalVariable &G : M.globals()) {
    std::string g = demangle_(G.getName());
    if (G.isDeclaration() || !std::regex_match(g, glob)) continue;
    std::set<Function *> seen;
    std::vector<Function *> work;
    for (User *U : G.users())
      if (auto *I = dyn_cast<Instruction>(U)) {
        Function *F = I->getFunction();
        if (F->getName().starts_with("__cxx_global_var_init")) {
          work.push_back(F);
        } else if (F->getName().starts_with("_GLOBAL__sub_I"))
          work.push_back(F);
      }
    if (work.empty()) continue;
    std::set<std::string> hit;
    while (!work.empty()) {
      Function *F = work.back();
      work.pop_back();
      if (!seen.insert(F).second) continue;
      std::string d = demangle_(F->getName());
      std::smatch m;
      if (std::regex_search(d, m, pat)) hit.insert(m[1].str());
      if (F->isDeclaration()) {
        if (d.find("::") == std::string::npos && d.find("llvm.") != 0) hit.insert("extern:" + d);
        continue;
      }
      for (Instruction &I : instructions(*F)) {
        std::set<const Value *> s;
        for (Use &U : I.operands())
          if (isa<Constant>(U.get())) refs_in(U.get(), work, s);
      }
    }
    Json().kv("k", "init").kv("global", g).list("hit", std::vector<std::string>(hit.begin(), hit.end())).out();
  }
  return 0;
}
static ModeReg r1("publish", m_publish);
