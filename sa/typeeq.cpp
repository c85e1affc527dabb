// Structural equality: which components an equality operator compares before it answers "equal",
// and which components a constructor stores from its parameters.
#include "absint.h"
#include <regex>

namespace {
typedef std::pair<int, int64_t> Cell; // (argument, byte offset)

// Cells of *this / *rhs a value is computed from.
struct Roots {
  Explorer &E;
  const State &S;
  std::set<Cell> cells;
  std::set<const Value *> seen;
  bool addr_only = false;
  void go(const Value *v, unsigned d = 0) {
    v = E.look(S, v);
    if (!v || isa<Constant>(v) || d > 30 || !seen.insert(v).second) return;
    if (v->getType()->isPointerTy()) {
      Addr a = E.addr(S, v);
      if (a.ok && a.base) {
        if (auto *A = dyn_cast<Argument>(a.base)) {
          cells.insert({(int)A->getArgNo(), a.off});
          return;
        }
        if (a.base != v) {
          go(a.base, d + 1);
          return;
        }
      }
    }
    if (auto *L = dyn_cast<LoadInst>(v)) return go(L->getPointerOperand(), d + 1);
    if (auto *C = dyn_cast<CallBase>(v)) {
      for (const Use &U : C->args()) go(U.get(), d + 1);
      return;
    }
    if (auto *P = dyn_cast<PHINode>(v)) {
      for (const Use &U : P->incoming_values()) go(U.get(), d + 1);
      return;
    }
    if (auto *I = dyn_cast<Instruction>(v))
      for (const Use &U : I->operands()) go(U.get(), d + 1);
  }
};

std::string cellstr(const std::set<Cell> &c) {
  std::string s;
  for (auto &x : c) s += (s.empty() ? "" : "+") + std::to_string(x.first) + ":" + std::to_string(x.second);
  return s;
}

std::string class_of(const std::string &d, const char *op) {
  std::smatch m;
  if (std::regex_search(d, m, std::regex(op))) return m[1].str();
  return "";
}

std::string callee_name(const CallBase &C) {
  if (Function *c = C.getCalledFunction()) return demangle_(c->getName());
  return "(virtual)";
}

// kind: whole (library equality on the component), part (element or size), id, ptr
struct Atom {
  std::string kind, what;
  int eq; // 1 equal, 0 differs, -1 unknown
};

Atom classify(Explorer &E, const State &S, const Value *c, bool truth, std::set<const Value *> *deps = nullptr) {
  Atom a{"other", "", -1};
  while (true) {
    c = E.look(S, c);
    if (auto *B = dyn_cast<BinaryOperator>(c))
      if (B->getOpcode() == Instruction::Xor)
        if (auto *K = dyn_cast<ConstantInt>(B->getOperand(1)))
          if (K->isOne()) {
            truth = !truth;
            c = B->getOperand(0);
            continue;
          }
    if (auto *Z = dyn_cast<ZExtInst>(c)) {
      c = Z->getOperand(0);
      continue;
    }
    if (auto *Z = dyn_cast<TruncInst>(c))
      if (Z->getType()->isIntegerTy(1)) {
        c = Z->getOperand(0);
        continue;
      }
    if (auto *I = dyn_cast<ICmpInst>(c))
      if (auto *K = dyn_cast<ConstantInt>(I->getOperand(1)))
        if (K->isZero() && I->isEquality()) {
          const Value *x = E.look(S, I->getOperand(0));
          if (auto *Z = dyn_cast<ZExtInst>(x))
            if (Z->getOperand(0)->getType()->isIntegerTy(1)) {
              if (I->getPredicate() == ICmpInst::ICMP_EQ) truth = !truth;
              c = Z->getOperand(0);
              continue;
            }
          if (auto *CB = dyn_cast<CallBase>(x)) {
            std::string n = callee_name(*CB);
            bool cmp = n == "memcmp" || n == "bcmp" || n == "strcmp" || n == "strncmp" || n.find("::compare(") != std::string::npos;
            bool yes = I->getPredicate() == ICmpInst::ICMP_EQ ? truth : !truth; // call returned 0
            std::set<Cell> l, r;
            if (CB->arg_size() >= 2) {
              Roots R0{E, S}, R1{E, S};
              R0.go(CB->getArgOperand(0));
              R1.go(CB->getArgOperand(1));
              a.kind = "whole";
              a.what = cellstr(R0.cells) + "|" + cellstr(R1.cells);
              bool neg = n.find("operator!=") != std::string::npos;
              a.eq = (cmp || neg) ? yes : !yes;
              return a;
            }
          }
        }
    break;
  }
  auto reach = [&](const CallBase *CB) { // the component itself is handed over, or something inside it
    for (unsigned i = 0; i < 2; ++i) {
      const Value *v = E.look(S, CB->getArgOperand(i));
      if (!v->getType()->isPointerTy()) continue;
      Addr ad = E.addr(S, v);
      if (ad.ok && isa_and_nonnull<Argument>(ad.base)) continue;
      auto *L = dyn_cast_or_null<LoadInst>(ad.ok ? ad.base : v); // a pointer held directly in the component
      if (L) {
        Addr b = E.addr(S, L->getPointerOperand());
        if (b.ok && isa_and_nonnull<Argument>(b.base)) continue;
      }
      return "part";
    }
    return "whole";
  };
  auto pair = [&](const Value *x, const Value *y, const char *kind) {
    Roots R0{E, S}, R1{E, S};
    R0.go(x);
    R1.go(y);
    a.kind = kind;
    a.what = cellstr(R0.cells) + "|" + cellstr(R1.cells);
  };
  if (auto *I = dyn_cast<ICmpInst>(c)) {
    const Value *x = E.look(S, I->getOperand(0)), *y = E.look(S, I->getOperand(1));
    if (isa<Constant>(x)) std::swap(x, y);
    if (auto *K = dyn_cast<ConstantInt>(y)) {
      auto *B = dyn_cast<BinaryOperator>(x);
      if (B && K->isZero() && I->isEquality() && (B->getOpcode() == Instruction::Sub || B->getOpcode() == Instruction::Xor)) {
        x = E.look(S, B->getOperand(0));
        y = E.look(S, B->getOperand(1));
        K = nullptr;
      }
      if (K) {
        Roots R{E, S};
        R.go(x);
        a.kind = "const";
        a.what = cellstr(R.cells) + "|" + toString(K->getValue(), 10, true);
        if (I->isEquality()) a.eq = (I->getPredicate() == ICmpInst::ICMP_EQ) == truth;
        return a;
      }
    }
    auto *A0 = dyn_cast<Argument>(x), *A1 = dyn_cast<Argument>(y);
    if (A0 && A1) {
      a.kind = "same";
      if (I->isEquality()) a.eq = (I->getPredicate() == ICmpInst::ICMP_EQ) == truth;
      return a;
    }
    // direct loads of a cell on both sides compare the whole scalar component
    auto direct = [&](const Value *v) {
      v = E.look(S, v);
      while (isa<CastInst>(v)) v = E.look(S, cast<CastInst>(v)->getOperand(0));
      auto *L = dyn_cast<LoadInst>(v);
      if (!L) return false;
      Addr ad = E.addr(S, L->getPointerOperand());
      return ad.ok && isa_and_nonnull<Argument>(ad.base);
    };
    pair(x, y, direct(x) && direct(y) ? "whole" : "part");
    if (I->isEquality()) a.eq = (I->getPredicate() == ICmpInst::ICMP_EQ) == truth;
    else { // an ordering: which side is larger, seen from the left-hand object
      CmpInst::Predicate p = truth ? I->getPredicate() : I->getInversePredicate();
      Roots R0{E, S};
      R0.go(I->getOperand(0));
      if (!R0.cells.empty() && R0.cells.begin()->first == 1) p = CmpInst::getSwappedPredicate(p);
      bool strict = !CmpInst::isNonStrictPredicate(p), less = CmpInst::isNonStrictPredicate(p) ? (p == ICmpInst::ICMP_ULE || p == ICmpInst::ICMP_SLE) : (p == ICmpInst::ICMP_ULT || p == ICmpInst::ICMP_SLT);
      if (strict) a.eq = 0;
      else {
        a.eq = 2;
        a.kind = std::string(a.kind) + (less ? "-le" : "-ge");
      }
    }
    return a;
  }
  if (auto *CB = dyn_cast<CallBase>(c)) {
    if (CB->arg_size() >= 2) {
      bool neg = callee_name(*CB).find("operator!=") != std::string::npos;
      pair(CB->getArgOperand(0), CB->getArgOperand(1), reach(CB));
      a.eq = neg ? !truth : truth;
      return a;
    }
    a.kind = "call";
    a.what = callee_name(*CB);
    a.eq = -1;
    return a;
  }
  Roots R{E, S};
  R.go(c);
  a.what = cellstr(R.cells);
  return a;
}

void eq(Function &F0, const std::string &cls, const std::string &fn) {
  Function *F = private_copy(F0);
  InlinePolicy P;
  P.ok = [&](const CallBase &CB, const Function &c) {
    std::string d = demangle_(c.getName());
    if (d.find("operator==") != std::string::npos || d.find("operator!=") != std::string::npos) return false;
    if (d.find("std::__equal") != std::string::npos || d.find("std::equal") != std::string::npos) return true;
    return d.find("dynd::") != std::string::npos || d.find("std::") == 0 || d.find("__gnu_cxx") == 0 || d.find(" std::") != std::string::npos;
  };
  P.callee_limit = 600;
  flatten(*F, P);
  prune_exceptions(*F);
  cleanup(*F);
  Explorer E(*F);
  E.loops = true;
  std::map<const BasicBlock *, int> ids;
  for (BasicBlock &B : *F) ids[&B] = ids.size();
  auto hid = [&](const BasicBlock *B) { return std::to_string(ids[B]); };
  auto facts = [&](const State &T) {
    std::vector<std::string> fs;
    for (auto &f : T.facts) {
      const Value *c = E.look(T, f.cond);
      auto *Op = dyn_cast<Instruction>(c);
      if (Op && (isa<PHINode>(Op) || isa<SelectInst>(Op) || Op->getOpcode() == Instruction::And || Op->getOpcode() == Instruction::Or)) continue; // its parts are listed
      Atom a = classify(E, T, f.cond, f.truth);
      fs.push_back((a.eq == 1 ? "=" : a.eq == 0 ? "!" : a.eq == 2 ? "~" : "?") + a.kind + " " + a.what);
    }
    return fs;
  };
  auto record = [&](State &S, const Value *rv, const Instruction *at) {
    auto one = [&](bool truth, const State &T) {
      std::vector<std::string> hs;
      for (auto *B : T.path)
        if (E.headers.count(B)) hs.push_back(hid(B));
      Json().kv("k", "eq").kv("cls", cls).kv("fn", fn).kv("ret", truth ? 1 : 0).list("facts", facts(T)).list("loops", hs).kv("where", where_of(at)).out();
    };
    AV v = E.eval(S, rv);
    if (v.k == AV::INT && v.r.isSingleElement()) one(v.r.getSingleElement()->isOne(), S);
    else
      for (bool t : {true, false})
        for (const State &T : E.assume(S, rv, t)) one(t, T);
  };
  E.on_back = [&](State &S, const BasicBlock &H) { Json().kv("k", "back").kv("cls", cls).kv("fn", fn).kv("header", hid(&H)).list("facts", facts(S)).out(); };
  E.on_ret = [&](State &S, const ReturnInst &R) {
    if (R.getReturnValue()) record(S, E.look(S, R.getReturnValue()), &R);
  };
  E.run();
  Json().kv("k", "eqfn").kv("cls", cls).kv("fn", fn).kv("aborted", E.aborted ? E.abort_why : std::string("")).kv("paths", (long)E.paths).kv("where", where_fn(&F0)).out();
}

void ctor(Function &F0, const std::string &cls, const std::string &fn) {
  Function *F = private_copy(F0);
  InlinePolicy P;
  P.ok = [&](const CallBase &CB, const Function &c) {
    std::string d = demangle_(c.getName());
    if (d.find("std::") == 0) return false;
    return std::regex_search(d, std::regex("^dynd::(ndt::[a-z0-9_]+::[a-z0-9_]+\\(|ndt::type::type\\(|intrusive_ptr<.*>::intrusive_ptr\\()"));
  };
  P.callee_limit = 3000;
  flatten(*F, P);
  prune_exceptions(*F);
  cleanup(*F);
  Explorer E(*F);
  State S;
  // walk back to "a copy of parameter n"
  std::function<int(const Value *, unsigned)> param = [&](const Value *v, unsigned d) -> int {
    v = v->stripPointerCasts();
    if (d > 8) return -1;
    if (auto *A = dyn_cast<Argument>(v)) return A->getArgNo();
    if (auto *C = dyn_cast<CastInst>(v)) return param(C->getOperand(0), d + 1);
    if (auto *L = dyn_cast<LoadInst>(v)) {
      auto *A = dyn_cast<Argument>(L->getPointerOperand()->stripPointerCasts());
      return A && A->getArgNo() > 0 ? (int)A->getArgNo() : -1;
    }
    return -1;
  };
  std::map<const Value *, int> temp; // by-value copies made on the way
  for (int round = 0; round < 3; ++round)
    for (Instruction &I : instructions(*F)) {
      auto *CB = dyn_cast<CallBase>(&I);
      if (!CB || !CB->getType()->isVoidTy() || CB->arg_size() < 2) continue;
      const Value *d = CB->getArgOperand(0)->stripPointerCasts(), *s = CB->getArgOperand(1)->stripPointerCasts();
      if (!isa<AllocaInst>(d)) continue;
      int p = isa<Argument>(s) ? (int)cast<Argument>(s)->getArgNo() : temp.count(s) ? temp[s] : -1;
      if (p > 0 && !temp.count(d)) temp[d] = p;
    }
  std::set<std::pair<int, int64_t>> copies;
  auto dst = [&](const Value *p, int64_t &off) {
    Addr a = E.addr(S, p);
    if (!a.ok || !isa_and_nonnull<Argument>(a.base) || cast<Argument>(a.base)->getArgNo() != 0) return false;
    off = a.off;
    return true;
  };
  std::set<std::string> consts;
  for (Instruction &I : instructions(*F)) {
    int64_t off;
    if (auto *St = dyn_cast<StoreInst>(&I)) {
      if (!dst(St->getPointerOperand(), off)) continue;
      if (auto *K = dyn_cast<ConstantInt>(St->getValueOperand())) consts.insert(std::to_string(off) + "=" + toString(K->getValue(), 10, true));
      int p = param(St->getValueOperand(), 0);
      if (p > 0) copies.insert({p, off});
    } else if (auto *CB = dyn_cast<CallBase>(&I)) {
      if (CB->arg_size() < 2 || !CB->getArgOperand(0)->getType()->isPointerTy()) continue;
      if (!dst(CB->getArgOperand(0), off)) continue;
      std::string n = callee_name(*CB);
      if (n == "(virtual)") continue;
      if (!std::regex_search(n, std::regex("::([a-zA-Z_]+)(<.*>)?::(basic_string|\\1)\\(|::operator=\\(|memcpy|::vector\\(|::basic_string\\("))) continue;
      for (unsigned i = 1; i < CB->arg_size(); ++i) {
        const Value *s = CB->getArgOperand(i)->stripPointerCasts();
        int p = isa<Argument>(s) ? (int)cast<Argument>(s)->getArgNo() : temp.count(s) ? temp[s] : -1;
        if (p > 0) copies.insert({p, off});
        break;
      }
    }
  }
  // element by element copies into storage held by a component
  for (Instruction &I : instructions(*F)) {
    auto *CB = dyn_cast<CallBase>(&I);
    if (!CB || CB->arg_size() < 2 || !CB->getArgOperand(0)->getType()->isPointerTy() || !CB->getArgOperand(1)->getType()->isPointerTy()) continue;
    std::string n = callee_name(*CB);
    if (n.find("::operator=(") == std::string::npos && n.find("memcpy") == std::string::npos) continue;
    Roots D{E, S}, R{E, S};
    D.go(CB->getArgOperand(0));
    R.go(CB->getArgOperand(1));
    if (D.cells.size() != 1 || R.cells.size() != 1 || D.cells.begin()->first != 0 || R.cells.begin()->first < 1) continue;
    copies.insert({R.cells.begin()->first, D.cells.begin()->second});
  }
  std::vector<std::string> cs;
  for (auto &c : copies) cs.push_back(std::to_string(c.first) + ">" + std::to_string(c.second));
  Json().kv("k", "ctor").kv("cls", cls).kv("fn", fn).kv("params", (long)(F->arg_size() - 1)).list("copies", cs).list("consts", std::vector<std::string>(consts.begin(), consts.end())).kv("where", where_fn(&F0)).out();
}

int m_typeeq(Module &M, const std::vector<std::string> &) {
  std::vector<Function *> fs;
  for (Function &F : M)
    if (!F.isDeclaration()) fs.push_back(&F);
  for (Function *F : fs) {
    std::string d = demangle_(F->getName());
    std::string c = class_of(d, "^dynd::ndt::([a-z0-9_]+)::operator==\\(dynd::ndt::base_type const&\\) const$");
    if (!c.empty()) {
      eq(*F, c, d);
      continue;
    }
    if (std::regex_search(d, std::regex("^dynd::ndt::type::operator[!=]=\\(dynd::ndt::type const&\\) const$"))) {
      eq(*F, "type", d);
      continue;
    }
    std::smatch m;
    if (std::regex_search(d, m, std::regex("^dynd::ndt::([a-z0-9_]+_type)::\\1\\(")) && F->arg_size() >= 1) {
      if (F->getName().contains("C1")) continue;
      ctor(*F, m[1].str(), d);
    }
  }
  return 0;
}
} // namespace
static ModeReg r1("typeeq", m_typeeq);
