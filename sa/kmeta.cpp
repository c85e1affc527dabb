// Which metadata each child kernel is given: for every function that instantiates a recorded node, the places in the
// operands' per-array metadata handed to every child, and what the kernel itself took from the part stepped over.
#include "common.h"
#include "absint.h"
#include "sym.h"
#include "llvm/Support/CommandLine.h"

namespace {
bool builder_fn(const CallBase &CB, StringRef part) {
  auto *C = dyn_cast<Function>(CB.getCalledOperand()->stripPointerCasts());
  return C && (C->getName().starts_with("_ZN4dynd2nd14kernel_builder") || C->getName().starts_with("_ZN4dynd10storagebufINS_2nd13kernel_prefixENS1_14kernel_builderEE")) && C->getName().contains(part);
}
bool is_child(const CallBase &CB) { return builder_fn(CB, "kernel_builderclE"); }
bool is_emplace(const CallBase &CB) { return builder_fn(CB, "12emplace_backI"); }

struct Meta {
  Function &F;
  const DataLayout &DL;
  Explorer E;
  std::set<std::string> out;
  std::map<const Value *, int> ids;
  explicit Meta(Function &F) : F(F), DL(F.getParent()->getDataLayout()), E(F) {
    E.loops = true;
    E.max_paths = 3000;
    E.on_ret = [&](State &S, const ReturnInst &) { replay(S); };
  }
  std::string fresh(const Value *v) {
    auto it = ids.insert({v, (int)ids.size()}).first;
    return "?" + std::to_string(it->second);
  }
  void replay(State &S) {
    std::map<const Value *, Sym> val;
    std::map<std::string, Sym> mem;  // place -> content
    std::set<std::string> smeared;   // memory objects written at unknown places
    std::vector<std::string> events;
    DominatorTree DT(F);
    LoopInfo LI(DT);
    std::function<Sym(const Value *)> sub;
    auto place = [&](const Sym &a) { return a.str(); };
    auto load = [&](const Instruction *I, const Sym &a) -> Sym {
      std::string p = place(a), r;
      auto it = mem.find(p);
      if (it != mem.end()) return it->second;
      if (a.ok && a.root(r)) {
        if (r == "srcs" && a.c % 8 == 0) return Sym::var("src" + std::to_string(a.c / 8));
        if (r == "node") return Sym::var("cap+" + std::to_string(a.c));
        if (r == "dst" || r.substr(0, 3) == "src") return Sym::var("[" + a.str() + "]");
      }
      return Sym::var(fresh(I));
    };
    sub = [&](const Value *v) -> Sym {
      const Value *w = E.look(S, v);
      auto it = val.find(w);
      if (it != val.end()) return it->second;
      if (auto *C = dyn_cast<ConstantInt>(w)) return C->getBitWidth() <= 64 ? Sym::num(C->getSExtValue()) : Sym::var(fresh(w));
      if (isa<ConstantPointerNull>(w)) return Sym::num(0);
      if (auto *A = dyn_cast<Argument>(w)) {
        static const char *N[] = {"node", "kb", "req", "data", "dst", "nsrc", "srcs"};
        if (A->getArgNo() < 7) return Sym::var(N[A->getArgNo()]);
      }
      if (isa<AllocaInst>(w)) return Sym::var("m" + fresh(w));
      if (auto *G = dyn_cast<GEPOperator>(w)) {
        unsigned bits = DL.getIndexSizeInBits(0);
        MapVector<Value *, APInt> vo;
        APInt co(bits, 0);
        if (G->collectOffset(DL, bits, vo, co)) {
          Sym r = sub(G->getPointerOperand());
          r.c += co.getSExtValue();
          for (auto &x : vo) {
            Sym y = sub(x.first);
            int64_t k = x.second.getSExtValue();
            r = r.plus(y, k);
          }
          return r;
        }
      }
      auto *I = dyn_cast<Instruction>(w);
      if (!I) return Sym::var(fresh(w));
      switch (I->getOpcode()) {
      case Instruction::Add: return sub(I->getOperand(0)).plus(sub(I->getOperand(1)));
      case Instruction::Sub: return sub(I->getOperand(0)).plus(sub(I->getOperand(1)), -1);
      case Instruction::Mul:
      case Instruction::Shl:
        if (auto *C = dyn_cast<ConstantInt>(I->getOperand(1))) {
          int64_t k = C->getSExtValue();
          if (I->getOpcode() == Instruction::Shl) k = k >= 0 && k < 40 ? (int64_t)1 << k : 0;
          if (k) return Sym::num(0).plus(sub(I->getOperand(0)), k);
        }
        return Sym::var(fresh(w));
      case Instruction::PtrToInt:
      case Instruction::IntToPtr:
      case Instruction::BitCast:
      case Instruction::ZExt:
      case Instruction::SExt:
      case Instruction::Trunc:
      case Instruction::Freeze: return sub(I->getOperand(0));
      default: return Sym::var(fresh(w));
      }
    };
    auto content = [&](const Sym &a, unsigned i) { // i-th pointer of a table
      Sym p = a.plus(Sym::num(8 * i));
      std::string r;
      if (p.root(r) && r == "srcs") return "src" + std::to_string(p.c / 8);
      auto it = mem.find(place(p));
      if (it != mem.end()) return it->second.str();
      if (a.root(r) && r[0] == 'm') return std::string(smeared.count(r) ? "?" : "unset");
      return std::string("?");
    };
    for (size_t bi = 0; bi < S.path.size(); ++bi) {
      const BasicBlock *b = S.path[bi];
      if (E.headers.count(b)) {
        Loop *L = LI.getLoopFor(b);
        // what the loop may write
        for (BasicBlock *x : L->blocks())
          for (Instruction &I : *x) {
            const Value *p = nullptr;
            if (auto *St = dyn_cast<StoreInst>(&I)) p = St->getPointerOperand();
            else if (auto *MI = dyn_cast<MemIntrinsic>(&I)) p = MI->getRawDest();
            if (p)
              if (auto *A = dyn_cast<AllocaInst>(getUnderlyingObject(p))) {
                std::string n = "m" + fresh(A);
                smeared.insert(n);
                for (auto it = mem.begin(); it != mem.end();) it = it->first.compare(0, n.size(), n) == 0 && (it->first.size() == n.size() || it->first[n.size()] == '+') ? mem.erase(it) : std::next(it);
              }
          }
      }
      for (const Instruction &I : *b) {
        if (I.isDebugOrPseudoInst()) continue;
        if (isa<PHINode>(I)) continue;
        if (auto *L = dyn_cast<LoadInst>(&I)) {
          val[&I] = load(&I, sub(L->getPointerOperand()));
          continue;
        }
        if (auto *St = dyn_cast<StoreInst>(&I)) {
          Sym a = sub(St->getPointerOperand());
          std::string r;
          if (a.root(r)) mem[place(a)] = sub(St->getValueOperand());
          else if (auto *A = dyn_cast<AllocaInst>(getUnderlyingObject(St->getPointerOperand()))) smeared.insert("m" + fresh(A));
          continue;
        }
        if (auto *CB = dyn_cast<CallBase>(&I)) {
          if (auto *MC = dyn_cast<MemCpyInst>(CB)) {
            if (auto *n = dyn_cast<ConstantInt>(MC->getLength()))
              if (n->getZExtValue() <= 256) {
                Sym d = sub(MC->getRawDest()), s = sub(MC->getRawSource());
                for (uint64_t k = 0; k < n->getZExtValue(); k += 8) {
                  Sym v = load(&I, s.plus(Sym::num(k)));
                  std::string r;
                  if (s.root(r) && r[0] == 'm' && !mem.count(place(s.plus(Sym::num(k))))) mem.erase(place(d.plus(Sym::num(k))));
                  else mem[place(d.plus(Sym::num(k)))] = v;
                }
              }
            continue;
          }
          if (is_child(*CB) && CB->arg_size() >= 6) {
            Sym n = sub(CB->getArgOperand(4)), t = sub(CB->getArgOperand(5));
            std::string e = "child " + where_of(&I) + "\t" + sub(CB->getArgOperand(3)).str() + "\t" + n.str() + "\t";
            if (n.konst())
              for (int64_t i = 0; i < n.c && i < 16; ++i) e += (i ? "," : "") + content(t, i);
            else {
              e += "=" + t.str() + ":" + content(t, 0);
              for (unsigned i = 1; i < 8 && content(t, i)[0] == 's'; ++i) e += "," + content(t, i);
            }
            events.push_back(e);
          } else if (is_emplace(*CB)) {
            std::string d = demangle_(CB->getCalledFunction()->getName()), cls;
            size_t p = d.find("::emplace_back<");
            if (p != std::string::npos) {
              auto a = template_args(d, p + 14);
              if (!a.empty()) cls = a[0];
            }
            std::string e = "kernel " + cls + "\t";
            for (unsigned k = 1; k < CB->arg_size(); ++k) {
              Sym a = sub(CB->getArgOperand(k));
              std::string r;
              e += (k > 1 ? ";" : "") + a.str();
              if (a.root(r) && r[0] == 'm') { // passed by reference: what is in there
                e += "{";
                std::string at = content(a, 0), r2;
                Sym in = mem.count(place(a)) ? mem[place(a)] : Sym::num(0);
                if (in.root(r2) && r2[0] == 'm') // a pointer to a table
                  for (unsigned i = 0; i < 8 && mem.count(place(in.plus(Sym::num(8 * i)))); ++i) e += (i ? "," : "*") + content(in, i);
                else
                  e += at;
                e += "}";
              }
            }
            events.push_back(e);
          } else if (!isa<IntrinsicInst>(CB)) { // an out parameter may have been filled in
            for (const Use &U : CB->args()) {
              if (!U->getType()->isPointerTy()) continue;
              Sym a = sub(U.get());
              std::string r;
              if (!a.root(r) || r[0] != 'm') continue;
              mem.erase(place(a));
              smeared.insert(r);
            }
          }
          if (!I.getType()->isVoidTy()) val[&I] = Sym::var(fresh(&I));
          continue;
        }
        if (!I.getType()->isVoidTy()) val[&I] = sub(&I);
      }
    }
    std::string path;
    for (auto &f : S.facts) {
      const Value *c = f.cond;
      std::string s;
      if (auto *C = dyn_cast<ICmpInst>(c)) {
        s = sub(C->getOperand(0)).str() + (C->getPredicate() == ICmpInst::ICMP_EQ ? "==" : C->getPredicate() == ICmpInst::ICMP_NE ? "!=" : "<>") + sub(C->getOperand(1)).str();
      } else
        s = sub(c).str();
      if (s.find("cap") == std::string::npos && s.find("src") == std::string::npos && s.find("dst") == std::string::npos) continue;
      path += (path.empty() ? "" : " && ") + std::string(f.truth ? "" : "!") + "(" + s + ")";
    }
    for (auto &e : events) path += "\n" + e;
    if (!events.empty()) out.insert(path);
  }
};

// --- what resolving records about the operands
struct Res {
  Function &F;
  const DataLayout &DL;
  Explorer E;
  unsigned base; // 1 when the result is returned through a pointer
  std::set<std::string> out;
  std::map<const Value *, int> ids;
  Res(Function &F, unsigned base) : F(F), DL(F.getParent()->getDataLayout()), E(F), base(base) {
    E.loops = true;
    E.max_paths = 20000;
    E.on_ret = [&](State &S, const ReturnInst &) { replay(S); };
  }
  std::string fresh(const Value *v) {
    auto it = ids.insert({v, (int)ids.size()}).first;
    return "?" + std::to_string(it->second);
  }
  void replay(State &S) {
    std::map<const Value *, Sym> val;
    std::map<std::string, Sym> mem;
    std::map<std::string, const Value *> raw; // what was stored, as it is in the program
    std::map<std::string, std::string> types;  // place of a type object -> where it was copied from
    std::vector<std::string> events;
    std::function<Sym(const Value *)> sub;
    sub = [&](const Value *v) -> Sym {
      const Value *w = E.look(S, v);
      auto it = val.find(w);
      if (it != val.end()) return it->second;
      if (auto *C = dyn_cast<ConstantInt>(w)) return C->getBitWidth() <= 64 ? Sym::num(C->getSExtValue()) : Sym::var(fresh(w));
      if (isa<ConstantPointerNull>(w)) return Sym::num(0);
      if (auto *A = dyn_cast<Argument>(w)) {
        static const char *N[] = {"ret", "this", "caller", "data", "cg", "res_tp", "narg", "arg_tp", "nkwd", "kwds", "tp_vars"};
        unsigned n = A->getArgNo() + 1 - base;
        if (n < 11) return Sym::var(N[n]);
      }
      if (isa<AllocaInst>(w)) return Sym::var("m" + fresh(w));
      if (auto *G = dyn_cast<GEPOperator>(w)) {
        unsigned bits = DL.getIndexSizeInBits(0);
        MapVector<Value *, APInt> vo;
        APInt co(bits, 0);
        if (G->collectOffset(DL, bits, vo, co)) {
          Sym r = sub(G->getPointerOperand());
          r.c += co.getSExtValue();
          for (auto &x : vo) r = r.plus(sub(x.first), x.second.getSExtValue());
          return r;
        }
      }
      auto *I = dyn_cast<Instruction>(w);
      if (!I) return Sym::var(fresh(w));
      switch (I->getOpcode()) {
      case Instruction::Add: return sub(I->getOperand(0)).plus(sub(I->getOperand(1)));
      case Instruction::Sub: return sub(I->getOperand(0)).plus(sub(I->getOperand(1)), -1);
      case Instruction::PtrToInt:
      case Instruction::IntToPtr:
      case Instruction::BitCast:
      case Instruction::ZExt:
      case Instruction::SExt:
      case Instruction::Trunc:
      case Instruction::Freeze: return sub(I->getOperand(0));
      default: return Sym::var(fresh(w));
      }
    };
    auto copied = [&](const Sym &a) -> std::string {
      std::string r;
      auto it = types.find(a.str());
      if (it != types.end()) return it->second;
      if (a.root(r) && r == "arg_tp") return "whole" + std::to_string(a.c / 8);
      if (a.root(r) && r == "res_tp") return "res";
      if (a.root(r) && r[0] == 'm') return "unset";
      return "part";
    };
    for (const BasicBlock *b : S.path)
      for (const Instruction &I : *b) {
        if (I.isDebugOrPseudoInst() || isa<PHINode>(I)) continue;
        if (auto *L = dyn_cast<LoadInst>(&I)) {
          Sym a = sub(L->getPointerOperand());
          auto it = mem.find(a.str());
          if (it == mem.end()) it = mem.insert({a.str(), Sym::var(fresh(&I))}).first;
          val[&I] = it->second;
          continue;
        }
        if (auto *St = dyn_cast<StoreInst>(&I)) {
          Sym a = sub(St->getPointerOperand());
          Sym v = sub(St->getValueOperand());
          if (!v.konst() && St->getValueOperand()->getType()->isIntegerTy()) {
            AV k = E.eval(S, St->getValueOperand());
            if (k.k == AV::INT)
              if (const APInt *n = k.r.getSingleElement()) v = Sym::num(n->getZExtValue());
          }
          mem[a.str()] = v;
          raw[a.str()] = St->getValueOperand();
          continue;
        }
        if (auto *CB = dyn_cast<CallBase>(&I)) {
          auto *C = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts());
          std::string n = C ? C->getName().str() : "";
          bool sret = CB->arg_size() && CB->paramHasAttr(0, Attribute::StructRet);
          bool sub3 = !C && CB->arg_size() == 3 && sub(CB->getArgOperand(1)).str() == "cg";
          bool resolving = (!C || n.find("7resolveE") != std::string::npos) && CB->arg_size() - sret == 10;
          if (n.compare(0, 19, "_ZN4dynd3ndt4typeaS") == 0 || ((n.compare(0, 18, "_ZN4dynd3ndt4typeC") == 0 || n.compare(0, 21, "_ZNSt5arrayIN4dynd3nd") == 0) && CB->arg_size() == 2 && CB->getArgOperand(1)->getType()->isPointerTy())) {
            types[sub(CB->getArgOperand(0)).str()] = copied(sub(CB->getArgOperand(1)));
            if (sub(CB->getArgOperand(0)).str() == "ret") events.push_back("return\t" + copied(sub(CB->getArgOperand(1))));
          } else if (sub3) {
            Sym p = sub(CB->getArgOperand(2));
            std::string r, e = "record " + where_of(&I) + "\t";
            bool first = true;
            if (p.root(r))
              for (auto &x : raw) {
                if (x.first.compare(0, r.size(), r) != 0 || (x.first.size() > r.size() && x.first[r.size()] != '+')) continue;
                AV a = E.eval(S, x.second);
                std::string v = "?";
                if (a.k == AV::INT)
                  if (const APInt *k = a.r.getSingleElement()) v = std::to_string(k->getSExtValue());
                long off = (x.first.size() > r.size() ? atol(x.first.c_str() + r.size() + 1) : 0) - p.c;
                e += (first ? "" : ",") + std::to_string(off) + "=" + v;
                first = false;
              }
            events.push_back(e);
          } else if (resolving) {
            Sym t = sub(CB->getArgOperand(sret + 6));
            std::string e = "resolve " + where_of(&I) + "\t" + copied(sub(CB->getArgOperand(sret + 4))) + "\t" + sub(CB->getArgOperand(sret + 5)).str() + "\t";
            for (unsigned i = 0; i < 4; ++i) e += (i ? "," : "") + copied(t.plus(Sym::num(8 * i)));
            e += "\t" + sub(CB->getArgOperand(sret + 2)).str();
            events.push_back(e);
            if (sret) types[sub(CB->getArgOperand(0)).str()] = "child";
          } else if (sret) {
            types[sub(CB->getArgOperand(0)).str()] = "part";
            if (sub(CB->getArgOperand(0)).str() == "ret") events.push_back("return\tmade:" + (C ? demangle_(n).substr(0, 60) : std::string("virtual")));
          }
          if (!I.getType()->isVoidTy()) val[&I] = Sym::var(fresh(&I));
          continue;
        }
        if (!I.getType()->isVoidTy()) val[&I] = sub(&I);
      }
    // a flag read back is what was stored: paths that take it for something else do not exist
    for (auto &f : S.facts) {
      const Value *c = f.cond;
      if (auto *C = dyn_cast<ICmpInst>(c)) {
        Sym a = sub(C->getOperand(0)), b = sub(C->getOperand(1));
        if (!C->isEquality() || !a.konst() || !b.konst()) continue;
        if ((a.c == b.c) != ((C->getPredicate() == ICmpInst::ICMP_EQ) == f.truth)) return;
      } else {
        Sym a = sub(c);
        if (a.konst() && ((a.c & 1) != 0) != f.truth) return;
      }
    }
    std::string path;
    for (auto &e : events) path += "\n" + e;
    out.insert(path);
  }
};
int m_kres(Module &M, const std::vector<std::string> &args) {
  std::string filter = args.empty() ? "" : args[0];
  auto &opts = cl::getRegisteredOptions();
  auto o = opts.find("unroll-threshold");
  if (o != opts.end()) o->second->addOccurrence(0, "unroll-threshold", "4000");
  for (Function &F : M) {
    if (F.isDeclaration() || F.getName().ends_with(".sa") || !F.getName().contains("7resolveE")) continue;
    std::string d = demangle_(F.getName());
    if (!any_of_filter(d, filter) || d.find("lambda") != std::string::npos) continue;
    if (F.arg_size() != 10u + F.hasStructRetAttr()) continue;
    Function *W = private_copy(F);
    InlinePolicy P;
    P.ok = [](const CallBase &CB, const Function &C) {
      StringRef n = C.getName();
      if (n.contains("intrusive_ptr") || n.contains("basic_string") || n.contains("7resolveE")) return false;
      if (n.starts_with("_ZN4dynd3ndt4type") || n.starts_with("_ZNK4dynd3ndt4type") || n.contains("make_type")) return false;
      if (CB.arg_size() && CB.paramHasAttr(0, Attribute::StructRet)) return false;
      return C.getInstructionCount() < 60;
    };
    flatten(*W, P);
    prune_exceptions(*W);
    cleanup(*W);
    for (BasicBlock &BB : *W) BB.getTerminator()->setMetadata(LLVMContext::MD_loop, nullptr);
    run_pipeline(*W, "sroa,early-cse,simplifycfg<no-switch-to-lookup;no-hoist-common-insts;no-sink-common-insts;bonus-inst-threshold=0>,loop-simplify,lcssa,loop(loop-rotate),loop(indvars),loop-unroll<full-unroll-max=16;no-runtime;no-partial>,sroa,early-cse,simplifycfg<no-switch-to-lookup;no-hoist-common-insts;no-sink-common-insts;bonus-inst-threshold=0>,loop-simplify");
    if (getenv("SA_DUMP") && d.find(getenv("SA_DUMP")) != std::string::npos) W->print(errs());
    Res K(*W, F.hasStructRetAttr() ? 1 : 0);
    K.E.run();
    Json j;
    j.kv("k", "res").kv("fn", d).kv("where", where_fn(&F)).kv("aborted", K.E.aborted ? K.E.abort_why : std::string()).kv("paths", (int)K.E.paths);
    j.list("out", std::vector<std::string>(K.out.begin(), K.out.end()));
    j.out();
    W->eraseFromParent();
  }
  return 0;
}
ModeReg r_kres("kres", m_kres);

// an integer read from what was captured
bool captured(LoadInst *L, Function *W, int64_t &off) {
  if (!L->getType()->isIntegerTy(64)) return false;
  APInt o(64, 0);
  if (L->getPointerOperand()->stripAndAccumulateConstantOffsets(W->getParent()->getDataLayout(), o, true) != W->getArg(0)) return false;
  off = o.getSExtValue();
  return true;
}
// the table itself, or what was kept of it on the stack
bool is_table(Value *p, Argument *table) {
  if (p == table) return true;
  auto *L = dyn_cast<LoadInst>(p);
  auto *A = L ? dyn_cast<AllocaInst>(L->getPointerOperand()) : nullptr;
  if (!A) return false;
  for (User *U : A->users())
    if (auto *St = dyn_cast<StoreInst>(U))
      if (St->getPointerOperand() == A && St->getValueOperand() == table) return true;
  return false;
}
// does it choose an entry of the table, or bound a loop whose counter does?
bool chooses(Value *v, Argument *table, int depth = 0) {
  if (depth > 4) return false;
  for (User *U : v->users()) {
    if (auto *G = dyn_cast<GetElementPtrInst>(U)) {
      if (G->getPointerOperand() != v && is_table(G->getPointerOperand(), table)) return true;
    } else if (isa<BinaryOperator>(U) || isa<CastInst>(U) || isa<PHINode>(U)) {
      if (chooses(cast<Value>(U), table, depth + 1)) return true;
    } else if (auto *C = dyn_cast<ICmpInst>(U)) {
      Value *o = C->getOperand(C->getOperand(0) == v);
      if (depth < 3 && !isa<Constant>(o) && chooses(o, table, depth + 2)) return true;
    }
  }
  return false;
}
int m_kmeta(Module &M, const std::vector<std::string> &args) {
  std::string filter = args.empty() ? "" : args[0];
  auto &opts = cl::getRegisteredOptions();
  auto o = opts.find("unroll-threshold");
  if (o != opts.end()) o->second->addOccurrence(0, "unroll-threshold", "4000");
  std::vector<Function *> roots;
  for (Function &F : M) {
    if (F.isDeclaration() || F.getName().ends_with(".sa")) continue;
    if (F.arg_size() != 7 || !F.getName().contains("call_node4init")) continue;
    std::string d = demangle_(F.getName());
    if (d.find("kernel_builder*") == std::string::npos) continue;
    if (any_of_filter(d, filter) && (args.size() < 2 || !any_of_filter(d, args[1]))) roots.push_back(&F);
  }
  for (Function *F : roots) {
    std::string d = demangle_(F->getName());
    Function *W = private_copy(*F);
    InlinePolicy P;
    P.ok = [](const CallBase &CB, const Function &C) {
      if (is_child(CB) || is_emplace(CB)) return false;
      StringRef n = C.getName();
      if (n.starts_with("_ZN4dynd2nd14kernel_builder") || n.starts_with("_ZNK4dynd10storagebuf") || n.starts_with("_ZN4dynd10storagebuf")) return n.contains("6get_atI") || n.contains("4sizeE");
      if (n.contains("14kernel_builderEj")) return true;
      if (n.starts_with("_ZN4dynd3ndt4type") || n.starts_with("_ZNK4dynd3ndt4type") || n.contains("intrusive_ptr")) return false;
      return C.getInstructionCount() < 60;
    };
    flatten(*W, P);
    prune_exceptions(*W);
    cleanup(*W);
    for (BasicBlock &BB : *W) BB.getTerminator()->setMetadata(LLVMContext::MD_loop, nullptr);
    run_pipeline(*W, "sroa,early-cse,simplifycfg<no-switch-to-lookup;no-hoist-common-insts;no-sink-common-insts;bonus-inst-threshold=0>,loop-simplify,lcssa,loop(loop-rotate),loop(indvars),loop-unroll<full-unroll-max=16;no-runtime;no-partial>,sroa,early-cse,simplifycfg<no-switch-to-lookup;no-hoist-common-insts;no-sink-common-insts;bonus-inst-threshold=0>,loop-simplify");
    if (getenv("SA_DUMP") && d.find(getenv("SA_DUMP")) != std::string::npos) W->print(errs());
    auto judge = [&](Function *W, const std::string &which) {
      Meta K(*W);
      K.E.run();
      Json j;
      j.kv("k", "meta").kv("fn", d).kv("where", where_fn(F)).kv("aborted", K.E.aborted ? K.E.abort_why : std::string()).kv("paths", (int)K.E.paths).kv("case", which);
      j.list("out", std::vector<std::string>(K.out.begin(), K.out.end()));
      j.out();
    };
    // an operand chosen when the computation was recorded: every choice is looked at on its own
    int64_t at = -1, n = 0;
    for (Instruction &I : instructions(*W)) {
      if (auto *CB = dyn_cast<CallBase>(&I))
        if (is_child(*CB) && CB->arg_size() >= 6)
          if (auto *C = dyn_cast<ConstantInt>(CB->getArgOperand(4))) n = std::max(n, C->getSExtValue());
      auto *L = dyn_cast<LoadInst>(&I);
      int64_t off;
      if (L && captured(L, W, off) && chooses(L, W->getArg(6))) at = at < 0 || at == off ? off : -2;
    }
    if (at < 0 || n <= 0 || n > 8) {
      judge(W, "");
    } else {
      for (int64_t v = 0; v < n; ++v) {
        Function *C = private_copy(*W);
        for (Instruction &I : instructions(*C)) {
          auto *L = dyn_cast<LoadInst>(&I);
          int64_t off;
          if (L && captured(L, C, off) && off == at) L->replaceAllUsesWith(ConstantInt::get(L->getType(), v));
        }
        run_pipeline(*C, "instsimplify,simplifycfg<no-switch-to-lookup;no-hoist-common-insts;no-sink-common-insts;bonus-inst-threshold=0>,loop-simplify,lcssa,loop(loop-rotate),loop(indvars),loop-unroll<full-unroll-max=16;no-runtime;no-partial>,sroa,early-cse,simplifycfg<no-switch-to-lookup;no-hoist-common-insts;no-sink-common-insts;bonus-inst-threshold=0>,loop-simplify");
        judge(C, "cap+" + std::to_string(at) + "=" + std::to_string(v));
        C->eraseFromParent();
      }
    }
    W->eraseFromParent();
  }
  return 0;
}
ModeReg r_kmeta("kmeta", m_kmeta);
} // namespace
