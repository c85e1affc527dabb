// What a composite type's constructor takes over from its component types: flag bits, per-array
// metadata size and alignment, as established on every path of the constructor.
#include "absint.h"
#include <regex>

namespace {
const int64_t META = 24, SIZE = 32, ALIGN = 40, FLAGS = 48, NDIM = 56, SNDIM = 64;
typedef std::pair<int, int64_t> Cell;

struct Roots {
  const Explorer &E;
  const State &S;
  std::set<Cell> cells;
  std::set<const Value *> seen;
  void go(const Value *v, unsigned d = 0) {
    v = E.look(S, v);
    if (!v || isa<Constant>(v) || d > 30 || !seen.insert(v).second) return;
    if (v->getType()->isPointerTy()) {
      Addr a = E.addr(S, v);
      if (a.ok && a.base) {
        if (auto *A = dyn_cast<Argument>(a.base)) {
          cells.insert({(int)A->getArgNo(), a.off});
          return;
        }
        if (a.base != v) return go(a.base, d + 1);
      }
    }
    if (auto *L = dyn_cast<LoadInst>(v)) return go(L->getPointerOperand(), d + 1);
    if (auto *G = dyn_cast<GetElementPtrInst>(v)) return go(G->getPointerOperand(), d + 1);
    if (auto *C = dyn_cast<CallBase>(v)) {
      for (const Use &U : C->args())
        if (U->getType()->isPointerTy()) return go(U.get(), d + 1); // element access: the container
      return;
    }
    if (auto *P = dyn_cast<PHINode>(v)) {
      for (const Use &U : P->incoming_values()) go(U.get(), d + 1);
      return;
    }
    if (auto *I = dyn_cast<Instruction>(v))
      for (const Use &U : I->operands()) go(U.get(), d + 1);
  }
};

struct An {
  Function &F;
  Explorer E;
  std::string cls, fn;
  std::set<int> typep;                        // parameters that are types (or containers of types)
  std::map<int, std::set<int64_t>> held;      // parameter -> cells of this object holding it
  std::vector<std::pair<State, const ReturnInst *>> rets;
  std::vector<std::pair<State, const BasicBlock *>> backs;
  An(Function &F) : F(F), E(F) {}

  // which component does this load read field `off` of?  0: none
  int component(const State &S, const LoadInst *L, int64_t off) {
    Addr a = E.addr(S, L->getPointerOperand());
    if (!a.ok || !a.base || a.off != off || isa<Argument>(a.base)) return 0;
    Roots R{E, S};
    R.go(a.base);
    for (int p : typep) {
      bool all = !R.cells.empty();
      for (auto &c : R.cells)
        if (!(c.first == p || (c.first == 0 && held[p].count(c.second)))) all = false;
      if (all) return p;
    }
    return 0;
  }

  struct Replay {
    const Value *cur = nullptr;                          // value of the tracked cell
    std::map<const Value *, const Value *> load;         // loads of the cell -> value at that time
    std::map<const Value *, const Value *> token;        // loop token -> value before the loop
    std::set<int> read;                                  // components whose field was read
    bool clobbered = false;
  };
  Replay replay(const State &S, int64_t off, const BasicBlock *from = nullptr) {
    Replay R;
    bool on = !from;
    for (auto *B : S.path) {
      if (B == from) on = true;
      if (E.headers.count(B)) {
        R.token[B] = R.cur;
        R.cur = B;
      }
      for (const Instruction &I : *B) {
        if (auto *L = dyn_cast<LoadInst>(&I)) {
          Addr a = E.addr(S, L->getPointerOperand());
          if (a.ok && a.off == off && isa_and_nonnull<Argument>(a.base) && cast<Argument>(a.base)->getArgNo() == 0) R.load[L] = R.cur;
          else if (int p = component(S, L, off)) R.read.insert(p);
        } else if (auto *St = dyn_cast<StoreInst>(&I)) {
          Addr a = E.addr(S, St->getPointerOperand());
          if (a.ok && a.off == off && isa_and_nonnull<Argument>(a.base) && cast<Argument>(a.base)->getArgNo() == 0) R.cur = St->getValueOperand();
        }
      }
    }
    return R;
  }

  // bits of v known to be one when component p's flags are all ones in `assume` / the token has `tok`
  // (a loop is named by its header for the flags cell, by the header phi for a local accumulator)
  std::map<const Value *, std::map<int, unsigned>> loopbits; // loop -> param -> bits added
  std::map<const Value *, unsigned> keeps;                   // loop -> bits preserved
  const Value *incoming(const State &S, const PHINode *P, bool back) {
    const BasicBlock *prev = nullptr;
    for (auto *B : S.path) {
      if (B == P->getParent() && !back) break;
      prev = B;
    }
    return prev && P->getBasicBlockIndex(prev) >= 0 ? P->getIncomingValueForBlock(prev) : nullptr;
  }
  // flag bits of component p the path has found to be clear
  unsigned clear(const State &S, int p) {
    unsigned z = 0;
    for (auto &f : S.facts) {
      auto *I = dyn_cast<ICmpInst>(E.look(S, f.cond));
      if (!I || !I->isEquality() || (I->getPredicate() == ICmpInst::ICMP_EQ) != f.truth) continue;
      auto *K = dyn_cast<ConstantInt>(I->getOperand(1));
      if (!K || !K->isZero()) continue;
      const Value *x = E.look(S, I->getOperand(0));
      unsigned m = ~0u;
      if (auto *B = dyn_cast<BinaryOperator>(x))
        if (B->getOpcode() == Instruction::And)
          if (auto *C = dyn_cast<ConstantInt>(B->getOperand(1))) {
            m = (unsigned)C->getZExtValue();
            x = E.look(S, B->getOperand(0));
          }
      if (auto *L = dyn_cast<LoadInst>(x))
        if (component(S, L, FLAGS) == p) z |= m;
    }
    return z;
  }
  unsigned ones(const State &S, Replay &R, const Value *v, int p, const Value *tok, unsigned d = 0) {
    if (!v || d > 40) return 0;
    if (tok && v == tok) return ~0u;
    if (auto *B = dyn_cast<BasicBlock>(v)) {
      auto *HB = B;
      unsigned k = keeps.count(HB) ? keeps[HB] : 0;
      unsigned a = loopbits.count(HB) && loopbits[HB].count(p) ? loopbits[HB][p] : 0;
      return (ones(S, R, R.token[v], p, tok, d + 1) & k) | a;
    }
    if (R.load.count(v)) return ones(S, R, R.load[v], p, tok, d + 1);
    if (auto *P = dyn_cast<PHINode>(v))
      if (E.headers.count(P->getParent()) && E.look(S, v) == v) {
        unsigned k = keeps.count(P) ? keeps[P] : 0;
        unsigned a = loopbits.count(P) && loopbits[P].count(p) ? loopbits[P][p] : 0;
        return (ones(S, R, incoming(S, P, false), p, tok, d + 1) & k) | a;
      }
    const Value *w = E.look(S, v);
    if (w != v) return ones(S, R, w, p, tok, d + 1);
    if (auto *C = dyn_cast<ConstantInt>(v)) return (unsigned)C->getZExtValue();
    if (auto *L = dyn_cast<LoadInst>(v)) {
      if (p && component(S, L, FLAGS) == p) return ~0u;
      return 0;
    }
    if (auto *B = dyn_cast<BinaryOperator>(v)) {
      unsigned a = ones(S, R, B->getOperand(0), p, tok, d + 1), b = ones(S, R, B->getOperand(1), p, tok, d + 1);
      if (B->getOpcode() == Instruction::Or) return a | b;
      if (B->getOpcode() == Instruction::And) return a & b;
      return 0;
    }
    if (auto *C = dyn_cast<CastInst>(v)) return ones(S, R, C->getOperand(0), p, tok, d + 1);
    if (auto *C = dyn_cast<SelectInst>(v)) return ones(S, R, C->getTrueValue(), p, tok, d + 1) & ones(S, R, C->getFalseValue(), p, tok, d + 1);
    return 0;
  }

  // linear form of an integer value over component fields
  struct Lin {
    bool ok = false;
    int64_t c = 0;
    std::map<int, int64_t> t;
  };
  Lin lin(const State &S, Replay &R, const Value *v, int64_t off, unsigned d = 0) {
    Lin r;
    if (!v || d > 40 || isa<BasicBlock>(v)) return r;
    if (R.load.count(v)) return lin(S, R, R.load[v], off, d + 1);
    const Value *w = E.look(S, v);
    if (w != v) return lin(S, R, w, off, d + 1);
    if (auto *C = dyn_cast<ConstantInt>(v)) {
      r.ok = true;
      r.c = C->getSExtValue();
      return r;
    }
    if (auto *L = dyn_cast<LoadInst>(v)) {
      for (int64_t o : {META, SIZE, ALIGN, NDIM, SNDIM})
        if (int p = component(S, L, o)) {
          r.ok = true;
          r.t[o == off ? p : p + 1000 * (int)o] = 1;
        }
      return r;
    }
    if (auto *C = dyn_cast<CallBase>(v)) { // an accessor defined in another unit
      Function *c = C->getCalledFunction();
      static const std::map<int64_t, std::string> acc = {{META, "::get_arrmeta_size("}, {ALIGN, "::get_data_alignment("}, {SIZE, "::get_data_size("}, {NDIM, "::get_ndim("}, {SNDIM, "::get_strided_ndim("}};
      if (!c || C->arg_size() != 1 || !acc.count(off) || demangle_(c->getName()).find(acc.at(off)) == std::string::npos) return r;
      Roots R2{E, S};
      R2.go(C->getArgOperand(0));
      for (int p : typep) {
        bool all = !R2.cells.empty();
        for (auto &x : R2.cells)
          if (!(x.first == p || (x.first == 0 && held[p].count(x.second)))) all = false;
        if (all) {
          r.ok = true;
          r.t[p] = 1;
          return r;
        }
      }
      return r;
    }
    if (auto *B = dyn_cast<BinaryOperator>(v))
      if (B->getOpcode() == Instruction::Add) {
        Lin a = lin(S, R, B->getOperand(0), off, d + 1), b = lin(S, R, B->getOperand(1), off, d + 1);
        r.ok = a.ok && b.ok;
        r.c = a.c + b.c;
        r.t = a.t;
        for (auto &x : b.t) r.t[x.first] += x.second;
        return r;
      }
    if (auto *C = dyn_cast<CastInst>(v)) return lin(S, R, C->getOperand(0), off, d + 1);
    return r;
  }

  // on this path component p is known to be a built-in type (an id, not an object)
  bool builtin(const State &S, int p) {
    for (auto &f : S.facts) {
      auto *I = dyn_cast<ICmpInst>(E.look(S, f.cond));
      if (!I || !isa<Constant>(I->getOperand(1))) continue;
      bool low = (I->isUnsigned() || I->isSigned()) && ((I->getPredicate() == ICmpInst::ICMP_ULT || I->getPredicate() == ICmpInst::ICMP_ULE || I->getPredicate() == ICmpInst::ICMP_SLT) ? f.truth : !f.truth);
      if (!low) continue;
      Roots R{E, S};
      R.go(I->getOperand(0));
      bool all = !R.cells.empty();
      for (auto &c : R.cells)
        if (!(c.first == p || (c.first == 0 && held[p].count(c.second)))) all = false;
      if (all) return true;
    }
    return false;
  }

  void run() {
    E.loops = true;
    E.on_ret = [&](State &S, const ReturnInst &R) { rets.push_back({S, &R}); };
    E.on_back = [&](State &S, const BasicBlock &H) { backs.push_back({S, &H}); };
    E.run();
    if (E.aborted) {
      Json().kv("k", "inherit_skip").kv("fn", fn).kv("why", E.abort_why).out();
      return;
    }
    // loops: (name, value carried around the back edge)
    auto carried = [&](std::pair<State, const BasicBlock *> &b, Replay &R) {
      std::vector<std::pair<const Value *, const Value *>> v;
      v.push_back({b.second, R.cur});
      for (const PHINode &P : b.second->phis())
        if (P.getType()->isIntegerTy(32)) v.push_back({&P, incoming(b.first, &P, true)});
      return v;
    };
    for (auto &b : backs) {
      Replay R = replay(b.first, FLAGS);
      for (auto &c : carried(b, R)) keeps[c.first] = ~0u;
    }
    for (unsigned round = 0; round < 6; ++round) { // greatest solution
      std::map<const Value *, unsigned> next;
      for (auto &b : backs) {
        Replay R = replay(b.first, FLAGS);
        for (auto &c : carried(b, R)) {
          unsigned k = ones(b.first, R, c.second, 0, c.first);
          next[c.first] = next.count(c.first) ? next[c.first] & k : k;
        }
      }
      if (next == keeps) break;
      keeps = next;
    }
    for (unsigned round = 0; round < 2; ++round) {
      decltype(loopbits) next;
      for (auto &b : backs)
        for (int p : typep) {
          Replay R = replay(b.first, FLAGS);
          if (builtin(b.first, p) && !R.read.count(p)) continue;
          for (auto &c : carried(b, R)) {
            unsigned a = R.read.count(p) ? ones(b.first, R, c.second, p, nullptr) | clear(b.first, p) : 0;
            a &= keeps[c.first];
            auto &m = next[c.first];
            m[p] = m.count(p) ? m[p] & a : a;
          }
        }
      loopbits = next;
    }
    if (getenv("SA_DUMP")) {
      for (auto *H : E.headers) H->printAsOperand(errs()), errs() << " header "  << " keeps " << keeps[H] << "\n";
      for (auto &m : loopbits)
        for (auto &x : m.second) errs() << "  adds " << x.first << " " << x.second << "\n";
      for (auto &h : held)
        for (auto o : h.second) errs() << " held " << h.first << " at " << o << "\n";
      F.print(errs());
    }
    for (int p : typep) {
      unsigned bits = ~0u;
      std::string where;
      long n = 0;
      for (auto &r : rets) {
        Replay R = replay(r.first, FLAGS);
        if (builtin(r.first, p) && !R.read.count(p)) continue;
        ++n;
        unsigned b = ones(r.first, R, R.cur, p, nullptr) | clear(r.first, p);
        bits &= b;
      }
      std::map<int64_t, std::set<std::string>> forms;
      for (auto &r : rets)
        for (int64_t off : {META, SIZE, ALIGN, NDIM, SNDIM}) {
          Replay R = replay(r.first, off);
          if (builtin(r.first, p) && !R.read.count(p)) continue;
          Lin l = lin(r.first, R, R.cur, off);
          std::string f = std::to_string(l.c);
          for (auto &t : l.t)
            if (t.second) f += "+" + std::to_string(t.second) + "*" + std::to_string(t.first);
          forms[off].insert(l.ok ? f : std::string("?"));
        }
      auto form = [&](int64_t o) { return std::vector<std::string>(forms[o].begin(), forms[o].end()); };
      Json().kv("k", "inherit").kv("cls", cls).kv("fn", fn).kv("param", p).kv("paths", n).kv("bits", (long)bits).list("meta", form(META)).list("size", form(SIZE)).list("align", form(ALIGN)).list("ndim", form(NDIM)).list("sndim", form(SNDIM)).kv("where", where_fn(&F)).out();
    }
  }
};

void ctor(Function &F0, const std::string &cls, const std::string &fn) {
  std::vector<std::string> ps;
  size_t open = fn.find('(');
  int depth = 0;
  std::string cur;
  for (size_t i = open + 1; i < fn.size(); ++i) {
    char c = fn[i];
    if (c == '<' || c == '(') ++depth;
    if (c == '>' || (c == ')' && depth)) --depth;
    else if (c == ')' && !depth) break;
    if (c == ',' && !depth) {
      ps.push_back(cur);
      cur.clear();
    } else
      cur += c;
  }
  ps.push_back(cur);
  std::set<int> tp;
  for (unsigned i = 0; i < ps.size(); ++i)
    if (ps[i].find("dynd::ndt::type") != std::string::npos) tp.insert(i + 1);
  if (tp.empty()) return;
  Function *F = private_copy(F0);
  InlinePolicy P;
  P.ok = [&](const CallBase &CB, const Function &c) {
    std::string d = demangle_(c.getName());
    if (d.find("std::") == 0) return false;
    if (d.find("operator=(") != std::string::npos || d.find("operator!=") != std::string::npos || d.find("operator==") != std::string::npos) return false;
    if (d.find("is_builtin") != std::string::npos) return false;
    return d.find("dynd::") != std::string::npos && d.find("print") == std::string::npos;
  };
  P.callee_limit = 3000;
  flatten(*F, P);
  prune_exceptions(*F);
  cleanup(*F);
  // only components that are type objects carry requirements
  for (Instruction &I : make_early_inc_range(instructions(*F)))
    if (auto *CB = dyn_cast<CallInst>(&I))
      if (Function *c = CB->getCalledFunction())
        if (CB->getType()->isIntegerTy(1) && demangle_(c->getName()).find("is_builtin") != std::string::npos) {
          CB->replaceAllUsesWith(ConstantInt::getFalse(F->getContext()));
          CB->eraseFromParent();
        }
  cleanup(*F);
  // a component type object never changes: every read of the same field is the same value
  {
    const DataLayout &DL = F->getParent()->getDataLayout();
    BasicBlock *old = &F->getEntryBlock();
    BasicBlock *fresh = BasicBlock::Create(F->getContext(), "components", F, old);
    Instruction *first = BranchInst::Create(old, fresh);
    for (auto it = old->begin(); it != old->end();) {
      Instruction *I = &*it++;
      if (isa<AllocaInst>(I)) I->moveBefore(first);
    }
    auto place = [&](Value *P, int64_t &off) {
      APInt o(64, 0);
      Value *b = P->stripAndAccumulateConstantOffsets(DL, o, true);
      off = o.getSExtValue();
      return b;
    };
    for (int p : tp) {
      if (p >= (int)F->arg_size()) return;
      std::string t = ps[p - 1];
      while (!t.empty() && t[0] == ' ') t.erase(0, 1);
      if (t != "dynd::ndt::type const&") continue;
      auto *obj = new LoadInst(PointerType::get(F->getContext(), 0), F->getArg(p), "component", first);
      std::map<std::pair<int64_t, Type *>, LoadInst *> fields;
      std::set<int64_t> at;
      for (int round = 0; round < 3; ++round) {
        std::vector<LoadInst *> ls;
        for (Instruction &I : instructions(*F)) {
          int64_t o;
          if (auto *L = dyn_cast<LoadInst>(&I)) {
            if (L != obj) ls.push_back(L);
          } else if (auto *St = dyn_cast<StoreInst>(&I))
            if (St->getValueOperand() == obj && place(St->getPointerOperand(), o) == F->getArg(0)) at.insert(o);
        }
        for (LoadInst *L : ls) {
          int64_t o;
          Value *b = place(L->getPointerOperand(), o);
          if (L->getType()->isPointerTy() && ((b == F->getArg(p) && o == 0) || (b == F->getArg(0) && at.count(o)))) {
            L->replaceAllUsesWith(obj);
            L->eraseFromParent();
          } else if (b == obj) {
            auto &f = fields[{o, L->getType()}];
            if (!f) {
              f = cast<LoadInst>(L->clone());
              auto *G = GetElementPtrInst::Create(Type::getInt8Ty(F->getContext()), obj, {ConstantInt::get(Type::getInt64Ty(F->getContext()), o)}, "", first);
              f->setOperand(0, G);
              f->insertBefore(first);
            }
            if (f != L) {
              L->replaceAllUsesWith(f);
              L->eraseFromParent();
            }
          }
        }
      }
    }
    cleanup(*F);
  }
  An A(*F);
  A.cls = cls;
  A.fn = fn;
  A.typep = tp;
  // cells holding a parameter
  State S;
  for (int round = 0; round < 2; ++round)
    for (Instruction &I : instructions(*F)) {
      const Value *d = nullptr, *s = nullptr;
      if (auto *St = dyn_cast<StoreInst>(&I)) {
        d = St->getPointerOperand();
        s = St->getValueOperand();
        if (!s->getType()->isPointerTy()) continue;
      } else if (auto *CB = dyn_cast<CallBase>(&I)) {
        if (CB->arg_size() < 2 || !CB->getArgOperand(0)->getType()->isPointerTy() || !CB->getArgOperand(1)->getType()->isPointerTy()) continue;
        Function *c = CB->getCalledFunction();
        if (!c || c->isIntrinsic()) continue;
        d = CB->getArgOperand(0);
        s = CB->getArgOperand(1);
      } else
        continue;
      Roots D{A.E, S}, R{A.E, S};
      D.go(d);
      R.go(s);
      if (D.cells.size() != 1 || D.cells.begin()->first != 0 || D.cells.begin()->second < 56 || R.cells.size() != 1) continue;
      for (int p : tp)
        if (R.cells.begin()->first == p) A.held[p].insert(D.cells.begin()->second);
    }
  A.run();
}

int m_inherit(Module &M, const std::vector<std::string> &) {
  std::vector<Function *> fs;
  for (Function &F : M)
    if (!F.isDeclaration()) fs.push_back(&F);
  for (Function *F : fs) {
    std::string d = demangle_(F->getName());
    std::smatch m;
    if (std::regex_search(d, m, std::regex("^dynd::ndt::([a-z0-9_]+_type)::\\1\\(dynd::type_id_t")) && F->arg_size() >= 2) {
      if (F->getName().contains("C1")) continue;
      ctor(*F, m[1].str(), d);
    }
  }
  return 0;
}
} // namespace
static ModeReg r1("inherit", m_inherit);
