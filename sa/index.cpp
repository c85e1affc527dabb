// Index arithmetic of the dimension and tuple types: on every path of the indexing members, which
// element is addressed, as a linear form over the index, the dimension size and the stride.
//
// index : one record per obligation
#include "lin.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/Linker/Linker.h"
#include <regex>

namespace {
struct Obl {
  bool ok = true, vague = false;
  unsigned n = 0;
  std::string where, why;
};

struct Ix {
  Function &F;
  Explorer E;
  LinSpace sp;
  std::string fn, cls, kind; // kind: at / type / data
  int self = 0;              // argument number of this
  int64_t count_off = -1;    // where the class keeps its extent
  std::map<std::string, Obl> obl;
  std::set<const Argument *> stored;
  unsigned paths = 0, throws = 0;
  std::map<const Value *, std::string> names;

  Ix(Function &F) : F(F), E(F) {}
  Argument *arg(int k) const { return self + k < (int)F.arg_size() ? F.getArg(self + k) : nullptr; }

  std::string name(const State &S, const Value *v, unsigned d = 0) {
    v = E.look(S, v);
    if (d > 12) return "";
    if (auto *A = dyn_cast<Argument>(v)) return "a" + std::to_string((int)A->getArgNo() - self);
    if (auto *P = dyn_cast<PHINode>(v)) return E.headers.count(P->getParent()) ? "counter#" + std::to_string((uintptr_t)P) : "";
    if (auto *L = dyn_cast<LoadInst>(v)) {
      Addr a = E.addr(S, L->getPointerOperand());
      if (!a.ok || !a.base) return "";
      std::string b = name(S, a.base, d + 1);
      if (b.empty()) return "";
      auto *A = dyn_cast<Argument>(a.base);
      std::string s = "[" + b + "+" + std::to_string(a.off) + "]";
      if (A && stored.count(A)) s += "#" + std::to_string((uintptr_t)L);
      return s;
    }
    return "";
  }

  // decomposition of an address or offset into stride * factor + other terms
  struct Terms {
    std::optional<Lin> factor; // of the stride
    bool bad = false;
    std::vector<const Value *> rest;
    wide c = 0;
  };
  bool is_stride(const State &S, const Value *v) {
    auto *L = dyn_cast<LoadInst>(v);
    if (!L || !L->getType()->isIntegerTy(64)) return false;
    Addr a = E.addr(S, L->getPointerOperand());
    if (!a.ok || a.off != 8 || !a.base) return false;
    if (kind == "data") return a.base == arg(3);
    if (kind == "at") {
      auto *P = dyn_cast<LoadInst>(a.base);
      if (!P) return false;
      Addr b = E.addr(S, P->getPointerOperand());
      return b.ok && b.base == arg(2) && b.off == 0;
    }
    return false;
  }
  void terms(LinEnv &env, const Value *v, Terms &T, wide k = 1, unsigned d = 0) {
    v = E.look(env.S, v);
    if (d > 40) {
      T.bad = true;
      return;
    }
    if (auto *C = dyn_cast<ConstantInt>(v)) {
      T.c += C->getSExtValue() * k;
      return;
    }
    if (is_stride(env.S, v)) {
      if (!T.factor) T.factor = Lin(0);
      T.factor->add(Lin(1), k);
      return;
    }
    if (auto *G = dyn_cast<GetElementPtrInst>(v)) {
      MapVector<Value *, APInt> var;
      APInt off(64, 0);
      if (G->collectOffset(E.DL, 64, var, off)) {
        T.c += off.getSExtValue() * k;
        for (auto &x : var) terms(env, x.first, T, k * x.second.getSExtValue(), d + 1);
        terms(env, G->getPointerOperand(), T, k, d + 1);
        return;
      }
    }
    if (auto *I = dyn_cast<Instruction>(v)) {
      if (I->getOpcode() == Instruction::Add) {
        terms(env, I->getOperand(0), T, k, d + 1);
        terms(env, I->getOperand(1), T, k, d + 1);
        return;
      }
      if (I->getOpcode() == Instruction::Sub) {
        terms(env, I->getOperand(0), T, k, d + 1);
        terms(env, I->getOperand(1), T, -k, d + 1);
        return;
      }
      if (I->getOpcode() == Instruction::Shl)
        if (auto *K = dyn_cast<ConstantInt>(I->getOperand(1)))
          if (K->getZExtValue() < 62) return terms(env, I->getOperand(0), T, k * ((wide)1 << K->getZExtValue()), d + 1);
      if (I->getOpcode() == Instruction::Mul) {
        for (int w = 0; w < 2; ++w) {
          Terms A;
          terms(env, I->getOperand(w), A, 1, d + 1);
          if (A.factor && !A.bad && A.rest.empty() && A.c == 0) {
            auto o = env.of(I->getOperand(1 - w));
            if (!o) {
              T.bad = true;
              return;
            }
            if (!T.factor) T.factor = Lin(0);
            T.factor->add(env.sp.product(*A.factor, *o), k);
            return;
          }
        }
        if (auto *K = dyn_cast<ConstantInt>(E.look(env.S, I->getOperand(1)))) return terms(env, I->getOperand(0), T, k * K->getSExtValue(), d + 1);
      }
      if (isa<FreezeInst>(I) || isa<PtrToIntInst>(I) || isa<IntToPtrInst>(I)) return terms(env, I->getOperand(0), T, k, d + 1);
    }
    if (k == 1) T.rest.push_back(v);
    else T.bad = true;
  }

  LinEnv env(const State &S) {
    LinEnv e(sp, E, S);
    e.leaf = [this](const Value *v) { return E.look(State(), v) ? names_of(v) : ""; };
    return e;
  }
  State cur;
  std::string names_of(const Value *v) { return name(cur, v); }

  void prepare(LinEnv &e) {
    cur = e.S;
    e.on_sym = [this](LinEnv &L, const Value *v, int s) {
      // loop counters: up from a start, no further than the bound they are tested against; anything
      // stepped alongside is a multiple of the count
      auto *P = dyn_cast<PHINode>(v);
      if (!P || !E.headers.count(P->getParent()) || P->getNumIncomingValues() != 2) return;
      Lin ph = Lin::sym(s);
      for (int k = 0; k < 2; ++k) {
        auto *Inc = dyn_cast<BinaryOperator>(P->getIncomingValue(k));
        if (!Inc || Inc->getOpcode() != Instruction::Add) continue;
        int pi = Inc->getOperand(0) == P ? 0 : Inc->getOperand(1) == P ? 1 : -1;
        if (pi < 0) continue;
        auto i = L.of(P->getIncomingValue(1 - k));
        if (!i) continue;
        auto *C = dyn_cast<ConstantInt>(Inc->getOperand(1 - pi));
        bool held = false;
        if (C && C->getSExtValue() > 0) {
          for (const Value *w : {(const Value *)P, (const Value *)Inc})
            for (const User *U : w->users())
              if (auto *IC = dyn_cast<ICmpInst>(U)) {
                const Value *o = E.look(L.S, IC->getOperand(0) == w ? IC->getOperand(1) : IC->getOperand(0));
                if (auto *oi = dyn_cast<Instruction>(o))
                  if (oi->getParent() == P->getParent()) continue;
                auto b = L.of(o);
                if (b && C->isOne() && L.nonneg(*b - *i)) {
                  L.assume(*b - ph);
                  held = true;
                }
              }
          if (held || Inc->hasNoSignedWrap()) L.assume(ph - *i);
          if (C->isOne()) continue;
        }
        if (!Inc->hasNoSignedWrap()) continue;
        auto st = L.of(Inc->getOperand(1 - pi));
        if (auto *si = dyn_cast<Instruction>(E.look(L.S, Inc->getOperand(1 - pi))))
          if (si->getParent() == P->getParent()) continue;
        if (!st) continue;
        for (const PHINode &Q : P->getParent()->phis()) {
          if (&Q == P || Q.getNumIncomingValues() != 2 || !Q.getType()->isIntegerTy()) continue;
          for (int j = 0; j < 2; ++j) {
            auto *QI = dyn_cast<BinaryOperator>(Q.getIncomingValue(j));
            auto *Q0 = dyn_cast<ConstantInt>(Q.getIncomingValue(1 - j));
            if (!QI || !Q0 || QI->getOpcode() != Instruction::Add || QI->getOperand(0) != &Q || Q.getIncomingBlock(j) != P->getIncomingBlock(k)) continue;
            auto *QC = dyn_cast<ConstantInt>(QI->getOperand(1));
            auto q = QC && QC->isOne() ? L.of(&Q) : std::nullopt;
            if (!q) continue;
            Lin eq = ph - *i - L.sp.product(*q - Lin(Q0->getSExtValue()), *st);
            L.assume(eq);
            L.assume(eq.scaled(-1));
          }
        }
      }
    };
    e.load_facts();
    e.memo.clear();
    e.load_facts();
  }

  void add(const std::string &key, bool ok, const Instruction *I, const std::string &why, bool vague = false) {
    Obl &o = obl[key];
    ++o.n;
    if (o.where.empty() && I) o.where = where_of(I);
    if (!ok && o.ok) {
      o.ok = false;
      o.vague = vague;
      o.why = why;
      if (I) o.where = where_of(I);
    }
    if (!ok && !vague) o.vague = false;
  }

  // the extent of the dimension
  std::optional<Lin> extent(LinEnv &e) {
    std::string n;
    if (cls == "var_dim") {
      // the size word behind the data pointer as it was on entry
      for (auto *B : e.S.path)
        for (const Instruction &I : *B)
          if (auto *L = dyn_cast<LoadInst>(&I)) {
            if (!L->getType()->isIntegerTy(64)) continue;
            Addr a = E.addr(e.S, L->getPointerOperand());
            if (!a.ok || a.off != 8) continue;
            auto *P = dyn_cast_or_null<LoadInst>(a.base);
            if (!P) continue;
            Addr b = E.addr(e.S, P->getPointerOperand());
            if (b.ok && b.base == arg(kind == "at" ? 3 : 10)) {
              auto l = e.of(L);
              if (l) e.assume(*l);
              return l;
            }
          }
      Lin l = Lin::sym(sp.sym("the element count"));
      e.assume(l);
      return l;
    }
    n = "[a0+" + std::to_string(count_off) + "]";
    int s = sp.sym(n);
    Lin l = Lin::sym(s);
    e.assume(l);
    return l;
  }

  bool understood(const Lin &l) const {
    for (auto &x : l.t)
      if (sp.name[x.first].find('%') != std::string::npos) return false;
    return true;
  }

  // x == the element an integer index names
  void single(LinEnv &e, const std::string &key, const Instruction *I, const Lin &x, const Lin &i, const Lin &D) {
    e.assume(D);
    bool in = e.nonneg(x) && e.nonneg(D - x - Lin(1));
    std::string d = "element " + sp.str(x) + " of " + sp.str(D) + " for index " + sp.str(i);
    add(key + ":range", in, I, "addresses " + d + ", not shown to lie inside", !understood(x));
    LinEnv p = e, n = e;
    p.assume(i);
    n.assume(Lin(-1) - i);
    auto same = [&](LinEnv &L, const Lin &want) { return L.impossible() || (L.nonneg(x - want) && L.nonneg(want - x)); };
    bool ok = same(p, i) && same(n, i + D);
    add(key + ":element", ok, I, "addresses " + d, !understood(x));
  }
  // a single index that is in range must not be refused
  void refused(LinEnv &e, const std::string &key, const Instruction *I, const Lin &i, const Lin &D) {
    e.assume(D);
    LinEnv ok = e;
    ok.assume(i + D);
    ok.assume(D - i - Lin(1));
    add(key + ":accepted", ok.impossible(), I, "refuses index " + sp.str(i) + " of " + sp.str(D) + " although it may be in range");
  }

  // x, x + s, ..., n elements == the slice start:finish:step of D elements
  void slice(LinEnv &e0, const std::string &key, const Instruction *I, const Lin *x, const Lin *s, const Lin &n, const Lin &D, const Lin &start,
             const Lin &fin, const Lin &step) {
    const wide MIN = -((wide)1 << 63), MAX = ((wide)1 << 63) - 1;
    e0.assume(D);
    struct Case {
      std::vector<Lin> c;
      Lin v;
      bool defined;
    };
    bool u = understood(n) && (!x || understood(*x)) && (!s || understood(*s));
    for (int dir = 0; dir < 2; ++dir) {
      LinEnv e = e0;
      e.assume(dir ? Lin(-1) - step : step - Lin(1));
      if (e.impossible()) continue;
      std::vector<Case> st, en;
      Case in{{start, D - start - Lin(1)}, start, true}, neg{{Lin(-1) - start, start + D}, start + D, true};
      st.push_back(in);
      st.push_back(neg);
      if (!dir) {
        st.push_back({{Lin(-1) - start - D}, Lin(0), true});
        en.push_back({{fin, D - fin}, fin, true});
        en.push_back({{fin - D - Lin(1)}, D, true});
        en.push_back({{Lin(-1) - fin, fin + D}, fin + D, true});
      } else {
        st.push_back({{Lin(MIN) - start, start - Lin(MIN), Lin(-1) - start - D}, D - Lin(1), true});
        en.push_back({{fin, D - fin - Lin(1)}, fin, true});
        en.push_back({{fin - Lin(MAX), Lin(MAX) - fin, fin - D}, Lin(-1), true});
        en.push_back({{Lin(-1) - fin, fin + D}, fin + D, true});
        en.push_back({{Lin(-1) - fin - D}, Lin(-1), true});
      }
      wide sg = dir ? -1 : 1;
      std::string what = std::string(dir ? "backward" : "forward") + " slice";
      for (auto &a : st)
        for (auto &b : en) {
          LinEnv c = e;
          for (auto &l : a.c) c.assume(l);
          for (auto &l : b.c) c.assume(l);
          if (c.impossible()) continue;
          Lin L = (b.v - a.v).scaled(sg); // how far it reaches
          LinEnv em = c, ne = c;
          em.assume(L.scaled(-1));
          ne.assume(L - Lin(1));
          std::string from = what + " from " + sp.str(a.v) + " to " + sp.str(b.v);
          if (!em.impossible()) add(key + ":empty", em.nonneg(n) && em.nonneg(n.scaled(-1)), I, from + " that is empty has " + sp.str(n) + " elements", !u);
          if (ne.impossible()) continue;
          add(key + ":count", ne.nonneg(n - Lin(1)), I, from + " has " + sp.str(n) + " elements, not shown positive", !u);
          add(key + ":bound", ne.nonneg(D - n), I, from + " has " + sp.str(n) + " elements of " + sp.str(D), !u);
          if (!x || !s) {
            Lin last = (a.v + sp.product(n - Lin(1), step) - b.v).scaled(sg), next = (a.v + sp.product(n, step) - b.v).scaled(sg);
            LinEnv p = ne, q = ne;
            add(key + ":last", p.nonneg(Lin(-1) - last), I, from + " has " + sp.str(n) + " elements, more than it reaches", !u);
            add(key + ":all", q.nonneg(next), I, from + " has only " + sp.str(n) + " elements", !u);
            continue;
          }
          add(key + ":start", ne.nonneg(*x - a.v) && ne.nonneg(a.v - *x), I, from + " starts at " + sp.str(*x), !u);
          LinEnv two = ne;
          two.assume(n - Lin(2));
          add(key + ":step", two.impossible() || (two.nonneg(*s - step) && two.nonneg(step - *s)), I, from + " advances by " + sp.str(*s), !u);
          Lin last = (*x + sp.product(n - Lin(1), *s) - b.v).scaled(sg); // must be < 0
          LinEnv one = ne;
          bool okl = one.nonneg(Lin(-1) - last);
          add(key + ":last", okl, I, from + " has " + sp.str(n) + " elements, so the last one is not shown to lie before the end", !u);
          LinEnv nx = ne;
          Lin next = (*x + sp.product(n, step) - b.v).scaled(sg); // must be >= 0
          add(key + ":all", nx.nonneg(next), I, from + " has only " + sp.str(n) + " elements", !u);
        }
    }
  }

  void judge_ptr(const State &S, const Instruction &I, const Value *val, const std::string &what) {
    LinEnv e = env(S);
    prepare(e);
    Terms T;
    terms(e, val, T);
    if (!T.factor) {
      // an offset that does not depend on the stride: the element is not selected here
      return;
    }
    if (T.bad) {
      add(what, false, &I, "offset not understood", true);
      return;
    }
    auto D = extent(e);
    Lin i = Lin::sym(sp.sym(kind == "at" ? "a1" : "[a2+0]"));
    single(e, what, &I, *T.factor, i, *D);
  }

  bool is_irange_step_zero(LinEnv &e) {
    Lin st = Lin::sym(sp.sym("[a2+16]"));
    return e.nonneg(st) && e.nonneg(st.scaled(-1));
  }

  void run() {
    // parameters the function writes through
    for (Instruction &I : instructions(F))
      if (auto *St = dyn_cast<StoreInst>(&I)) {
        const Value *p = St->getPointerOperand();
        while (auto *G = dyn_cast<GEPOperator>(p)) p = G->getPointerOperand();
        if (auto *A = dyn_cast<Argument>(p)) stored.insert(A);
      }
    E.loops = true;
    E.max_paths = 6000;
    bool seq = cls == "struct" || cls == "tuple";
    E.on_inst = [&](State &S, const Instruction &I) {
      if (!seq && (kind == "at" || kind == "data"))
        if (auto *St = dyn_cast<StoreInst>(&I)) {
          Addr a = E.addr(S, St->getPointerOperand());
          if (!a.ok || !a.base) return;
          if (a.base == arg(kind == "at" ? 3 : 10) && a.off == 0) judge_ptr(S, I, St->getValueOperand(), "data pointer");
          else if (kind == "data" && cls == "var_dim" && a.base == arg(5) && St->getValueOperand()->getType()->isIntegerTy(64)) {
            LinEnv e = env(S);
            cur = S;
            Terms T;
            terms(e, St->getValueOperand(), T);
            if (T.factor && !T.factor->isconst()) judge_ptr(S, I, St->getValueOperand(), "element offset");
          }
        }
      if (seq)
        if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
          MapVector<Value *, APInt> var;
          APInt off(64, 0);
          if (!G->collectOffset(E.DL, 64, var, off) || var.size() != 1) return;
          int64_t scale = var.begin()->second.getSExtValue();
          const Value *b = E.look(S, G->getPointerOperand());
          std::string bn = name(S, b);
          bool vec = std::regex_match(bn, std::regex("\\[a0\\+[0-9]+\\]"));
          bool meta = (kind == "data" && b == arg(3)) || (kind == "at" && std::regex_match(bn, std::regex("\\[a2\\+0\\](#[0-9]+)?")));
          if ((!vec && !meta) || scale < 8 || (off.getSExtValue() % scale && !vec)) return;
          std::string sig = std::to_string((uintptr_t)G) + ":" + std::to_string((uintptr_t)E.look(S, var.begin()->first));
          for (auto &f : S.facts)
            if (auto *IC = dyn_cast<ICmpInst>(E.look(S, f.cond)))
              if (IC->getOperand(0)->getType()->isIntegerTy(64)) {
                sig += std::to_string((uintptr_t)IC) + (f.truth ? "+" : "-");
                for (const Use &U : IC->operands()) sig += std::to_string((uintptr_t)E.look(S, U.get())) + ",";
              }
          if (!judged.insert(sig).second) return;
          LinEnv e = env(S);
          prepare(e);
          auto x = e.of(var.begin()->first);
          if (!x) return;
          Lin idx = *x + Lin(off.getSExtValue() / scale);
          auto D = extent(e);
          std::string key = std::string(vec ? "field table" : "field offset");
          if (kind == "at") single(e, key, &I, idx, Lin::sym(sp.sym("a1")), *D);
          else if (is_irange_step_zero(e)) single(e, key, &I, idx, Lin::sym(sp.sym("[a2+0]")), *D);
          else
            add(key + ":range", e.nonneg(idx) && e.nonneg(*D - idx - Lin(1)), &I, "field " + sp.str(idx) + " of " + sp.str(*D) + ", not shown to exist", !understood(idx));
        }
      if (cls == "fixed_dim" && kind == "type")
        if (auto *C = dyn_cast<CallBase>(&I)) {
          Function *c = C->getCalledFunction();
          std::string d = c ? demangle_(c->getName()) : "";
          if (d.find("make_fixed_dim(") == std::string::npos && d.find("make_type<dynd::ndt::fixed_dim_type") == std::string::npos) return;
          const Value *nv = nullptr;
          for (const Use &U : C->args())
            if (U->getType()->isIntegerTy(64)) nv = U.get();
            else if (U->getType()->isPointerTy() && !nv)
              if (auto *Al = dyn_cast<AllocaInst>(U.get()->stripPointerCasts()))
                if (Al->getAllocatedType()->isIntegerTy(64)) {
                  // passed by reference: the last value stored
                  for (const User *X : Al->users())
                    if (auto *St = dyn_cast<StoreInst>(X)) nv = St->getValueOperand();
                }
          if (!nv) return;
          LinEnv e = env(S);
          prepare(e);
          auto n = e.of(nv);
          auto D = extent(e);
          if (!n) return;
          slice(e, "type of slice", &I, nullptr, nullptr, *n, *D, Lin::sym(sp.sym("[a2+0]")), Lin::sym(sp.sym("[a2+8]")), Lin::sym(sp.sym("[a2+16]")));
          ntype.push_back({e, *n, &I});
        }
    };
    E.on_ret = [&](State &S, const ReturnInst &R) {
      ++paths;
      if (cls != "fixed_dim" || kind != "data") return;
      // what was written to the result's metadata on this path
      LinEnv e = env(S);
      prepare(e);
      auto D = extent(e);
      const Instruction *at = nullptr;
      std::optional<Lin> n, s, x;
      bool bad = false, wrote_stride = false;
      for (auto *B : S.path)
        for (const Instruction &I : *B)
          if (auto *St = dyn_cast<StoreInst>(&I)) {
            Addr a = E.addr(S, St->getPointerOperand());
            if (!a.ok || a.base != arg(5)) continue;
            if (a.off == 0) {
              n = e.of(St->getValueOperand());
              at = &I;
            } else if (a.off == 8) {
              Terms T;
              terms(e, St->getValueOperand(), T);
              wrote_stride = true;
              if (T.bad || !T.rest.empty() || T.c) bad = true;
              else s = T.factor ? *T.factor : Lin(0);
            }
          }
      Terms T;
      if (R.getReturnValue()) terms(e, R.getReturnValue(), T);
      if (!at && !wrote_stride) {
        // the dimension was removed, or nothing was indexed
        if (T.factor) judge_ptr(S, R, R.getReturnValue(), "returned offset");
        return;
      }
      x = T.factor ? *T.factor : Lin(0);
      if (!n || !s || bad || T.bad) {
        add("slice", false, at ? at : &R, "slice not understood", true);
        return;
      }
      slice(e, "slice", at, &*x, &*s, *n, *D, Lin::sym(sp.sym("[a2+0]")), Lin::sym(sp.sym("[a2+8]")), Lin::sym(sp.sym("[a2+16]")));
    };
    E.on_stub = [&](State &S, const Instruction &I, bool th) {
      ++throws;
      if (!th) return;
      if (kind == "at") {
        LinEnv e = env(S);
        prepare(e);
        auto D = extent(e);
        refused(e, "index", &I, Lin::sym(sp.sym("a1")), *D);
      } else if (cls == "fixed_dim") {
        LinEnv e = env(S);
        prepare(e);
        if (!is_irange_step_zero(e)) return;
        auto D = extent(e);
        refused(e, "index", &I, Lin::sym(sp.sym("[a2+0]")), *D);
      }
    };
    E.run();
  }
  struct NT {
    LinEnv e;
    Lin n;
    const Instruction *I;
  };
  std::vector<NT> ntype;
  std::set<std::string> judged;

  void report() {
    for (auto &o : obl)
      Json().kv("k", "index").kv("fn", fn).kv("cls", cls).kv("kind", kind).kv("what", o.first).kv("ok", o.second.ok).kv("vague", o.second.vague).kv("n", (int)o.second.n).kv("where", o.second.where).kv("why", o.second.why).out();
    Json().kv("k", "indexfn").kv("fn", fn).kv("cls", cls).kv("kind", kind).kv("paths", (int)paths).kv("throws", (int)throws).kv("aborted", E.aborted).kv("why", E.abort_why).kv("where", where_fn(&F)).out();
  }
};

int64_t getter_offset(Module &M, const std::string &cls) {
  for (Function &F : M) {
    if (F.isDeclaration()) continue;
    std::string d = demangle_(F.getName());
    bool g = cls == "fixed_dim" ? d == "dynd::ndt::fixed_dim_type::get_fixed_dim_size() const" || d == "dynd::ndt::fixed_dim_type::get_dim_size(char const*, char const*) const"
                                : d == "dynd::ndt::" + cls + "_type::get_field_count() const";
    if (!g) continue;
    Function *W = private_copy(F);
    InlinePolicy P;
    P.ok = [](const CallBase &, const Function &) { return true; };
    flatten(*W, P);
    cleanup(*W);
    int64_t off = -1;
    for (Instruction &I : instructions(*W))
      if (auto *R = dyn_cast<ReturnInst>(&I))
        if (auto *L = dyn_cast_or_null<LoadInst>(R->getReturnValue())) {
          APInt o(64, 0);
          const Value *b = L->getPointerOperand()->stripAndAccumulateConstantOffsets(M.getDataLayout(), o, true);
          if (b == W->getArg(0)) off = o.getSExtValue();
        }
    W->eraseFromParent();
    if (off >= 0) return off;
  }
  return -1;
}

int m_index(Module &M, const std::vector<std::string> &args) {
  for (auto &a : args) { // helpers defined in other units
    SMDiagnostic err;
    auto X = parseIRFile(a, err, M.getContext());
    if (!X || Linker::linkModules(M, std::move(X), Linker::Flags::LinkOnlyNeeded)) return 3;
  }
  std::vector<Function *> fs;
  for (Function &F : M)
    if (!F.isDeclaration()) fs.push_back(&F);
  std::regex re("^dynd::ndt::(fixed_dim|var_dim|struct|tuple)_type::(at_single|apply_linear_index)\\((.*)\\) const$");
  for (Function *F : fs) {
    std::string d = demangle_(F->getName());
    std::smatch m;
    if (!std::regex_match(d, m, re)) continue;
    std::string cls = m[1], kind = m[2] == "at_single" ? "at" : m[3].str().find("memory_block") != std::string::npos ? "data" : "type";
    int64_t off = cls == "var_dim" ? 0 : getter_offset(M, cls);
    Function *W = private_copy(*F);
    InlinePolicy P;
    P.callee_limit = 4000;
    P.ok = [](const CallBase &, const Function &C) {
      std::string n = demangle_(C.getName());
      if (n.find("std::") != std::string::npos && n.find("dynd::") != 0 && n.find(">::operator[](") == std::string::npos && n.find(">::data()") == std::string::npos && n.find(">::begin()") == std::string::npos &&
          n.find(">::size()") == std::string::npos && n.find("numeric_limits") == std::string::npos && n.find("std::min") == std::string::npos && n.find("std::max") == std::string::npos && n.find("::at(") == std::string::npos)
        return false;
      return n.find("make_fixed_dim(") == std::string::npos && n.find("make_type<") == std::string::npos && n.find("::arrmeta_") == std::string::npos &&
             n.find("memory_block") == std::string::npos && n.find("::apply_linear_index(") == std::string::npos && n.find("std::vector<dynd::ndt::type") == std::string::npos
             ? true
             : n.find("::operator[](") != std::string::npos;
    };
    flatten(*W, P);
    prune_exceptions(*W);
    cleanup(*W, "sroa,early-cse<memssa>,simplifycfg<no-switch-to-lookup;no-hoist-common-insts;no-sink-common-insts;bonus-inst-threshold=0>");
    if (getenv("SA_DUMP")) W->print(errs());
    Ix X(*W);
    X.fn = d;
    X.cls = cls;
    X.kind = kind;
    X.count_off = off;
    X.self = W->getArg(0)->hasStructRetAttr() ? 1 : 0;
    X.run();
    X.report();
    if (off < 0) Json().kv("k", "noextent").kv("fn", d).out();
    W->eraseFromParent();
  }
  return 0;
}

// fieldname: a field number found by name is used only where it is known not to be the "no such field" mark.
// take: an element taken by a stored index lies inside the source.
struct Named {
  Function &F;
  Explorer E;
  LinSpace sp;
  std::map<const Instruction *, std::pair<bool, std::string>> uses;
  unsigned lookups = 0;
  Named(Function &F) : F(F), E(F) {}
};

int m_fieldname(Module &M, const std::vector<std::string> &args) {
  std::regex look(args.at(0)), use(args.at(1));
  std::vector<Function *> fs;
  for (Function &F : M) {
    if (F.isDeclaration()) continue;
    bool has = false;
    for (Instruction &I : instructions(F))
      if (auto *C = dyn_cast<CallBase>(&I))
        if (Function *c = C->getCalledFunction(); c && std::regex_search(demangle_(c->getName()), look)) has = true;
    if (has) fs.push_back(&F);
  }
  for (Function *F : fs) {
    Function *W = private_copy(*F);
    prune_exceptions(*W);
    cleanup(*W, "sroa,early-cse,simplifycfg<no-switch-to-lookup;no-hoist-common-insts;no-sink-common-insts;bonus-inst-threshold=0>");
    std::set<const Value *> found;
    // values that may be the looked-up number
    for (Instruction &I : instructions(*W))
      if (auto *C = dyn_cast<CallBase>(&I))
        if (Function *c = C->getCalledFunction(); c && C->getType()->isIntegerTy() && std::regex_search(demangle_(c->getName()), look)) found.insert(C);
    // a number kept in a local whose address is handed on (by const reference) is still that number
    {
      DominatorTree DT(*W);
      for (Instruction &A : instructions(*W)) {
        if (!isa<AllocaInst>(&A) || !cast<AllocaInst>(&A)->getAllocatedType()->isIntegerTy()) continue;
        StoreInst *St = nullptr;
        unsigned stores = 0;
        std::vector<LoadInst *> loads;
        for (User *U : A.users())
          if (auto *x = dyn_cast<StoreInst>(U)) {
            ++stores;
            St = x;
          } else if (auto *l = dyn_cast<LoadInst>(U))
            loads.push_back(l);
        if (stores != 1 || !found.count(St->getValueOperand())) continue;
        for (LoadInst *l : loads)
          if (l->getType() == St->getValueOperand()->getType() && DT.dominates(St, l)) {
            l->replaceAllUsesWith(St->getValueOperand());
            l->eraseFromParent();
          }
      }
    }
    Named N(*W);
    Explorer &E = N.E;
    E.loops = true;
    E.max_paths = 20000;
    std::map<const Instruction *, std::pair<bool, std::string>> res;
    std::set<std::string> seen;
    auto origin = [&](const State &S, const Value *v) -> const Value * {
      v = E.look(S, v);
      for (unsigned k = 0; k < 8; ++k) {
        if (found.count(v)) return v;
        auto *I = dyn_cast<Instruction>(v);
        if (!I) return nullptr;
        if (isa<CastInst>(I) || isa<FreezeInst>(I)) v = E.look(S, I->getOperand(0));
        else if (I->getOpcode() == Instruction::Add || I->getOpcode() == Instruction::Mul || I->getOpcode() == Instruction::Shl) v = E.look(S, I->getOperand(isa<Constant>(I->getOperand(0)) ? 1 : 0));
        else return nullptr;
      }
      return nullptr;
    };
    E.on_inst = [&](State &S, const Instruction &I) {
      std::vector<const Value *> ops;
      if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
        for (const Use &U : G->indices()) ops.push_back(U.get());
      } else if (auto *St = dyn_cast<StoreInst>(&I)) {
        if (isa<AllocaInst>(St->getPointerOperand()) && cast<AllocaInst>(St->getPointerOperand())->getAllocatedType()->isIntegerTy()) return;
        ops.push_back(St->getValueOperand()); // kept for later use
      } else if (auto *C = dyn_cast<CallBase>(&I)) {
        Function *c = C->getCalledFunction();
        if (!c || !std::regex_search(demangle_(c->getName()), use)) return;
        for (const Use &U : C->args()) ops.push_back(U.get());
      } else
        return;
      for (const Value *o : ops) {
        if (!o->getType()->isIntegerTy() || isa<Constant>(o)) continue;
        const Value *r = origin(S, o);
        if (!r) continue;
        LinEnv e(N.sp, E, S);
        if (auto r0 = e.of(r)) e.assume(*r0 + Lin(1)); // a field number or -1
        e.load_facts();
        auto l = e.of(r);
        bool ok = l && e.nonneg(*l);
        auto it = res.find(&I);
        if (it == res.end()) res[&I] = {ok, ""};
        else it->second.first &= ok;
      }
    };
    E.run();
    unsigned bad = 0;
    std::string where, all;
    for (auto &r : res)
      if (!r.second.first) {
        ++bad;
        where = where_of(r.first);
      }
    Json().kv("k", "fieldname").kv("fn", demangle_(F->getName())).kv("lookups", (int)found.size()).kv("uses", (int)res.size()).kv("bad", (int)bad).kv("aborted", E.aborted).kv("where", bad ? where : where_fn(F)).out();
    W->eraseFromParent();
  }
  return 0;
}

int m_take(Module &M, const std::vector<std::string> &args) {
  std::regex re(args.at(0));
  std::string dimf = args.at(1), stridef = args.at(2);
  // where the kernel keeps the extent and the stride
  int64_t dim = -1, stride = -1;
  DebugInfoFinder DF;
  DF.processModule(M);
  for (auto *T : DF.types())
    if (auto *C = dyn_cast<DICompositeType>(T))
      for (auto *el : C->getElements())
        if (auto *D = dyn_cast_or_null<DIDerivedType>(el)) {
          if (D->getTag() != dwarf::DW_TAG_member || C->getName() != args.at(3)) continue;
          if (D->getName() == dimf) dim = D->getOffsetInBits() / 8;
          if (D->getName() == stridef) stride = D->getOffsetInBits() / 8;
        }
  std::vector<Function *> fs;
  for (Function &F : M)
    if (!F.isDeclaration() && std::regex_search(demangle_(F.getName()), re)) fs.push_back(&F);
  for (Function *F : fs) {
    Function *W = private_copy(*F);
    InlinePolicy P;
    P.callee_limit = 600;
    P.ok = [](const CallBase &, const Function &) { return true; };
    flatten(*W, P);
    prune_exceptions(*W);
    cleanup(*W);
    Explorer E(*W);
    E.loops = true;
    LinSpace sp;
    unsigned n = 0, bad = 0, vague = 0;
    std::string where, why;
    auto field = [&](const State &S, const Value *v) -> int64_t {
      auto *L = dyn_cast<LoadInst>(E.look(S, v));
      if (!L) return -1;
      Addr a = E.addr(S, L->getPointerOperand());
      return a.ok && a.base == W->getArg(0) ? a.off : -1;
    };
    E.on_inst = [&](State &S, const Instruction &I) {
      auto *G = dyn_cast<GetElementPtrInst>(&I);
      if (!G) return;
      for (const Use &U : G->indices()) {
        auto *Mu = dyn_cast<Instruction>(E.look(S, U.get()));
        if (!Mu || Mu->getOpcode() != Instruction::Mul) continue;
        for (int k = 0; k < 2; ++k) {
          if (field(S, Mu->getOperand(k)) != stride) continue;
          LinEnv e(sp, E, S);
          e.leaf = [&](const Value *v) {
            int64_t f = field(S, v);
            return f >= 0 ? "self+" + std::to_string(f) : std::string();
          };
          Lin D = Lin::sym(sp.sym("self+" + std::to_string(dim)));
          e.assume(D);
          e.load_facts();
          auto x = e.of(Mu->getOperand(1 - k));
          ++n;
          if (!x) {
            ++vague;
            continue;
          }
          if (!(e.nonneg(*x) && e.nonneg(D - *x - Lin(1)))) {
            ++bad;
            where = where_of(&I);
            why = "element taken is not shown to lie inside the source dimension";
          }
        }
      }
    };
    E.run();
    Json().kv("k", "take").kv("fn", demangle_(F->getName())).kv("n", (int)n).kv("bad", (int)bad).kv("vague", (int)vague).kv("known", dim >= 0 && stride >= 0).kv("where", bad ? where : where_fn(F)).kv("why", why).out();
    W->eraseFromParent();
  }
  return 0;
}
} // namespace
static ModeReg r1("index", m_index);
static ModeReg r2("fieldname", m_fieldname);
static ModeReg r3("take", m_take);
