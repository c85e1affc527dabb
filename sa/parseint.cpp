// Text to integer: the number a parser returns is the number the digits name.
//
// parseint: one record per parser.
#include "bvlin.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/DebugInfo.h"
#include <regex>

namespace {
struct IntTy {
  unsigned bits = 0;
  bool sgn = false;
};
IntTy int_type(std::string n) {
  while (!n.empty() && n.back() == ' ') n.pop_back();
  static const std::map<std::string, IntTy> t = {{"signed char", {8, true}}, {"char", {8, true}}, {"short", {16, true}}, {"int", {32, true}}, {"long", {64, true}}, {"long long", {64, true}}, {"unsigned char", {8, false}}, {"unsigned short", {16, false}}, {"unsigned int", {32, false}}, {"unsigned long", {64, false}}, {"unsigned long long", {64, false}}};
  auto it = t.find(n);
  return it == t.end() ? IntTy() : it->second;
}
wide p2(unsigned w) { return (wide)1 << w; }
const char *MAG = "\\bparse<unsigned [a-z ]+>\\(char const\\*, char const\\*\\)$";
const char *SPARSE = "\\bparse<(signed char|short|int|long|long long)>\\(char const\\*, char const\\*\\)$";
const char *CHECKED = "checked_string_to_signed_int<([a-z ]+)>\\(";
const char *KERNEL = "assignment_kernel<([a-z ]+), dynd::string, \\(dynd::assign_error_mode\\)([0-9]+), void>::single\\(";
const char *NUMBER = "\\bstring_to_number\\(char\\*, dynd::type_id_t, char const\\*, char const\\*, dynd::assign_error_mode\\)$";

const CallBase *mag_call(const Explorer &, const State &S, const Instruction *upto) {
  const CallBase *r = nullptr;
  static const std::regex re(MAG);
  for (const BasicBlock *B : S.path)
    for (const Instruction &I : *B) {
      if (&I == upto) return r;
      if (auto *C = dyn_cast<CallBase>(&I))
        if (Function *c = C->getCalledFunction(); c && C->getType()->isIntegerTy() && std::regex_search(demangle_(c->getName()), re)) r = C;
    }
  return r;
}
std::vector<const LoadInst *> chars(const State &S) {
  std::vector<const LoadInst *> r;
  for (const BasicBlock *B : S.path)
    for (const Instruction &I : *B)
      if (auto *L = dyn_cast<LoadInst>(&I))
        if (L->getType()->isIntegerTy(8)) r.push_back(L);
  return r;
}
bool depends(const Explorer &E, const State &S, const Value *v, const Value *on, unsigned d = 0) {
  v = E.look(S, v);
  if (v == on) return true;
  auto *I = dyn_cast<Instruction>(v);
  if (!I || d > 24 || isa<PHINode>(I) || isa<LoadInst>(I)) return false;
  for (const Use &o : I->operands())
    if (depends(E, S, o.get(), on, d + 1)) return true;
  return false;
}

struct Work {
  Function *W;
  std::string fn;
  int judged = 0, vague = 0, bad = 0;
  std::string where, why;
  void fail(const Instruction *I, const std::string &w) {
    if (!bad++) {
      where = where_of(I);
      why = w;
    }
  }
};

Function *prepare(Function &F) {
  Function *W = private_copy(F, ".pi");
  InlinePolicy P;
  P.callee_limit = 500;
  static const std::regex keep("\\bparse<[a-z ]+>\\(char const\\*, char const\\*\\)$|parse_na\\(|::print");
  P.ok = [&](const CallBase &, const Function &c) {
    std::string n = demangle_(c.getName());
    bool own = c.getName().starts_with("_ZN4dynd") || c.getName().starts_with("_ZNK4dynd") || c.getName().starts_with("_ZL");
    if (!own && n.find("numeric_limits<") == std::string::npos && n.find("std::max<") == std::string::npos && n.find("std::min<") == std::string::npos) return false;
    return !std::regex_search(n, keep);
  };
  flatten(*W, P);
  prune_exceptions(*W);
  cleanup(*W);
  return W;
}

// ---- digit accumulation ----
void accumulate(Work &K) {
  LinSpace sp;
  struct Back {
    State S;
    const BasicBlock *H;
  };
  std::vector<Back> backs;
  std::vector<std::pair<State, const Instruction *>> rets, throws;
  Explorer E(*K.W);
  E.loops = true;
  E.max_paths = 20000;
  E.on_back = [&](State &S, const BasicBlock &H) { backs.push_back({S, &H}); };
  E.on_ret = [&](State &S, const ReturnInst &R) { rets.push_back({S, &R}); };
  E.on_stub = [&](State &S, const Instruction &I, bool th) {
    if (th) throws.push_back({S, &I});
  };
  E.run();
  if (E.aborted) {
    ++K.vague;
    return;
  }
  unsigned rbits = K.W->getReturnType()->getIntegerBitWidth();
  // the accumulators: loop-carried integers that grow tenfold
  std::set<const PHINode *> acc, counter;
  auto carried = [&](const Back &b, const PHINode *P) { return E.look(b.S, P->getIncomingValueForBlock(b.S.path.back())); };
  auto has_ten = [&](const Explorer &, const State &S, const Value *v, const PHINode *P) {
    std::set<const Value *> seen;
    std::function<bool(const Value *)> go = [&](const Value *x) {
      x = E.look(S, x);
      if (!seen.insert(x).second) return false;
      auto *I = dyn_cast<Instruction>(x);
      if (!I || isa<PHINode>(I) || isa<LoadInst>(I)) return false;
      unsigned op = I->getOpcode();
      if ((op == Instruction::Mul || op == Instruction::Shl) && depends(E, S, I, P)) return true;
      if (auto *O = dyn_cast<WithOverflowInst>(I); O && O->getBinaryOp() == Instruction::Mul) return depends(E, S, I, P);
      for (const Use &o : I->operands())
        if (o->getType()->isIntegerTy() || o->getType()->isStructTy())
          if (go(o.get())) return true;
      return false;
    };
    return go(v);
  };
  for (auto &b : backs)
    for (const PHINode &P : b.H->phis())
      if (P.getType()->isIntegerTy() && P.getType()->getIntegerBitWidth() >= 8)
        if (has_ten(E, b.S, carried(b, &P), &P)) acc.insert(&P);
  // bounds the accumulators keep, where they are wider than the result
  std::map<const PHINode *, unsigned> bound;
  auto env_of = [&](BvLin &B, const std::map<const PHINode *, unsigned> &bd) {
    for (auto &x : bd)
      if (auto l = B.u(x.first)) B.env.assume(Lin(p2(x.second) - 1) - *l);
  };
  for (const PHINode *P : acc) {
    unsigned w = P->getType()->getIntegerBitWidth();
    if (w <= rbits) continue;
    bool ok = true;
    for (auto &b : backs) {
      if (b.H != P->getParent()) continue;
      BvLin B(sp, E, b.S);
      env_of(B, {{P, rbits}});
      B.load_facts();
      auto n = B.u(carried(b, P));
      if (!n || !B.env.nonneg(Lin(p2(rbits) - 1) - *n)) ok = false;
    }
    if (ok) bound[P] = rbits;
  }
  for (auto &b : backs)
    for (const PHINode &P : b.H->phis()) {
      if (!acc.count(&P)) continue;
      const Value *nv = carried(b, &P);
      if (nv == &P) continue;
      BvLin B(sp, E, b.S);
      env_of(B, bound);
      B.load_facts();
      auto a = B.u(&P), n = B.u(nv);
      if (!a || !n) {
        ++K.vague;
        continue;
      }
      if (B.env.impossible()) continue;
      bool ok = B.equal(*n, *a) || B.equal(*n, a->scaled(10));
      for (const LoadInst *L : chars(b.S)) {
        if (ok) break;
        auto c = B.u(L);
        if (c && B.env.nonneg(*c - Lin('0')) && B.env.nonneg(Lin('9') - *c)) ok = B.equal(*n, a->scaled(10) + *c - Lin('0'));
      }
      ++K.judged;
      if (ok) continue;
      auto *I = dyn_cast<Instruction>(nv);
      if (B.exact(nv)) {
        // every operation is exact; a combination of this digit and the number so far that is not tenfold plus digit?
        unsigned nc = 0;
        for (const LoadInst *L : chars(b.S))
          if (depends(E, b.S, nv, L)) ++nc;
        if (nc > 1) {
          --K.judged;
          ++K.vague;
          continue;
        }
        K.fail(I ? I : b.H->getTerminator(), "the number so far becomes " + sp.str(*n) + ", not ten times itself plus the digit");
      } else
        K.fail(I ? I : b.H->getTerminator(), "the number so far can wrap around without an error");
    }
  // what is returned is the number accumulated
  for (auto &r : rets) {
    const Value *v = cast<ReturnInst>(r.second)->getReturnValue();
    if (!v) continue;
    BvLin B(sp, E, r.first);
    env_of(B, bound);
    B.load_facts();
    auto n = B.u(v);
    if (!n || B.env.impossible()) continue;
    bool dep = false, ok = false;
    for (const PHINode *P : acc) {
      if (!depends(E, r.first, v, P)) continue;
      dep = true;
      auto a = B.u(P);
      if (B.equal(*n, *a) || B.equal(*n, a->scaled(10))) ok = true;
      for (const LoadInst *L : chars(r.first))
        if (auto c = B.u(L); !ok && c && B.equal(*n, a->scaled(10) + *c - Lin('0'))) ok = true;
    }
    if (!dep) continue;
    ++K.judged;
    if (!ok && !B.exact(v)) K.fail(r.second, "the number accumulated doesn't fit what is returned");
    else if (!ok) {
      --K.judged;
      ++K.vague;
    }
  }
  // an error is raised for what is not a digit, or for a number that doesn't fit
  for (auto &t : throws) {
    const BasicBlock *last = nullptr;
    size_t at = 0;
    for (size_t i = 0; i < t.first.path.size(); ++i)
      for (const PHINode *P : acc)
        if (P->getParent() == t.first.path[i]) {
          last = t.first.path[i];
          at = i;
        }
    if (!last) continue;
    std::vector<const LoadInst *> cs;
    for (size_t i = at; i < t.first.path.size(); ++i)
      for (const Instruction &I : *t.first.path[i])
        if (auto *L = dyn_cast<LoadInst>(&I))
          if (L->getType()->isIntegerTy(8)) cs.push_back(L);
    BvLin B(sp, E, t.first);
    env_of(B, bound);
    B.load_facts();
    if (B.env.impossible()) continue;
    bool digits = true;
    for (const LoadInst *L : cs) {
      auto c = B.u(L);
      if (!c || !(B.env.nonneg(*c - Lin('0')) && B.env.nonneg(Lin('9') - *c))) digits = false;
    }
    if (!digits || cs.size() > 1) continue; // about something else
    bool ok = false, any = false;
    for (const PHINode *P : acc) {
      if (P->getParent() != last) continue;
      auto a = B.u(P);
      if (!a) continue;
      any = true;
      Lin e = a->scaled(10);
      if (!cs.empty()) e = e + *B.u(cs[0]) - Lin('0');
      if (B.env.nonneg(e - Lin(p2(rbits)))) ok = true;
    }
    if (!any) continue;
    ++K.judged;
    if (!ok) K.fail(t.second, "an error is raised for a number that fits");
  }
}

// ---- sign and destination ----
void assign(Work &K, IntTy fixed, const std::map<uint64_t, IntTy> &tids, const Argument *tid, const Argument *mode, const std::function<bool(const Value *)> &is_out) {
  LinSpace sp;
  Explorer E(*K.W);
  E.loops = true;
  E.max_paths = 20000;
  std::map<const Instruction *, std::pair<int, std::string>> unused;
  auto skip = [&](State &S) { // unchecked conversions wrap by definition
    for (auto &f : S.facts) {
      auto *C = dyn_cast<ICmpInst>(E.look(S, f.cond));
      if (!C || !C->isEquality()) continue;
      auto *Z = dyn_cast<ConstantInt>(C->getOperand(1));
      if (!Z || !Z->isZero() || (C->getPredicate() == CmpInst::ICMP_EQ) != f.truth) continue;
      const Value *x = E.look(S, C->getOperand(0));
      if (x == mode) return true;
      if (auto *L = dyn_cast<LoadInst>(x))
        if (L->getType()->isIntegerTy(32)) {
          Addr a = E.addr(S, L->getPointerOperand());
          if (a.ok && a.base == K.W->getArg(0)) return true;
        }
    }
    if (mode) {
      AV m = E.eval(S, mode);
      if (m.k == AV::INT && m.r.isSingleElement() && m.r.getSingleElement()->isZero()) return true;
    }
    return false;
  };
  auto dest = [&](State &S) {
    if (!tid) return fixed;
    AV t = E.eval(S, tid);
    if (t.k == AV::INT && t.r.isSingleElement()) {
      auto it = tids.find(t.r.getSingleElement()->getZExtValue());
      if (it != tids.end()) return it->second;
    }
    return IntTy();
  };
  auto common = [&](State &S, const Instruction &I, const CallBase *V, BvLin &B, Lin &m, bool &neg, IntTy &d) {
    d = dest(S);
    if (!d.bits || skip(S)) return false;
    B.load_facts();
    auto x = B.u(V);
    if (!x || B.env.impossible()) return false;
    m = *x;
    neg = false;
    for (const LoadInst *L : chars(S)) {
      if (L == &I) break;
      auto c = B.u(L);
      if (c && B.equal(*c, Lin('-'))) neg = true;
    }
    return true;
  };
  auto judge = [&](State &S, const Instruction &I, const Value *v, bool any) {
    const CallBase *V = mag_call(E, S, &I);
    if (!V) return;
    if (!any && v->getType()->getIntegerBitWidth() == 8 && !depends(E, S, v, V)) return;
    BvLin B(sp, E, S);
    Lin m;
    bool neg;
    IntTy d;
    if (!common(S, I, V, B, m, neg, d)) return;
    unsigned w = v->getType()->getIntegerBitWidth();
    if (w != d.bits) {
      if (depends(E, S, v, V)) {
        ++K.judged;
        K.fail(&I, std::to_string(w) + " bits are stored where the destination has " + std::to_string(d.bits));
      } else
        ++K.vague;
      return;
    }
    auto r = d.sgn ? B.s(v) : B.u(v);
    if (!r) {
      ++K.vague;
      return;
    }
    ++K.judged;
    if (!B.equal(*r, neg ? m.scaled(-1) : m)) {
      if (!B.env.impossible({neg ? m - Lin(1) : m})) K.fail(&I, std::string("the value stored need not be ") + (neg ? "minus " : "") + "the number read");
    }
  };
  E.on_inst = [&](State &S, const Instruction &I) {
    auto *St = dyn_cast<StoreInst>(&I);
    if (!St || !is_out || !St->getValueOperand()->getType()->isIntegerTy()) return;
    Addr a = E.addr(S, St->getPointerOperand());
    if (!a.ok || !is_out(a.base)) return;
    judge(S, I, St->getValueOperand(), true);
  };
  E.on_ret = [&](State &S, const ReturnInst &R) {
    if (is_out) {
      // something was stored after the number was read
      const CallBase *V = mag_call(E, S, &R);
      if (!V) return;
      BvLin B(sp, E, S);
      Lin m;
      bool neg;
      IntTy d;
      if (!common(S, R, V, B, m, neg, d)) return;
      bool stored = false;
      for (const BasicBlock *Bk : S.path)
        for (const Instruction &I : *Bk) {
          if (auto *St = dyn_cast<StoreInst>(&I)) {
            Addr a = E.addr(S, St->getPointerOperand());
            if (a.ok && is_out(a.base)) stored = true;
          }
          if (auto *C = dyn_cast<CallBase>(&I))
            for (const Use &u : C->args())
              if (u->getType()->isPointerTy()) {
                Addr a = E.addr(S, u.get());
                if (a.ok && is_out(a.base)) stored = true;
              }
        }
      ++K.judged;
      if (!stored) K.fail(&R, "the number read is dropped without an error");
      return;
    }
    if (R.getReturnValue()) judge(S, R, R.getReturnValue(), true);
  };
  E.on_stub = [&](State &S, const Instruction &I, bool th) {
    if (!th) return;
    const CallBase *V = mag_call(E, S, &I);
    if (!V) return;
    BvLin B(sp, E, S);
    Lin m;
    bool neg;
    IntTy d;
    if (!common(S, I, V, B, m, neg, d)) return;
    ++K.judged;
    Lin over = neg ? m - Lin(d.sgn ? p2(d.bits - 1) + 1 : 1) : m - Lin(d.sgn ? p2(d.bits - 1) : p2(d.bits));
    if (!B.env.nonneg(over)) K.fail(&I, "an error is raised for a number that fits");
  };
  E.run();
  if (E.aborted) {
    K.judged = 0;
    K.bad = 0;
    ++K.vague;
  }
}

int m_parseint(Module &M, const std::vector<std::string> &) {
  std::map<uint64_t, IntTy> tids;
  static const std::map<std::string, const char *> names = {{"int8_id", "signed char"}, {"int16_id", "short"}, {"int32_id", "int"}, {"int64_id", "long"}, {"uint8_id", "unsigned char"}, {"uint16_id", "unsigned short"}, {"uint32_id", "unsigned int"}, {"uint64_id", "unsigned long"}};
  DebugInfoFinder DF;
  DF.processModule(M);
  for (auto *T : DF.types())
    if (auto *C = dyn_cast<DICompositeType>(T); C && C->getTag() == dwarf::DW_TAG_enumeration_type && C->getName() == "type_id_t")
      for (auto *el : C->getElements())
        if (auto *N = dyn_cast<DIEnumerator>(el))
          if (auto it = names.find(N->getName().str()); it != names.end()) tids[N->getValue().getZExtValue()] = int_type(it->second);
  std::regex mag(MAG), sp(SPARSE), ck(CHECKED), kn(KERNEL), nb(NUMBER);
  std::vector<Function *> fs;
  for (Function &F : M)
    if (!F.isDeclaration()) fs.push_back(&F);
  for (Function *F : fs) {
    std::string n = demangle_(F->getName());
    std::smatch m;
    int kind = 0;
    IntTy d;
    if (F->getReturnType()->isIntegerTy() && std::regex_search(n, mag)) kind = 1;
    else if (std::regex_search(n, m, sp) || std::regex_search(n, m, ck)) {
      kind = 2;
      d = int_type(m[1]);
    } else if (std::regex_search(n, m, kn)) {
      kind = 3;
      d = int_type(m[1]);
      if (m[2] == "0" || !d.bits) continue;
    } else if (std::regex_search(n, nb)) kind = 4;
    if (!kind) continue;
    Work K;
    K.fn = n;
    K.W = prepare(*F);
    if (const char *e = getenv("SA_DUMP"); e && n.find(e) != std::string::npos) K.W->print(errs());
    if (kind == 1) accumulate(K);
    else if (kind == 2) assign(K, d, tids, nullptr, nullptr, nullptr);
    else if (kind == 3) assign(K, d, tids, nullptr, nullptr, [&](const Value *b) { return b == K.W->getArg(1); });
    else assign(K, d, tids, K.W->getArg(1), K.W->getArg(4), [&](const Value *b) { return b == K.W->getArg(0); });
    Json().kv("k", "parseint").kv("kind", kind).kv("fn", n).kv("judged", K.judged).kv("vague", K.vague).kv("tids", (int)tids.size()).kv("bad", K.bad).kv("where", K.bad ? K.where : where_fn(F)).kv("why", K.why).out();
    K.W->eraseFromParent();
  }
  return 0;
}
} // namespace
static ModeReg r1("parseint", m_parseint);
