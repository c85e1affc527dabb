// N01/N02: conversions reached for every (destination, source, error mode) are checked as that mode demands.
#include "absint.h"

static const char *CLEAN = "sroa,early-cse,memcpyopt,dse,scalarizer,sroa,instsimplify,early-cse,simplifycfg<no-switch-to-lookup;no-hoist-common-insts;no-sink-common-insts;bonus-inst-threshold=0>";

struct NT {
  char kind; // 'b','i','u','f','c'
  unsigned bits;
  unsigned size() const { return kind == 'c' ? bits / 4 : (bits + 7) / 8; }
};
static const std::map<std::string, NT> &types() {
  static const std::map<std::string, NT> t = {
      {"dynd::bool1", {'b', 8}}, {"bool", {'b', 8}}, {"signed char", {'i', 8}}, {"short", {'i', 16}}, {"int", {'i', 32}}, {"long", {'i', 64}},
      {"unsigned char", {'u', 8}}, {"unsigned short", {'u', 16}}, {"unsigned int", {'u', 32}}, {"unsigned long", {'u', 64}},
      {"float", {'f', 32}}, {"double", {'f', 64}}, {"dynd::complex<float>", {'c', 32}}, {"dynd::complex<double>", {'c', 64}}};
  return t;
}

// How a value relates to a source leaf.
struct Rel {
  const Value *leaf = nullptr;
  enum { NONE, EXACT, FRAC, ROUND } k = NONE; // FRAC: fraction dropped; ROUND: rounded to nearest
  bool s = false, u = false;                  // for integers: holds under signed / unsigned reading
};

struct Analyser {
  Function &F;
  Explorer E;
  NT D, S;
  int mode;
  const Value *leaf[2] = {nullptr, nullptr};
  std::vector<std::string> bad;
  std::vector<const Instruction *> badi;
  unsigned stores = 0, throws = 0, convs = 0, rets = 0;
  std::set<std::string> seen;

  Analyser(Function &F, NT D, NT S, int mode) : F(F), E(F), D(D), S(S), mode(mode) {}

  void fail(const Instruction *I, const std::string &w) {
    std::string k = w.substr(0, 60) + where_of(I);
    if (!seen.insert(k).second) return;
    bad.push_back(w);
    badi.push_back(I);
  }

  bool is_leaf(const Value *v) { return v && (v == leaf[0] || v == leaf[1]); }
  const char *part(const Value *v) { return S.kind == 'c' ? (v == leaf[1] ? "imaginary part" : "real part") : "value"; }

  // does the path contain the fact that conversion chain value `a` equals the leaf it came from?
  // collect conversion instructions between v and leaf
  bool chain(const State &St, const Value *v, const Value *&lf, std::vector<const Instruction *> &ins, unsigned d = 0) {
    v = E.look(St, v);
    if (is_leaf(v)) {
      lf = v;
      return true;
    }
    auto *I = dyn_cast<Instruction>(v);
    if (!I || d > 12) return false;
    switch (I->getOpcode()) {
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::SIToFP: case Instruction::UIToFP:
    case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::FPToSI: case Instruction::FPToUI:
      ins.push_back(I);
      return chain(St, I->getOperand(0), lf, ins, d + 1);
    default:
      break;
    }
    return false;
  }
  // value is floor/trunc/... of leaf
  const Value *integral_of(const State &St, const Value *v) {
    v = E.look(St, v);
    auto *CB = dyn_cast<CallBase>(v);
    if (!CB || CB->arg_size() < 1) return nullptr;
    bool ok = false;
    if (auto *II = dyn_cast<IntrinsicInst>(CB)) switch (II->getIntrinsicID()) {
      case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::round: case Intrinsic::roundeven:
        ok = true;
        break;
      default:
        break;
      }
    else if (Function *C = CB->getCalledFunction()) {
      StringRef n = C->getName();
      static const std::set<std::string> names = {"floor", "floorf", "ceil", "ceilf", "trunc", "truncf", "rint", "rintf", "nearbyint", "nearbyintf", "round", "roundf"};
      ok = names.count(n.str());
    }
    if (!ok) return nullptr;
    const Value *lf = nullptr;
    std::vector<const Instruction *> ins;
    if (!chain(St, CB->getArgOperand(0), lf, ins)) return nullptr;
    for (auto *I : ins)
      if (I->getOpcode() != Instruction::FPExt) return nullptr;
    return lf;
  }
  // eq / ne knowledge gathered from facts: exact conversions, integral leaves and their negations
  struct Know {
    std::set<const Value *> exact_conv;           // conversion instructions known to be exact
    std::set<const Value *> integral, not_integral; // leaves
    std::set<const Value *> inexact;              // leaves whose round trip is known to differ
  };
  Know know(const State &St) {
    Know K;
    for (auto &f : St.facts) {
      auto *C = dyn_cast<CmpInst>(f.cond);
      if (!C) continue;
      CmpInst::Predicate p = C->getPredicate();
      bool eq = false, ne = false;
      if (p == CmpInst::ICMP_EQ || p == CmpInst::FCMP_OEQ) eq = f.truth, ne = !f.truth;
      if (p == CmpInst::ICMP_NE || p == CmpInst::FCMP_UNE) eq = !f.truth, ne = f.truth;
      if (!eq && !ne) continue;
      for (int sw = 0; sw < 2; ++sw) {
        const Value *A = C->getOperand(sw), *B = C->getOperand(1 - sw);
        if (const Value *lf = integral_of(St, A)) {
          const Value *l2 = nullptr;
          std::vector<const Instruction *> i2;
          if (chain(St, B, l2, i2) && l2 == lf) {
            bool pure = true;
            for (auto *x : i2) pure &= x->getOpcode() == Instruction::FPExt;
            if (pure) (eq ? K.integral : K.not_integral).insert(lf);
          }
          continue;
        }
        const Value *l1 = nullptr, *l2 = nullptr;
        std::vector<const Instruction *> c1, c2;
        if (chain(St, A, l1, c1) && chain(St, B, l2, c2) && l1 == l2 && !c1.empty()) {
          // B must be the leaf itself, possibly widened without loss
          bool wid = true;
          for (auto *x : c2) wid &= x->getOpcode() == Instruction::FPExt || x->getOpcode() == Instruction::SExt || x->getOpcode() == Instruction::ZExt || x->getOpcode() == Instruction::SIToFP || x->getOpcode() == Instruction::UIToFP;
          if (!wid) continue;
          bool lossless_c2 = true;
          for (auto *x : c2)
            if (x->getOpcode() == Instruction::SIToFP || x->getOpcode() == Instruction::UIToFP) lossless_c2 = x->getOperand(0)->getType()->getScalarSizeInBits() <= APFloat::semanticsPrecision(x->getType()->getFltSemantics());
          // compared in the rounded type: float(s) == s is no evidence when s itself was rounded the same way
          if (!lossless_c2) continue;
          if (c1.size() <= c2.size()) continue;
          if (eq)
            for (auto *x : c1) K.exact_conv.insert(x);
          else
            K.inexact.insert(l1);
        }
      }
    }
    return K;
  }

  Rel rel(const State &St, const Value *v, const Know &K, unsigned d = 0) {
    v = E.look(St, v);
    Rel r;
    if (is_leaf(v)) {
      r.leaf = v;
      r.k = Rel::EXACT;
      if (v->getType()->isIntegerTy()) {
        AV a = E.eval(St, v);
        bool nn = a.k == AV::INT && a.r.getSignedMin().isNonNegative();
        r.s = S.kind == 'i' || nn;
        r.u = S.kind != 'i' || nn;
      }
      return r;
    }
    if (d > 16) return r;
    auto *I = dyn_cast<Instruction>(v);
    if (!I) return r;
    auto upd = [&](Rel &x, const Value *val) {
      if (x.k != Rel::NONE && val->getType()->isIntegerTy() && (x.s || x.u)) {
        AV a = E.eval(St, val);
        if (a.k == AV::INT && a.r.getSignedMin().isNonNegative()) x.s = x.u = true;
      }
    };
    switch (I->getOpcode()) {
    case Instruction::ZExt:
    case Instruction::SExt: {
      r = rel(St, I->getOperand(0), K, d + 1);
      bool z = I->getOpcode() == Instruction::ZExt;
      if (z && !r.u) r.k = Rel::NONE;
      if (!z && !r.s) r.k = Rel::NONE;
      if (r.k != Rel::NONE) {
        r.s = true;
        r.u = z;
      }
      upd(r, v);
      return r;
    }
    case Instruction::Trunc: {
      r = rel(St, I->getOperand(0), K, d + 1);
      AV a = E.eval(St, I->getOperand(0));
      unsigned w = I->getType()->getIntegerBitWidth();
      if (a.k != AV::INT || r.k == Rel::NONE) return Rel();
      bool s = r.s && a.r.getSignedMin().isSignedIntN(w) && a.r.getSignedMax().isSignedIntN(w);
      bool u = r.u && a.r.getUnsignedMax().isIntN(w);
      if (!r.u && a.r.getSignedMin().isNonNegative() && a.r.getUnsignedMax().isIntN(w)) u = true;
      r.s = s;
      r.u = u;
      if (!s && !u) return Rel();
      return r;
    }
    case Instruction::SIToFP:
    case Instruction::UIToFP: {
      r = rel(St, I->getOperand(0), K, d + 1);
      bool sg = I->getOpcode() == Instruction::SIToFP;
      if (r.k == Rel::NONE || !(sg ? r.s : r.u)) return Rel();
      AV a = E.eval(St, I->getOperand(0));
      unsigned prec = APFloat::semanticsPrecision(I->getType()->getFltSemantics());
      bool exact = a.k == AV::INT && (sg ? a.r.getSignedMin().abs().getActiveBits() <= prec && a.r.getSignedMax().abs().getActiveBits() <= prec : a.r.getUnsignedMax().getActiveBits() <= prec);
      if (K.exact_conv.count(I)) exact = true;
      if (!exact && r.k == Rel::EXACT) r.k = Rel::ROUND;
      r.s = r.u = false;
      return r;
    }
    case Instruction::FPExt:
      return rel(St, I->getOperand(0), K, d + 1);
    case Instruction::FPTrunc: {
      r = rel(St, I->getOperand(0), K, d + 1);
      if (r.k == Rel::EXACT && !K.exact_conv.count(I)) r.k = Rel::ROUND;
      return r;
    }
    case Instruction::FPToSI:
    case Instruction::FPToUI: {
      r = rel(St, I->getOperand(0), K, d + 1);
      if (r.k == Rel::NONE) return r;
      bool integral = K.exact_conv.count(I) || (r.leaf && K.integral.count(r.leaf));
      if (r.k == Rel::EXACT && !integral) r.k = Rel::FRAC;
      r.s = I->getOpcode() == Instruction::FPToSI;
      r.u = !r.s;
      upd(r, v);
      return r;
    }
    case Instruction::Call: {
      // floor/trunc of the leaf: same as dropping a fraction; exact when known integral
      if (const Value *lf = integral_of(St, v)) {
        r.leaf = lf;
        r.k = K.integral.count(lf) ? Rel::EXACT : Rel::FRAC;
        return r;
      }
      return Rel();
    }
    default:
      return Rel();
    }
  }

  std::string src_desc(const State &St) {
    std::string s;
    for (int i = 0; i < 2; ++i)
      if (leaf[i]) s += (i ? ", imag " : "") + E.eval(St, leaf[i]).str();
    return s;
  }

  // the value stored at destination component c
  // a condition the stored value is computed from
  const Value *cond_in(const State &St, const Value *v, unsigned d = 0) {
    v = E.look(St, v);
    auto *I = dyn_cast<Instruction>(v);
    if (!I || d > 12) return nullptr;
    if (I->getType()->isIntegerTy(1) && (isa<CmpInst>(I) || isa<BinaryOperator>(I) || isa<SelectInst>(I))) {
      AV a = E.eval(St, I);
      return a.k == AV::INT && a.r.isSingleElement() ? nullptr : I;
    }
    if (auto *C = dyn_cast<CastInst>(I)) return cond_in(St, C->getOperand(0), d + 1);
    if (isa<BinaryOperator>(I)) {
      if (auto *c = cond_in(St, I->getOperand(0), d + 1)) return c;
      return cond_in(St, I->getOperand(1), d + 1);
    }
    return nullptr;
  }
  void check_store(const State &St, const Instruction *I, const Value *v, unsigned comp, unsigned depth = 0) {
    if (depth < 6)
      if (const Value *c = cond_in(St, v)) {
        for (int t = 0; t < 2; ++t)
          for (State &x : E.assume(St, c, t)) check_store(x, I, v, comp, depth + 1);
        return;
      }
    ++stores;
    Know K = know(St);
    v = E.look(St, v);
    // D component type
    char dk = D.kind == 'c' ? 'f' : D.kind;
    unsigned db = D.bits;
    // expected leaf
    const Value *want = comp == 0 ? leaf[0] : (S.kind == 'c' ? leaf[1] : nullptr);
    AV val = E.eval(St, v);
    if (val.bot()) return;
    if (comp == 1 && !want) { // imaginary part of a converted real number
      APFloat z(0.0);
      if (!(val.k == AV::FLT && val.f.single(z) && z.isZero())) fail(I, "imaginary part of the result is not zero");
      return;
    }
    // exact by value: the source is a single known number and so is the result
    if (leaf[comp]) {
      AV sv = E.eval(St, leaf[comp]);
      auto num = [&](const AV &a, bool sg, APFloat &o) {
        if (a.k == AV::INT && a.r.isSingleElement()) {
          o = APFloat(APFloat::IEEEquad());
          o.convertFromAPInt(*a.r.getSingleElement(), sg, APFloat::rmNearestTiesToEven);
          return true;
        }
        APFloat t(0.0);
        if (a.k == AV::FLT && a.f.single(t)) {
          bool li;
          t.convert(APFloat::IEEEquad(), APFloat::rmNearestTiesToEven, &li);
          o = t;
          return true;
        }
        return false;
      };
      APFloat a(0.0), b(0.0);
      if (num(sv, S.kind == 'i', a) && num(val, dk == 'i', b)) {
        if (a.compare(b) != APFloat::cmpEqual)
          fail(I, "source " + sv.str() + " is stored as " + val.str());
        else
          imag_zero(St, I);
        return;
      }
    }
    Rel r = rel(St, v, K);
    bool readable = r.k != Rel::NONE && r.leaf == want && (dk == 'f' || (dk == 'i' ? r.s : r.u));
    if (dk == 'b' && readable) {
      AV a = val;
      if (!(a.k == AV::INT && a.r.getUnsignedMax().ule(1))) {
        fail(I, "stored boolean can be other than 0 or 1: " + a.str());
        return;
      }
    }
    if (!readable) {
      fail(I, "stored value is not the source " + std::string(part(want)) + " for source " + src_desc(St));
      return;
    }
    if (dk != 'f' && r.k == Rel::ROUND) fail(I, "value is rounded before it is stored as an integer");
    if (r.k == Rel::FRAC && mode >= 2) fail(I, "fraction can be dropped silently for source " + src_desc(St));
    if (r.k == Rel::ROUND && mode >= 3) fail(I, "value can be rounded silently for source " + src_desc(St));
    // finite source must not become infinite
    if (dk == 'f' && val.k == AV::FLT && leaf[comp]) {
      AV sv = E.eval(St, leaf[comp]);
      if (sv.k == AV::FLT && (val.f.pinf || val.f.ninf)) {
        const fltSemantics &sem = db == 32 ? APFloat::IEEEsingle() : APFloat::IEEEdouble();
        FSet f = sv.f;
        if (f.fin) {
          APFloat lo = f.lo, hi = f.hi;
          bool li;
          lo.convert(sem, APFloat::rmNearestTiesToEven, &li);
          hi.convert(sem, APFloat::rmNearestTiesToEven, &li);
          if (lo.isInfinity() || hi.isInfinity()) fail(I, "finite source can become infinite: " + sv.str());
        }
      }
    }
    imag_zero(St, I);
  }
  void imag_zero(const State &St, const Instruction *I) {
    if (S.kind == 'c' && D.kind != 'c') {
      if (!leaf[1]) {
        fail(I, "imaginary part is never examined");
        return;
      }
      AV im = E.eval(St, leaf[1]);
      APFloat z(0.0);
      if (!(im.k == AV::FLT && im.f.single(z) && z.isZero())) fail(I, "non-zero imaginary part is dropped silently: " + im.str());
    }
  }

  // scalar elements of the stored value
  void store(const State &St, const Instruction *I, const Value *v, int64_t off, const Value *addrbase) {
    v = E.look(St, v);
    Type *T = v->getType();
    unsigned cs = D.kind == 'c' ? D.size() / 2 : D.size();
    if (auto *VT = dyn_cast<FixedVectorType>(T)) {
      std::map<unsigned, const Value *> el;
      const Value *x = v;
      while (auto *IE = dyn_cast<InsertElementInst>(x)) {
        if (auto *ix = dyn_cast<ConstantInt>(IE->getOperand(2))) el.insert({(unsigned)ix->getZExtValue(), IE->getOperand(1)});
        x = E.look(St, IE->getOperand(0));
      }
      // raw copy of a whole complex value
      unsigned es = VT->getScalarSizeInBits() / 8;
      for (unsigned i = 0; i < VT->getNumElements(); ++i) {
        const Value *e = el.count(i) ? el[i] : nullptr;
        if (!e) {
          if (auto *C = dyn_cast<Constant>(x))
            e = C->getAggregateElement(i);
          else if (auto *L = dyn_cast<LoadInst>(x)) {
            raw_copy(St, I, L, off);
            return;
          }
        }
        if (!e) {
          fail(I, "unanalysable stored vector");
          return;
        }
        store(St, I, e, off + i * es, addrbase);
      }
      return;
    }
    if (off % cs || off / cs > (D.kind == 'c' ? 1 : 0) || T->getScalarSizeInBits() != cs * 8) {
      if (auto *L = dyn_cast<LoadInst>(v)) {
        raw_copy(St, I, L, off);
        return;
      }
      fail(I, "store of unexpected shape at offset " + std::to_string(off));
      return;
    }
    check_store(St, I, v, off / cs);
  }
  // bytes of the source copied unchanged
  void raw_copy(const State &St, const Instruction *I, const LoadInst *L, int64_t off) {
    ++stores;
    Addr a = E.addr(St, L->getPointerOperand());
    if (!same_repr() || !is_src(a.base) || a.off != off) fail(I, "raw copy between different representations");
  }
  bool same_repr() { return D.kind == S.kind && D.bits == S.bits; }
  std::set<const Value *> srcptr;
  const Value *dst = nullptr;
  bool is_src(const Value *b) { return srcptr.count(b); }

  bool run() {
    if (F.arg_size() != 3) {
      bad.push_back("unexpected kernel signature");
      badi.push_back(&F.getEntryBlock().front());
      return false;
    }
    dst = F.getArg(1);
    State S0;
    // pointers loaded from src[0]
    const Value *first = nullptr;
    for (Instruction &I : instructions(F))
      if (auto *L = dyn_cast<LoadInst>(&I))
        if (L->getType()->isPointerTy()) {
          Addr a = E.addr(S0, L->getPointerOperand());
          if (a.base == F.getArg(2) && a.off == 0) {
            srcptr.insert(L);
            if (!first) first = L;
            E.canon[L] = first;
          }
        }
    unsigned cs = S.kind == 'c' ? S.size() / 2 : S.size();
    for (Instruction &I : instructions(F))
      if (auto *L = dyn_cast<LoadInst>(&I)) {
        Addr a = E.addr(S0, L->getPointerOperand());
        if (!is_src(a.base)) continue;
        Type *T = L->getType();
        if (T->getScalarSizeInBits() != cs * 8 || T->isVectorTy()) continue;
        if (a.off % cs || a.off / cs > (S.kind == 'c' ? 1 : 0)) continue;
        int c = a.off / cs;
        if (!leaf[c]) {
          leaf[c] = L;
          if (S.kind == 'b' && T->isIntegerTy()) E.init[L] = AV::integer(ConstantRange(APInt(cs * 8, 0), APInt(cs * 8, 2)));
        }
        if (leaf[c]->getType() == T) E.canon[L] = leaf[c];
      }
    E.on_inst = [&](State &St, const Instruction &I) {
      if (I.getOpcode() == Instruction::FPToSI || I.getOpcode() == Instruction::FPToUI) {
        ++convs;
        AV a = E.eval(St, I.getOperand(0));
        if (a.bot() || a.k != AV::FLT) return;
        unsigned w = I.getType()->getIntegerBitWidth();
        bool sg = I.getOpcode() == Instruction::FPToSI;
        std::string w0 = "conversion to a " + std::to_string(w) + "-bit " + (sg ? "signed" : "unsigned") + " integer ";
        if (a.f.nan) fail(&I, w0 + "is reached by NaN (source " + src_desc(St) + ")");
        if (a.f.pinf || a.f.ninf) fail(&I, w0 + "is reached by an infinity (source " + src_desc(St) + ")");
        if (a.f.fin) {
          APSInt q(w, !sg);
          bool ex;
          auto s1 = a.f.lo.convertToInteger(q, APFloat::rmTowardZero, &ex);
          auto s2 = a.f.hi.convertToInteger(q, APFloat::rmTowardZero, &ex);
          if ((s1 | s2) & APFloat::opInvalidOp) fail(&I, w0 + "is reached by out-of-range values " + a.str());
        }
        return;
      }
      if (auto *St2 = dyn_cast<StoreInst>(&I)) {
        Addr a = E.addr(St, St2->getPointerOperand());
        if (a.base == dst)
          store(St, &I, St2->getValueOperand(), a.off, a.base);
        else if (!isa<AllocaInst>(a.base))
          fail(&I, "store to something other than the destination");
        return;
      }
      if (auto *MC = dyn_cast<MemTransferInst>(&I)) {
        Addr a = E.addr(St, MC->getRawDest()), b = E.addr(St, MC->getRawSource());
        if (a.base == dst) {
          ++stores;
          auto *L = dyn_cast<ConstantInt>(MC->getLength());
          if (!same_repr() || !is_src(b.base) || a.off || b.off || !L || L->getZExtValue() != D.size()) fail(&I, "raw copy between different representations");
        }
        return;
      }
      if (auto *CB = dyn_cast<CallBase>(&I))
        if (!isa<IntrinsicInst>(CB) && CB->mayWriteToMemory()) {
          for (auto &A : CB->args())
            if (A->getType()->isPointerTy() && E.addr(St, A).base == dst) fail(&I, "destination handed to unanalysed code " + (CB->getCalledFunction() ? demangle_(CB->getCalledFunction()->getName()) : std::string("(indirect)")));
        }
    };
    E.on_ret = [&](State &, const ReturnInst &) { ++rets; };
    E.on_stub = [&](State &St, const Instruction &I, bool th) {
      if (!th) return;
      ++throws;
      check_reject(St, I);
    };
    E.run();
    if (E.aborted) {
      bad.push_back("path analysis gave up: " + E.abort_why);
      badi.push_back(&F.getEntryBlock().front());
      return false;
    }
    return true;
  }

  // an error may only be raised for sources the destination cannot hold (finite ones)
  void check_reject(const State &St, const Instruction &I) {
    Know K = know(St);
    if (S.kind == 'c' && D.kind != 'c' && leaf[1]) {
      AV im = E.eval(St, leaf[1]);
      if (im.k == AV::FLT && !im.f.contains(APFloat::getZero(*im.f.sem))) return; // non-zero imaginary part
      if (im.bot()) return;
    }
    unsigned ncomp = (S.kind == 'c' && D.kind == 'c') ? 2 : 1;
    for (unsigned c = 0; c < ncomp; ++c) {
      if (!leaf[c]) continue;
      if (mode >= 2 && D.kind != 'f' && D.kind != 'c' && K.not_integral.count(leaf[c])) return;
      if (K.inexact.count(leaf[c]) && mode >= 3) return;
      if (K.inexact.count(leaf[c]) && mode >= 2 && D.kind != 'f' && D.kind != 'c') return;
      AV a = E.eval(St, leaf[c]);
      if (a.bot()) return;
      if (a.k == AV::FLT) {
        if (!a.f.fin) return; // only NaN / infinities
        if (D.kind == 'f' || D.kind == 'c') {
          const fltSemantics &sem = D.bits == 32 ? APFloat::IEEEsingle() : APFloat::IEEEdouble();
          APFloat M = largest_(sem);
          bool li;
          if (APFloat::semanticsPrecision(*a.f.sem) < APFloat::semanticsPrecision(sem)) continue;
          M.convert(*a.f.sem, APFloat::rmNearestTiesToEven, &li);
          APFloat m = M;
          m.changeSign();
          if (M.compare(a.f.lo) == APFloat::cmpLessThan || a.f.hi.compare(m) == APFloat::cmpLessThan) return;
        } else if (D.kind == 'b') {
          if (!a.f.contains(APFloat::getZero(*a.f.sem)) && !a.f.contains(APFloat(*a.f.sem, 1))) return;
        } else {
          // integers of the destination, as reals: does [lo,hi] contain a point of [min,max]?
          APFloat mn(*a.f.sem), mx(*a.f.sem);
          APInt imn = D.kind == 'i' ? APInt::getSignedMinValue(D.bits) : APInt(D.bits, 0);
          APInt imx = D.kind == 'i' ? APInt::getSignedMaxValue(D.bits) : APInt::getMaxValue(D.bits);
          mn.convertFromAPInt(imn, D.kind == 'i', APFloat::rmTowardPositive);
          mx.convertFromAPInt(imx, D.kind == 'i', APFloat::rmTowardNegative);
          if (a.f.hi.compare(mn) == APFloat::cmpLessThan || mx.compare(a.f.lo) == APFloat::cmpLessThan) return;
        }
      } else if (a.k == AV::INT) {
        unsigned W = 72;
        bool sg = S.kind == 'i';
        APInt lo = sg ? a.r.getSignedMin().sext(W) : a.r.getUnsignedMin().zext(W), hi = sg ? a.r.getSignedMax().sext(W) : a.r.getUnsignedMax().zext(W);
        if (D.kind == 'f' || D.kind == 'c') {
          // no integer of the range is a value of the floating-point type
          APFloat up(D.bits == 32 ? APFloat::IEEEsingle() : APFloat::IEEEdouble());
          up.convertFromAPInt(lo, true, APFloat::rmTowardPositive);
          APSInt q(W, false);
          bool ex;
          if (up.isFinite() && !(up.convertToInteger(q, APFloat::rmTowardZero, &ex) & APFloat::opInvalidOp) && hi.slt(q)) return;
        }
        if (D.kind == 'b') {
          if (!a.containsInt(APInt(a.r.getBitWidth(), 0)) && !a.containsInt(APInt(a.r.getBitWidth(), 1))) return;
        } else if (D.kind == 'i' || D.kind == 'u') {
          APInt imn = D.kind == 'i' ? APInt::getSignedMinValue(D.bits).sext(W) : APInt(W, 0);
          APInt imx = D.kind == 'i' ? APInt::getSignedMaxValue(D.bits).sext(W) : APInt::getMaxValue(D.bits).zext(W);
          if (hi.slt(imn) || imx.slt(lo)) return;
          // wrapped ranges: check both pieces
          if (sg ? a.r.isSignWrappedSet() : a.r.isWrappedSet()) {
            ConstantRange ok(D.bits >= a.r.getBitWidth() ? a.r.getBitWidth() : a.r.getBitWidth(), true);
            if (D.bits < a.r.getBitWidth() || (D.kind != S.kind)) {
              APInt l = imn.slt(sg ? APInt::getSignedMinValue(a.r.getBitWidth()).sext(W) : APInt(W, 0)) ? APInt(W, 0) : imn;
              APInt mxs = sg ? APInt::getSignedMaxValue(a.r.getBitWidth()).sext(W) : APInt::getMaxValue(a.r.getBitWidth()).zext(W);
              APInt h = mxs.slt(imx) ? mxs : imx;
              ok = ConstantRange::getNonEmpty(l.trunc(a.r.getBitWidth()), h.trunc(a.r.getBitWidth()) + 1);
              if (ok.intersectWith(a.r).isEmptySet()) return;
            }
          }
        }
      }
    }
    fail(&I, "an error is raised for values the destination can hold: source " + src_desc(St));
  }
  static APFloat largest_(const fltSemantics &s) { return APFloat::getLargest(s, false); }
};

static void collect_refs(Function *F, std::set<Function *> &seen, const std::function<bool(Function *)> &leafp, std::set<Function *> &out, unsigned depth = 0) {
  if (!seen.insert(F).second) return;
  if (leafp(F)) {
    out.insert(F);
    return;
  }
  for (Instruction &I : instructions(*F))
    for (Value *Op : I.operands()) {
      if (auto *C = dyn_cast<Constant>(Op))
        if (auto *G = dyn_cast<Function>(C->stripPointerCasts()))
          if (!G->isDeclaration()) {
            collect_refs(G, seen, leafp, out, depth + 1);
          }
    }
}

static int m_numassign(Module &M, const std::vector<std::string> &args) {
  std::string filter = args.empty() ? "" : args[0];
  struct R {
    std::string d, s;
    Function *f;
  };
  std::vector<R> rs;
  const std::string pre = "dynd::nd::assign_callable<";
  for (Function &F : M) {
    if (F.isDeclaration() || !F.getName().starts_with("_ZN")) continue; // local entities (closures) start with _ZZ
    std::string n = demangle_(F.getName());
    if (n.compare(0, pre.size(), pre)) continue;
    auto ta = template_args(n, pre.size() - 1);
    if (ta.size() != 2 || !types().count(ta[0]) || !types().count(ta[1])) continue;
    std::string head = pre + ta[0] + ", " + ta[1] + ">::resolve(";
    if (n.compare(0, head.size(), head)) continue;
    rs.push_back({ta[0], ta[1], &F});
  }
  auto is_wrap = [](Function *f) {
    std::string n = demangle_(f->getName());
    return n.find("::single_wrapper") != std::string::npos && n.compare(0, 10, "dynd::nd::") == 0 && n.find("(dynd::nd::kernel_prefix*, char*, char* const*)") != std::string::npos;
  };
  static const char *mname[] = {"nocheck", "overflow", "fractional", "inexact"};
  std::map<Function *, Function *> flat;
  for (auto &r : rs) {
    std::string tag = r.d + " <- " + r.s;
    if (!filter.empty() && tag.find(filter) == std::string::npos) continue;
    Function *C = private_copy(*r.f);
    InlinePolicy P;
    P.callee_limit = 600;
    P.ok = [](const CallBase &, const Function &Cal) {
      std::string n = demangle_(Cal.getName());
      if (n.find("emplace_back") != std::string::npos || n.find("::as<") != std::string::npos || n.find("::is_na") != std::string::npos) return false;
      return n.find("std::") != 0;
    };
    flatten(*C, P);
    prune_exceptions(*C);
    cleanup(*C);
    for (int m = 1; m <= 3; ++m) {
      Explorer E(*C);
      std::set<const Function *> reached;
      unsigned hits = 0, throws = 0;
      std::vector<const CallBase *> reads;
      for (Instruction &I : instructions(*C))
        if (auto *CB = dyn_cast<CallBase>(&I))
          if (Function *f = CB->getCalledFunction()) {
            std::string n = demangle_(f->getName());
            if (n.find("::as<dynd::assign_error_mode>") != std::string::npos) {
              reads.push_back(CB);
              E.init[CB] = AV::integer(ConstantRange(APInt(CB->getType()->getIntegerBitWidth(), m)));
            }
          }
      std::set<const Value *> readset(reads.begin(), reads.end());
      auto on_path = [&](State &St) {
        std::set<const BasicBlock *> p(St.path.begin(), St.path.end());
        for (auto *c : reads)
          if (p.count(c->getParent())) return true;
        return false;
      };
      E.on_inst = [&](State &St, const Instruction &I) {
        auto *CB = dyn_cast<CallBase>(&I);
        if (!CB || !CB->getCalledFunction()) return;
        if (demangle_(CB->getCalledFunction()->getName()).find("emplace_back") == std::string::npos) return;
        if (on_path(St)) {
          ++hits;
          reached.insert(CB->getCalledFunction());
        }
      };
      E.on_stub = [&](State &St, const Instruction &, bool) {
        if (on_path(St)) ++throws;
      };
      E.run();
      std::set<Function *> wraps;
      for (auto *f : reached) {
        std::set<Function *> seen;
        collect_refs(const_cast<Function *>(f), seen, is_wrap, wraps);
      }
      Json j;
      j.kv("k", "dispatch").kv("pair", tag).kv("mode", mname[m]).kv("where", where_fn(r.f)).kv("reads", (int)reads.size()).kv("aborted", E.aborted);
      std::vector<std::string> wn, bad, badw;
      unsigned stores = 0, throws2 = 0, convs = 0;
      for (Function *w : wraps) {
        std::string n = demangle_(w->getName());
        wn.push_back(n.substr(0, n.find("::single_wrapper")));
        Function *&W = flat[w];
        if (!W) {
          W = private_copy(*w, ".w");
          InlinePolicy Q;
          Q.ok = [](const CallBase &, const Function &) { return true; };
          flatten(*W, Q);
          prune_exceptions(*W);
          cleanup(*W, "sroa,early-cse,memcpyopt,dse,sroa");
          scalarize_memory(*W);
          cleanup(*W, CLEAN);
        }
        Analyser A(*W, types().at(r.d), types().at(r.s), m);
        A.run();
        stores += A.stores;
        throws2 += A.throws;
        convs += A.convs;
        if (A.stores == 0 && A.bad.empty()) {
          bad.push_back("no path stores a converted value");
          badw.push_back(where_fn(w));
        }
        for (size_t i = 0; i < A.bad.size(); ++i) {
          bad.push_back(A.bad[i]);
          badw.push_back(where_of(A.badi[i]));
        }
      }
      j.list("kernels", wn).list("bad", bad).list("badw", badw).kv("stores", (long)stores).kv("throws", (long)throws2).kv("convs", (long)convs).kv("mode_throws", (long)throws).out();
    }
  }
  return 0;
}
static ModeReg r1("numassign", m_numassign);
