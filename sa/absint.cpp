#include "absint.h"

// ------------------------------------------------------------------ floats
APFloat flt_next(APFloat v, bool up) {
  v.next(!up);
  return v;
}
static APFloat largest(const fltSemantics &s, bool neg) { return APFloat::getLargest(s, neg); }
static bool lt(const APFloat &a, const APFloat &b) { return a.compare(b) == APFloat::cmpLessThan; }
static bool eq(const APFloat &a, const APFloat &b) { return a.compare(b) == APFloat::cmpEqual; }

FSet FSet::full(const fltSemantics &s) {
  FSet f;
  f.sem = &s;
  f.lo = largest(s, true);
  f.hi = largest(s, false);
  return f;
}
FSet FSet::point(const APFloat &v) {
  FSet f;
  f.sem = &v.getSemantics();
  f.nan = v.isNaN();
  f.pinf = v.isInfinity() && !v.isNegative();
  f.ninf = v.isInfinity() && v.isNegative();
  f.fin = v.isFinite();
  f.lo = f.hi = f.fin ? v : APFloat::getZero(*f.sem);
  return f;
}
bool FSet::single(APFloat &v) const {
  if (nan || pinf || ninf || !fin || !eq(lo, hi)) return false;
  v = lo;
  return true;
}
bool FSet::contains(const APFloat &v) const {
  if (v.isNaN()) return nan;
  if (v.isInfinity()) return v.isNegative() ? ninf : pinf;
  if (!fin || lt(v, lo) || lt(hi, v)) return false;
  for (auto &e : ex)
    if (eq(e, v)) return false;
  return true;
}
void FSet::norm() {
  if (!fin) return;
  bool ch = true;
  while (ch && fin) {
    ch = false;
    if (lt(hi, lo)) {
      fin = false;
      break;
    }
    for (auto &e : ex) {
      if (eq(e, lo)) {
        if (eq(lo, hi)) {
          fin = false;
          break;
        }
        // step past both zeros
        APFloat n = lo;
        if (n.isZero()) n = APFloat::getZero(*sem, false);
        lo = flt_next(n, true);
        ch = true;
        break;
      }
      if (eq(e, hi)) {
        APFloat n = hi;
        if (n.isZero()) n = APFloat::getZero(*sem, true);
        hi = flt_next(n, false);
        ch = true;
        break;
      }
    }
  }
}
FSet meet(const FSet &a, const FSet &b) {
  FSet r = a;
  r.nan &= b.nan;
  r.pinf &= b.pinf;
  r.ninf &= b.ninf;
  r.fin &= b.fin;
  if (r.fin) {
    if (lt(r.lo, b.lo)) r.lo = b.lo;
    if (lt(b.hi, r.hi)) r.hi = b.hi;
    for (auto &e : b.ex)
      if (r.ex.size() < 16) r.ex.push_back(e);
  }
  r.norm();
  return r;
}
FSet join(const FSet &a, const FSet &b) {
  FSet r = a;
  r.nan |= b.nan;
  r.pinf |= b.pinf;
  r.ninf |= b.ninf;
  if (!a.fin) {
    r.lo = b.lo;
    r.hi = b.hi;
    r.ex = b.ex;
  } else if (b.fin) {
    if (lt(b.lo, r.lo)) r.lo = b.lo;
    if (lt(r.hi, b.hi)) r.hi = b.hi;
    std::vector<APFloat> ex;
    for (auto &e : a.ex)
      if (!b.contains(e)) ex.push_back(e);
    r.ex = ex;
  }
  r.fin |= b.fin;
  return r;
}

// ------------------------------------------------------------------ values
bool AV::containsInt(const APInt &v) const {
  if (k == TOP) return true;
  if (k != INT) return false;
  if (!r.contains(v)) return false;
  for (auto &e : ex)
    if (e == v) return false;
  return true;
}
void AV::norm() {
  if (k == INT) {
    bool ch = true;
    while (ch) {
      ch = false;
      if (r.isEmptySet()) {
        k = BOT;
        return;
      }
      for (auto &e : ex) {
        if (e.getBitWidth() != r.getBitWidth()) continue;
        if (r.isFullSet()) {
          r = ConstantRange(e + 1, e);
          ch = true;
          break;
        }
        if (const APInt *s = r.getSingleElement()) {
          if (*s == e) {
            k = BOT;
            return;
          }
        } else if (r.getLower() == e) {
          r = ConstantRange(e + 1, r.getUpper());
          ch = true;
          break;
        } else if (r.getUpper() - 1 == e) {
          r = ConstantRange(r.getLower(), e);
          ch = true;
          break;
        }
      }
    }
  } else if (k == FLT) {
    f.norm();
    if (f.empty()) k = BOT;
  }
}
AV meet(const AV &a, const AV &b) {
  if (a.k == AV::BOT || b.k == AV::TOP) return a;
  if (b.k == AV::BOT || a.k == AV::TOP) return b;
  if (a.k != b.k) return a;
  AV x = a;
  if (a.k == AV::INT) {
    if (a.r.getBitWidth() != b.r.getBitWidth()) return a;
    x.r = a.r.intersectWith(b.r);
    for (auto &e : b.ex)
      if (x.ex.size() < 16) x.ex.push_back(e);
  } else {
    if (a.f.sem != b.f.sem) return a;
    x.f = meet(a.f, b.f);
  }
  x.norm();
  return x;
}
static std::string fstr(const APFloat &v) {
  SmallString<32> s;
  v.toString(s, 20);
  return std::string(s);
}
std::string AV::str() const {
  if (k == BOT) return "{}";
  if (k == TOP) return "any";
  std::string s;
  raw_string_ostream o(s);
  if (k == INT) {
    if (r.isFullSet())
      o << "any i" << r.getBitWidth();
    else if (!r.isSignWrappedSet())
      o << "[" << r.getSignedMin() << ".." << r.getSignedMax() << "]";
    else {
      SmallString<24> a, b;
      r.getUnsignedMin().toStringUnsigned(a);
      r.getUnsignedMax().toStringUnsigned(b);
      o << "[" << a << ".." << b << "]u";
    }
  } else {
    if (f.fin) o << "[" << fstr(f.lo) << ".." << fstr(f.hi) << "]";
    if (f.nan) o << " or NaN";
    if (f.pinf) o << " or +inf";
    if (f.ninf) o << " or -inf";
  }
  return o.str();
}

static AV top_of(Type *T) {
  if (T->isIntegerTy()) return AV::integer(ConstantRange(T->getIntegerBitWidth(), true));
  if (T->isHalfTy() || T->isFloatTy() || T->isDoubleTy()) return AV::flt(FSet::full(T->getFltSemantics()));
  return AV::top();
}

// integer -> float of every value in [lo,hi] (as signed or unsigned)
static APFloat i2f(const APInt &v, bool sg, const fltSemantics &s, APFloat::roundingMode rm) {
  APFloat f(s);
  f.convertFromAPInt(v, sg, rm);
  return f;
}

AV conv(const Instruction *I, const AV &a, Type *to) {
  if (a.bot()) return a;
  AV T = top_of(to);
  auto RNE = APFloat::rmNearestTiesToEven;
  switch (I->getOpcode()) {
  case Instruction::Trunc:
  case Instruction::ZExt:
  case Instruction::SExt: {
    if (a.k != AV::INT) return T;
    unsigned w = to->getIntegerBitWidth();
    ConstantRange r = I->getOpcode() == Instruction::Trunc ? a.r.truncate(w) : I->getOpcode() == Instruction::ZExt ? a.r.zeroExtend(w) : a.r.signExtend(w);
    AV x = AV::integer(r);
    if (I->getOpcode() != Instruction::Trunc)
      for (auto &e : a.ex) x.ex.push_back(I->getOpcode() == Instruction::ZExt ? e.zext(w) : e.sext(w));
    x.norm();
    return x;
  }
  case Instruction::SIToFP:
  case Instruction::UIToFP: {
    if (a.k != AV::INT || T.k != AV::FLT) return T;
    bool sg = I->getOpcode() == Instruction::SIToFP;
    APInt lo = sg ? a.r.getSignedMin() : a.r.getUnsignedMin(), hi = sg ? a.r.getSignedMax() : a.r.getUnsignedMax();
    FSet f = FSet::point(i2f(lo, sg, to->getFltSemantics(), RNE));
    FSet g = FSet::point(i2f(hi, sg, to->getFltSemantics(), RNE));
    FSet j = join(f, g);
    if (a.containsInt(APInt(a.r.getBitWidth(), 0)) == false) j.ex.push_back(APFloat::getZero(to->getFltSemantics()));
    j.norm();
    return AV::flt(j);
  }
  case Instruction::FPExt:
  case Instruction::FPTrunc: {
    if (a.k != AV::FLT || T.k != AV::FLT) return T;
    FSet r = a.f;
    r.sem = &to->getFltSemantics();
    r.ex.clear();
    bool li;
    if (r.fin) {
      r.lo.convert(*r.sem, RNE, &li);
      r.hi.convert(*r.sem, RNE, &li);
      if (I->getOpcode() == Instruction::FPExt)
        for (auto e : a.f.ex) {
          e.convert(*r.sem, RNE, &li);
          r.ex.push_back(e);
        }
      if (r.lo.isInfinity()) {
        (r.lo.isNegative() ? r.ninf : r.pinf) = true;
        if (!r.lo.isNegative())
          r.fin = false;
        else
          r.lo = largest(*r.sem, true);
      }
      if (r.fin && r.hi.isInfinity()) {
        (r.hi.isNegative() ? r.ninf : r.pinf) = true;
        if (r.hi.isNegative())
          r.fin = false;
        else
          r.hi = largest(*r.sem, false);
      }
    }
    if (!r.fin) r.lo = r.hi = APFloat::getZero(*r.sem);
    r.norm();
    return AV::flt(r);
  }
  case Instruction::FPToSI:
  case Instruction::FPToUI: {
    if (a.k != AV::FLT || T.k != AV::INT) return T;
    bool sg = I->getOpcode() == Instruction::FPToSI;
    unsigned w = to->getIntegerBitWidth();
    if (!a.f.fin || a.f.nan || a.f.pinf || a.f.ninf) return T;
    APSInt l(w, !sg), h(w, !sg);
    bool ex;
    auto s1 = a.f.lo.convertToInteger(l, APFloat::rmTowardZero, &ex);
    auto s2 = a.f.hi.convertToInteger(h, APFloat::rmTowardZero, &ex);
    if ((s1 & APFloat::opInvalidOp) || (s2 & APFloat::opInvalidOp)) return T;
    if (APInt(h) + 1 == APInt(l)) return T;
    return AV::integer(ConstantRange(l, APInt(h) + 1));
  }
  default:
    return T;
  }
}

Explorer::Explorer(Function &F) : F(F), DL(F.getParent()->getDataLayout()) {}

const Value *Explorer::look(const State &S, const Value *v) const {
  for (unsigned i = 0; i < 64; ++i) {
    auto b = S.bind.find(v);
    if (b != S.bind.end()) {
      v = b->second;
      continue;
    }
    auto c = canon.find(v);
    if (c != canon.end() && c->second != v) {
      v = c->second;
      continue;
    }
    if (auto *I = dyn_cast<FreezeInst>(v)) {
      v = I->getOperand(0);
      continue;
    }
    break;
  }
  return v;
}

Addr Explorer::addr(const State &S, const Value *v) const {
  Addr a;
  v = look(S, v);
  APInt off(64, 0);
  for (unsigned i = 0; i < 64; ++i) {
    const Value *n = v;
    if (auto *G = dyn_cast<GEPOperator>(v)) {
      APInt o(64, 0);
      if (!G->accumulateConstantOffset(DL, o)) {
        // indices may be bound constants on this path
        bool ok = false;
        if (G->getNumIndices() == 1) {
          AV x = eval(S, G->getOperand(1));
          if (x.k == AV::INT && x.r.isSingleElement()) {
            o = x.r.getSingleElement()->sextOrTrunc(64) * APInt(64, DL.getTypeAllocSize(G->getSourceElementType()));
            ok = true;
          }
        }
        if (!ok) break;
      }
      off += o;
      n = G->getPointerOperand();
    } else if (auto *B = dyn_cast<BitCastOperator>(v))
      n = B->getOperand(0);
    n = look(S, n);
    if (n == v) break;
    v = n;
  }
  a.base = v;
  a.off = off.getSExtValue();
  a.ok = true;
  return a;
}

AV Explorer::eval(const State &S, const Value *v0, unsigned depth) const {
  const Value *v = look(S, v0);
  Type *T = v->getType();
  AV r = top_of(T);
  if (depth > 60) return r;
  if (auto *C = dyn_cast<ConstantInt>(v)) return AV::integer(ConstantRange(C->getValue()));
  if (auto *C = dyn_cast<ConstantFP>(v)) {
    if (r.k == AV::FLT) return AV::flt(FSet::point(C->getValueAPF()));
    return r;
  }
  if (isa<ConstantPointerNull>(v)) return r;
  auto in = init.find(v);
  if (in != init.end()) r = meet(r, in->second);
  if (auto *I = dyn_cast<Instruction>(v)) {
    switch (I->getOpcode()) {
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt:
    case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc:
    case Instruction::FPToSI: case Instruction::FPToUI:
      if (!T->isVectorTy()) r = meet(r, conv(I, eval(S, I->getOperand(0), depth + 1), T));
      break;
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or:
    case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv:
    case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
      if (T->isIntegerTy()) {
        AV a = eval(S, I->getOperand(0), depth + 1), b = eval(S, I->getOperand(1), depth + 1);
        if (a.bot() || b.bot()) {
          AV x;
          x.k = AV::BOT;
          return x;
        }
        if (a.k == AV::INT && b.k == AV::INT) {
          ConstantRange res = a.r.binaryOp((Instruction::BinaryOps)I->getOpcode(), b.r);
          auto *O = dyn_cast<OverflowingBinaryOperator>(I);
          if (O && (O->hasNoSignedWrap() || O->hasNoUnsignedWrap()))
            res = a.r.overflowingBinaryOp((Instruction::BinaryOps)I->getOpcode(), b.r, (O->hasNoSignedWrap() ? OverflowingBinaryOperator::NoSignedWrap : 0) | (O->hasNoUnsignedWrap() ? OverflowingBinaryOperator::NoUnsignedWrap : 0));
          r = meet(r, AV::integer(res));
        }
      }
      break;
    case Instruction::FNeg: {
      AV a = eval(S, I->getOperand(0), depth + 1);
      if (a.k == AV::FLT) {
        FSet f = a.f;
        std::swap(f.pinf, f.ninf);
        std::swap(f.lo, f.hi);
        f.lo.changeSign();
        f.hi.changeSign();
        for (auto &e : f.ex) e.changeSign();
        r = meet(r, AV::flt(f));
      }
      break;
    }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: {
      AV a = eval(S, I->getOperand(0), depth + 1), b = eval(S, I->getOperand(1), depth + 1);
      APFloat x(0.0), y(0.0);
      if (a.k == AV::FLT && b.k == AV::FLT && a.f.single(x) && b.f.single(y)) {
        if (I->getOpcode() == Instruction::FAdd) x.add(y, APFloat::rmNearestTiesToEven);
        if (I->getOpcode() == Instruction::FSub) x.subtract(y, APFloat::rmNearestTiesToEven);
        if (I->getOpcode() == Instruction::FMul) x.multiply(y, APFloat::rmNearestTiesToEven);
        r = meet(r, AV::flt(FSet::point(x)));
      }
      break;
    }
    case Instruction::ICmp:
    case Instruction::FCmp: {
      State t = S;
      bool ct = !assume(S, v, true, depth + 8).empty(), cf = !assume(S, v, false, depth + 8).empty();
      if (ct && !cf) r = AV::integer(ConstantRange(APInt(1, 1)));
      if (cf && !ct) r = AV::integer(ConstantRange(APInt(1, 0)));
      break;
    }
    case Instruction::Load:
      if (auto *MD = I->getMetadata(LLVMContext::MD_range))
        if (T->isIntegerTy()) r = meet(r, AV::integer(getConstantRangeFromMetadata(*MD)));
      break;
    case Instruction::Call: {
      auto *CB = cast<CallBase>(I);
      if (auto *II = dyn_cast<IntrinsicInst>(I)) {
        switch (II->getIntrinsicID()) {
        case Intrinsic::fabs: {
          AV a = eval(S, II->getOperand(0), depth + 1);
          if (a.k == AV::FLT) {
            FSet f = a.f;
            f.pinf = f.pinf || f.ninf;
            f.ninf = false;
            f.ex.clear();
            if (f.fin) {
              APFloat l = f.lo, h = f.hi;
              if (h.isNegative() && !h.isZero()) {
                std::swap(l, h);
                l.clearSign();
                h.clearSign();
              } else if (l.isNegative()) {
                l.clearSign();
                if (lt(h, l)) h = l;
                l = APFloat::getZero(*f.sem);
              }
              f.lo = l;
              f.hi = h;
            }
            r = meet(r, AV::flt(f));
          }
          break;
        }
        case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::round: case Intrinsic::roundeven: {
          AV a = eval(S, II->getOperand(0), depth + 1);
          if (a.k == AV::FLT) {
            FSet f = a.f;
            f.ex.clear();
            if (f.fin) {
              f.lo.roundToIntegral(APFloat::rmTowardNegative);
              f.hi.roundToIntegral(APFloat::rmTowardPositive);
            }
            r = meet(r, AV::flt(f));
          }
          break;
        }
        case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::abs: case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: {
          SmallVector<ConstantRange, 2> ops;
          bool ok = ConstantRange::isIntrinsicSupported(II->getIntrinsicID());
          for (auto &A : II->args()) {
            AV a = eval(S, A, depth + 1);
            if (a.k != AV::INT)
              ok = false;
            else
              ops.push_back(a.r);
          }
          if (ok) r = meet(r, AV::integer(ConstantRange::intrinsic(II->getIntrinsicID(), ops)));
          break;
        }
        default:
          break;
        }
      } else if (model_call) {
        std::vector<AV> a;
        for (auto &A : CB->args()) a.push_back(eval(S, A, depth + 1));
        AV o = r;
        if (model_call(*CB, a, o)) r = meet(r, o);
      }
      if (auto *MD = I->getMetadata(LLVMContext::MD_range))
        if (T->isIntegerTy()) r = meet(r, AV::integer(getConstantRangeFromMetadata(*MD)));
      break;
    }
    default:
      break;
    }
  }
  auto rf = S.ref.find(v);
  if (rf != S.ref.end()) r = meet(r, rf->second);
  return r;
}

bool Explorer::refine(State &S, const Value *v0, const AV &a, unsigned depth) const {
  const Value *v = look(S, v0);
  AV cur = eval(S, v);
  AV n = meet(cur, a);
  if (n.bot()) return false;
  if (isa<Constant>(v)) return true;
  S.ref[v] = n;
  if (depth > 30) return true;
  auto *I = dyn_cast<Instruction>(v);
  if (!I) return true;
  switch (I->getOpcode()) {
  case Instruction::ZExt:
  case Instruction::SExt: {
    if (n.k != AV::INT || !I->getOperand(0)->getType()->isIntegerTy()) break;
    bool z = I->getOpcode() == Instruction::ZExt;
    unsigned w = I->getOperand(0)->getType()->getIntegerBitWidth(), W = n.r.getBitWidth();
    AV u = eval(S, I->getOperand(0));
    if (u.k != AV::INT) break;
    ConstantRange img = z ? u.r.zeroExtend(W) : u.r.signExtend(W);
    AV s = meet(AV::integer(img), n);
    if (s.bot()) return false;
    AV t = AV::integer(s.r.truncate(w));
    for (auto &e : n.ex) {
      APInt x = e.trunc(w);
      if ((z ? x.zext(W) : x.sext(W)) == e) t.ex.push_back(x);
    }
    t.norm();
    return refine(S, I->getOperand(0), t, depth + 1);
  }
  case Instruction::Trunc: {
    AV u = eval(S, I->getOperand(0));
    if (n.k != AV::INT || u.k != AV::INT) break;
    unsigned w = n.r.getBitWidth(), W = u.r.getBitWidth();
    if (u.r.getSignedMin().isSignedIntN(w) && u.r.getSignedMax().isSignedIntN(w))
      return refine(S, I->getOperand(0), AV::integer(n.r.signExtend(W)), depth + 1);
    if (u.r.getUnsignedMax().isIntN(w)) return refine(S, I->getOperand(0), AV::integer(n.r.zeroExtend(W)), depth + 1);
    break;
  }
  case Instruction::Add:
  case Instruction::Sub:
  case Instruction::Xor: {
    if (n.k != AV::INT) break;
    for (unsigned i = 0; i < 2; ++i) {
      AV c = eval(S, I->getOperand(1 - i));
      if (c.k != AV::INT || !c.r.isSingleElement()) continue;
      ConstantRange cr = c.r, t = n.r;
      if (I->getOpcode() == Instruction::Add)
        t = n.r.sub(cr);
      else if (I->getOpcode() == Instruction::Sub)
        t = i == 0 ? n.r.add(cr) : cr.sub(n.r);
      else if (cr.getSingleElement()->isAllOnes())
        t = n.r.binaryNot();
      else
        break;
      AV x = AV::integer(t);
      if (n.r.isSingleElement() || true) return refine(S, I->getOperand(i), x, depth + 1);
    }
    break;
  }
  case Instruction::SIToFP:
  case Instruction::UIToFP: {
    AV u = eval(S, I->getOperand(0));
    if (n.k != AV::FLT || u.k != AV::INT || !n.f.fin) break;
    bool sg = I->getOpcode() == Instruction::SIToFP;
    unsigned w = u.r.getBitWidth();
    APSInt l(w + 2, false), h(w + 2, false);
    bool ex;
    APFloat fl = n.f.lo, fh = n.f.hi;
    // rounding may have moved the value by at most one step
    bool exactl = false;
    {
      APFloat t = fl;
      APSInt q(w + 2, false);
      auto st = t.convertToInteger(q, APFloat::rmTowardZero, &ex);
      exactl = !(st & APFloat::opInvalidOp) && q.abs().getActiveBits() < APFloat::semanticsPrecision(*n.f.sem);
      t = fh;
      auto st2 = t.convertToInteger(q, APFloat::rmTowardZero, &ex);
      if (!(!(st2 & APFloat::opInvalidOp) && q.abs().getActiveBits() < APFloat::semanticsPrecision(*n.f.sem))) exactl = false;
    }
    if (!exactl) {
      if (!fl.isLargest()) fl = flt_next(fl, false);
      if (!fh.isLargest()) fh = flt_next(fh, true);
    }
    auto s1 = fl.convertToInteger(l, APFloat::rmTowardPositive, &ex);
    auto s2 = fh.convertToInteger(h, APFloat::rmTowardNegative, &ex);
    APInt mn = sg ? APInt::getSignedMinValue(w).sext(w + 2) : APInt(w + 2, 0);
    APInt mx = sg ? APInt::getSignedMaxValue(w).sext(w + 2) : APInt::getMaxValue(w).zext(w + 2);
    APInt L = (s1 & APFloat::opInvalidOp) ? (fl.isNegative() ? mn : mx + 1) : APInt(l);
    APInt H = (s2 & APFloat::opInvalidOp) ? (fh.isNegative() ? mn - 1 : mx) : APInt(h);
    if (L.slt(mn)) L = mn;
    if (mx.slt(H)) H = mx;
    if (H.slt(L)) return false;
    {
      // exact preimage of [lo,hi]: rounding is monotone, so search both ends
      auto tofp = [&](const APInt &v) {
        APFloat f(*n.f.sem);
        f.convertFromAPInt(v, true, APFloat::rmNearestTiesToEven);
        return f;
      };
      auto below = [&](const APInt &v) { return tofp(v).compare(n.f.lo) == APFloat::cmpLessThan; };
      auto above = [&](const APInt &v) { return tofp(v).compare(n.f.hi) == APFloat::cmpGreaterThan; };
      if (below(H) || above(L)) return false;
      APInt a = L, b = H; // first v with !below(v)
      while (a.slt(b)) {
        APInt m = a + (b - a).lshr(1);
        if (below(m)) a = m + 1;
        else b = m;
      }
      APInt a2 = L, b2 = H; // last v with !above(v)
      while (a2.slt(b2)) {
        APInt m = b2 - (b2 - a2).lshr(1);
        if (above(m)) b2 = m - 1;
        else a2 = m;
      }
      L = a;
      H = a2;
      if (H.slt(L)) return false;
    }
    APInt A = L.trunc(w), B = H.trunc(w) + 1;
    AV x = AV::integer(A == B ? ConstantRange(w, true) : ConstantRange(A, B));
    for (auto &e : n.f.ex)
      if (e.isZero()) x.ex.push_back(APInt(w, 0));
    x.norm();
    return refine(S, I->getOperand(0), x, depth + 1);
  }
  case Instruction::FPExt: {
    AV u = eval(S, I->getOperand(0));
    if (n.k != AV::FLT || u.k != AV::FLT) break;
    FSet f = n.f;
    f.sem = u.f.sem;
    bool li;
    if (f.fin) {
      f.lo.convert(*f.sem, APFloat::rmTowardPositive, &li);
      f.hi.convert(*f.sem, APFloat::rmTowardNegative, &li);
      if (f.lo.isInfinity()) {
        if (!f.lo.isNegative())
          f.fin = false;
        else
          f.lo = largest(*f.sem, true);
      }
      if (f.hi.isInfinity()) {
        if (f.hi.isNegative())
          f.fin = false;
        else
          f.hi = largest(*f.sem, false);
      }
    }
    f.ex.clear();
    for (auto e : n.f.ex) {
      e.convert(*f.sem, APFloat::rmNearestTiesToEven, &li);
      if (!li) f.ex.push_back(e);
    }
    f.norm();
    if (f.empty()) return false;
    return refine(S, I->getOperand(0), AV::flt(f), depth + 1);
  }
  case Instruction::FPTrunc: {
    AV u = eval(S, I->getOperand(0));
    if (n.k != AV::FLT || u.k != AV::FLT) break;
    FSet f = FSet::full(*u.f.sem);
    bool li;
    f.nan = n.f.nan;
    if (n.f.fin) {
      if (!n.f.ninf) {
        f.ninf = false;
        APFloat l = n.f.lo;
        if (!l.isLargest() || !l.isNegative()) {
          l = flt_next(l, false);
          l.convert(*f.sem, APFloat::rmNearestTiesToEven, &li);
          f.lo = l;
        }
      }
      if (!n.f.pinf) {
        f.pinf = false;
        APFloat h = n.f.hi;
        if (!h.isLargest() || h.isNegative()) {
          h = flt_next(h, true);
          h.convert(*f.sem, APFloat::rmNearestTiesToEven, &li);
          f.hi = h;
        }
      }
    }
    f.norm();
    return refine(S, I->getOperand(0), AV::flt(f), depth + 1);
  }
  case Instruction::FPToSI:
  case Instruction::FPToUI: {
    AV u = eval(S, I->getOperand(0));
    if (n.k != AV::INT || u.k != AV::FLT) break;
    bool sg = I->getOpcode() == Instruction::FPToSI;
    APInt l = sg ? n.r.getSignedMin() : n.r.getUnsignedMin(), h = sg ? n.r.getSignedMax() : n.r.getUnsignedMax();
    unsigned w = l.getBitWidth();
    l = (sg ? l.sext(w + 2) : l.zext(w + 2)) - 1;
    h = (sg ? h.sext(w + 2) : h.zext(w + 2)) + 1;
    FSet f = u.f;
    f.nan = f.pinf = f.ninf = false;
    if (f.fin) {
      APFloat a = i2f(l, true, *f.sem, APFloat::rmTowardNegative), b = i2f(h, true, *f.sem, APFloat::rmTowardPositive);
      if (lt(f.lo, a)) f.lo = a;
      if (lt(b, f.hi)) f.hi = b;
    }
    f.norm();
    if (f.empty()) return false;
    // only meaningful when the conversion is defined; keep NaN/inf possibilities otherwise
    f.nan = u.f.nan;
    f.pinf = u.f.pinf;
    f.ninf = u.f.ninf;
    if (u.f.nan || u.f.pinf || u.f.ninf) break;
    return refine(S, I->getOperand(0), AV::flt(f), depth + 1);
  }
  case Instruction::FNeg: {
    if (n.k != AV::FLT) break;
    FSet f = n.f;
    std::swap(f.pinf, f.ninf);
    std::swap(f.lo, f.hi);
    f.lo.changeSign();
    f.hi.changeSign();
    for (auto &e : f.ex) e.changeSign();
    return refine(S, I->getOperand(0), AV::flt(f), depth + 1);
  }
  case Instruction::Call:
    if (auto *II = dyn_cast<IntrinsicInst>(I)) {
      if (II->getIntrinsicID() == Intrinsic::fabs && n.k == AV::FLT) {
        FSet f = FSet::full(*n.f.sem);
        f.nan = n.f.nan;
        f.pinf = f.ninf = n.f.pinf;
        f.fin = n.f.fin;
        if (f.fin) {
          f.hi = n.f.hi;
          f.lo = n.f.hi;
          f.lo.changeSign();
        }
        return refine(S, II->getOperand(0), AV::flt(f), depth + 1);
      }
      if (II->getIntrinsicID() == Intrinsic::floor && n.k == AV::FLT && n.f.fin) {
        FSet f = n.f;
        f.ex.clear();
        if (!f.hi.isLargest()) {
          APFloat one(*f.sem, 1);
          f.hi.add(one, APFloat::rmTowardPositive);
          if (f.hi.isInfinity()) f.hi = largest(*f.sem, false);
        }
        return refine(S, II->getOperand(0), AV::flt(f), depth + 1);
      }
    }
    break;
  default:
    break;
  }
  return true;
}

static FSet fcmp_region(CmpInst::Predicate p, const FSet &o, bool &known) {
  // values x for which (x p y) may hold for some y in o, ordered predicates only
  FSet r = FSet::full(*o.sem);
  known = true;
  r.nan = false;
  bool has_fin = o.fin;
  switch (p) {
  case CmpInst::FCMP_OEQ: {
    FSet t = o;
    t.nan = false;
    // zero of either sign is equal; lo/hi compare equal anyway
    return t;
  }
  case CmpInst::FCMP_OLT: // x < y : x < max(y)
  case CmpInst::FCMP_OLE: {
    bool le = p == CmpInst::FCMP_OLE;
    r.pinf = le && o.pinf;
    if (o.pinf) return r;
    if (has_fin) {
      APFloat h = o.hi;
      if (!le) {
        if (h.isZero()) h = APFloat::getZero(*o.sem, true);
        if (h.isLargest() && h.isNegative()) {
          r.fin = false;
          return r;
        }
        h = flt_next(h, false);
      }
      r.hi = h;
      r.norm();
      return r;
    }
    r.fin = false;
    r.ninf = le && o.ninf;
    return r;
  }
  case CmpInst::FCMP_OGT:
  case CmpInst::FCMP_OGE: {
    bool ge = p == CmpInst::FCMP_OGE;
    r.ninf = ge && o.ninf;
    if (o.ninf) return r;
    if (has_fin) {
      APFloat l = o.lo;
      if (!ge) {
        if (l.isZero()) l = APFloat::getZero(*o.sem, false);
        if (l.isLargest() && !l.isNegative()) {
          r.fin = false;
          return r;
        }
        l = flt_next(l, true);
      }
      r.lo = l;
      r.norm();
      return r;
    }
    r.fin = false;
    r.pinf = ge && o.pinf;
    return r;
  }
  case CmpInst::FCMP_ONE: {
    APFloat v(0.0);
    if (o.single(v)) r.ex.push_back(v);
    r.norm();
    return r;
  }
  case CmpInst::FCMP_ORD:
    return r;
  default:
    known = false;
    r.nan = true;
    return r;
  }
}

std::vector<State> Explorer::assume(State S, const Value *c0, bool truth, unsigned depth) const {
  const Value *c = look(S, c0);
  std::vector<State> out;
  if (depth > 60) return {S};
  if (auto *C = dyn_cast<ConstantInt>(c)) {
    if (C->isOne() == truth) out.push_back(S);
    return out;
  }
  {
    auto it = S.ref.find(c);
    if (it != S.ref.end() && it->second.k == AV::INT && it->second.r.isSingleElement()) {
      if (it->second.r.getSingleElement()->isOne() == truth) out.push_back(S);
      return out;
    }
  }
  auto mark = [&](State &T) {
    T.ref[c] = AV::integer(ConstantRange(APInt(1, truth)));
    T.facts.push_back({c, truth});
  };
  if (auto *I = dyn_cast<Instruction>(c)) {
    if (I->getType()->isIntegerTy(1)) {
      const Value *A = nullptr, *B = nullptr;
      int op = 0; // 1 and, 2 or
      if (I->getOpcode() == Instruction::And || I->getOpcode() == Instruction::Or) {
        A = I->getOperand(0);
        B = I->getOperand(1);
        op = I->getOpcode() == Instruction::And ? 1 : 2;
      } else if (auto *Se = dyn_cast<SelectInst>(I)) {
        if (auto *K = dyn_cast<ConstantInt>(Se->getTrueValue()); K && K->isOne()) {
          A = Se->getCondition();
          B = Se->getFalseValue();
          op = 2;
        } else if (auto *K2 = dyn_cast<ConstantInt>(Se->getFalseValue()); K2 && K2->isZero()) {
          A = Se->getCondition();
          B = Se->getTrueValue();
          op = 1;
        } else {
          for (int t = 0; t < 2; ++t)
            for (State &x : assume(S, Se->getCondition(), t, depth + 1))
              for (State &y : assume(x, t ? Se->getTrueValue() : Se->getFalseValue(), truth, depth + 1)) {
                mark(y);
                out.push_back(y);
              }
          return out;
        }
      } else if (I->getOpcode() == Instruction::Xor) {
        const Value *X = I->getOperand(0), *Y = I->getOperand(1);
        for (int t = 0; t < 2; ++t)
          for (State &x : assume(S, Y, t, depth + 1))
            for (State &y : assume(x, X, truth != (bool)t, depth + 1)) {
              mark(y);
              out.push_back(y);
            }
        return out;
      }
      if (op) {
        bool conj = (op == 1) == truth; // both must take the value `truth`
        if (conj) {
          for (State &x : assume(S, A, truth, depth + 1))
            for (State &y : assume(x, B, truth, depth + 1)) {
              mark(y);
              out.push_back(y);
            }
        } else {
          for (State &x : assume(S, A, truth, depth + 1)) {
            mark(x);
            out.push_back(x);
          }
          for (State &x : assume(S, A, !truth, depth + 1))
            for (State &y : assume(x, B, truth, depth + 1)) {
              mark(y);
              out.push_back(y);
            }
        }
        return out;
      }
    }
    if (auto *IC = dyn_cast<ICmpInst>(I)) {
      CmpInst::Predicate p = truth ? IC->getPredicate() : IC->getInversePredicate();
      const Value *A = IC->getOperand(0), *B = IC->getOperand(1);
      // comparison of a boolean (possibly widened) with a constant: recurse into the condition
      {
        const Value *X = look(S, A);
        AV cb = eval(S, B);
        if (auto *Z = dyn_cast<ZExtInst>(X))
          if (Z->getSrcTy()->isIntegerTy(1) && cb.k == AV::INT && cb.r.isSingleElement()) {
            bool t0 = ICmpInst::compare(APInt(Z->getType()->getIntegerBitWidth(), 0), *cb.r.getSingleElement(), p);
            bool t1 = ICmpInst::compare(APInt(Z->getType()->getIntegerBitWidth(), 1), *cb.r.getSingleElement(), p);
            for (int t = 0; t < 2; ++t)
              if (t ? t1 : t0)
                for (State &x : assume(S, Z->getOperand(0), t, depth + 1)) {
                  mark(x);
                  out.push_back(x);
                }
            return out;
          }
      }
      AV a = eval(S, A, depth + 1), b = eval(S, B, depth + 1);
      if (a.bot() || b.bot()) return out;
      if (look(S, A) == look(S, B)) {
        if (!ICmpInst::isTrueWhenEqual(p)) return out;
        mark(S);
        return {S};
      }
      if (a.k == AV::INT && b.k == AV::INT) {
        auto region = [](CmpInst::Predicate q, const AV &o) {
          AV x = AV::integer(ConstantRange::makeAllowedICmpRegion(q, o.r));
          if (q == CmpInst::ICMP_EQ) x.ex = o.ex;
          if (q == CmpInst::ICMP_NE && o.r.isSingleElement()) {
            x = AV::integer(ConstantRange(o.r.getBitWidth(), true));
            x.ex.push_back(*o.r.getSingleElement());
          }
          x.norm();
          return x;
        };
        AV ra = region(p, b);
        if (!refine(S, A, ra)) return out;
        a = eval(S, A);
        AV rb = region(CmpInst::getSwappedPredicate(p), a);
        if (!refine(S, B, rb)) return out;
      }
      mark(S);
      return {S};
    }
    if (auto *FC = dyn_cast<FCmpInst>(I)) {
      const Value *A = FC->getOperand(0), *B = FC->getOperand(1);
      AV a = eval(S, A, depth + 1), b = eval(S, B, depth + 1);
      if (a.bot() || b.bot()) return out;
      CmpInst::Predicate p = truth ? FC->getPredicate() : FC->getInversePredicate();
      if (p == CmpInst::FCMP_FALSE) return out;
      if (p == CmpInst::FCMP_TRUE || a.k != AV::FLT || b.k != AV::FLT) {
        mark(S);
        return {S};
      }
      bool unord = CmpInst::isUnordered(p);
      CmpInst::Predicate o = unord ? FCmpInst::getOrderedPredicate(p) : p;
      if (p == CmpInst::FCMP_UNO) o = CmpInst::FCMP_FALSE;
      bool same = look(S, A) == look(S, B);
      // ordered part
      if (o != CmpInst::FCMP_FALSE && !(same && (o == CmpInst::FCMP_OLT || o == CmpInst::FCMP_OGT || o == CmpInst::FCMP_ONE))) {
        State T = S;
        bool kn;
        FSet ra = fcmp_region(o, b.f, kn);
        FSet ra2 = ra;
        ra2.nan = false;
        AV xa;
        xa.k = AV::FLT;
        xa.f = ra2;
        xa.norm();
        bool ok = !xa.bot() && refine(T, A, xa);
        if (ok) {
          AV a2 = eval(T, A);
          if (a2.k == AV::FLT) {
            FSet rb = fcmp_region(CmpInst::getSwappedPredicate(o), a2.f, kn);
            rb.nan = false;
            AV xb;
            xb.k = AV::FLT;
            xb.f = rb;
            xb.norm();
            ok = !xb.bot() && refine(T, B, xb);
          }
        }
        if (ok) {
          mark(T);
          out.push_back(T);
        }
      }
      if (unord) {
        AV n;
        n.k = AV::FLT;
        n.f = FSet::full(*a.f.sem);
        n.f.fin = n.f.pinf = n.f.ninf = false;
        State T = S;
        if (refine(T, A, n)) {
          mark(T);
          out.push_back(T);
        }
        if (!same) {
          State U = S;
          // A not NaN, B NaN
          AV nn;
          nn.k = AV::FLT;
          nn.f = FSet::full(*a.f.sem);
          nn.f.nan = false;
          if (refine(U, A, nn) && refine(U, B, n)) {
            mark(U);
            out.push_back(U);
          }
        }
      }
      return out;
    }
    if (auto *II = dyn_cast<IntrinsicInst>(I)) {
      if (II->getIntrinsicID() == Intrinsic::is_fpclass) {
        unsigned m = cast<ConstantInt>(II->getArgOperand(1))->getZExtValue();
        if (!truth) m = ~m & 0x3ff;
        AV a = eval(S, II->getArgOperand(0), depth + 1);
        if (a.k == AV::FLT) {
          // split: nan / -inf / +inf / negative finite / zero / positive finite
          struct P {
            unsigned mask;
            int kind;
          };
          auto add = [&](const FSet &f) {
            AV x;
            x.k = AV::FLT;
            x.f = f;
            x.norm();
            State T = S;
            if (!x.bot() && refine(T, II->getArgOperand(0), x)) {
              mark(T);
              out.push_back(T);
            }
          };
          FSet none = FSet::full(*a.f.sem);
          none.nan = none.pinf = none.ninf = none.fin = false;
          bool allfin = (m & 0x1f8) == 0x1f8;
          FSet f = none;
          if (m & 3) f.nan = true;
          if (m & 4) f.ninf = true;
          if (m & 512) f.pinf = true;
          if (allfin) {
            f.fin = true;
            add(f);
          } else {
            if (!f.empty()) add(f);
            FSet g = none;
            g.fin = true;
            if ((m & 0x18)) {
              FSet h = g;
              h.hi = flt_next(APFloat::getZero(*a.f.sem, true), false);
              add(h);
            }
            if (m & 0x60) {
              FSet h = g;
              h.lo = h.hi = APFloat::getZero(*a.f.sem);
              add(h);
            }
            if (m & 0x180) {
              FSet h = g;
              h.lo = flt_next(APFloat::getZero(*a.f.sem), true);
              add(h);
            }
          }
          return out;
        }
      }
    }
    if (auto *T = dyn_cast<TruncInst>(I)) {
      AV u = eval(S, T->getOperand(0), depth + 1);
      if (u.k == AV::INT && u.r.getUnsignedMax().ule(1)) {
        AV x = AV::integer(ConstantRange(APInt(u.r.getBitWidth(), truth)));
        if (!refine(S, T->getOperand(0), x)) return out;
        mark(S);
        return {S};
      }
    }
  }
  AV x = AV::integer(ConstantRange(APInt(1, truth)));
  if (c->getType()->isIntegerTy(1)) {
    AV cur = eval(S, c, depth + 1);
    if (meet(cur, x).bot()) return out;
  }
  mark(S);
  return {S};
}

void Explorer::edge(const State &S, BasicBlock *B, BasicBlock *to) { walk(S, to, B); }

void Explorer::walk(State S, BasicBlock *B, BasicBlock *from) {
  if (aborted) return;
  for (const BasicBlock *p : S.path)
    if (p == B) {
      if (loops && headers.count(B)) {
        if (on_back) on_back(S, *B);
        return;
      }
      aborted = true;
      abort_why = "loop";
      return;
    }
  S.path.push_back(B);
  if (loops && headers.count(B)) { // an arbitrary iteration: loop-carried values are unknown
    step(std::move(S), B, B->begin());
    return;
  }
  std::vector<std::pair<const Value *, const Value *>> nb;
  for (PHINode &P : B->phis()) nb.push_back({&P, look(S, P.getIncomingValueForBlock(from))});
  for (auto &x : nb) S.bind[x.first] = x.second;
  step(std::move(S), B, B->begin());
}

void Explorer::step(State S, BasicBlock *B, BasicBlock::iterator it) {
  for (; it != B->end(); ++it) {
    if (aborted) return;
    Instruction &I = *it;
    if (isa<PHINode>(I) || I.isDebugOrPseudoInst()) continue;
    if (auto *Se = dyn_cast<SelectInst>(&I)) {
      if (!Se->getType()->isIntegerTy(1) && !Se->getCondition()->getType()->isVectorTy()) {
        auto nx = std::next(it);
        for (int t = 0; t < 2; ++t)
          for (State &x : assume(S, Se->getCondition(), t)) {
            x.bind[Se] = look(x, t ? Se->getTrueValue() : Se->getFalseValue());
            step(x, B, nx);
          }
        return;
      }
    }
    if (auto *C = dyn_cast<CallInst>(&I))
      if (Function *Fn = C->getCalledFunction())
        if (Fn->getName() == "sa.throw" || Fn->getName() == "sa.noreturn") {
          if (++paths > max_paths) {
            aborted = true;
            abort_why = "paths";
          }
          if (on_stub) on_stub(S, I, Fn->getName() == "sa.throw");
          return;
        }
    if (on_inst) on_inst(S, I);
    if (auto *R = dyn_cast<ReturnInst>(&I)) {
      if (++paths > max_paths) {
        aborted = true;
        abort_why = "paths";
      }
      if (on_ret) on_ret(S, *R);
      return;
    }
    if (auto *Br = dyn_cast<BranchInst>(&I)) {
      if (Br->isUnconditional()) {
        edge(S, B, Br->getSuccessor(0));
        return;
      }
      for (int t = 0; t < 2; ++t)
        for (State &x : assume(S, Br->getCondition(), t)) edge(x, B, Br->getSuccessor(t ? 0 : 1));
      return;
    }
    if (auto *Sw = dyn_cast<SwitchInst>(&I)) {
      State D = S;
      bool alive = true;
      for (auto &C : Sw->cases()) {
        State x = S;
        if (refine(x, Sw->getCondition(), AV::integer(ConstantRange(C.getCaseValue()->getValue())))) edge(x, B, C.getCaseSuccessor());
        AV ne = AV::integer(ConstantRange(C.getCaseValue()->getValue().getBitWidth(), true));
        ne.ex.push_back(C.getCaseValue()->getValue());
        ne.norm();
        if (alive && !refine(D, Sw->getCondition(), ne)) alive = false;
      }
      if (alive) edge(D, B, Sw->getDefaultDest());
      return;
    }
    if (isa<UnreachableInst>(I)) {
      if (on_stub) on_stub(S, I, false);
      return;
    }
    if (I.isTerminator()) {
      aborted = true;
      abort_why = "terminator " + std::string(I.getOpcodeName());
      return;
    }
  }
}

void Explorer::run() {
  // canonical loads: same address expression, same type, non-dst memory is assumed stable
  State S;
  if (loops) {
    DominatorTree DT(F);
    LoopInfo LI(DT);
    for (Loop *L : LI.getLoopsInPreorder()) headers.insert(L->getHeader());
  }
  walk(S, &F.getEntryBlock(), nullptr);
}
