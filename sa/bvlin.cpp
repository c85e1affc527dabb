#include "bvlin.h"

static wide p2(unsigned w) { return (wide)1 << w; }
static std::string name_of(const Value *v) { return std::to_string((uintptr_t)v); }

static std::vector<Lin> rel(CmpInst::Predicate p, const Lin &d) { // d = left - right
  switch (p) {
  case CmpInst::ICMP_EQ: return {d, d.scaled(-1)};
  case CmpInst::ICMP_ULT:
  case CmpInst::ICMP_SLT: return {Lin(-1) - d};
  case CmpInst::ICMP_ULE:
  case CmpInst::ICMP_SLE: return {d.scaled(-1)};
  case CmpInst::ICMP_UGT:
  case CmpInst::ICMP_SGT: return {d - Lin(1)};
  case CmpInst::ICMP_UGE:
  case CmpInst::ICMP_SGE: return {d};
  default: return {};
  }
}

Lin BvLin::fresh(const std::string &n, wide lo, wide hi) {
  int k = sp.sym(n);
  if (env.bounded.insert(k).second) {
    env.facts.push_back(Lin::sym(k) - Lin(lo));
    env.facts.push_back(Lin(hi) - Lin::sym(k));
  }
  return Lin::sym(k);
}

Lin BvLin::wrap(const Lin &e, unsigned w, const std::string &n, const Value *v) {
  if (e.isconst()) {
    wide r = e.c % p2(w);
    if (r < 0) r += p2(w);
    if (v) wraps[v] = Lin((e.c - r) / p2(w));
    return Lin(r);
  }
  if (env.nonneg(e) && env.nonneg(Lin(p2(w) - 1) - e)) return e;
  int k = sp.sym("wrap" + std::to_string(w) + "." + n);
  Lin K = Lin::sym(k), r = e - K.scaled(p2(w));
  if (env.bounded.insert(k).second) {
    env.facts.push_back(r);
    env.facts.push_back(Lin(p2(w) - 1) - r);
  }
  if (v) wraps[v] = K;
  return r;
}

Lin BvLin::sgn(const Lin &x, unsigned w, const std::string &n) {
  if (x.isconst()) return x.c >= p2(w - 1) ? x - Lin(p2(w)) : x;
  if (env.nonneg(Lin(p2(w - 1) - 1) - x)) return x;
  if (env.nonneg(x - Lin(p2(w - 1)))) return x - Lin(p2(w));
  Lin b = fresh("top" + std::to_string(w) + ".(" + sp.str(x) + ")", 0, 1);
  env.facts.push_back(x - b.scaled(p2(w - 1)));                      // set: at least 2^(w-1)
  env.facts.push_back(Lin(p2(w - 1) - 1) + b.scaled(p2(w - 1)) - x); // clear: below it
  return x - b.scaled(p2(w));
}

std::optional<Lin> BvLin::s(const Value *v0) {
  const Value *v = E.look(env.S, v0);
  auto a = u(v);
  if (!a) return a;
  return sgn(*a, v->getType()->getIntegerBitWidth(), name_of(v));
}

std::optional<Lin> BvLin::u(const Value *v0) {
  const Value *v = E.look(env.S, v0);
  if (!v->getType()->isIntegerTy() || v->getType()->getIntegerBitWidth() > 64) return std::nullopt;
  unsigned w = v->getType()->getIntegerBitWidth();
  if (auto *C = dyn_cast<ConstantInt>(v)) return Lin((wide)C->getZExtValue());
  auto it = memo.find(v);
  if (it != memo.end()) return it->second;
  memo[v] = std::nullopt;
  std::optional<Lin> r, a, b;
  std::string n = name_of(v);
  auto low = [&](const Lin &x, unsigned k, Lin &q) { // x = 2^k q + rest, 0 <= rest < 2^k
    if (x.isconst()) {
      q = Lin(x.c >> k);
      return;
    }
    bool all = x.c % p2(k) == 0;
    for (auto &t : x.t) all &= t.second % p2(k) == 0;
    if (all) { // a multiple of 2^k
      q = Lin(x.c / p2(k));
      for (auto &t : x.t) q.add(Lin::sym(t.first), t.second / p2(k));
      return;
    }
    q = fresh("(" + sp.str(x) + ">>" + std::to_string(k) + ")", 0, p2(64 - std::min(k, 64u)));
    Lin rest = x - q.scaled(p2(k));
    env.facts.push_back(rest);
    env.facts.push_back(Lin(p2(k) - 1) - rest);
  };
  auto bin = [&](const Instruction *I) {
    a = u(I->getOperand(0));
    b = u(I->getOperand(1));
    return a && b;
  };
  if (auto *I = dyn_cast<Instruction>(v)) switch (I->getOpcode()) {
    case Instruction::Add:
      if (bin(I)) {
        if (b->isconst() && w > 1 && b->c >= p2(w - 1)) *b = *b - Lin(p2(w)); // adding a negative constant
        r = wrap(*a + *b, w, n, v);
      }
      break;
    case Instruction::Sub:
      if (bin(I)) r = wrap(*a - *b, w, n, v);
      break;
    case Instruction::Mul:
      if (bin(I)) {
        if (a->isconst()) std::swap(a, b);
        if (!b->isconst()) {
          AV x = E.eval(env.S, I->getOperand(0)), y = E.eval(env.S, I->getOperand(1));
          if (x.k != AV::INT || y.k != AV::INT || x.r.isEmptySet() || y.r.isEmptySet()) break;
          APInt hx = x.r.getUnsignedMax(), hy = y.r.getUnsignedMax();
          if (hx.getActiveBits() + hy.getActiveBits() > 100) break;
          Lin P = sp.product(*u(I->getOperand(0)), *u(I->getOperand(1)));
          env.facts.push_back(P);
          env.facts.push_back(Lin((wide)hx.getZExtValue() * (wide)hy.getZExtValue()) - P);
          r = wrap(P, w, n, v);
          break;
        }
        if (b->c >= p2(w - 1) && w > 1) *b = *b - Lin(p2(w));
        r = wrap(a->scaled(b->c), w, n, v);
      }
      break;
    case Instruction::Shl:
      if (auto *K = dyn_cast<ConstantInt>(I->getOperand(1)); K && K->getZExtValue() < w && (a = u(I->getOperand(0)))) r = wrap(a->scaled(p2(K->getZExtValue())), w, n, v);
      break;
    case Instruction::LShr:
      if (auto *K = dyn_cast<ConstantInt>(I->getOperand(1)); K && K->getZExtValue() < w && (a = u(I->getOperand(0)))) {
        Lin q;
        low(*a, K->getZExtValue(), q);
        r = q;
      }
      break;
    case Instruction::UDiv:
    case Instruction::URem:
      if (bin(I) && b->isconst() && b->c > 0) {
        Lin q;
        if (a->isconst()) q = Lin(a->c / b->c);
        else {
          q = fresh("(" + sp.str(*a) + "/" + std::to_string((long)b->c) + ")", 0, p2(64));
          Lin rest = *a - q.scaled(b->c);
          env.facts.push_back(rest);
          env.facts.push_back(Lin(b->c - 1) - rest);
        }
        r = I->getOpcode() == Instruction::URem ? *a - q.scaled(b->c) : q;
      }
      break;
    case Instruction::SDiv: // of a number that is not negative
    case Instruction::SRem:
      a = s(I->getOperand(0));
      b = s(I->getOperand(1));
      if (a && b && b->isconst() && b->c > 0 && env.nonneg(*a)) {
        Lin q;
        if (a->isconst()) q = Lin(a->c / b->c);
        else {
          q = fresh("(" + sp.str(*a) + "/" + std::to_string((long)b->c) + ")", 0, p2(64));
          Lin rest = *a - q.scaled(b->c);
          env.facts.push_back(rest);
          env.facts.push_back(Lin(b->c - 1) - rest);
        }
        r = I->getOpcode() == Instruction::SRem ? *a - q.scaled(b->c) : q;
      }
      break;
    case Instruction::Select:
      if (w == 1) {
        auto c = u(I->getOperand(0));
        a = u(I->getOperand(1));
        b = u(I->getOperand(2));
        if (!c || !a || !b) break;
        Lin q = fresh("sel." + n, 0, 1);
        env.either.push_back({{*c - Lin(1), q - *a, *a - q}, {c->scaled(-1), q - *b, *b - q}});
        r = q;
      }
      break;
    case Instruction::And:
      if (w == 1 && bin(I)) {
        Lin q = fresh("and." + n, 0, 1);
        env.facts.push_back(*a - q);
        env.facts.push_back(*b - q);
        env.facts.push_back(q - *a - *b + Lin(1));
        r = q;
        break;
      }
      if (auto *K = dyn_cast<ConstantInt>(I->getOperand(1)); K && (a = u(I->getOperand(0)))) {
        APInt m = K->getValue();
        if (m.isMask()) {
          unsigned k = m.countTrailingOnes();
          if (k >= w) r = a;
          else {
            Lin q;
            low(*a, k, q);
            r = *a - q.scaled(p2(k));
          }
        } else if ((~m).isMask()) {
          unsigned k = (~m).countTrailingOnes();
          Lin q;
          low(*a, k, q);
          r = q.scaled(p2(k));
        } else if (m.isShiftedMask()) {
          unsigned lo = m.countTrailingZeros(), hi = w - m.countLeadingZeros();
          Lin q, q2;
          low(*a, lo, q);
          low(*a, hi, q2);
          r = q.scaled(p2(lo)) - q2.scaled(p2(hi));
        }
      }
      break;
    case Instruction::Or:
      if (w == 1 && bin(I)) {
        Lin q = fresh("or." + n, 0, 1);
        env.facts.push_back(q - *a);
        env.facts.push_back(q - *b);
        env.facts.push_back(*a + *b - q);
        r = q;
        break;
      }
      if (cast<PossiblyDisjointInst>(I)->isDisjoint() && bin(I)) r = *a + *b;
      else if (bin(I)) {
        // disjoint by their shape: one a multiple of 2^k, the other below 2^k
        for (int t = 0; t < 2 && !r; ++t, std::swap(a, b)) {
          wide g = a->c;
          bool any = a->c != 0;
          for (auto &x : a->t) {
            wide y = x.second < 0 ? -x.second : x.second;
            wide q = any ? g : 0;
            if (q < 0) q = -q;
            while (q) {
              wide z = y % q;
              y = q;
              q = z;
            }
            g = y;
            any = true;
          }
          if (g < 0) g = -g;
          unsigned k = 0;
          while (any && k < w && g % p2(k + 1) == 0) ++k;
          if (any && k && env.nonneg(Lin(p2(k) - 1) - *b)) r = *a + *b;
        }
      }
      break;
    case Instruction::Xor:
      if (auto *K = dyn_cast<ConstantInt>(I->getOperand(1)); K && K->isMinusOne() && (a = u(I->getOperand(0)))) r = Lin(p2(w) - 1) - *a; // ~x, and !x for truth values
      else if (K && w > 1 && K->getValue().isSignMask() && (a = u(I->getOperand(0)))) r = wrap(*a + Lin(p2(w - 1)), w, n);
      break;
    case Instruction::SExt:
      if (I->getOperand(0)->getType()->isIntegerTy(1)) break;
      if ((a = u(I->getOperand(0)))) {
        const Value *o = E.look(env.S, I->getOperand(0));
        unsigned ow = o->getType()->getIntegerBitWidth();
        Lin sg = sgn(*a, ow, name_of(o)); // a - top*2^ow
        r = sg.isconst() ? wrap(sg, w, n) : sg + (*a - sg).scaled(p2(w - ow)); // + top*2^w
        if (sg == *a) r = a;
      }
      break;
    case Instruction::ZExt:
      r = u(I->getOperand(0));
      break;
    case Instruction::Trunc:
      if ((a = u(I->getOperand(0)))) r = wrap(*a, w, n, v);
      break;
    case Instruction::Freeze:
      r = u(I->getOperand(0));
      break;
    case Instruction::ICmp: {
      AV t = E.eval(env.S, v);
      if (t.k == AV::INT && t.r.isSingleElement()) {
        r = Lin((wide)t.r.getSingleElement()->getZExtValue());
        break;
      }
      // a truth value: 1 where the comparison holds
      Lin q = fresh("cmp." + n, 0, 1);
      auto *C = cast<ICmpInst>(I);
      auto x = C->isSigned() ? s(C->getOperand(0)) : u(C->getOperand(0)), y = C->isSigned() ? s(C->getOperand(1)) : u(C->getOperand(1));
      if (x && y) {
        std::vector<Lin> T = rel(C->getPredicate(), *x - *y), F = rel(C->getInversePredicate(), *x - *y);
        if (env.impossible(T)) q = Lin(0);
        else if (env.impossible(F)) q = Lin(1);
        else if (C->isEquality()) {
          Lin d = *x - *y, e = C->getPredicate() == CmpInst::ICMP_EQ ? q : Lin(1) - q;
          env.either.push_back({{d, d.scaled(-1), e - Lin(1)}, {e.scaled(-1)}});
          env.either.push_back({{d - Lin(1)}, {e - Lin(1) - d}}); // different: above or below
        } else {
          T.push_back(q - Lin(1));
          F.push_back(q.scaled(-1));
          env.either.push_back({T, F});
        }
      }
      r = q;
      break;
    }
    case Instruction::ExtractValue:
      if (auto *W = dyn_cast<WithOverflowInst>(I->getOperand(0))) {
        if (cast<ExtractValueInst>(I)->getIndices()[0] != 0) break;
        auto x = u(W->getLHS()), y = u(W->getRHS());
        if (!x || !y) break;
        switch (W->getBinaryOp()) {
        case Instruction::Add: r = wrap(*x + *y, w, name_of(W), W); break;
        case Instruction::Sub: r = wrap(*x - *y, w, name_of(W), W); break;
        case Instruction::Mul:
          if (x->isconst()) std::swap(x, y);
          if (y->isconst()) r = wrap(x->scaled(y->c), w, name_of(W), W);
          break;
        default: break;
        }
        if (wraps.count(W)) wraps[v] = wraps[W];
      }
      break;
    case Instruction::Call:
      if (auto *II = dyn_cast<IntrinsicInst>(I)) {
        auto id = II->getIntrinsicID();
        bool mx = id == Intrinsic::umax, mn = id == Intrinsic::umin;
        if ((mx || mn) && bin(I)) {
          Lin m = fresh("mm." + n, 0, p2(w) - 1);
          int k = mx ? 1 : -1;
          env.facts.push_back((m - *a).scaled(k));
          env.facts.push_back((m - *b).scaled(k));
          env.either.push_back({{*a - m, m - *a}, {*b - m, m - *b}});
          r = m;
        }
      }
      break;
    default:
      break;
    }
  if (!r) {
    AV a = E.eval(env.S, v);
    wide lo = 0, hi = p2(w) - 1;
    if (a.k == AV::INT && !a.r.isEmptySet()) {
      lo = a.r.getUnsignedMin().getZExtValue();
      hi = a.r.getUnsignedMax().getZExtValue();
    }
    std::string nm = leaf ? leaf(v) : "";
    r = fresh(nm.empty() ? "%" + n : nm, lo, hi);
  }
  memo[v] = r;
  return r;
}

void BvLin::cond(const Value *c0, bool truth) {
  const Value *c = E.look(env.S, c0);
  if (auto *X = dyn_cast<BinaryOperator>(c)) {
    auto *K = dyn_cast<ConstantInt>(X->getOperand(1));
    if (X->getOpcode() == Instruction::Xor && K && K->isOne()) return cond(X->getOperand(0), !truth);
    if ((X->getOpcode() == Instruction::Or && !truth) || (X->getOpcode() == Instruction::And && truth)) {
      cond(X->getOperand(0), truth);
      cond(X->getOperand(1), truth);
    }
    return;
  }
  if (auto *EV = dyn_cast<ExtractValueInst>(c)) {
    auto *W = dyn_cast<WithOverflowInst>(EV->getAggregateOperand());
    if (!W || W->isSigned()) return;
    auto x = u(W->getLHS()), y = u(W->getRHS());
    if (!x || !y) return;
    unsigned w = W->getLHS()->getType()->getIntegerBitWidth();
    std::optional<Lin> e;
    switch (W->getBinaryOp()) {
    case Instruction::Add: e = *x + *y; break;
    case Instruction::Sub: e = *x - *y; break;
    case Instruction::Mul:
      if (x->isconst()) std::swap(x, y);
      if (y->isconst()) e = x->scaled(y->c);
      break;
    default: break;
    }
    if (!e) return;
    bool sub = W->getBinaryOp() == Instruction::Sub;
    if (!truth) env.facts.push_back(sub ? *e : Lin(p2(w) - 1) - *e);
    else env.facts.push_back(sub ? Lin(-1) - *e : *e - Lin(p2(w)));
    return;
  }
  auto *I = dyn_cast<ICmpInst>(c);
  if (!I || !I->getOperand(0)->getType()->isIntegerTy()) {
    if (c->getType()->isIntegerTy(1) && !isa<Constant>(c))
      if (auto q = u(c)) env.facts.push_back(truth ? *q - Lin(1) : q->scaled(-1));
    return;
  }
  CmpInst::Predicate p = truth ? I->getPredicate() : I->getInversePredicate();
  bool sg = CmpInst::isSigned(p);
  auto a = sg ? s(I->getOperand(0)) : u(I->getOperand(0)), b = sg ? s(I->getOperand(1)) : u(I->getOperand(1));
  if (!a || !b) return;
  Lin d = *a - *b;
  if (p == CmpInst::ICMP_NE) {
    if (env.nonneg(d)) env.facts.push_back(d - Lin(1));
    else if (env.nonneg(d.scaled(-1))) env.facts.push_back(Lin(-1) - d);
    else env.either.push_back({{d - Lin(1)}, {Lin(-1) - d}});
    return;
  }
  for (auto &l : rel(p, d)) env.facts.push_back(l);
}

void BvLin::load_facts() {
  for (auto &f : env.S.facts) cond(f.cond, f.truth);
}

bool BvLin::exact(const Value *v0) {
  std::set<const Value *> seen;
  std::function<bool(const Value *)> go = [&](const Value *x) {
    x = E.look(env.S, x);
    if (!seen.insert(x).second) return true;
    auto it = wraps.find(x);
    if (it != wraps.end() && !zero(it->second)) return false;
    if (auto *I = dyn_cast<Instruction>(x))
      if (!isa<PHINode>(I) && !isa<LoadInst>(I) && !isa<CallBase>(I) && !isa<ICmpInst>(I))
        for (const Use &o : I->operands())
          if (o->getType()->isIntegerTy() && !go(o.get())) return false;
    return true;
  };
  u(v0);
  return go(v0);
}
