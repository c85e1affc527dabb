#include "lin.h"

Lin &Lin::add(const Lin &o, wide k) {
  for (auto &x : o.t) {
    wide &v = t[x.first];
    v += x.second * k;
    if (!v) t.erase(x.first);
  }
  c += o.c * k;
  return *this;
}

namespace {
wide gcd_(wide a, wide b) {
  if (a < 0) a = -a;
  if (b < 0) b = -b;
  while (b) {
    wide r = a % b;
    a = b;
    b = r;
  }
  return a;
}
const wide BIG = (wide)1 << 100;
bool over(const Lin &l, wide k) { // would scaling leave the range that sums safely?
  wide r;
  if (k < 0) k = -k;
  const wide lim = (wide)1 << 124;
  for (auto &x : l.t)
    if (__builtin_mul_overflow(x.second < 0 ? -x.second : x.second, k, &r) || r > lim) return true;
  return __builtin_mul_overflow(l.c < 0 ? -l.c : l.c, k, &r) || r > lim;
}
bool norm(Lin &l) { // integer tightening; false: too large to keep
  wide g = 0;
  for (auto &x : l.t) g = gcd_(g, x.second);
  if (g > 1) {
    for (auto &x : l.t) x.second /= g;
    wide q = l.c / g;
    if (l.c % g && l.c < 0) --q;
    l.c = q;
  }
  for (auto &x : l.t)
    if (x.second > BIG || x.second < -BIG) return false;
  return l.c < BIG && l.c > -BIG;
}
} // namespace

bool lin_empty(std::vector<Lin> f) {
  for (unsigned round = 0; round < 60; ++round) {
    // normalise, drop duplicates, keep the tightest of parallel constraints
    std::map<std::map<int, wide>, wide> uniq;
    for (Lin &l : f) {
      if (!norm(l)) continue;
      if (l.isconst()) {
        if (l.c < 0) return true;
        continue;
      }
      auto it = uniq.find(l.t);
      if (it == uniq.end()) uniq[l.t] = l.c;
      else it->second = std::min(it->second, l.c);
    }
    for (auto &u : uniq) { // directly opposite
      std::map<int, wide> neg;
      for (auto &x : u.first) neg[x.first] = -x.second;
      auto it = uniq.find(neg);
      if (it != uniq.end() && u.second + it->second < 0) return true;
    }
    while (!uniq.empty()) { // a symbol bounded on one side only constrains nothing
      std::map<int, unsigned> side;
      for (auto &u : uniq)
        for (auto &x : u.first) side[x.first] |= x.second > 0 ? 1 : 2;
      size_t n = uniq.size();
      for (auto it = uniq.begin(); it != uniq.end();) {
        bool drop = false;
        for (auto &x : it->first) drop = drop || side[x.first] != 3;
        it = drop ? uniq.erase(it) : std::next(it);
      }
      if (uniq.size() == n) break;
    }
    if (uniq.empty()) return false;
    std::vector<Lin> g;
    std::map<int, std::pair<size_t, size_t>> cnt;
    std::set<int> scaled; // with a coefficient other than 1: eliminating it is not exact over the integers
    for (auto &u : uniq) {
      Lin l;
      l.t = u.first;
      l.c = u.second;
      g.push_back(l);
      for (auto &x : l.t) {
        (x.second > 0 ? cnt[x.first].first : cnt[x.first].second)++;
        if (x.second != 1 && x.second != -1) scaled.insert(x.first);
      }
    }
    int best = -1;
    size_t bc = 0, cost = 0;
    for (auto &c : cnt) {
      size_t n = c.second.first * c.second.second, k = n * (n > 1 && scaled.count(c.first) ? 8 : 1);
      if (best < 0 || k < cost) {
        best = c.first;
        bc = n;
        cost = k;
      }
    }
    if (bc > 4000) return false;
    std::vector<Lin> out, pos, neg;
    for (Lin &l : g) {
      auto it = l.t.find(best);
      if (it == l.t.end()) out.push_back(l);
      else (it->second > 0 ? pos : neg).push_back(l);
    }
    for (Lin &p : pos)
      for (Lin &n : neg) {
        wide a = p.t[best], b = -n.t[best], k = gcd_(a, b);
        a /= k;
        b /= k;
        if (over(p, b) || over(n, a)) continue; // too large to combine: one constraint less
        Lin r = p.scaled(b);
        r.add(n, a);
        out.push_back(r);
      }
    if (out.size() > 6000) return false;
    f.swap(out);
  }
  return false;
}

int LinSpace::sym(const std::string &n) {
  auto it = id.find(n);
  if (it != id.end()) return it->second;
  name.push_back(n);
  return id[n] = name.size() - 1;
}
Lin LinSpace::product(const Lin &a, const Lin &b) {
  Lin r(a.c * b.c);
  for (auto &x : a.t) r.add(Lin::sym(x.first), x.second * b.c);
  for (auto &y : b.t) r.add(Lin::sym(y.first), y.second * a.c);
  for (auto &x : a.t)
    for (auto &y : b.t) {
      int p = std::min(x.first, y.first), q = std::max(x.first, y.first);
      int s = sym("(" + name[p] + "*" + name[q] + ")");
      prod[s] = {p, q};
      r.add(Lin::sym(s), x.second * y.second);
    }
  return r;
}
static std::string wide_str(wide v) {
  std::string s;
  do s.insert(s.begin(), '0' + (int)(v % 10));
  while (v /= 10);
  return s;
}
std::string LinSpace::str(const Lin &l) const {
  std::string s;
  for (auto &x : l.t) s += (x.second < 0 ? " - " : s.empty() ? "" : " + ") + (x.second == 1 || x.second == -1 ? "" : wide_str(x.second < 0 ? -x.second : x.second) + "*") + name[x.first];
  if (l.c || s.empty()) s += (l.c < 0 ? " - " : s.empty() ? "" : " + ") + wide_str(l.c < 0 ? -l.c : l.c);
  return s;
}

Lin LinEnv::sym_of(const Value *v) {
  std::string n = leaf ? leaf(v) : "";
  if (n.empty()) n = "%" + std::to_string((uintptr_t)v);
  int s = sp.sym(n);
  if (bounded.insert(s).second) {
    unsigned w = v->getType()->getIntegerBitWidth();
    AV a = E.eval(S, v);
    wide lo = -((wide)1 << (w - 1)), hi = ((wide)1 << (w - 1)) - 1;
    if (a.k == AV::INT && !a.r.isEmptySet()) {
      lo = a.r.getSignedMin().getSExtValue();
      hi = a.r.getSignedMax().getSExtValue();
    }
    facts.push_back(Lin::sym(s) - Lin(lo));
    facts.push_back(Lin(hi) - Lin::sym(s));
    if (on_sym) on_sym(*this, v, s);
  }
  return Lin::sym(s);
}

std::vector<Lin> LinEnv::closure(std::vector<Lin> x) const {
  // products: for each product symbol p*q mentioned, multiply the facts about p by the facts about q
  std::set<int> used;
  for (auto &l : x)
    for (auto &t : l.t) used.insert(t.first);
  std::vector<Lin> add;
  std::set<std::pair<int, int>> pairs;
  for (int s : used) {
    auto it = sp.prod.find(s);
    if (it != sp.prod.end()) pairs.insert(it->second);
  }
  for (auto &pq : pairs) {
    std::vector<Lin> P, Q;
    for (auto &l : x) {
      if (l.t.size() > 4) continue;
      bool ok = true;
      for (auto &t : l.t)
        if (sp.prod.count(t.first)) ok = false;
      if (!ok || (l.c > ((wide)1 << 40)) || (l.c < -((wide)1 << 40))) continue;
      if (l.t.count(pq.first)) P.push_back(l);
      if (l.t.size() == 1 && l.t.count(pq.second)) Q.push_back(l);
    }
    for (auto &p : P)
      for (auto &q : Q)
        if (add.size() < 60) add.push_back(const_cast<LinSpace &>(sp).product(p, q));
    // and the other way round
    P.clear();
    Q.clear();
    if (pq.first != pq.second) {
      for (auto &l : x) {
        if (l.t.size() > 4) continue;
        bool ok = true;
        for (auto &t : l.t)
          if (sp.prod.count(t.first)) ok = false;
        if (!ok || (l.c > ((wide)1 << 40)) || (l.c < -((wide)1 << 40))) continue;
        if (l.t.count(pq.second) && l.t.size() > 1) P.push_back(l);
        if (l.t.size() == 1 && l.t.count(pq.first)) Q.push_back(l);
      }
      for (auto &p : P)
        for (auto &q : Q)
          if (add.size() < 120) add.push_back(const_cast<LinSpace &>(sp).product(p, q));
    }
  }
  x.insert(x.end(), add.begin(), add.end());
  return x;
}

bool LinEnv::impossible(std::vector<Lin> extra) {
  std::vector<Lin> f = facts;
  f.insert(f.end(), extra.begin(), extra.end());
  if (lin_empty(f)) return true;
  // relevant alternatives only
  std::vector<const std::pair<std::vector<Lin>, std::vector<Lin>> *> alts;
  for (auto &e : either) alts.push_back(&e);
  if (alts.size() > max_alts) alts.erase(alts.begin(), alts.end() - max_alts);
  std::function<bool(size_t, std::vector<Lin>)> go = [&](size_t i, std::vector<Lin> g) -> bool {
    if (i == alts.size()) return lin_empty(g) || lin_empty(closure(g));
    std::vector<Lin> a = g, b = g;
    a.insert(a.end(), alts[i]->first.begin(), alts[i]->first.end());
    b.insert(b.end(), alts[i]->second.begin(), alts[i]->second.end());
    return (lin_empty(a) || go(i + 1, a)) && (lin_empty(b) || go(i + 1, b));
  };
  return go(0, f);
}
bool LinEnv::nonneg(const Lin &l) {
  if (l.isconst()) return l.c >= 0;
  return impossible({Lin(-1) - l});
}
bool LinEnv::within(const Lin &l, unsigned bits, bool sgn) {
  wide lo = sgn ? -((wide)1 << (bits - 1)) : 0, hi = sgn ? ((wide)1 << (bits - 1)) - 1 : ((wide)1 << bits) - 1;
  return nonneg(l - Lin(lo)) && nonneg(Lin(hi) - l);
}

std::optional<Lin> LinEnv::of(const Value *v0) {
  const Value *v = E.look(S, v0);
  if (!v->getType()->isIntegerTy() || v->getType()->getIntegerBitWidth() > 64) return std::nullopt;
  unsigned w = v->getType()->getIntegerBitWidth();
  if (auto *C = dyn_cast<ConstantInt>(v)) return Lin(C->getSExtValue());
  auto it = memo.find(v);
  if (it != memo.end()) return it->second;
  if (!busy.insert(v).second) return std::nullopt;
  std::optional<Lin> r;
  auto bin = [&](const Instruction *I, std::optional<Lin> &a, std::optional<Lin> &b) {
    a = of(I->getOperand(0));
    b = of(I->getOperand(1));
    return a && b;
  };
  std::optional<Lin> a, b;
  auto keep = [&](const Lin &l) {
    if (within(l, w)) r = l;
  };
  auto quotient = [&](const Lin &x, const Lin &y, bool rem) {
    bool known = nonneg(x), pos = known && nonneg(y - Lin(1)), neg = known && !pos && nonneg(Lin(-1) - y);
    if (!pos && !neg) return;
    int s = sp.sym("(" + sp.str(x) + "/" + sp.str(y) + ")");
    Lin q = Lin::sym(s);
    if (bounded.insert(s).second) {
      Lin p = sp.product(q, y);
      facts.push_back(x - p);                                             // q*y <= x
      facts.push_back(p - x + (pos ? y : y.scaled(-1)) - Lin(1));        // x - |y| < q*y
      if (pos) {
        facts.push_back(q);
        facts.push_back(x - q);
      } else {
        facts.push_back(q.scaled(-1));
        facts.push_back(q + x);
      }
    }
    r = rem ? x - sp.product(q, y) : q;
  };
  if (auto *I = dyn_cast<Instruction>(v)) switch (I->getOpcode()) {
    case Instruction::Add:
      if (bin(I, a, b)) keep(*a + *b);
      break;
    case Instruction::Sub:
      if (bin(I, a, b)) keep(*a - *b);
      break;
    case Instruction::Mul:
      if (bin(I, a, b)) {
        if (a->isconst()) keep(b->scaled(a->c));
        else if (b->isconst()) keep(a->scaled(b->c));
        else {
          Lin p = sp.product(*a, *b);
          keep(p);
        }
      }
      break;
    case Instruction::Shl:
      if (auto *K = dyn_cast<ConstantInt>(I->getOperand(1)))
        if (K->getZExtValue() < w && (a = of(I->getOperand(0)))) keep(a->scaled((wide)1 << K->getZExtValue()));
      break;
    case Instruction::LShr:
    case Instruction::AShr:
      if (auto *K = dyn_cast<ConstantInt>(I->getOperand(1)))
        if (K->getZExtValue() < w - 1 && (a = of(I->getOperand(0))) && nonneg(*a)) quotient(*a, Lin((wide)1 << K->getZExtValue()), false);
      break;
    case Instruction::SDiv:
      if (bin(I, a, b)) quotient(*a, *b, false);
      break;
    case Instruction::SRem:
      if (bin(I, a, b)) quotient(*a, *b, true);
      break;
    case Instruction::UDiv:
    case Instruction::URem:
      if (bin(I, a, b) && nonneg(*a) && nonneg(*b)) quotient(*a, *b, I->getOpcode() == Instruction::URem);
      break;
    case Instruction::Xor:
      if (auto *K = dyn_cast<ConstantInt>(I->getOperand(1)))
        if (K->isMinusOne() && (a = of(I->getOperand(0)))) keep(Lin(-1) - *a);
      break;
    case Instruction::Or:
      if (cast<PossiblyDisjointInst>(I)->isDisjoint() && bin(I, a, b)) keep(*a + *b);
      break;
    case Instruction::SExt:
      if (!I->getOperand(0)->getType()->isIntegerTy(1)) r = of(I->getOperand(0));
      break;
    case Instruction::ZExt:
      if (!I->getOperand(0)->getType()->isIntegerTy(1) && (a = of(I->getOperand(0))) && nonneg(*a)) r = a;
      break;
    case Instruction::Trunc:
      if ((a = of(I->getOperand(0)))) keep(*a);
      break;
    case Instruction::Freeze:
      r = of(I->getOperand(0));
      break;
    case Instruction::Call:
      if (auto *II = dyn_cast<IntrinsicInst>(I)) {
        auto id = II->getIntrinsicID();
        bool mx = id == Intrinsic::smax || id == Intrinsic::umax, mn = id == Intrinsic::smin || id == Intrinsic::umin;
        if ((mx || mn) && bin(I, a, b)) {
          if ((id == Intrinsic::umax || id == Intrinsic::umin) && !(nonneg(*a) && nonneg(*b))) break;
          Lin s = sym_of(v);
          int k = mx ? 1 : -1;
          facts.push_back((s - *a).scaled(k));
          facts.push_back((s - *b).scaled(k));
          either.push_back({{*a - s, s - *a}, {*b - s, s - *b}});
          r = s;
        }
        if (id == Intrinsic::abs && (a = of(II->getArgOperand(0)))) {
          if (nonneg(*a)) r = a;
          else if (nonneg(a->scaled(-1))) keep(a->scaled(-1));
        }
      }
      break;
    default:
      break;
    }
  if (!r) r = sym_of(v);
  busy.erase(v);
  memo[v] = r;
  return r;
}

void LinEnv::cond(const Value *c0, bool truth) {
  const Value *c = E.look(S, c0);
  auto *I = dyn_cast<ICmpInst>(c);
  if (!I) return;
  CmpInst::Predicate p = truth ? I->getPredicate() : I->getInversePredicate();
  if (!I->getOperand(0)->getType()->isIntegerTy()) {
    // pointer differences are not tracked
    return;
  }
  auto a = of(I->getOperand(0)), b = of(I->getOperand(1));
  if (!a || !b) return;
  Lin A = *a, B = *b;
  switch (p) {
  case CmpInst::ICMP_EQ:
    facts.push_back(A - B);
    facts.push_back(B - A);
    return;
  case CmpInst::ICMP_NE:
    if (nonneg(A - B)) facts.push_back(A - B - Lin(1));
    else if (nonneg(B - A)) facts.push_back(B - A - Lin(1));
    else either.push_back({{A - B - Lin(1)}, {B - A - Lin(1)}});
    return;
  default:
    break;
  }
  if (CmpInst::isUnsigned(p)) {
    // a <(=) b unsigned
    if (p == CmpInst::ICMP_UGT || p == CmpInst::ICMP_UGE) {
      std::swap(A, B);
      p = CmpInst::getSwappedPredicate(p);
    }
    int k = p == CmpInst::ICMP_ULT ? 1 : 0;
    bool an = nonneg(A), bn = nonneg(B);
    if (bn) {
      facts.push_back(A); // below a non-negative number
      facts.push_back(B - A - Lin(k));
    } else if (an) // b is at least a, or negative (large)
      either.push_back({{B - A - Lin(k)}, {Lin(-1) - B}});
    return;
  }
  switch (p) {
  case CmpInst::ICMP_SLT: facts.push_back(B - A - Lin(1)); break;
  case CmpInst::ICMP_SLE: facts.push_back(B - A); break;
  case CmpInst::ICMP_SGT: facts.push_back(A - B - Lin(1)); break;
  case CmpInst::ICMP_SGE: facts.push_back(A - B); break;
  default: break;
  }
}

void LinEnv::load_facts() {
  for (auto &f : S.facts) cond(f.cond, f.truth);
}
