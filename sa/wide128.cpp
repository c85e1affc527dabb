// Two-limb integers: every operator of the 128-bit integer classes computes what integers modulo 2^128 compute.
//
// wide128: the module holds witnesses w_<i|u>_<op>[_<type>] written against the public interface; each is judged
// on every path by linear arithmetic over its limbs.
#include "bvlin.h"

namespace {
wide p2(unsigned w) { return (wide)1 << w; }
const unsigned L = 64;

struct Num { // hi * 2^64 + lo; lo need not be reduced
  Lin lo, hi;
};
// a clause list: the relation holds iff one of the conjunctions does (limbs reduced)
typedef std::vector<std::vector<Lin>> Dnf;
Dnf relation(const std::string &op, const Num &a, const Num &b) {
  Lin h = a.hi - b.hi, l = a.lo - b.lo;
  std::vector<Lin> same = {h, h.scaled(-1)};
  auto with = [&](const Lin &x) {
    auto s = same;
    s.push_back(x);
    return s;
  };
  if (op == "lt") return {{Lin(-1) - h}, with(Lin(-1) - l)};
  if (op == "le") return {{Lin(-1) - h}, with(l.scaled(-1))};
  if (op == "gt") return {{h - Lin(1)}, with(l - Lin(1))};
  if (op == "ge") return {{h - Lin(1)}, with(l)};
  if (op == "eq") {
    auto s = with(l);
    s.push_back(l.scaled(-1));
    return {s};
  }
  return {{Lin(-1) - h}, {h - Lin(1)}, with(Lin(-1) - l), with(l - Lin(1))};
}
std::string inverse(const std::string &op) {
  static const std::map<std::string, std::string> t = {{"lt", "ge"}, {"ge", "lt"}, {"gt", "le"}, {"le", "gt"}, {"eq", "ne"}, {"ne", "eq"}};
  return t.at(op);
}

struct Ctx {
  Function *W;
  LinSpace sp;
  int judged = 0, vague = 0, bad = 0;
  std::string why, where;
};

void judge(Ctx &K, const std::string &name) {
  // w_<cls>_<op>[_<type>]
  std::vector<std::string> part;
  for (size_t i = 0; i <= name.size();) {
    size_t e = name.find('_', i);
    if (e == std::string::npos) e = name.size();
    part.push_back(name.substr(i, e - i));
    i = e + 1;
  }
  bool sgn = part.at(1) == "i";
  std::string op = part.at(2), ty = part.size() > 3 ? part[3] : "";
  Explorer E(*K.W);
  E.loops = true;
  std::map<const Value *, std::string> role; // argument -> a, b, r
  E.on_ret = [&](State &S, const ReturnInst &R) {
    BvLin B(K.sp, E, S);
    auto arg = [&](const Value *p, int64_t &off) -> int {
      Addr a = E.addr(S, p);
      off = a.off;
      if (a.ok)
        for (unsigned i = 0; i < K.W->arg_size(); ++i)
          if (a.base == K.W->getArg(i)) return (int)i;
      return -1;
    };
    B.leaf = [&](const Value *v) -> std::string {
      if (auto *A = dyn_cast<Argument>(v)) return "arg" + std::to_string(A->getArgNo());
      auto *Ld = dyn_cast<LoadInst>(v);
      int64_t off;
      int i = Ld && Ld->getType()->isIntegerTy(64) ? arg(Ld->getPointerOperand(), off) : -1;
      return i >= 0 && (off == 0 || off == 8) ? "arg" + std::to_string(i) + "." + std::to_string(off) : "";
    };
    B.load_facts();
    // operands
    auto limb = [&](unsigned i, unsigned off) { return B.fresh("arg" + std::to_string(i) + "." + std::to_string(off), 0, p2(L) - 1); };
    auto operand = [&](unsigned i, bool as_signed) -> Num {
      const Argument *A = K.W->getArg(i);
      if (A->getType()->isPointerTy()) {
        Lin h = limb(i, 8);
        return {limb(i, 0), as_signed ? B.sgn(h, L, "hi" + std::to_string(i)) : h};
      }
      unsigned w = A->getType()->getIntegerBitWidth();
      Lin x = *B.u(A);
      if (!ty.empty() && ty[0] == 's') {
        Lin s = B.sgn(x, w, "v" + std::to_string(i)), top = x - s, t(top.c / p2(w)); // top = 2^w * negative
        for (auto &q : top.t) t.add(Lin::sym(q.first), q.second / p2(w));
        return {s + t.scaled(p2(L)), t.scaled(-1)};
      }
      return {x, Lin(0)};
    };
    auto raw = [&](const Num &n) { // modulo 2^128 the reading of the sign doesn't matter
      return n;
    };
    auto unknown = [&](const Lin &l) {
      for (auto &t : l.t)
        if (K.sp.name[t.first].find('%') != std::string::npos) return true;
      return false;
    };
    auto result = [&](const Value *v) -> std::optional<Lin> { return B.u(v); };
    auto fail = [&](const std::string &w, const Lin &x, const Lin &y) {
      if (unknown(x) || unknown(y)) {
        ++K.vague;
        return;
      }
      if (!K.bad++) {
        K.why = w;
        K.where = where_of(&R);
      }
    };
    if (B.env.impossible()) return;
    ++K.judged;
    bool rel = op == "lt" || op == "le" || op == "gt" || op == "ge" || op == "eq" || op == "ne";
    if (rel || op == "lognot" || op == "tobool" || op == "isneg") {
      auto q = result(R.getReturnValue());
      if (!q) {
        ++K.vague;
        return;
      }
      Dnf yes, no;
      if (rel) {
        // an unsigned number is compared by value with a signed one
        bool sg = sgn && !(!(ty.size() > 1 && isalpha(ty[0])) && (op == "eq" || op == "ne")); // limbs compare as they are
        Num a = operand(0, sg), b = operand(1, sg);
        yes = relation(op, a, b);
        no = relation(inverse(op), a, b);
      } else {
        Num a = operand(0, sgn), z = {Lin(0), Lin(0)};
        std::string o = op == "isneg" ? "lt" : op == "tobool" ? "ne" : "eq";
        yes = relation(o, a, z);
        no = relation(inverse(o), a, z);
      }
      bool ok = true;
      for (auto c : yes) {
        c.push_back(q->scaled(-1));
        ok &= B.env.impossible(c);
      }
      for (auto c : no) {
        c.push_back(*q - Lin(1));
        ok &= B.env.impossible(c);
      }
      if (!ok) fail("the answer can differ from that of the numbers compared", *q, Lin(0));
      return;
    }
    if (op == "to") { // truncation
      auto q = result(R.getReturnValue());
      unsigned w = R.getReturnValue()->getType()->getIntegerBitWidth();
      Lin want = B.wrap(limb(0, 0), w, "want");
      if (!q || !B.equal(*q, want)) fail("the low bits of the number are not what is returned", q ? *q : Lin(0), Lin(0));
      return;
    }
    // limbs stored through the last pointer
    unsigned out = K.W->arg_size() - 1;
    const Value *st[2] = {nullptr, nullptr};
    bool odd = false;
    for (const BasicBlock *Bk : S.path)
      for (const Instruction &I : *Bk)
        if (auto *St = dyn_cast<StoreInst>(&I)) {
          int64_t off;
          if (arg(St->getPointerOperand(), off) != (int)out) continue;
          if (St->getValueOperand()->getType()->isIntegerTy(64) && (off == 0 || off == 8)) st[off / 8] = St->getValueOperand();
          else odd = true;
        }
    if (!st[0] || !st[1] || odd) {
      ++K.vague;
      return;
    }
    auto lo = result(st[0]), hi = result(st[1]);
    if (!lo || !hi) {
      ++K.vague;
      return;
    }
    Num want;
    auto bin = [&](int k) {
      Num a = raw(operand(0, false)), b = raw(operand(1, false));
      want = {a.lo + b.lo.scaled(k), a.hi + b.hi.scaled(k)};
    };
    if (op == "add") bin(1);
    else if (op == "sub") bin(-1);
    else if (op == "neg") {
      Num a = operand(0, false);
      want = {a.lo.scaled(-1), a.hi.scaled(-1)};
    } else if (op == "inv") {
      Num a = operand(0, false);
      want = {Lin(-1) - a.lo, a.hi.scaled(-1)}; // -1 - a
    } else if (op == "mul") {
      Num a = operand(0, false), b = operand(1, false);
      want = {K.sp.product(a.lo, b.lo), K.sp.product(a.hi, b.lo)};
    } else if (op == "from" || op == "same") want = operand(0, false);
    else if (op == "max") want = {Lin(p2(L) - 1), Lin(p2(L - (sgn ? 1 : 0)) - 1)};
    else if (op == "min") want = {Lin(0), Lin(sgn ? p2(L - 1) : 0)};
    else {
      ++K.vague;
      return;
    }
    // lo - want.lo must be a multiple of 2^64; what it stands for is owed to the high limb
    Lin d = *lo - want.lo, C;
    bool div = d.c % p2(L) == 0;
    for (auto &t : d.t) div &= t.second % p2(L) == 0;
    bool ok = true;
    if (div) {
      C = Lin(d.c / p2(L));
      for (auto &t : d.t) C.add(Lin::sym(t.first), t.second / p2(L));
    } else {
      ok = false;
      for (int k = -2; k <= 2 && !ok; ++k)
        if (B.zero(d - Lin(p2(L) * k))) {
          ok = true;
          C = Lin(k);
        }
    }
    if (!ok) {
      fail("the low 64 bits can differ from those of the exact result", *lo, Lin(0));
      return;
    }
    Lin h = *hi - want.hi + C, g;
    g.c = h.c % p2(L);
    if (g.c > p2(L - 1)) g.c -= p2(L);
    if (g.c < -p2(L - 1)) g.c += p2(L);
    for (auto &t : h.t)
      if (t.second % p2(L)) g.add(Lin::sym(t.first), t.second);
    ok = false;
    for (int k = -1; k <= 1 && !ok; ++k) ok = B.zero(g - Lin(p2(L) * k));
    if (!ok) {
      if (getenv("SA_WHY")) errs() << name << ": lo=" << K.sp.str(*lo) << "  hi=" << K.sp.str(*hi) << "  left=" << K.sp.str(g) << "\n";
      fail("the high 64 bits can differ from those of the exact result", *hi, *lo);
    }
  };
  E.run();
  if (E.aborted) ++K.vague;
}

int m_wide(Module &M, const std::vector<std::string> &) {
  std::vector<Function *> fs;
  for (Function &F : M)
    if (!F.isDeclaration() && F.getName().starts_with("w_")) fs.push_back(&F);
  for (Function *F : fs) {
    std::string name = F->getName().str();
    Ctx K;
    K.W = private_copy(*F, ".w");
    InlinePolicy P;
    P.callee_limit = 600;
    P.ok = [](const CallBase &, const Function &) { return true; };
    flatten(*K.W, P);
    prune_exceptions(*K.W);
    cleanup(*K.W);
    if (const char *e = getenv("SA_DUMP"); e && name.find(e) != std::string::npos) K.W->print(errs());
    bool returns = false, calls = false;
    for (Instruction &I : instructions(*K.W)) {
      if (isa<ReturnInst>(I)) returns = true;
      if (auto *C = dyn_cast<CallBase>(&I))
        if (Function *c = C->getCalledFunction(); c && !c->isIntrinsic() && !c->getName().starts_with("sa.")) calls = true;
    }
    judge(K, name);
    Json().kv("k", "wide").kv("fn", name).kv("judged", K.judged).kv("vague", K.vague).kv("bad", K.bad).kv("returns", returns).kv("calls", calls).kv("where", K.where).kv("why", K.why).out();
    K.W->eraseFromParent();
  }
  return 0;
}
} // namespace
static ModeReg r1("wide128", m_wide);
