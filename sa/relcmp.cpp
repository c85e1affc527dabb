// N06: comparison kernels compute the relation of their name, decided by case analysis over
// {less, equal, greater, first NaN, second NaN, both NaN}.
#include "kernels.h"

namespace {
struct NT {
  char kind; // b i u f
  unsigned bits;
};
const std::map<std::string, NT> &types() {
  static const std::map<std::string, NT> t = {{"bool", {'b', 8}}, {"dynd::bool1", {'b', 8}}, {"signed char", {'i', 8}}, {"short", {'i', 16}}, {"int", {'i', 32}}, {"long", {'i', 64}}, {"unsigned char", {'u', 8}}, {"unsigned short", {'u', 16}}, {"unsigned int", {'u', 32}}, {"unsigned long", {'u', 64}}, {"float", {'f', 32}}, {"double", {'f', 64}}};
  return t;
}
// usual arithmetic conversions (the common type of two different arithmetic types)
NT common(NT a, NT b) {
  if (a.kind == b.kind && a.bits == b.bits) return a;
  if (a.kind == 'f' || b.kind == 'f') {
    if (a.kind == 'f' && b.kind == 'f') return a.bits >= b.bits ? a : b;
    return a.kind == 'f' ? a : b;
  }
  auto pro = [](NT x) { return x.kind == 'b' || x.bits < 32 ? NT{'i', 32} : x; };
  a = pro(a);
  b = pro(b);
  if (a.kind == b.kind) return a.bits >= b.bits ? a : b;
  NT u = a.kind == 'u' ? a : b, s = a.kind == 'u' ? b : a;
  if (u.bits >= s.bits) return u;
  return s;
}
void range(NT t, APInt &lo, APInt &hi) {
  unsigned W = 130;
  if (t.kind == 'b') lo = APInt(W, 0), hi = APInt(W, 1);
  else if (t.kind == 'i') lo = APInt::getSignedMinValue(t.bits).sext(W), hi = APInt::getSignedMaxValue(t.bits).sext(W);
  else lo = APInt(W, 0), hi = APInt::getMaxValue(t.bits).zext(W);
}
unsigned prec(unsigned bits) { return bits == 32 ? 24 : 53; }
bool lossless(NT a, NT c) {
  if (a.kind == 'f') return c.kind == 'f' && c.bits >= a.bits;
  APInt lo(130, 0), hi(130, 0);
  range(a, lo, hi);
  if (c.kind == 'f') return lo.abs().getActiveBits() <= prec(c.bits) + (lo.abs().isPowerOf2() ? 1 : 0) && hi.getActiveBits() <= prec(c.bits);
  if (c.kind == 'u') return lo.isNonNegative() && hi.isIntN(c.bits);
  return lo.isSignedIntN(c.bits) && hi.isSignedIntN(c.bits);
}

struct CV {
  int leaf = -1;
  bool ok = false;
  bool fl = false;
  unsigned bits = 0;
  bool cong = false;          // integer congruent to the source value modulo 2^bits
  bool s = false, u = false;  // integer equals the source value under that reading
  bool exact = false;         // float equals the source value
  bool once = false;          // float is the source value rounded once
};

struct An {
  const Kernel &K;
  Function &F;
  NT T[2];
  std::map<const Value *, int> leaf;

  CV conv(const Value *v, unsigned d = 0) {
    CV r;
    auto it = leaf.find(v);
    if (it != leaf.end()) {
      NT t = T[it->second];
      r.leaf = it->second;
      r.ok = true;
      r.bits = t.bits;
      r.fl = t.kind == 'f';
      r.cong = true;
      r.s = t.kind == 'i' || t.kind == 'b';
      r.u = t.kind != 'i';
      r.exact = r.once = r.fl;
      return r;
    }
    if (d > 12) return r;
    if (auto *C = dyn_cast<ICmpInst>(v)) { // bool test of a 0/1 value
      if (C->getPredicate() == ICmpInst::ICMP_NE && isa<Constant>(C->getOperand(1)) && cast<Constant>(C->getOperand(1))->isNullValue()) {
        CV x = conv(C->getOperand(0), d + 1);
        if (x.ok && !x.fl && T[x.leaf].kind == 'b') {
          x.bits = 1;
          x.s = false;
          x.u = true;
          return x;
        }
      }
      return r;
    }
    auto *I = dyn_cast<CastInst>(v);
    if (!I) return r;
    CV x = conv(I->getOperand(0), d + 1);
    if (!x.ok) return r;
    Type *Ty = I->getType();
    APInt lo(130, 0), hi(130, 0);
    if (T[x.leaf].kind != 'f') range(T[x.leaf], lo, hi);
    switch (I->getOpcode()) {
    case Instruction::SExt:
    case Instruction::ZExt: {
      bool sg = I->getOpcode() == Instruction::SExt;
      r = x;
      r.bits = Ty->getIntegerBitWidth();
      r.cong = x.cong && (sg ? x.s : x.u);
      r.s = r.cong && lo.isSignedIntN(r.bits) && hi.isSignedIntN(r.bits);
      r.u = r.cong && lo.isNonNegative();
      r.ok = r.cong;
      return r;
    }
    case Instruction::Trunc: {
      r = x;
      r.bits = Ty->getIntegerBitWidth();
      r.s = x.cong && lo.isSignedIntN(r.bits) && hi.isSignedIntN(r.bits);
      r.u = x.cong && lo.isNonNegative() && hi.isIntN(r.bits);
      r.ok = r.cong;
      return r;
    }
    case Instruction::SIToFP:
    case Instruction::UIToFP: {
      bool sg = I->getOpcode() == Instruction::SIToFP;
      if (!(sg ? x.s : x.u)) return r;
      if (!Ty->isFloatTy() && !Ty->isDoubleTy()) return r;
      r = x;
      r.fl = true;
      r.bits = Ty->getScalarSizeInBits();
      r.once = true;
      r.exact = lossless(T[x.leaf], NT{'f', r.bits});
      r.cong = r.s = r.u = false;
      return r;
    }
    case Instruction::FPExt:
      if (!Ty->isDoubleTy()) return r;
      r = x;
      r.bits = 64;
      r.once = x.exact;
      return r;
    case Instruction::FPTrunc:
      if (!Ty->isFloatTy()) return r;
      r = x;
      r.bits = 32;
      r.once = x.exact;
      r.exact = false;
      return r;
    default:
      return r;
    }
  }
  // Is this instruction a comparison of the two operands in their common type? sw: operands swapped
  bool cross(const CmpInst *C, bool &sw) {
    CV a = conv(C->getOperand(0)), b = conv(C->getOperand(1));
    if (!a.ok || !b.ok || a.leaf == b.leaf || a.fl != b.fl || a.bits != b.bits) return false;
    sw = a.leaf == 1;
    NT c = common(T[0], T[1]);
    bool eq = C->isEquality() && isa<ICmpInst>(C);
    bool math, asC;
    if (a.fl) {
      math = a.exact && b.exact;
      asC = c.kind == 'f' && c.bits == a.bits && a.once && b.once;
    } else {
      bool sg = cast<ICmpInst>(C)->isSigned();
      math = eq ? (a.s && b.s) || (a.u && b.u) : sg ? a.s && b.s : a.u && b.u;
      asC = c.kind == 'u' && c.bits == a.bits && a.cong && b.cong && (eq || !sg);
      if (c.kind == 'i' && c.bits == a.bits && a.s && b.s && (eq || sg)) asC = true;
    }
    return asC || (math && lossless(T[0], c) && lossless(T[1], c));
  }
};

enum Case { LT, EQ, GT, NAN0, NAN1, NANB, NCASE };
const char *cname[] = {"first operand less", "operands equal", "first operand greater", "first operand NaN", "second operand NaN", "both operands NaN"};

bool holds(const std::string &rel, Case c) {
  bool lt = c == LT, eq = c == EQ, gt = c == GT;
  if (rel == "less") return lt;
  if (rel == "less_equal") return lt || eq;
  if (rel == "equal") return eq;
  if (rel == "not_equal") return !eq;
  if (rel == "greater_equal") return gt || eq;
  return gt;
}
bool predval(const CmpInst *C, bool sw, Case c) {
  if (sw) {
    c = c == LT ? GT : c == GT ? LT : c;
  }
  bool lt = c == LT, eq = c == EQ, gt = c == GT, un = c >= NAN0;
  switch (C->getPredicate()) {
  case CmpInst::ICMP_EQ: return eq;
  case CmpInst::ICMP_NE: return !eq;
  case CmpInst::ICMP_SLT: case CmpInst::ICMP_ULT: return lt;
  case CmpInst::ICMP_SLE: case CmpInst::ICMP_ULE: return lt || eq;
  case CmpInst::ICMP_SGT: case CmpInst::ICMP_UGT: return gt;
  case CmpInst::ICMP_SGE: case CmpInst::ICMP_UGE: return gt || eq;
  case CmpInst::FCMP_OEQ: return eq;
  case CmpInst::FCMP_OGT: return gt;
  case CmpInst::FCMP_OGE: return gt || eq;
  case CmpInst::FCMP_OLT: return lt;
  case CmpInst::FCMP_OLE: return lt || eq;
  case CmpInst::FCMP_ONE: return lt || gt;
  case CmpInst::FCMP_ORD: return !un;
  case CmpInst::FCMP_UEQ: return eq || un;
  case CmpInst::FCMP_UGT: return gt || un;
  case CmpInst::FCMP_UGE: return gt || eq || un;
  case CmpInst::FCMP_ULT: return lt || un;
  case CmpInst::FCMP_ULE: return lt || eq || un;
  case CmpInst::FCMP_UNE: return !eq;
  case CmpInst::FCMP_UNO: return un;
  case CmpInst::FCMP_TRUE: return true;
  default: return false;
  }
}
} // namespace

static void collect(Constant *C, std::set<Constant *> &seen, const std::function<void(Function *)> &fn) {
  if (!seen.insert(C).second) return;
  if (auto *F = dyn_cast<Function>(C)) {
    fn(F);
    return;
  }
  if (isa<GlobalVariable>(C)) return;
  for (Value *O : C->operands())
    if (auto *X = dyn_cast<Constant>(O)) collect(X, seen, fn);
}

// kernels instantiated by the callable class whose constructor is given
static void kernels_of(Function *ctor, std::map<Function *, Kernel> &out, const std::vector<Kernel> &all) {
  std::map<Function *, const Kernel *> byf;
  for (auto &k : all) byf[k.orig] = &k;
  std::set<Function *> seen;
  std::vector<Function *> wl;
  // the vtables stored by the constructor chain: the outermost class wins at each slot
  Function *c = private_copy(*ctor, ".ct");
  InlinePolicy P;
  P.ok = [](const CallBase &, const Function &f) { return demangle_(f.getName()).find("_callable") != std::string::npos; };
  flatten(*c, P);
  cleanup(*c, "sroa");
  GlobalVariable *vt = nullptr;
  for (BasicBlock &B : *c)
    for (Instruction &I : B)
      if (auto *S = dyn_cast<StoreInst>(&I))
        if (auto *K = dyn_cast<Constant>(S->getValueOperand()))
          if (auto *G = dyn_cast<GlobalVariable>(getUnderlyingObject(K)))
            if (G->getName().starts_with("_ZTV") && G->hasInitializer() && S->getPointerOperand()->stripInBoundsConstantOffsets() == c->getArg(0)) vt = G;
  if (vt) {
    std::set<Constant *> sc;
    collect(vt->getInitializer(), sc, [&](Function *f) {
      if (!f->isDeclaration() && demangle_(f->getName()).find("::resolve(") != std::string::npos) wl.push_back(f);
    });
  }
  c->eraseFromParent();
  while (!wl.empty()) {
    Function *f = wl.back();
    wl.pop_back();
    if (!seen.insert(f).second) continue;
    auto it = byf.find(f);
    if (it != byf.end()) {
      out[f] = *it->second;
      continue;
    }
    for (Instruction &I : instructions(*f))
      for (Value *O : I.operands())
        if (auto *C = dyn_cast<Constant>(O)) {
          std::set<Constant *> sc;
          collect(C, sc, [&](Function *g) {
            if (!g->isDeclaration()) wl.push_back(g);
          });
        }
  }
}

static int m_relcmp(Module &M, const std::vector<std::string> &args) {
  std::string rel = args[0];
  std::vector<Kernel> all = find_kernels(M);
  std::map<std::string, std::vector<Function *>> ctors;
  std::vector<Function *> fs;
  for (Function &F : M) fs.push_back(&F);
  for (Function *Fp : fs) {
    Function &F = *Fp;
    if (F.isDeclaration() || !F.getName().starts_with("_ZN4dynd2nd") || (!F.getName().contains("C1E") && !F.getName().contains("C2E"))) continue;
    std::string n = demangle_(F.getName());
    // dynd::nd::X_callable<A, B>::X_callable()
    if (n.compare(0, 10, "dynd::nd::")) continue;
    size_t lt = n.find('<');
    if (lt == std::string::npos || n.size() < 2 || n.compare(n.size() - 2, 2, "()")) continue;
    auto ta = template_args(n, lt);
    if (ta.size() != 2 || !types().count(ta[0]) || !types().count(ta[1])) continue;
    std::string cls = n.substr(0, lt);
    if (n.find(">::" + cls.substr(10) + "()") == std::string::npos) continue;
    if (F.getName().contains("C1E") && ctors.count(cls + "<" + ta[0] + ", " + ta[1])) continue;
    std::map<Function *, Kernel> ks;
    kernels_of(&F, ks, all);
    std::string key = cls + "<" + ta[0] + ", " + ta[1];
    if (ctors.count(key)) continue;
    ctors[key] = {};
    Json j;
    std::vector<std::string> bad, badw;
    std::set<std::string> seen;
    auto fail = [&](const Instruction *I, const std::string &w) {
      if (!seen.insert(w).second) return;
      bad.push_back(w);
      badw.push_back(where_of(I));
    };
    unsigned cases = 0, cmps = 0;
    std::vector<std::string> kn;
    for (auto &kv : ks) {
      const Kernel &K = kv.second;
      kn.push_back(std::string(K.kind == Kernel::SINGLE ? "single " : "strided ") + K.cls);
      Function *W0 = flat_kernel(K);
      for (int ci = 0; ci < NCASE; ++ci) {
        Case c = (Case)ci;
        NT t0 = types().at(ta[0]), t1 = types().at(ta[1]);
        if ((c == NAN0 || c == NANB) && t0.kind != 'f') continue;
        if ((c == NAN1 || c == NANB) && t1.kind != 'f') continue;
        Function *W = private_copy(*W0, ".case");
        An A{K, *W, {t0, t1}, {}};
        std::map<const Value *, AV> init;
        for (Instruction &I : instructions(*W))
          if (auto *L = dyn_cast<LoadInst>(&I)) {
            Root r = root_of(K, *W, L->getPointerOperand());
            if (r.k != Root::SRC || r.i > 1) continue;
            NT t = r.i ? t1 : t0;
            Type *Ty = L->getType();
            if (t.kind == 'f' ? !Ty->isFloatingPointTy() : !Ty->isIntegerTy()) continue;
            if (Ty->getScalarSizeInBits() != t.bits) continue;
            A.leaf[L] = r.i;
            if (t.kind == 'b') init[L] = AV::integer(ConstantRange(APInt(8, 0), APInt(8, 2)));
            if (t.kind == 'f') {
              FSet f = FSet::full(t.bits == 32 ? APFloat::IEEEsingle() : APFloat::IEEEdouble());
              bool isn = c == NANB || c == (r.i ? NAN1 : NAN0);
              if (isn) f.fin = f.pinf = f.ninf = false;
              else f.nan = false;
              init[L] = AV::flt(f);
            }
          }
        std::vector<CmpInst *> cs;
        for (Instruction &I : instructions(*W))
          if (auto *C = dyn_cast<CmpInst>(&I)) cs.push_back(C);
        for (CmpInst *C : cs) {
          bool sw;
          if (A.cross(C, sw)) {
            ++cmps;
            C->replaceAllUsesWith(ConstantInt::getBool(C->getType(), predval(C, sw, c)));
          }
        }
        Explorer E(*W);
        E.loops = true;
        E.init = init;
        unsigned stores = 0;
        E.on_inst = [&](State &S, const Instruction &I) {
          auto *St = dyn_cast<StoreInst>(&I);
          if (!St || root_of(K, *W, St->getPointerOperand()).k != Root::DST) return;
          ++stores;
          AV v = E.eval(S, St->getValueOperand());
          if (v.k == AV::INT && !v.r.isSingleElement() && !v.r.isFullSet() && 0) return;
          bool want = holds(rel, c);
          if (!(v.k == AV::INT && v.r.isSingleElement() && *v.r.getSingleElement() == (want ? 1 : 0)))
            fail(&I, std::string(cname[c]) + ": result is " + v.str() + ", expected " + (want ? "1" : "0"));
        };
        E.on_stub = [&](State &, const Instruction &I, bool th) {
          if (th) fail(&I, std::string(cname[c]) + ": raises an error");
        };
        E.run();
        if (E.aborted) fail(&W->getEntryBlock().front(), "path analysis gave up: " + E.abort_why);
        if (!stores) fail(&W->getEntryBlock().front(), std::string(cname[c]) + ": no result is stored");
        ++cases;
        W->eraseFromParent();
      }
      W0->eraseFromParent();
    }
    j.kv("k", "rel").kv("callable", key + ">").kv("rel", rel).kv("where", where_fn(&F)).kv("cases", (int)cases).kv("cmps", (int)cmps).list("kernels", kn).list("bad", bad).list("badw", badw).out();
  }
  return 0;
}
static ModeReg r1("relcmp", m_relcmp);
