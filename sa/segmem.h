// Segment memory: abstract interpretation of straight-line and boundedly looping code over regions of memory, each a
// list of segments with symbolic bounds saying which original bytes, constants or words they hold; integers are
// linear forms and what a path knows about them linear inequalities.
#pragma once
#include "bvlin.h"

namespace {
struct V {
  enum K { Bad, Int, Ptr, Bytes, Cmp } k = Bad;
  Lin l;      // Int: value; Ptr: offset
  int r = -1; // Ptr: region; Cmp: index of a comparison
  struct B {  // one byte
    enum K { Unk, Val, Orig, Part } k = Unk;
    Lin l;      // Val: value; Orig: position in region r's original bytes
    int r = -1; // Orig: region; Part: index into parts
    int part = 0;
  };
  std::vector<B> b;
  static V num(const Lin &l) {
    V v;
    v.k = Int, v.l = l;
    return v;
  }
  static V ptr(int r, const Lin &l) {
    V v;
    v.k = Ptr, v.r = r, v.l = l;
    return v;
  }
};
typedef V::B Byte;

struct Seg {
  Lin lo, hi;
  enum K { Unk, Val, Orig, Word } k = Unk;
  Lin l;      // Val: value of every byte; Orig: position of the first byte
  int r = -1; // Orig: region
  V w;        // Word: value; its bytes are at lo - l ... (l = position within the word)
};
struct Region {
  std::string name;
  Lin size;
  bool alive = true, heap = false, readonly = false, opaque = false;
  int base = -1; // symbol of its address
  std::vector<Seg> seg;
};
struct CmpRec {
  int r1, r2;
  Lin o1, o2, len;
  int equal = -1;
};

struct St {
  BasicBlock *bb = nullptr, *prev = nullptr;
  BasicBlock::iterator it;
  std::map<const Value *, V> env;
  std::vector<Region> reg;
  std::vector<Lin> facts;
  std::vector<CmpRec> cmps;
  std::map<BasicBlock *, int> visits;
  int steps = 0;
  int user = 0;             // the client's record for this path
  std::vector<int> pending; // the client's
};


struct Machine {
  Function &F;
  LinSpace sp;
  std::vector<std::vector<Lin>> need;
  std::string bad, where, vague;
  int judged = 0, nbad = 0, nvague = 0;
  std::string badwhy, badwhere, vaguewhy;
  std::function<void(St &, const V *)> on_ret;
  std::function<void(St &)> on_alloc;
  std::function<void(St &, int)> on_free;                                      // a heap region is about to be released
  std::function<bool(St &, const CallBase *, const std::string &)> on_call; // true: understood
  const Instruction *cur = nullptr;
  int fresh = 0;
  bool wordcmp = false;

  Machine(Function &F) : F(F) {}

  bool entail(const St &S, const Lin &l) { // l >= 0?
    if (l.isconst()) return l.c >= 0;
    auto f = S.facts;
    f.push_back(Lin(-1) - l);
    return lin_empty(f);
  }
  bool nonneg(const St &S, const Lin &l) { // l >= 0, forking when undecided
    if (l.isconst()) return l.c >= 0;
    if (entail(S, l)) return true;
    if (entail(S, Lin(-1) - l)) return false;
    if (need.empty()) need = {{l}, {Lin(-1) - l}};
    return true;
  }
  bool le(const St &S, const Lin &a, const Lin &b) { return nonneg(S, b - a); }
  bool eq(const St &S, const Lin &a, const Lin &b) {
    Lin d = a - b;
    if (d.isconst()) return d.c == 0;
    return le(S, a, b) && le(S, b, a);
  }
  void fail(const std::string &w) {
    if (!need.empty() || !bad.empty()) return;
    bad = w;
  }
  void unclear(const std::string &w) {
    if (need.empty() && vague.empty()) vague = w;
  }

  // ---- memory ----
  bool range(St &S, int r, const Lin &lo, const Lin &len, const char *what) {
    Region &R = S.reg[r];
    if (!R.alive) {
      fail(std::string(what) + " memory that has been released (" + R.name + ")");
      return false;
    }
    if (eq(S, len, Lin(0))) return true;
    if (!need.empty()) return false;
    if (!le(S, Lin(0), lo) || !le(S, lo + len, R.size)) {
      if (need.empty()) fail(std::string(what) + " outside " + R.name);
      return false;
    }
    return need.empty();
  }
  std::vector<Seg> clip(St &S, int r, const Lin &lo, const Lin &hi) {
    std::vector<Seg> out;
    for (Seg &s : S.reg[r].seg) {
      if (le(S, s.hi, lo)) continue;
      if (!need.empty()) return out;
      if (le(S, hi, s.lo)) break;
      if (!need.empty()) return out;
      Seg t = s;
      if (!le(S, lo, s.lo)) {
        if (!need.empty()) return out;
        Lin d = lo - s.lo;
        if (t.k == Seg::Orig || t.k == Seg::Word) t.l = t.l + d;
        t.lo = lo;
      }
      if (!need.empty()) return out;
      if (!le(S, s.hi, hi)) t.hi = hi;
      if (!need.empty()) return out;
      out.push_back(t);
    }
    return out;
  }
  void put(St &S, int r, const Lin &lo, const Lin &hi, const std::vector<Seg> &mid) {
    auto a = clip(S, r, Lin(0), lo);
    if (!need.empty()) return;
    auto c = clip(S, r, hi, S.reg[r].size);
    if (!need.empty()) return;
    a.insert(a.end(), mid.begin(), mid.end());
    a.insert(a.end(), c.begin(), c.end());
    S.reg[r].seg = a;
  }
  void write(St &S, int r, const Lin &lo, const Lin &len, std::vector<Seg> mid) {
    if (S.reg[r].readonly) return fail("writes into " + S.reg[r].name);
    if (!range(S, r, lo, len, "writes")) return;
    if (eq(S, len, Lin(0))) return;
    if (!need.empty()) return;
    put(S, r, lo, lo + len, mid);
  }
  std::vector<Seg> read(St &S, int r, const Lin &lo, const Lin &len) {
    if (!range(S, r, lo, len, "reads")) return {};
    if (eq(S, len, Lin(0)) || !need.empty()) return {};
    return clip(S, r, lo, lo + len);
  }
  void copy(St &S, const V &d, const V &s, const Lin &len, bool mayoverlap) {
    auto c = read(S, s.r, s.l, len);
    if (!need.empty() || !bad.empty()) return;
    if (!mayoverlap && d.r == s.r && !eq(S, len, Lin(0)) && !eq(S, d.l, s.l)) {
      if (!need.empty()) return;
      if (!le(S, d.l + len, s.l) && !le(S, s.l + len, d.l) && need.empty()) return fail("copies between overlapping ranges of " + S.reg[d.r].name + " with memcpy");
    }
    if (!need.empty()) return;
    for (Seg &x : c) x.lo = x.lo - s.l + d.l, x.hi = x.hi - s.l + d.l;
    write(S, d.r, d.l, len, c);
  }
  Byte byte_at(St &S, const Seg &s, const Lin &at) {
    Byte b;
    if (s.k == Seg::Val) b.k = Byte::Val, b.l = s.l;
    if (s.k == Seg::Orig) b.k = Byte::Orig, b.r = s.r, b.l = s.l + at - s.lo;
    if (s.k == Seg::Word && s.w.k == V::Int && s.w.l.isconst()) {
      Lin p = s.l + at - s.lo;
      if (p.isconst() && p.c >= 0 && p.c < 8) b.k = Byte::Val, b.l = Lin((wide)((uint64_t)(int64_t)s.w.l.c >> (8 * (int)p.c) & 255));
    }
    return b;
  }
  V load(St &S, int r, const Lin &lo, unsigned n) {
    if (S.reg[r].opaque) return V();
    auto c = read(S, r, lo, Lin(n));
    if (!need.empty() || !bad.empty()) return V();
    if (c.size() == 1 && c[0].k == Seg::Word && n == 8 && c[0].l == Lin(0)) return c[0].w;
    V v;
    v.k = V::Bytes;
    for (unsigned i = 0; i < n; ++i) {
      Lin at = lo + Lin(i);
      Byte b;
      for (Seg &s : c) {
        if (le(S, s.hi, at)) {
          if (!need.empty()) return V();
          continue;
        }
        if (!need.empty()) return V();
        b = byte_at(S, s, at);
        break;
      }
      v.b.push_back(b);
    }
    return simplify(v);
  }
  static V simplify(V v) {
    if (v.k != V::Bytes || v.b.empty()) return v;
    if (v.b.size() == 4 || v.b.size() == 8) {
      uint64_t u = 0;
      bool all = true;
      for (size_t i = 0; i < v.b.size() && all; ++i) {
        all = v.b[i].k == Byte::Val && v.b[i].l.isconst();
        if (all) u |= (uint64_t)(v.b[i].l.c & 255) << (8 * i);
      }
      if (all) return V::num(Lin(v.b.size() == 8 ? (wide)(int64_t)u : (wide)(int32_t)u));
    }
    for (size_t i = 1; i < v.b.size(); ++i)
      if (!(v.b[i].k == Byte::Val && v.b[i].l == Lin(0))) return v;
    if (v.b[0].k == Byte::Val) return V::num(v.b[0].l);
    return v;
  }
  V bytes(const V &v, unsigned n) {
    if (v.k == V::Bytes) return v;
    V r;
    r.k = V::Bytes;
    if (v.k == V::Int && v.l.isconst())
      for (unsigned i = 0; i < n; ++i) {
        Byte b;
        b.k = Byte::Val, b.l = Lin(i < 16 ? (wide)((unsigned __int128)v.l.c >> (8 * i) & 255) : 0);
        r.b.push_back(b);
      }
    else
      return V();
    return r;
  }
  V bytes_of_small(St &S, const V &v, unsigned n) { // a value known to fit one byte
    V r = bytes(v, n);
    if (r.k != V::Bad || v.k != V::Int) return r;
    if (!entail(S, v.l) || !entail(S, Lin(255) - v.l)) return V();
    r.k = V::Bytes;
    for (unsigned i = 0; i < n; ++i) {
      Byte b;
      b.k = Byte::Val, b.l = i ? Lin(0) : v.l;
      r.b.push_back(b);
    }
    return r;
  }
  void store(St &S, int r, const Lin &lo, const V &v, unsigned n) {
    std::vector<Seg> m;
    if (v.k == V::Bytes || (v.k == V::Int && v.l.isconst()) || n == 1) {
      V b = n == 1 ? bytes_of_small(S, v, 1) : bytes(v, n);
      for (unsigned i = 0; i < n; ++i) {
        Seg s;
        s.lo = lo + Lin(i), s.hi = lo + Lin(i + 1);
        if (i < b.b.size()) {
          const Byte &x = b.b[i];
          if (x.k == Byte::Val) s.k = Seg::Val, s.l = x.l;
          if (x.k == Byte::Orig) s.k = Seg::Orig, s.r = x.r, s.l = x.l;
        }
        m.push_back(s);
      }
    } else {
      Seg s;
      s.lo = lo, s.hi = lo + Lin(n);
      if (n == 8 && v.k != V::Bad) s.k = Seg::Word, s.w = v;
      m.push_back(s);
    }
    write(S, r, lo, Lin(n), m);
  }

  // ---- values ----
  V get(St &S, const Value *v) {
    if (auto *C = dyn_cast<ConstantInt>(v)) return C->getBitWidth() <= 64 ? V::num(Lin((wide)C->getSExtValue())) : V();
    if (isa<ConstantPointerNull>(v)) return V::num(Lin(0));
    auto it = S.env.find(v);
    return it == S.env.end() ? V() : it->second;
  }
  int sym(const std::string &n) { return sp.sym(n); }
  Lin freshsym(const char *n) { return Lin::sym(sym(std::string(n) + "#" + std::to_string(fresh++))); }

  int region(St &S, const std::string &name, const Lin &size, bool heap = false) {
    Region R;
    R.name = name, R.size = size, R.heap = heap;
    R.base = sym("&" + name + std::to_string(S.reg.size()));
    S.facts.push_back(Lin::sym(R.base) - Lin(1));
    Seg s;
    s.lo = Lin(0), s.hi = size;
    R.seg.push_back(s);
    S.reg.push_back(R);
    return (int)S.reg.size() - 1;
  }
  bool order(St &S, int a, int b) { // make sure the two regions are known to lie apart
    Lin la = Lin::sym(S.reg[a].base), lb = Lin::sym(S.reg[b].base);
    Lin x = lb - la - S.reg[a].size, y = la - lb - S.reg[b].size;
    if (entail(S, x) || entail(S, y)) return true;
    if (need.empty()) need = {{x}, {y}};
    return false;
  }
  // the address of a pointer, comparable with others
  std::optional<Lin> addr(St &S, const V &v) {
    if (v.k == V::Int) return v.l;
    if (v.k == V::Ptr) return Lin::sym(S.reg[v.r].base) + v.l;
    return std::nullopt;
  }

  // 1, 0, -1 (unknown)
  int compare(St &S, CmpInst::Predicate p, const V &a, const V &b) {
    if (a.k == V::Cmp && b.k == V::Int && b.l == Lin(0)) {
      CmpRec &c = S.cmps[a.r];
      if (p != CmpInst::ICMP_EQ && p != CmpInst::ICMP_NE) return -1;
      if (c.equal < 0) return -2 - a.r;
      return p == CmpInst::ICMP_EQ ? c.equal : !c.equal;
    }
    if (a.k == V::Bytes && b.k == V::Int && b.l.isconst() && a.b.size() == 8) { // sign test
      const Byte &t = a.b.back();
      bool sgt = (p == CmpInst::ICMP_SGT && b.l == Lin(-1)) || (p == CmpInst::ICMP_SGE && b.l == Lin(0));
      bool slt = (p == CmpInst::ICMP_SLT && b.l == Lin(0)) || (p == CmpInst::ICMP_SLE && b.l == Lin(-1));
      if ((sgt || slt) && t.k == Byte::Val) {
        bool pos = le(S, t.l, Lin(127));
        return sgt ? pos : !pos;
      }
      if (!(p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE)) return -1;
      bool diff = false, text = false;
      V y = b.l.c < 0 ? V() : bytes(b, 8);
      if (b.l.c < 0 && t.k == Byte::Val && le(S, t.l, Lin(127))) diff = true;
      for (unsigned i = 0; i < y.b.size(); ++i) {
        if (a.b[i].k == Byte::Val) {
          if (!eq(S, a.b[i].l, y.b[i].l)) diff = true;
        } else
          text = true;
        if (!need.empty()) return -1;
      }
      if (!diff && y.k == V::Bad) return -1;
      if (diff) return p == CmpInst::ICMP_NE;
      return text ? -9999 : p == CmpInst::ICMP_EQ;
    }
    if (a.k == V::Bytes && b.k == V::Int && a.b.size() == 8 && (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE)) {
      const Byte &t = a.b.back();
      if (t.k == Byte::Val && le(S, t.l, Lin(127)) && entail(S, Lin(-1) - b.l)) return p == CmpInst::ICMP_NE;
      return -1;
    }
    if (a.k == V::Bytes && b.k == V::Bytes && a.b.size() == b.b.size() && (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE)) {
      bool ok = true;
      int from = -1, to = -1;
      for (unsigned i = 0; i < a.b.size(); ++i) {
        const Byte &x = a.b[i], &y = b.b[i];
        if (x.k == Byte::Val && y.k == Byte::Val) {
          if (!eq(S, x.l, y.l) && need.empty()) return p == CmpInst::ICMP_NE;
          if (!need.empty()) return -1;
        } else if (x.k == Byte::Orig && y.k == Byte::Orig) {
          if (from < 0) from = i;
          else if (to != (int)i || x.r != a.b[from].r || y.r != b.b[from].r || !(x.l == a.b[from].l + Lin(i - from)) || !(y.l == b.b[from].l + Lin(i - from))) ok = false;
          to = i + 1;
        } else
          ok = false;
      }
      if (!ok) return -1;
      if (from < 0) return p == CmpInst::ICMP_EQ;
      // a comparison of stretches of text
      S.cmps.push_back(CmpRec{a.b[from].r, b.b[from].r, a.b[from].l, b.b[from].l, Lin(to - from), -1});
      wordcmp = true;
      return -2 - ((int)S.cmps.size() - 1);
    }
    if (a.k == V::Int && b.k == V::Bytes) return compare(S, CmpInst::getSwappedPredicate(p), b, a);
    if ((a.k == V::Ptr && b.k == V::Int) || (b.k == V::Ptr && a.k == V::Int)) {
      const V &i = a.k == V::Int ? a : b;
      if (!(i.l == Lin(0))) return -1;
      if (p == CmpInst::ICMP_EQ) return 0;
      if (p == CmpInst::ICMP_NE) return 1;
      return -1;
    }
    Lin x, y;
    bool uns = CmpInst::isUnsigned(p);
    if (a.k == V::Ptr && b.k == V::Ptr) {
      if (a.r == b.r) x = a.l, y = b.l;
      else {
        if (!order(S, a.r, b.r)) return -1;
        x = *addr(S, a), y = *addr(S, b);
      }
      uns = false;
    } else if (a.k == V::Int && b.k == V::Int)
      x = a.l, y = b.l;
    else
      return -1;
    if (uns) {
      bool na = !nonneg(S, x), nb = !nonneg(S, y);
      if (!need.empty()) return -1;
      if (na) x = x + Lin((wide)1 << 64);
      if (nb) y = y + Lin((wide)1 << 64);
    }
    switch (p) {
    case CmpInst::ICMP_EQ: return eq(S, x, y);
    case CmpInst::ICMP_NE: return !eq(S, x, y);
    case CmpInst::ICMP_ULT:
    case CmpInst::ICMP_SLT: return le(S, x + Lin(1), y);
    case CmpInst::ICMP_ULE:
    case CmpInst::ICMP_SLE: return le(S, x, y);
    case CmpInst::ICMP_UGT:
    case CmpInst::ICMP_SGT: return le(S, y + Lin(1), x);
    case CmpInst::ICMP_UGE:
    case CmpInst::ICMP_SGE: return le(S, y, x);
    default: return -1;
    }
  }

  V binary(St &S, const BinaryOperator *B) {
    V a = get(S, B->getOperand(0)), b = get(S, B->getOperand(1));
    unsigned w = B->getType()->isIntegerTy() ? B->getType()->getIntegerBitWidth() : 0;
    if (w == 1) {
      if (a.k != V::Int || b.k != V::Int || !a.l.isconst() || !b.l.isconst()) return V();
      bool x = a.l.c != 0, y = b.l.c != 0;
      switch (B->getOpcode()) {
      case Instruction::And: return V::num(Lin(x && y ? -1 : 0));
      case Instruction::Or: return V::num(Lin(x || y ? -1 : 0));
      case Instruction::Xor: return V::num(Lin(x != y ? -1 : 0));
      default: return V();
      }
    }
    unsigned n = w / 8;
    auto konst = [&](const V &v, wide &c) {
      if (v.k == V::Int && v.l.isconst()) {
        c = v.l.c;
        return true;
      }
      return false;
    };
    wide c;
    switch (B->getOpcode()) {
    case Instruction::Add:
      if (a.k == V::Int && b.k == V::Int) return V::num(a.l + b.l);
      if (a.k == V::Ptr && b.k == V::Int) return V::ptr(a.r, a.l + b.l);
      if (b.k == V::Ptr && a.k == V::Int) return V::ptr(b.r, a.l + b.l);
      return V();
    case Instruction::Sub:
      if (a.k == V::Int && b.k == V::Int) return V::num(a.l - b.l);
      if (a.k == V::Ptr && b.k == V::Int) return V::ptr(a.r, a.l - b.l);
      if (a.k == V::Ptr && b.k == V::Ptr) {
        if (a.r == b.r) return V::num(a.l - b.l);
        return V::num(*addr(S, a) - *addr(S, b));
      }
      return V();
    case Instruction::Mul:
      if (a.k == V::Int && konst(b, c)) return V::num(a.l.scaled(c));
      if (b.k == V::Int && konst(a, c)) return V::num(b.l.scaled(c));
      return V();
    case Instruction::UDiv:
    case Instruction::SDiv:
    case Instruction::LShr:
    case Instruction::AShr: {
      if (!konst(b, c)) return V();
      bool shift = B->getOpcode() == Instruction::LShr || B->getOpcode() == Instruction::AShr;
      if (a.k == V::Bytes && shift && c / 8 < (wide)a.b.size()) {
        V r = a;
        if (B->getOpcode() == Instruction::AShr && !(a.b.back().k == Byte::Val && entail(S, Lin(127) - a.b.back().l))) return V();
        r.b.erase(r.b.begin(), r.b.begin() + (int)(c / 8));
        Byte z;
        z.k = Byte::Val, z.l = Lin(0);
        r.b.resize(a.b.size(), z);
        r = simplify(r);
        if (c % 8 == 0) return r;
        a = r, c = c % 8;
      }
      if (a.k == V::Int && shift && c == w - 1 && !nonneg(S, a.l)) return V::num(Lin(B->getOpcode() == Instruction::LShr ? 1 : -1));
      if (!need.empty()) return V();
      if (a.k != V::Int || c <= 0 || (shift && c > 63)) return V();
      wide d = shift ? (wide)1 << (int)c : c;
      if (a.l.isconst() && a.l.c >= 0) return V::num(Lin(a.l.c / d));
      if (!entail(S, a.l)) return V();
      if (entail(S, Lin(d - 1) - a.l)) return V::num(Lin(0));
      Lin q = freshsym("q");
      S.facts.push_back(q);
      S.facts.push_back(a.l - q.scaled(d));
      S.facts.push_back(q.scaled(d) + Lin(d - 1) - a.l);
      return V::num(q);
    }
    case Instruction::Shl: {
      if (!konst(b, c) || c < 0) return V();
      if (a.k == V::Int && !(c % 8 == 0 && c / 8 < n && bytes_of_small(S, a, n).k == V::Bytes)) return c < 16 ? V::num(a.l.scaled((wide)1 << (int)c)) : V();
      if (c % 8) return V();
      V s = bytes_of_small(S, a, n);
      if (s.k != V::Bytes) return V();
      Byte z;
      z.k = Byte::Val, z.l = Lin(0);
      std::vector<Byte> r((size_t)(c / 8), z);
      for (Byte &x : s.b) r.push_back(x);
      r.resize(n);
      s.b = r;
      return simplify(s);
    }
    case Instruction::And: {
      if (konst(a, c)) std::swap(a, b);
      if (!konst(b, c)) return V();
      if (a.k == V::Ptr && c < 0 && ((-c) & (-c - 1)) == 0 && -c <= 16 && S.reg[a.r].heap) { // align down; chunks are aligned themselves
        wide al = -c;
        bool div = true;
        for (auto &x : a.l.t) div = div && x.second % al == 0;
        if (div) return V::ptr(a.r, a.l - Lin(((a.l.c % al) + al) % al));
        Lin q = freshsym("q");
        S.facts.push_back(a.l - q.scaled(al));
        S.facts.push_back(q.scaled(al) + Lin(al - 1) - a.l);
        return V::ptr(a.r, q.scaled(al));
      }
      if (a.k == V::Ptr && c == -1) return a;
      if (c == 0) return V::num(Lin(0));
      if (a.k == V::Ptr && c > 0 && (c & (c + 1)) == 0 && c < 16 && S.reg[a.r].heap) { // how far from aligned
        wide al = c + 1;
        bool div = true;
        for (auto &x : a.l.t) div = div && x.second % al == 0;
        if (div) return V::num(Lin(((a.l.c % al) + al) % al));
        Lin q = freshsym("q"), r = a.l - q.scaled(al);
        S.facts.push_back(r);
        S.facts.push_back(Lin(al - 1) - r);
        return V::num(r);
      }
      V s = bytes_of_small(S, a, n);
      if (a.k == V::Int && !a.l.isconst() && s.k != V::Bytes && entail(S, a.l)) {
        uint64_t m = (uint64_t)(int64_t)c, low = ~m;
        if (m && (low & (low + 1)) == 0 && low < ((uint64_t)1 << 60)) { // clears low bits
          Lin r = freshsym("r");
          S.facts.push_back(r);
          S.facts.push_back(Lin((wide)low) - r);
          S.facts.push_back(a.l - r);
          return V::num(a.l - r);
        }
        if ((m & (m + 1)) == 0 && m < ((uint64_t)1 << 60)) { // keeps low bits
          Lin r = freshsym("r");
          S.facts.push_back(r);
          S.facts.push_back(Lin((wide)m) - r);
          S.facts.push_back(a.l - r);
          return V::num(r);
        }
      }
      if (a.k == V::Int && a.l.isconst()) return V::num(Lin((wide)(int64_t)((int64_t)a.l.c & (int64_t)c)));
      if (s.k != V::Bytes) return V();
      for (unsigned i = 0; i < n; ++i) {
        unsigned m = (unsigned)((uint64_t)(int64_t)c >> (8 * i) & 255);
        if (m == 255) continue;
        if (m == 0) s.b[i] = Byte(), s.b[i].k = Byte::Val, s.b[i].l = Lin(0);
        else if (!(s.b[i].k == Byte::Val && s.b[i].l == Lin(0))) s.b[i] = Byte();
      }
      return simplify(s);
    }
    case Instruction::Or:
    case Instruction::Xor: {
      if (B->getOpcode() == Instruction::Xor && konst(b, c) && c == -1 && a.k == V::Int) return V::num(Lin(-1) - a.l);
      if (B->getOpcode() == Instruction::Xor && konst(a, c) && c == -1 && b.k == V::Int) return V::num(Lin(-1) - b.l);
      V x = bytes_of_small(S, a, n), y = bytes_of_small(S, b, n);
      if (x.k != V::Bytes || y.k != V::Bytes) return V();
      for (unsigned i = 0; i < n; ++i) {
        auto zero = [](const Byte &t) { return t.k == Byte::Val && t.l == Lin(0); };
        if (zero(y.b[i])) continue;
        if (zero(x.b[i])) x.b[i] = y.b[i];
        else x.b[i] = Byte();
      }
      return simplify(x);
    }
    default: return V();
    }
  }

  // executes one instruction; false: the path ends here
  bool step(St &S, std::vector<St> &work) {
    const Instruction *I = &*S.it;
    cur = I;
    const DataLayout &DL = F.getParent()->getDataLayout();
    auto next = [&]() {
      ++S.it;
      return true;
    };
    if (++S.steps > 4000) {
      unclear("too many steps");
      return false;
    }
    if (auto *A = dyn_cast<AllocaInst>(I)) {
      S.env[I] = V::ptr(region(S, "a local variable", Lin((wide)DL.getTypeAllocSize(A->getAllocatedType()).getFixedValue())), Lin(0));
      return next();
    }
    if (auto *B = dyn_cast<BinaryOperator>(I)) {
      S.env[I] = binary(S, B);
      return next();
    }
    if (isa<PHINode>(I)) {
      std::vector<std::pair<const Value *, V>> vs;
      for (PHINode &P : S.bb->phis()) vs.push_back({&P, get(S, P.getIncomingValueForBlock(S.prev))});
      for (auto &x : vs) S.env[x.first] = x.second;
      S.it = S.bb->getFirstNonPHIIt();
      return true;
    }
    if (auto *C = dyn_cast<ICmpInst>(I)) {
      int r = compare(S, C->getPredicate(), get(S, C->getOperand(0)), get(S, C->getOperand(1)));
      if (r == -9999) { // text taken as a number: anything
        St T = S;
        T.env[I] = V::num(Lin(0));
        ++T.it;
        work.push_back(T);
        S.env[I] = V::num(Lin(-1));
        return next();
      }
      if (r <= -2 && wordcmp) {
        wordcmp = false;
        bool ne = C->getPredicate() == CmpInst::ICMP_NE;
        St T = S;
        T.cmps[-2 - r].equal = 0;
        T.env[I] = V::num(Lin(ne ? -1 : 0));
        ++T.it;
        work.push_back(T);
        S.cmps[-2 - r].equal = 1;
        S.env[I] = V::num(Lin(ne ? 0 : -1));
        return next();
      }
      if (r <= -2) { // a content comparison: both outcomes
        CmpRec &c = S.cmps[-2 - r];
        bool same = c.r1 == c.r2 && eq(S, c.o1, c.o2);
        if (!need.empty()) return true;
        if (!same) {
          St T = S;
          T.cmps[-2 - r].equal = 0;
          T.facts.push_back(c.len - Lin(1)); // nothing differs in no bytes
          if (!lin_empty(T.facts)) work.push_back(T);
        }
        c.equal = 1;
        return true;
      }
      S.env[I] = r < 0 ? V() : V::num(Lin(r ? -1 : 0));
      return next();
    }
    auto truth = [&](const Value *c, bool &t) {
      V v = get(S, c);
      if (v.k != V::Int || !v.l.isconst()) return false;
      t = v.l.c != 0;
      return true;
    };
    if (auto *Q = dyn_cast<SelectInst>(I)) {
      bool t;
      if (!truth(Q->getCondition(), t)) S.env[I] = V();
      else S.env[I] = get(S, t ? Q->getTrueValue() : Q->getFalseValue());
      return next();
    }
    if (auto *C = dyn_cast<CastInst>(I)) {
      V v = get(S, C->getOperand(0));
      unsigned to = C->getType()->isPointerTy() ? 64 : C->getType()->isIntegerTy() ? C->getType()->getIntegerBitWidth() : 0;
      unsigned from = C->getSrcTy()->isPointerTy() ? 64 : C->getSrcTy()->isIntegerTy() ? C->getSrcTy()->getIntegerBitWidth() : 0;
      if (!to || !from) v = V();
      else if (to == from) ;
      else if (to > from) {
        if (from == 1) {
          if (v.k == V::Int && v.l.isconst()) v = V::num(Lin(v.l.c ? (isa<SExtInst>(C) ? -1 : 1) : 0));
        } else if (v.k == V::Bytes) {
          if (isa<ZExtInst>(C)) {
            Byte z;
            z.k = Byte::Val, z.l = Lin(0);
            v.b.resize(to / 8, z);
            v = simplify(v);
          } else if (v.b.size() == 1 && v.b[0].k == Byte::Val && entail(S, Lin(127) - v.b[0].l))
            v = V::num(v.b[0].l);
          else
            v = V();
        } else if (v.k == V::Int && isa<ZExtInst>(C) && !entail(S, v.l))
          v = v.l.isconst() ? V::num(Lin(v.l.c + ((wide)1 << from))) : V();
      } else if (v.k == V::Bytes) {
        if (to % 8 == 0) {
          v.b.resize(to / 8);
          v = simplify(v);
        } else
          v = V();
      } else if (v.k == V::Int) {
        if (to == 1) v = V();
        else if (v.l.isconst()) v = V::num(Lin((wide)APInt(64, (uint64_t)v.l.c).trunc(to).getSExtValue()));
        else if (!entail(S, v.l) || !entail(S, Lin(((wide)1 << to) - 1) - v.l)) v = V();
      } else
        v = V();
      S.env[I] = v;
      return next();
    }
    if (isa<FreezeInst>(I)) {
      S.env[I] = get(S, I->getOperand(0));
      return next();
    }
    if (auto *G = dyn_cast<GetElementPtrInst>(I)) {
      V p = get(S, G->getPointerOperand());
      MapVector<Value *, APInt> vars;
      APInt k(64, 0);
      if (p.k != V::Ptr || !G->collectOffset(DL, 64, vars, k)) {
        S.env[I] = V();
        return next();
      }
      Lin o = p.l + Lin((wide)k.getSExtValue());
      for (auto &x : vars) {
        V i = get(S, x.first);
        if (i.k != V::Int) {
          S.env[I] = V();
          return next();
        }
        o = o + i.l.scaled((wide)x.second.getSExtValue());
      }
      S.env[I] = V::ptr(p.r, o);
      return next();
    }
    if (auto *L = dyn_cast<LoadInst>(I)) {
      V p = get(S, L->getPointerOperand());
      if (p.k == V::Int && p.l == Lin(0)) fail("reads through a null pointer");
      else if (p.k != V::Ptr) unclear("a load through an unknown pointer");
      else if (S.reg[p.r].opaque && L->getType()->isPointerTy()) S.env[I] = V::ptr(p.r, Lin(0)); // somewhere in what is not looked into
      else S.env[I] = load(S, p.r, p.l, (unsigned)DL.getTypeStoreSize(L->getType()).getFixedValue());
      return next();
    }
    if (auto *W = dyn_cast<StoreInst>(I)) {
      V p = get(S, W->getPointerOperand());
      if (p.k == V::Int && p.l == Lin(0)) fail("writes through a null pointer");
      else if (p.k != V::Ptr) unclear("a store through an unknown pointer");
      else store(S, p.r, p.l, get(S, W->getValueOperand()), (unsigned)DL.getTypeStoreSize(W->getValueOperand()->getType()).getFixedValue());
      return next();
    }
    if (auto *Br = dyn_cast<BranchInst>(I)) {
      bool t = true;
      if (Br->isConditional() && !truth(Br->getCondition(), t)) {
        unclear("a branch on something not understood");
        return false;
      }
      S.prev = S.bb;
      S.bb = Br->getSuccessor(t ? 0 : 1);
      S.it = S.bb->begin();
      if (++S.visits[S.bb] > 40) {
        unclear("a loop");
        return false;
      }
      return true;
    }
    if (auto *R = dyn_cast<ReturnInst>(I)) {
      V v;
      if (R->getReturnValue()) v = get(S, R->getReturnValue());
      on_ret(S, R->getReturnValue() ? &v : nullptr);
      return false;
    }
    if (isa<UnreachableInst>(I)) return false;
    if (auto *C = dyn_cast<CallBase>(I)) return call(S, C) ? next() : false;
    unclear(std::string("instruction ") + I->getOpcodeName());
    return false;
  }

  bool call(St &S, const CallBase *C) {
    if (isa<DbgInfoIntrinsic>(C)) return true;
    Function *T = C->getCalledFunction();
    std::string n = T ? T->getName().str() : "";
    Intrinsic::ID id = T ? T->getIntrinsicID() : Intrinsic::not_intrinsic;
    if (n == "sa.throw" || n == "sa.noreturn") return false;
    if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl) return true;
    auto arg = [&](unsigned i) { return get(S, C->getArgOperand(i)); };
    bool cpy = id == Intrinsic::memcpy || n == "memcpy", mov = id == Intrinsic::memmove || n == "memmove";
    if (cpy || mov) {
      V d = arg(0), s = arg(1), l = arg(2);
      if (l.k != V::Int) {
        unclear("a copy of unknown length");
        return true;
      }
      if (!nonneg(S, l.l)) {
        if (need.empty()) fail("copies a negative number of bytes");
        return true;
      }
      if (!need.empty()) return true;
      if (eq(S, l.l, Lin(0))) {
        S.env[C] = d;
        return true;
      }
      if (!need.empty()) return true;
      if (d.k != V::Ptr || s.k != V::Ptr) {
        if ((d.k == V::Int && d.l == Lin(0)) || (s.k == V::Int && s.l == Lin(0))) fail("copies through a null pointer");
        else unclear("a copy between unknown places");
        return true;
      }
      copy(S, d, s, l.l, mov);
      S.env[C] = d;
      return true;
    }
    if (id == Intrinsic::memset || n == "memset") {
      V d = arg(0), c = arg(1), l = arg(2);
      if (d.k != V::Ptr || l.k != V::Int) {
        unclear("a fill of an unknown place");
        return true;
      }
      if (!nonneg(S, l.l)) {
        if (need.empty()) fail("fills a negative number of bytes");
        return true;
      }
      if (!need.empty()) return true;
      Seg s;
      s.lo = d.l, s.hi = d.l + l.l;
      if (c.k == V::Int) s.k = Seg::Val, s.l = c.l;
      write(S, d.r, d.l, l.l, {s});
      S.env[C] = d;
      return true;
    }
    if (n == "memcmp" || n == "bcmp" || n == "strncmp") {
      V a = arg(0), b = arg(1), l = arg(2);
      if (a.k != V::Ptr || b.k != V::Ptr || l.k != V::Int) {
        unclear("a comparison of unknown places");
        return true;
      }
      read(S, a.r, a.l, l.l);
      if (!need.empty()) return true;
      read(S, b.r, b.l, l.l);
      if (!need.empty()) return true;
      CmpRec c{a.r, b.r, a.l, b.l, l.l, -1};
      if (n == "strncmp") { // may stop at a zero byte
        c.len = freshsym("len");
        S.facts.push_back(c.len);
        S.facts.push_back(l.l - c.len);
      }
      S.cmps.push_back(c);
      V v;
      v.k = V::Cmp, v.r = (int)S.cmps.size() - 1;
      S.env[C] = v;
      return true;
    }
    if (n == "_Znam" || n == "_Znwm" || n == "malloc") {
      V l = arg(0);
      if (l.k != V::Int) {
        unclear("an allocation of unknown size");
        return true;
      }
      if (on_alloc) on_alloc(S);
      S.env[C] = V::ptr(region(S, "the new buffer", l.l, true), Lin(0));
      return true;
    }
    if (n == "calloc") {
      V a = arg(0), b = arg(1);
      if (a.k != V::Int || b.k != V::Int || !(a.l.t.empty() || b.l.t.empty())) {
        unclear("an allocation of unknown size");
        return true;
      }
      Lin l = b.l.t.empty() ? a.l.scaled(b.l.c) : b.l.scaled(a.l.c);
      if (on_alloc) on_alloc(S);
      int r = region(S, "the new buffer", l, true);
      Seg s;
      s.lo = Lin(0), s.hi = l, s.k = Seg::Val, s.l = Lin(0);
      bool none = eq(S, l, Lin(0));
      if (!need.empty()) return true;
      if (!none) write(S, r, Lin(0), l, {s});
      S.env[C] = V::ptr(r, Lin(0));
      return true;
    }
    if (n == "realloc") {
      V p = arg(0), l = arg(1);
      if (l.k != V::Int || (p.k != V::Ptr && !(p.k == V::Int && p.l == Lin(0)))) {
        unclear("a reallocation of an unknown place");
        return true;
      }
      Lin keep(0);
      bool empty = true;
      if (p.k == V::Ptr) {
        if (!S.reg[p.r].heap || !S.reg[p.r].alive || !(p.l == Lin(0))) {
          fail("reallocates what is not a chunk in use");
          return true;
        }
        keep = le(S, S.reg[p.r].size, l.l) ? S.reg[p.r].size : l.l;
        if (!need.empty()) return true;
        empty = eq(S, keep, Lin(0));
        if (!need.empty()) return true;
      }
      if (on_alloc) on_alloc(S);
      int r = region(S, "the new buffer", l.l, true);
      if (!empty) copy(S, V::ptr(r, Lin(0)), p, keep, false);
      if (!need.empty()) return true;
      if (p.k == V::Ptr) {
        if (on_free && bad.empty()) on_free(S, p.r);
        S.reg[p.r].alive = false;
      }
      S.env[C] = V::ptr(r, Lin(0));
      return true;
    }
    if (n == "_ZdaPv" || n == "_ZdlPv" || n == "free" || n == "_ZdaPvm" || n == "_ZdlPvm") {
      V p = arg(0);
      if (p.k == V::Int && p.l == Lin(0)) return true;
      if (p.k != V::Ptr) {
        if (p.k == V::Bytes) fail("releases inline bytes as if they were a pointer");
        else unclear("releases an unknown pointer");
        return true;
      }
      Region &R = S.reg[p.r];
      if (!R.heap) fail("releases " + R.name);
      else if (!R.alive) fail("releases " + R.name + " twice");
      else if (!(p.l == Lin(0))) fail("releases a pointer into " + R.name);
      if (on_free && need.empty() && bad.empty()) on_free(S, p.r);
      S.reg[p.r].alive = false;
      return true;
    }
    if (id == Intrinsic::expect) {
      S.env[C] = arg(0);
      return true;
    }
    if (n == "strlen") {
      unclear("strlen");
      return true;
    }
    if (on_call && on_call(S, C, n)) return true;
    unclear("a call to " + (n.empty() ? std::string("an unknown function") : demangle_(n)));
    return false;
  }

  void fork(const St &S, std::vector<St> &work) {
    for (auto &alt : need) {
      St T = S;
      for (const Lin &l : alt) T.facts.push_back(l);
      if (!lin_empty(T.facts)) work.push_back(T);
    }
    need.clear();
  }

  void run(St S0) {
    std::vector<St> work{S0};
    int total = 0;
    while (!work.empty()) {
      St S = work.back();
      work.pop_back();
      if (++total > 6000) {
        ++nvague;
        vaguewhy = "too many cases";
        return;
      }
      while (true) {
        need.clear(), bad.clear(), vague.clear();
        bool acts = isa<CallBase>(&*S.it) || isa<StoreInst>(&*S.it) || isa<ReturnInst>(&*S.it); // others only name a value
        std::optional<St> kept;
        if (acts) kept = S;
        BasicBlock *bb = S.bb, *prev = S.prev;
        auto it = S.it;
        size_t w = work.size();
        bool go = step(S, work);
        if (!need.empty()) {
          work.resize(w);
          if (kept) fork(*kept, work);
          else {
            S.bb = bb, S.prev = prev, S.it = it;
            fork(S, work);
          }
          break;
        }
        if (!bad.empty()) {
          if (!nbad++) badwhy = bad, badwhere = where_of(cur);
          if (nbad == 1 && getenv("SA_PATH")) {
            for (const Lin &f : S.facts) errs() << "fact " << sp.str(f) << "\n";
            for (Region &R : S.reg) {
              errs() << "region " << R.name << " size " << sp.str(R.size) << (R.alive ? "" : " gone") << "\n";
              for (Seg &x : R.seg) errs() << "   [" << sp.str(x.lo) << ", " << sp.str(x.hi) << ") k" << (int)x.k << " " << sp.str(x.l) << " r" << x.r << " w" << (int)x.w.k << " " << x.w.r << " " << sp.str(x.w.l) << "\n";
            }
          }
          break;
        }
        if (!vague.empty()) {
          if (!nvague++) vaguewhy = vague + " at " + where_of(cur);
          break;
        }
        if (!go) break;
      }
    }
  }
};
} // namespace
