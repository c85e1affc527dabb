// Views: an array over another array's memory refers to the other's owner (or to the other itself, when that owns its
// memory) and has no access right the other lacks.
#include "common.h"

namespace {
enum Tri { Good, Bad, Vague };

const Value *strip(const Value *v) { return v->stripPointerCasts(); }

struct Views {
  Function &F;
  DominatorTree DT;
  std::map<const Value *, std::set<const Value *>> rootmemo;
  std::set<const Value *> busy;
  Views(Function &F) : F(F), DT(F) {}

  static bool named(const Value *v, const char *suffix) {
    auto *C = dyn_cast<CallBase>(v);
    Function *T = C ? C->getCalledFunction() : nullptr;
    return T && T->getName().contains("4dynd2nd6buffer") && T->getName().ends_with(suffix);
  }
  static bool is_data(const Value *v) { return named(v, "5cdataEv") || named(v, "6buffer4dataEv"); }
  static bool is_owner(const Value *v) { return named(v, "9get_ownerEv"); }
  static bool is_flags(const Value *v) { return named(v, "9get_flagsEv"); }
  static bool ctor(const Value *v) {
    auto *C = dyn_cast<CallBase>(v);
    Function *T = C ? C->getCalledFunction() : nullptr;
    return T && T->getName().starts_with("_ZN4dynd2nd19buffer_memory_blockC");
  }
  static int kind(const CallBase *C) { // 3: with an owner, 2: without, 1: with its own memory
    StringRef n = C->getCalledFunction()->getName();
    if (n.contains("EPcRKNS0_12memory_blockEm")) return 3;
    if (n.contains("EPcm")) return 2;
    return 1;
  }
  static const Value *self(const Value *v) { return strip(cast<CallBase>(v)->getArgOperand(0)); }

  // the constructor calls whose blocks are stored into this handle
  std::vector<const CallBase *> made(const Value *h) {
    std::vector<const CallBase *> r;
    for (const User *U : h->users())
      if (auto *S = dyn_cast<StoreInst>(U))
        if (strip(S->getPointerOperand()) == h)
          for (const User *W : strip(S->getValueOperand())->users())
            if (ctor(W) && self(W) == strip(S->getValueOperand())) r.push_back(cast<CallBase>(W));
    return r;
  }
  // a handle that only ever holds a copy of another one
  const Value *canon(const Value *h, int depth = 0) {
    h = strip(h);
    if (depth > 8) return h;
    if (auto *L = dyn_cast<LoadInst>(h)) return h = strip(L); // a handle found in memory
    if (!isa<AllocaInst>(h)) return h;
    const Value *from = nullptr;
    for (const User *U : h->users()) {
      if (auto *S = dyn_cast<StoreInst>(U)) {
        if (strip(S->getPointerOperand()) != h) return h;
        const Value *v = strip(S->getValueOperand());
        if (isa<ConstantPointerNull>(v)) continue;
        auto *L = dyn_cast<LoadInst>(v);
        if (!L) return h;
        const Value *g = canon(L->getPointerOperand(), depth + 1);
        if (from && from != g) return h;
        from = g;
      } else if (auto *C = dyn_cast<CallBase>(U)) {
        if (C->arg_size() && C->getArgOperand(0) == h && C->paramHasAttr(0, Attribute::StructRet)) return h;
      }
    }
    return from ? from : h;
  }

  struct Src {
    enum K { Own, Self, Safe, Meta, Null, Unknown, Embedded } k = Unknown;
    const Value *h = nullptr;
    int guard = 0; // as of guarded()
  };
  typedef std::vector<Src> Srcs;

  const Value *embedded = nullptr, *srcmeta = nullptr; // of a function that copies metadata
  const Value *metadata_of(const Value *p) { // handle whose metadata p points into
    for (int i = 0; i < 10; ++i) {
      p = strip(p);
      if (srcmeta && p == srcmeta) return p;
      if (auto *G = dyn_cast<GEPOperator>(p)) {
        p = G->getPointerOperand();
        continue;
      }
      auto *C = dyn_cast<CallBase>(p);
      Function *T = C ? C->getCalledFunction() : nullptr;
      if (T && T->getName().ends_with("8metadataEv"))
        if (auto *L = dyn_cast<LoadInst>(strip(C->getArgOperand(0)))) return canon(L->getPointerOperand());
      return nullptr;
    }
    return nullptr;
  }
  static bool sameplace(const Value *a, const Value *b, const DataLayout &DL) {
    a = strip(a), b = strip(b);
    if (a == b) return true;
    APInt x(64, 0), y(64, 0);
    const Value *p = a->stripAndAccumulateConstantOffsets(DL, x, true), *q = b->stripAndAccumulateConstantOffsets(DL, y, true);
    if (x != y) return false;
    if (p == q) return true;
    auto *C = dyn_cast<CallBase>(p), *D = dyn_cast<CallBase>(q);
    if (C && D && C->getCalledFunction() && C->getCalledFunction() == D->getCalledFunction() && C->arg_size() == 1 && D->arg_size() == 1) {
      const Value *s = strip(C->getArgOperand(0)), *t = strip(D->getArgOperand(0));
      if (s == t) return true;
      auto *L = dyn_cast<LoadInst>(s), *K = dyn_cast<LoadInst>(t);
      return L && K && strip(L->getPointerOperand()) == strip(K->getPointerOperand());
    }
    return false;
  }
  // what the condition says of the reference at `ref`: 1 it is not null when true, -1 it is null when true, 0 nothing,
  // 2 something not understood
  int says(const Value *cond, const Value *ref) {
    const DataLayout &DL = F.getParent()->getDataLayout();
    auto same = [&](const Value *r) {
      if (is_owner(ref) && is_owner(strip(r))) return canon(self(ref)) == canon(self(strip(r)));
      return sameplace(ref, r, DL);
    };
    const Value *c = cond;
    int dir = 1;
    for (int i = 0; i < 12; ++i) {
      if (auto *K = dyn_cast<CastInst>(c)) c = K->getOperand(0);
      else if (auto *Z = dyn_cast<FreezeInst>(c)) c = Z->getOperand(0);
      else if (auto *X = dyn_cast<BinaryOperator>(c); X && X->getOpcode() == Instruction::Xor && isa<ConstantInt>(X->getOperand(1))) c = X->getOperand(0), dir = -dir;
      else if (auto *I = dyn_cast<ICmpInst>(c); I && I->isEquality() && isa<Constant>(I->getOperand(1)) && cast<Constant>(I->getOperand(1))->isNullValue()) {
        if (I->getPredicate() == CmpInst::ICMP_EQ) dir = -dir;
        c = I->getOperand(0);
      } else
        break;
    }
    if (auto *L = dyn_cast<LoadInst>(c); L && same(L->getPointerOperand())) return dir;
    if (auto *C = dyn_cast<CallBase>(c); C && C->arg_size() == 1 && C->getCalledFunction() && same(C->getArgOperand(0))) return dir;
    std::vector<const Value *> w{cond}; // mentioned in a condition of another form?
    std::set<const Value *> seen;
    while (!w.empty() && seen.size() < 60) {
      const Value *v = w.back();
      w.pop_back();
      if (!seen.insert(v).second) continue;
      if (auto *L = dyn_cast<LoadInst>(v); L && same(L->getPointerOperand())) return 2;
      if (auto *I = dyn_cast<Instruction>(v))
        for (const Value *o : I->operands()) w.push_back(o);
    }
    return 0;
  }
  // is the reference at `ref` known not to be null where block `at` runs? 0 no, 1 yes, 2 not understood, -1 known to be
  int guarded(const Value *ref, const BasicBlock *at, const BasicBlock *edge_to = nullptr) {
    int res = 0;
    for (BasicBlock &B : F) {
      auto *Br = dyn_cast<BranchInst>(B.getTerminator());
      if (!Br || !Br->isConditional() || Br->getSuccessor(0) == Br->getSuccessor(1)) continue;
      for (unsigned s = 0; s < 2; ++s) {
        bool dom = DT.dominates(BasicBlockEdge(&B, Br->getSuccessor(s)), at);
        if (edge_to && &B == at && Br->getSuccessor(s) == edge_to) dom = true;
        if (!dom) continue;
        int t = says(Br->getCondition(), ref);
        if (t == 2) res = 2;
        else if (t) return s == 0 ? t : -t;
      }
    }
    return res;
  }

  Srcs owners(const Value *ref, const BasicBlock *at, int depth = 0, const BasicBlock *edge = nullptr) {
    Srcs r;
    ref = strip(ref);
    Src s;
    if (depth > 6) return {s};
    if (is_owner(ref)) {
      s.k = Src::Own, s.h = canon(self(ref));
      if (!made(s.h).empty()) { // made here: its owner is what it was given
        for (const CallBase *C : made(s.h)) {
          if (kind(C) != 3) {
            s.k = Src::Null;
            r.push_back(s);
            continue;
          }
          if (!busy.insert(C).second) continue;
          for (Src &x : owners(C->getArgOperand(3), C->getParent(), depth + 1)) r.push_back(x);
          busy.erase(C);
        }
        return r;
      }
      s.guard = guarded(ref, at, edge);
      return {s};
    }
    if (auto *P = dyn_cast<PHINode>(ref)) {
      for (unsigned i = 0; i < P->getNumIncomingValues(); ++i)
        for (Src &x : owners(P->getIncomingValue(i), P->getIncomingBlock(i), depth + 1, P->getParent())) r.push_back(x);
      return r;
    }
    if (auto *Q = dyn_cast<SelectInst>(ref)) {
      for (unsigned i = 1; i < 3; ++i)
        for (Src &x : owners(Q->getOperand(i), at, depth + 1)) {
          int t = says(Q->getCondition(), strip(Q->getOperand(i)));
          if (t) x.guard = t == 2 ? 2 : i == 1 ? t : -t;
          r.push_back(x);
        }
      return r;
    }
    if (isa<Argument>(ref) && ref == embedded) {
      s.k = Src::Embedded;
      return {s};
    }
    if (const Value *h = metadata_of(ref)) {
      s.k = Src::Meta, s.h = h, s.guard = guarded(ref, at, edge);
      return {s};
    }
    if (auto *A = dyn_cast<AllocaInst>(ref)) {
      bool null = false;
      for (const User *U : A->users()) {
        if (auto *S = dyn_cast<StoreInst>(U)) {
          if (strip(S->getPointerOperand()) != A) return {s};
          const Value *v = strip(S->getValueOperand());
          if (isa<ConstantPointerNull>(v)) null = true;
          else if (auto *L = dyn_cast<LoadInst>(v)) {
            const Value *p = strip(L->getPointerOperand());
            if (is_owner(p) || isa<AllocaInst>(p) || metadata_of(p))
              for (Src &x : owners(p, S->getParent(), depth + 1)) r.push_back(x);
            else
              r.push_back(s);
          } else
            r.push_back(s);
        } else if (auto *C = dyn_cast<CallBase>(U)) {
          Function *T = C->getCalledFunction();
          if (!T || !C->arg_size() || strip(C->getArgOperand(0)) != A) continue;
          StringRef n = T->getName();
          if (n.ends_with("17get_data_memblockEv") && C->arg_size() == 2) {
            Src x;
            x.k = Src::Safe, x.h = canon(C->getArgOperand(1));
            r.push_back(x);
          } else if (n.contains("4dynd2nd12memory_blockC") || n.contains("4dynd2nd12memory_blockaS")) {
            if (C->arg_size() < 2) {
              null = true;
              continue;
            }
            if (n.contains("6buffer") || n.contains("5array")) {
              Src x;
              x.k = Src::Self, x.h = canon(C->getArgOperand(1));
              r.push_back(x);
            } else
              for (Src &x : owners(C->getArgOperand(1), C->getParent(), depth + 1)) r.push_back(x);
          } else if (C->paramHasAttr(0, Attribute::StructRet))
            r.push_back(s);
        }
      }
      if (r.empty()) {
        s.k = null ? Src::Null : Src::Unknown;
        r.push_back(s);
      }
      return r;
    }
    return {s};
  }

  // the arrays whose memory p points into, and how many pointers were followed from there
  void data(const Value *p, std::set<std::pair<const Value *, int>> &out, bool &unknown, std::set<const Value *> &seen) {
    p = strip(p);
    if (!seen.insert(p).second) return;
    if (is_data(p)) {
      out.insert({canon(self(p)), 0});
      return;
    }
    if (auto *G = dyn_cast<GEPOperator>(p)) return data(G->getPointerOperand(), out, unknown, seen);
    if (auto *P = dyn_cast<PHINode>(p)) {
      for (const Value *v : P->incoming_values()) data(v, out, unknown, seen);
      return;
    }
    if (auto *Q = dyn_cast<SelectInst>(p)) {
      data(Q->getTrueValue(), out, unknown, seen);
      data(Q->getFalseValue(), out, unknown, seen);
      return;
    }
    if (auto *L = dyn_cast<LoadInst>(p)) {
      if (auto *A = dyn_cast<AllocaInst>(strip(L->getPointerOperand()))) {
        for (const User *U : A->users())
          if (auto *S = dyn_cast<StoreInst>(U))
            if (strip(S->getPointerOperand()) == A) data(S->getValueOperand(), out, unknown, seen);
        return;
      }
      std::set<std::pair<const Value *, int>> in;
      bool u = false;
      data(L->getPointerOperand(), in, u, seen);
      if (in.empty()) unknown = true;
      for (auto &x : in) out.insert({x.first, x.second + 1});
      return;
    }
    unknown = true;
  }

  // the arrays not made here that the handle's memory belongs to
  std::set<const Value *> roots(const Value *h, int depth = 0) {
    h = canon(h);
    auto m = made(h);
    if (m.empty() || depth > 6) return {h};
    std::set<const Value *> r;
    for (const CallBase *C : m) {
      if (kind(C) == 1) {
        r.insert(h);
        continue;
      }
      if (!busy.insert(C).second) continue;
      std::set<std::pair<const Value *, int>> d;
      bool u = false;
      std::set<const Value *> seen;
      data(C->getArgOperand(2), d, u, seen);
      for (auto &x : d)
        for (const Value *g : roots(x.first, depth + 1)) r.insert(g);
      busy.erase(C);
    }
    return r;
  }

  Tri flags(const Value *v, const Value *root, std::set<const Value *> &seen, std::string &why) {
    if (!seen.insert(v).second) return Good;
    if (is_flags(v)) {
      auto r = roots(self(v));
      if (r.size() == 1 && *r.begin() == root) return Good;
      if (r.count(root)) return Vague;
      why = "the access flags are those of another array";
      return Bad;
    }
    if (auto *C = dyn_cast<ConstantInt>(v)) {
      if (!(C->getZExtValue() & 2)) return Good;
      why = "write access is granted whether or not the viewed array has it";
      return Bad;
    }
    if (auto *K = dyn_cast<CastInst>(v)) return flags(K->getOperand(0), root, seen, why);
    if (auto *B = dyn_cast<BinaryOperator>(v)) {
      std::string w1, w2;
      Tri a = flags(B->getOperand(0), root, seen, w1), b = flags(B->getOperand(1), root, seen, w2);
      if (B->getOpcode() == Instruction::And) {
        if (isa<ConstantInt>(B->getOperand(1)) && b == Bad) return why = w1, a; // a mask that keeps the bit
        if (a == Good || b == Good) return Good;
        if (a == Vague || b == Vague) return Vague;
        return why = w1, Bad;
      }
      if (B->getOpcode() == Instruction::Or) {
        if (a == Bad) return why = w1, Bad;
        if (b == Bad) return why = w2, Bad;
        return a == Good && b == Good ? Good : Vague;
      }
      return Vague;
    }
    if (auto *P = dyn_cast<PHINode>(v)) {
      Tri r = Good;
      for (const Value *x : P->incoming_values()) {
        Tri t = flags(x, root, seen, why);
        if (t == Bad) return isa<ConstantInt>(x) ? Vague : Bad; // a constant on one path: the path may have checked
        if (t == Vague) r = Vague;
      }
      return r;
    }
    if (auto *Q = dyn_cast<SelectInst>(v)) {
      for (int i = 1; i < 3; ++i) {
        Tri t = flags(Q->getOperand(i), root, seen, why);
        if (t != Good) return isa<ConstantInt>(Q->getOperand(i)) ? Vague : t;
      }
      return Good;
    }
    if (auto *L = dyn_cast<LoadInst>(v))
      if (auto *A = dyn_cast<AllocaInst>(strip(L->getPointerOperand()))) {
        Tri r = Good;
        for (const User *U : A->users())
          if (auto *S = dyn_cast<StoreInst>(U))
            if (strip(S->getPointerOperand()) == A) r = std::max(r, flags(S->getValueOperand(), root, seen, why));
        return r;
      }
    return Vague;
  }

  Tri judge(const CallBase *C, std::string &why) {
    std::set<std::pair<const Value *, int>> d;
    bool unknown = false;
    std::set<const Value *> seen;
    data(C->getArgOperand(2), d, unknown, seen);
    if (d.empty()) return Vague;
    std::set<const Value *> rs;
    int depth = 0;
    for (auto &x : d) {
      depth = std::max(depth, x.second);
      for (const Value *g : roots(x.first)) rs.insert(g);
    }
    if (rs.size() != 1 || unknown) return Vague;
    const Value *root = *rs.begin();
    if (kind(C) == 2) return why = "refers to another array's memory without keeping it alive", Bad;
    Tri res = Good;
    std::set<const Value *> sn;
    std::string w;
    Tri f = flags(C->getArgOperand(4), root, sn, w);
    if (f == Bad) return why = w, Bad;
    if (f == Vague) res = Vague;
    bool own = false, meta = false;
    for (Src &s : owners(C->getArgOperand(3), C->getParent())) {
      if (getenv("SA_TRACE")) errs() << "  source " << (int)s.k << " guard " << s.guard << " handle " << (s.h ? *s.h : *C) << "\n";
      if (s.k == Src::Unknown || s.k == Src::Embedded) {
        res = Vague;
        continue;
      }
      if (s.k == Src::Null) return why = "refers to another array's memory without keeping it alive", Bad;
      auto r = roots(s.h);
      if (!r.count(root)) return why = "keeps another array's memory alive than the one it refers to", Bad;
      if (s.k == Src::Own || s.k == Src::Safe) own = true;
      if (s.k == Src::Meta) meta = true;
      if (s.k == Src::Own || s.k == Src::Meta) {
        if (s.guard == 2) res = Vague;
        else if (s.guard != 1) return why = "refers to another array's memory, but keeps nothing alive when that array owns its memory", Bad;
      }
    }
    if (depth && own && !meta && res == Good) return why = "refers to memory behind a pointer of another array without keeping that memory alive", Bad;
    return res;
  }
};

// the place in the function itself that the instruction was inlined into
std::string outer_of(const Instruction *I) {
  const DILocation *L = I->getDebugLoc().get();
  while (L && L->getInlinedAt()) L = L->getInlinedAt();
  if (!L) return where_fn(I->getFunction());
  return (L->getDirectory().empty() || L->getFilename().starts_with("/") ? L->getFilename().str() : (L->getDirectory() + "/" + L->getFilename()).str()) + ":" + std::to_string(L->getLine());
}

int mode_views(Module &M, const std::vector<std::string> &) {
  auto is_ctor = [](StringRef n) { return n.starts_with("_ZN4dynd2nd19buffer_memory_blockC"); };
  auto is_make = [](StringRef n) { return n.starts_with("_ZN4dynd2nd10make_array") || n.starts_with("_ZN4dynd2nd11make_buffer") || n.starts_with("_ZN4dynd2nd28make_strided_array_from_data"); };
  auto local = [&](const Function &C) {
    StringRef n = C.getName();
    if (is_ctor(n)) return false;
    if (n.contains("12memory_block") && (n.contains("12memory_blockC") || n.contains("12memory_blockaS"))) return false;
    if (n.contains("intrusive_ptr") && !n.contains("base_type")) return true;
    if (n.contains("D0Ev") || n.contains("D1Ev") || n.contains("D2Ev")) return false;
    return is_make(n) || n.contains("_ZN4dynd2nd5array") || n.contains("_ZN4dynd2nd6buffer") || C.hasLocalLinkage();
  };
  InlinePolicy P;
  P.ok = [&](const CallBase &, const Function &C) { return local(C); };
  P.callee_limit = 600;
  std::vector<Function *> rts;
  for (Function &F : M) {
    if (F.isDeclaration() || is_make(F.getName()) || is_ctor(F.getName()) || F.getName().contains("buffer_empty_init_tag")) continue;
    bool uses = false;
    for (Instruction &I : instructions(F))
      if (auto *C = dyn_cast<CallBase>(&I))
        if (Function *T = C->getCalledFunction()) uses = uses || is_make(T->getName()) || is_ctor(T->getName());
    if (uses) rts.push_back(&F);
  }
  for (Function *F : rts) {
    Function *W = private_copy(*F);
    flatten(*W, P);
    prune_exceptions(*W);
    cleanup(*W);
    if (const char *d = getenv("SA_DUMP"))
      if (F->getName().contains(d)) W->print(errs());
    Views V(*W);
    for (Instruction &I : instructions(*W)) {
      auto *C = dyn_cast<CallBase>(&I);
      if (!C || !Views::ctor(C) || Views::kind(C) == 1) continue;
      std::string why;
      Tri t = V.judge(C, why);
      Json().kv("fn", demangle_(F->getName())).kv("where", outer_of(C)).kv("state", t == Good ? "ok" : t == Bad ? "bad" : "vague").kv("why", why).out();
    }
  }
  // metadata that is copied keeps the reference to the memory of the elements, or gets the one for embedded elements
  for (Function &F : M) {
    StringRef n = F.getName();
    if (F.isDeclaration() || n.ends_with(".sa")) continue;
    bool whole = n.contains("22arrmeta_copy_constructEPcPKcRK"), one = n.contains("29arrmeta_copy_construct_onedimEPcPKcRK"), index = n.contains("18apply_linear_indexElPKNS_6irangeEPKc");
    if (!whole && !one && !index) continue;
    Function *W = private_copy(F);
    flatten(*W, P);
    prune_exceptions(*W);
    cleanup(*W);
    if (const char *d = getenv("SA_DUMP"))
      if (F.getName().contains(d)) W->print(errs());
    Views V(*W);
    const Value *dst = W->getArg(index ? 5 : 1), *ref = index ? W->getArg(W->arg_size() - 1) : nullptr;
    V.srcmeta = W->getArg(index ? 3 : 2), V.embedded = W->getArg(index ? 6 : 3);
    // every assignment of a reference into the result
    struct Place {
      std::vector<Views::Srcs> as;
      std::vector<const Instruction *> at;
      const Instruction *I = nullptr;
    };
    std::map<std::string, Place> places;
    const DataLayout &DL = M.getDataLayout();
    std::map<const BasicBlock *, int> nth;
    for (Instruction &I : instructions(*W)) {
      auto *C = dyn_cast<CallBase>(&I);
      Function *T = C ? C->getCalledFunction() : nullptr;
      if (!T || C->arg_size() != 2 || !(T->getName().contains("4dynd2nd12memory_blockaS") || T->getName().contains("4dynd2nd12memory_blockC"))) continue;
      APInt off(64, 0);
      const Value *p = strip(C->getArgOperand(0))->stripAndAccumulateConstantOffsets(DL, off, true);
      if (p != dst && p != ref) continue;
      Place &L = places[(p == dst ? "metadata+" : "reference+") + std::to_string(off.getZExtValue())];
      L.as.push_back(V.owners(C->getArgOperand(1), C->getParent()));
      L.at.push_back(C);
      if (!L.I) L.I = C;
    }
    bool wide = F.getParent() && (n.contains("12pointer_type") || n.contains("12var_dim_type")); // types with such a reference
    for (auto &x : places) {
      Tri t = Good;
      std::string why;
      bool emb = false, src = false, multi = x.second.as.size() > 1;
      for (auto &a : x.second.as)
        for (auto &s : a) {
          if (s.k == Views::Src::Embedded) emb = true;
          else if (s.k == Views::Src::Meta) {
            src = true;
            if (s.guard == 2 || (s.guard == 0 && (multi || index))) t = std::max(t, Vague);
            else if (s.guard != 1) t = Bad, why = "copies a reference that is null when the elements lie in the array's own memory";
          } else
            t = std::max(t, Vague);
        }
      if (t == Good && !src && emb) t = index && !wide ? Vague : Bad, why = "the reference to the memory of the elements is lost";
      if (t == Good && index && n.contains("12var_dim_type")) // each assignment on its own
        for (unsigned i = 0; i < x.second.as.size() && t != Bad; ++i) {
          bool e = false, m = false;
          for (auto &s : x.second.as[i]) {
            e = e || s.k == Views::Src::Embedded, m = m || s.k == Views::Src::Meta;
          }
          if (m && !e) {
            bool fixed = false, sure = true;
            for (auto &s : x.second.as[i])
              if (s.k != Views::Src::Meta || s.guard != 0) sure = false;
            for (unsigned j = 0; j < x.second.as.size(); ++j)
              if (j != i && V.DT.dominates(x.second.at[i], x.second.at[j])) fixed = true;
            if (sure && !fixed) t = Bad, why = "copies a reference that is null when the elements lie in the array's own memory", x.second.I = x.second.at[i];
          }
          if (!e || m) continue;
          int g = V.guarded(V.srcmeta, x.second.at[i]->getParent());
          if (g == 2) t = Vague;
          else if (g != -1) t = Bad, why = "the reference to the memory of the elements is lost", x.second.I = x.second.at[i];
        }
      if (t == Good && src && !emb && !index) t = Bad, why = "copies a reference that is null when the elements lie in the array's own memory";
      Json().kv("fn", demangle_(n)).kv("where", outer_of(x.second.I)).kv("state", t == Good ? "ok" : t == Bad ? "bad" : "vague").kv("why", t == Bad ? why : "").kv("place", x.first).out();
    }
    if (index && wide) { // the data pointer moves into the memory of the elements: so must the reference
      const Value *pd = W->getArg(W->arg_size() - 2);
      for (Instruction &I : instructions(*W)) {
        auto *S = dyn_cast<StoreInst>(&I);
        if (!S || strip(S->getPointerOperand()) != pd) continue;
        const Value *v = S->getValueOperand();
        int loads = 0;
        for (int i = 0; i < 12; ++i) {
          v = strip(v);
          if (auto *G = dyn_cast<GEPOperator>(v)) v = G->getPointerOperand();
          else if (auto *L = dyn_cast<LoadInst>(v)) v = L->getPointerOperand(), ++loads;
          else break;
        }
        if (v != pd || loads < 2) continue;
        bool some = false, ours = false;
        for (Instruction &J : instructions(*W)) {
          auto *C = dyn_cast<CallBase>(&J);
          if (!C) continue;
          Function *T = C->getCalledFunction();
          for (const Use &u : C->args())
            if (strip(u.get()) == ref) {
              if (T && !T->getName().contains("4dynd2nd12memory_block")) some = true; // to a helper
              else if (T) ours = true;
            }
        }
        if (ours && !some) { // on every path from here
          bool before = false;
          std::set<const BasicBlock *> stop, seen{S->getParent()};
          for (Instruction &J : instructions(*W))
            if (auto *C = dyn_cast<CallBase>(&J))
              for (const Use &u : C->args())
                if (strip(u.get()) == ref && C->getCalledFunction()) {
                  stop.insert(C->getParent());
                  before = before || V.DT.dominates(C, S) || C->getParent() == S->getParent();
                }
          std::vector<const BasicBlock *> w{S->getParent()};
          bool skips = false;
          while (!before && !w.empty()) {
            const BasicBlock *B = w.back();
            w.pop_back();
            if (isa<ReturnInst>(B->getTerminator())) skips = true;
            auto *Br = dyn_cast<BranchInst>(B->getTerminator());
            for (const BasicBlock *N : successors(B)) {
              if (stop.count(N)) continue;
              if (Br && Br->isConditional()) {
                int t = V.says(Br->getCondition(), V.srcmeta);
                if (t == 2 || (t && (Br->getSuccessor(0) == N ? t : -t) == -1)) continue; // there is none, or not understood
              }
              if (seen.insert(N).second) w.push_back(N);
            }
          }
          if (skips) Json().kv("fn", demangle_(n)).kv("where", outer_of(S)).kv("state", "bad").kv("why", "the data pointer moves into the memory of the elements, but the reference to that memory is not always handed on").kv("place", "reference").out();
        }
        if (!ours) Json().kv("fn", demangle_(n)).kv("where", outer_of(S)).kv("state", some ? "vague" : "bad").kv("why", "the data pointer moves into the memory of the elements, but the reference to that memory is not handed on").kv("place", "reference").out();
      }
    }
    if (index && n.contains("12var_dim_type")) // metadata written without the reference
      for (Instruction &I : instructions(*W)) {
        auto *S = dyn_cast<StoreInst>(&I);
        if (!S) continue;
        APInt off(64, 0);
        const Value *p = strip(S->getPointerOperand())->stripAndAccumulateConstantOffsets(DL, off, true);
        if (p != dst || off != 16 || isa<Constant>(S->getValueOperand())) continue;
        bool with = false, helper = false;
        auto &L = places["metadata+0"];
        for (auto *a : L.at) with = with || V.DT.dominates(a, S) || V.DT.dominates(S, a);
        for (Instruction &J : instructions(*W))
          if (auto *C = dyn_cast<CallBase>(&J))
            if (C->getCalledFunction() && !isa<DbgInfoIntrinsic>(C))
              for (const Use &u : C->args())
                if (strip(u.get()) == V.embedded && !C->getCalledFunction()->getName().contains("4dynd2nd12memory_block")) helper = true;
        if (!with && !helper && L.at.size()) Json().kv("fn", demangle_(n)).kv("where", outer_of(S)).kv("state", "bad").kv("why", "metadata is filled in without the reference to the memory of the elements").kv("place", "metadata").out();
      }
    if ((whole || (index && n.contains("12pointer_type"))) && wide && places.empty()) {
      bool delegates = false; // to a helper
      for (Instruction &I : instructions(*W))
        if (auto *C = dyn_cast<CallBase>(&I))
          if (C->getCalledFunction())
            for (const Use &u : C->args())
              if (strip(u.get()) == V.embedded) delegates = true;
      Json().kv("fn", demangle_(n)).kv("where", where_fn(&F)).kv("state", delegates ? "vague" : "bad").kv("why", delegates ? "" : "the reference to the memory of the elements is not copied").kv("place", "metadata").out();
    }
  }
  // the reference to the memory of an array: its owner where there is one
  for (Function &F : M)
    if (!F.isDeclaration() && F.getName().contains("4dynd2nd6buffer17get_data_memblockEv") && F.arg_size() == 2) {
      Function *W = private_copy(F);
      InlinePolicy Q;
      Q.ok = [](const CallBase &, const Function &C) { return !C.getName().contains("12memory_blockC") && !C.getName().contains("12memory_blockaS") && !C.getName().ends_with("9get_ownerEv"); };
      flatten(*W, Q);
      prune_exceptions(*W);
      cleanup(*W);
      Views V(*W);
      Tri t = Good;
      std::string why;
      bool any = false;
      for (Instruction &I : instructions(*W)) {
        auto *C = dyn_cast<CallBase>(&I);
        Function *T = C ? C->getCalledFunction() : nullptr;
        if (!T || !T->getName().contains("4dynd2nd12memory_block") || C->arg_size() < 2 || strip(C->getArgOperand(0)) != W->getArg(0)) continue;
        any = true;
        if (T->getName().contains("6buffer") || T->getName().contains("5array")) continue; // the array itself
        std::vector<std::pair<const Value *, const BasicBlock *>> vs{{C->getArgOperand(1), C->getParent()}};
        if (auto *P = dyn_cast<PHINode>(C->getArgOperand(1))) {
          vs.clear();
          for (unsigned i = 0; i < P->getNumIncomingValues(); ++i) vs.push_back({P->getIncomingValue(i), P->getIncomingBlock(i)});
        }
        for (auto &v : vs) {
          const Value *r = strip(v.first);
          if (!isa<GEPOperator>(r) && !Views::is_owner(r)) {
            t = std::max(t, Vague);
            continue;
          }
          int g = V.guarded(r, v.second, C->getParent());
          if (g == 2) t = std::max(t, Vague);
          else if (g != 1) t = Bad, why = "gives the owner also when the array owns its memory and has none";
          if (t == Bad) break;
        }
        if (t == Bad) break;
      }
      Json().kv("fn", std::string("dynd::nd::buffer::get_data_memblock() const")).kv("where", where_fn(&F)).kv("state", !any ? "vague" : t == Good ? "ok" : t == Bad ? "bad" : "vague").kv("why", why).out();
      break;
    }
  // the memory is handed out for writing only when the array may be written
  for (Function &F : M)
    if (!F.isDeclaration() && F.getName().contains("4dynd2nd6buffer4dataEv")) {
      Function *W = private_copy(F);
      InlinePolicy Q;
      Q.ok = [](const CallBase &, const Function &) { return true; };
      flatten(*W, Q);
      prune_exceptions(*W);
      cleanup(*W);
      DominatorTree DT(*W);
      Tri t = Good;
      for (BasicBlock &B : *W) {
        auto *R = dyn_cast<ReturnInst>(B.getTerminator());
        if (!R) continue;
        std::vector<std::pair<const Value *, const BasicBlock *>> vs;
        if (auto *Ph = dyn_cast<PHINode>(R->getReturnValue()))
          for (unsigned i = 0; i < Ph->getNumIncomingValues(); ++i) vs.push_back({Ph->getIncomingValue(i), Ph->getIncomingBlock(i)});
        else
          vs.push_back({R->getReturnValue(), &B});
        for (auto &v : vs) {
          if (isa<Constant>(v.first)) continue;
          bool ok = false, other = false, any = false;
          for (BasicBlock &D : *W) {
            auto *Br = dyn_cast<BranchInst>(D.getTerminator());
            if (!Br || !Br->isConditional()) continue;
            for (unsigned s = 0; s < 2; ++s) {
              if (!DT.dominates(BasicBlockEdge(&D, Br->getSuccessor(s)), v.second)) continue;
              any = true;
              auto *I = dyn_cast<ICmpInst>(Br->getCondition());
              auto *A = I ? dyn_cast<BinaryOperator>(I->getOperand(0)) : nullptr;
              auto *K = A && A->getOpcode() == Instruction::And ? dyn_cast<ConstantInt>(A->getOperand(1)) : nullptr;
              auto *Z = I ? dyn_cast<ConstantInt>(I->getOperand(1)) : nullptr;
              if (!K || !Z || !I->isEquality()) {
                other = true;
                continue;
              }
              bool eq = (I->getPredicate() == CmpInst::ICMP_EQ) == (s == 0); // the masked flags equal Z here
              if (K->getZExtValue() == 2 ? (eq ? Z->getZExtValue() == 2 : Z->isZero()) : (K->getZExtValue() & 2) && eq && (Z->getZExtValue() & 2)) ok = true;
            }
          }
          if (!ok) t = std::max(t, other ? Vague : Bad);
          (void)any;
        }
      }
      Json().kv("fn", std::string("dynd::nd::buffer::data() const")).kv("where", where_fn(&F)).kv("state", t == Good ? "ok" : t == Bad ? "bad" : "vague").kv("why", t == Bad ? "hands out the memory for writing without having checked for write access" : "").out();
      break;
    }
  return 0;
}
ModeReg reg_views("views", mode_views);
} // namespace
