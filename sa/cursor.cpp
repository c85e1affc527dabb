// Text cursors: functions that walk a character range [begin, end). A difference-bound (zone) abstract
// interpretation over the pointers of the range proves that every character read or written lies inside the
// range and that the position handed back stays inside it.
//
// cursor <gap-table>: one record per obligation. <gap-table> is "regex=width[;regex=width...]": functions matching
// the regex may assume at least <width> bytes between position and end, which is a multiple of <width>.
#include "common.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Transforms/Utils/Local.h"
#include <regex>

namespace {
const int64_t INF = INT64_MAX / 4;

// ---- difference bounds over a set of active keys ----
struct Dbm {
  bool bot = false;
  std::vector<int> ids;
  std::vector<int64_t> m; // m[i*n+j]: ids[i] - ids[j] <= m
  int n() const { return (int)ids.size(); }
  int at(int k) const {
    for (int i = 0; i < n(); ++i)
      if (ids[i] == k) return i;
    return -1;
  }
  int64_t &d(int i, int j) { return m[i * n() + j]; }
  int64_t d(int i, int j) const { return m[i * n() + j]; }
  int add(int k) {
    int a = at(k);
    if (a >= 0) return a;
    int o = n();
    std::vector<int64_t> q((o + 1) * (o + 1), INF);
    for (int i = 0; i < o; ++i)
      for (int j = 0; j < o; ++j) q[i * (o + 1) + j] = m[i * o + j];
    q[o * (o + 1) + o] = 0;
    m.swap(q);
    ids.push_back(k);
    return o;
  }
  void forget(int k) {
    int a = at(k);
    if (a < 0) return;
    int o = n();
    std::vector<int64_t> q;
    q.reserve((o - 1) * (o - 1));
    for (int i = 0; i < o; ++i)
      for (int j = 0; j < o; ++j)
        if (i != a && j != a) q.push_back(m[i * o + j]);
    m.swap(q);
    ids.erase(ids.begin() + a);
  }
  // a - b <= c
  void le(int a, int b, int64_t c) {
    if (bot || c >= INF) return;
    if (a == b) {
      if (c < 0) bot = true;
      return;
    }
    int x = add(a), y = add(b), N = n();
    if (d(x, y) <= c) return;
    for (int i = 0; i < N; ++i) {
      if (d(i, x) >= INF) continue;
      for (int j = 0; j < N; ++j) {
        if (d(y, j) >= INF) continue;
        int64_t v = d(i, x) + c + d(y, j);
        if (v < d(i, j)) d(i, j) = v;
      }
    }
    for (int i = 0; i < N; ++i)
      if (d(i, i) < 0) {
        bot = true;
        return;
      }
  }
  int64_t bound(int a, int b) const { // least known c with a - b <= c
    if (bot) return -INF;
    if (a == b) return 0;
    int x = at(a), y = at(b);
    return x < 0 || y < 0 ? INF : d(x, y);
  }
  void copy(int dst, int src, int64_t c) { // dst := src + c
    if (bot) return;
    if (dst == src) {
      int a = at(dst);
      if (a < 0) return;
      for (int i = 0; i < n(); ++i)
        if (i != a) {
          if (d(a, i) < INF) d(a, i) += c;
          if (d(i, a) < INF) d(i, a) -= c;
        }
      return;
    }
    forget(dst);
    le(dst, src, c);
    le(src, dst, -c);
  }
  bool join(const Dbm &o) { // returns changed
    if (o.bot) return false;
    if (bot) {
      *this = o;
      return true;
    }
    bool ch = false;
    for (int i = 0; i < n();) {
      if (o.at(ids[i]) < 0) {
        bool any = false;
        for (int j = 0; j < n(); ++j)
          if (j != i && (d(i, j) < INF || d(j, i) < INF)) any = true;
        ch |= any;
        forget(ids[i]);
      } else
        ++i;
    }
    for (int i = 0; i < n(); ++i)
      for (int j = 0; j < n(); ++j) {
        int64_t v = o.bound(ids[i], ids[j]);
        if (v > d(i, j)) d(i, j) = v, ch = true;
      }
    return ch;
  }
  void widen(const Dbm &old) { // entries that grew since old go to the next landmark
    if (bot || old.bot) return;
    static const int64_t marks[] = {-16, -8, -4, -2, -1, 0, 1, 2, 4, 8, 16};
    for (int i = 0; i < n(); ++i)
      for (int j = 0; j < n(); ++j)
        if (i != j && d(i, j) < INF && d(i, j) > old.bound(ids[i], ids[j])) {
          int64_t v = INF;
          for (int64_t k : marks)
            if (k >= d(i, j)) {
              v = k;
              break;
            }
          d(i, j) = v;
        }
  }
};

struct Rel {
  int a, b;
  int64_t c;
}; // a - b <= c

struct ParamInfo {
  std::string name;
  int kind = 0; // 1 char*, 2 char*& (or char**)
};

std::map<Argument *, ParamInfo> params_of(Function &F) {
  std::map<Argument *, ParamInfo> r;
  for (Instruction &I : instructions(F)) {
    auto *D = dyn_cast<DbgDeclareInst>(&I);
    if (!D) continue;
    auto *V = D->getVariable();
    if (!V->getArg() || D->getDebugLoc()->getInlinedAt()) continue;
    auto *A = dyn_cast_or_null<AllocaInst>(D->getAddress());
    if (!A) continue;
    Argument *arg = nullptr;
    for (User *U : A->users())
      if (auto *S = dyn_cast<StoreInst>(U))
        if (S->getPointerOperand() == A && isa<Argument>(S->getValueOperand())) arg = cast<Argument>(S->getValueOperand());
    if (!arg) continue;
    auto strip = [](const DIType *T) {
      while (auto *E = dyn_cast_or_null<DIDerivedType>(T)) {
        if (E->getTag() == dwarf::DW_TAG_const_type || E->getTag() == dwarf::DW_TAG_typedef || E->getTag() == dwarf::DW_TAG_volatile_type)
          T = E->getBaseType();
        else
          break;
      }
      return T;
    };
    auto is_char = [&](const DIType *T) {
      auto *B = dyn_cast_or_null<DIBasicType>(strip(T));
      return B && B->getSizeInBits() == 8 && (B->getEncoding() == dwarf::DW_ATE_signed_char || B->getEncoding() == dwarf::DW_ATE_unsigned_char);
    };
    auto *T = dyn_cast_or_null<DIDerivedType>(strip(V->getType()));
    if (!T) continue;
    ParamInfo P;
    P.name = V->getName().str();
    auto *B = strip(T->getBaseType());
    if (T->getTag() == dwarf::DW_TAG_pointer_type && is_char(B)) P.kind = 1;
    if (T->getTag() == dwarf::DW_TAG_reference_type)
      if (auto *Q = dyn_cast_or_null<DIDerivedType>(B))
        if (Q->getTag() == dwarf::DW_TAG_pointer_type && is_char(Q->getBaseType())) P.kind = 2;
    r[arg] = P;
  }
  return r;
}

struct Role {
  int cur = -1, end = -1; // argument numbers
  bool cur_ref = false, end_ref = false;
  int64_t gap = 0, grain = 1;
  std::vector<int> refs; // every char*& argument
};

// Postcondition of a function over: 0 = begin at entry, 1 = end at entry, 2+k = content of refs[k] at return
struct Summary {
  bool known = false;
  Dbm any, t, f;
  bool has_bool = false;
};

struct World {
  Module &M;
  std::map<Function *, std::optional<Role>> roles;
  std::map<Function *, Summary> sums;
  std::set<Function *> active;
  std::vector<std::tuple<std::regex, int64_t, int64_t>> gaps;
  std::map<std::string, int> stats;
  World(Module &M) : M(M) {}

  const Role *role(Function *F) {
    auto it = roles.find(F);
    if (it != roles.end()) return it->second ? &*it->second : nullptr;
    roles[F] = std::nullopt;
    if (F->isDeclaration()) return nullptr;
    std::string dn = demangle_(F->getName());
    if (!in_scope(F)) return nullptr;
    auto P = params_of(*F);
    std::vector<std::pair<Argument *, ParamInfo>> v;
    Role R;
    for (Argument &A : F->args()) {
      auto j = P.find(&A);
      if (j != P.end() && j->second.kind == 2) R.refs.push_back(A.getArgNo());
      v.push_back({&A, j == P.end() ? ParamInfo() : j->second});
    }
    bool tabled = false;
    for (auto &g : gaps) tabled |= std::get<1>(g) > 0 && std::regex_search(dn, std::get<0>(g));
    for (size_t i = 0; i + 1 < v.size(); ++i) {
      auto &a = v[i].second, &b = v[i + 1].second;
      if (tabled && a.kind && b.name.empty() && v[i + 1].first->getType()->isPointerTy()) { // an end that is not used has no name
        b.kind = 1;
        b.name = "end";
      }
      if (!a.kind || !b.kind || b.name.find("end") == std::string::npos) continue;
      if (a.name.find("end") != std::string::npos) continue;
      R.cur = i;
      R.end = i + 1;
      R.cur_ref = a.kind == 2;
      R.end_ref = b.kind == 2;
      if (R.cur_ref && R.end_ref) { // both are outputs unless the position is read
        bool read = false;
        for (Instruction &I : instructions(*F))
          if (auto *L = dyn_cast<LoadInst>(&I))
            if (auto *L2 = dyn_cast<LoadInst>(L->getPointerOperand()))
              if (auto *Al = dyn_cast<AllocaInst>(L2->getPointerOperand()))
                for (User *U : Al->users())
                  if (auto *S = dyn_cast<StoreInst>(U))
                    if (S->getValueOperand() == v[i].first) read = true;
        for (Instruction &I : instructions(*F)) // or handed on to another walker
          if (auto *C = dyn_cast<CallBase>(&I))
            for (Value *x : C->args())
              if (auto *L2 = dyn_cast<LoadInst>(x))
                if (auto *Al = dyn_cast<AllocaInst>(L2->getPointerOperand()))
                  for (User *U : Al->users())
                    if (auto *S = dyn_cast<StoreInst>(U))
                      if (S->getValueOperand() == v[i].first && C->getCalledFunction() && C->getCalledFunction() != F && role(C->getCalledFunction())) read = true;
        if (!read) {
          R.cur = R.end = -1;
          continue;
        }
      }
      break;
    }
    if (R.cur < 0) return nullptr;
    for (auto &g : gaps)
      if (std::regex_search(dn, std::get<0>(g))) R.gap = std::get<1>(g), R.grain = std::get<2>(g);
    roles[F] = R;
    return &*roles[F];
  }
  static bool in_scope(Function *F) {
    DISubprogram *S = F->getSubprogram();
    if (!S) return false;
    std::string p = S->getFilename().str(), d = S->getDirectory().str();
    if (p.empty() || p[0] != '/') p = d + "/" + p;
    return p.find("/dynd/") != std::string::npos && p.find("/thirdparty/") == std::string::npos;
  }
  const Summary &summary(Function *F);
};

struct Walk {
  World &W;
  Function &F;    // prepared copy
  Function *orig; // the function itself
  const Role *R;
  std::map<std::pair<int, const void *>, int> keys;
  std::vector<std::string> names;
  enum { SSA = 1, CELL = 2, PRE = 3, POST = 4 };
  int kB = 0, kE = 0;
  std::map<BasicBlock *, Dbm> in;
  std::set<const Value *> taint, vague, cells, vcell;
  std::map<const Value *, std::vector<std::pair<bool, Rel>>> facts; // of boolean or pointer-nonnull values
  std::map<const Value *, std::set<BasicBlock *>> livein;
  std::map<int, const Value *> owner; // key -> value that keeps it alive
  bool report = false;
  struct Res {
    bool ok;
    std::string kind, where, why;
  };
  std::map<std::string, Res> res;
  unsigned nobl = 0, nvague = 0;
  bool aborted = false;
  Summary out;

  Walk(World &W, Function &F, Function *orig, const Role *R) : W(W), F(F), orig(orig), R(R) {
    names.push_back("0");
  }
  int key(int kind, const void *p) {
    auto it = keys.find({kind, p});
    if (it != keys.end()) return it->second;
    int k = (int)names.size();
    names.push_back("");
    keys[{kind, p}] = k;
    return k;
  }
  int skey(const Value *v) {
    int k = key(SSA, v);
    owner[k] = v;
    return k;
  }
  // ---- syntactic facts ----
  void derive() {
    bool ch = true;
    auto mark = [&](std::set<const Value *> &s, const Value *v) {
      if (s.insert(v).second) ch = true;
    };
    if (R)
      for (Argument &A : F.args()) {
        if ((int)A.getArgNo() == R->cur || (int)A.getArgNo() == R->end) {
          bool ref = (int)A.getArgNo() == R->cur ? R->cur_ref : R->end_ref;
          if (!ref) taint.insert(&A);
        }
      }
    std::set<const Value *> tcell;
    for (Instruction &I : instructions(F))
      if (auto *A = dyn_cast<AllocaInst>(&I))
        if (A->getAllocatedType()->isPointerTy() && !A->isArrayAllocation()) cells.insert(A);
    if (R)
      for (int i : R->refs) cells.insert(F.getArg(i));
    if (R && R->cur_ref) tcell.insert(F.getArg(R->cur));
    if (R && R->end_ref) tcell.insert(F.getArg(R->end));
    for (const Value *c : cells) // a position whose address is kept somewhere can change unseen
      for (const User *U : c->users()) {
        auto *S = dyn_cast<StoreInst>(U);
        if ((S && S->getValueOperand() == c) || isa<PHINode>(U) || isa<SelectInst>(U) || isa<PtrToIntInst>(U) || isa<GetElementPtrInst>(U)) vcell.insert(c);
      }
    auto tainted = [&](const Value *v) { return taint.count(v) > 0; };
    auto bad = [&](const Value *v) { return isa<ConstantPointerNull>(v) ? false : vague.count(v) || !taint.count(v); };
    // first what is derived from the range, then what of it is not understood
    for (int phase = 0; phase < 2; ++phase) {
      ch = true;
      while (ch) {
        ch = false;
        for (Instruction &I : instructions(F)) {
          if (auto *L = dyn_cast<LoadInst>(&I)) {
            if (cells.count(L->getPointerOperand()) && tcell.count(L->getPointerOperand()) && L->getType()->isPointerTy()) {
              mark(taint, L);
              if (phase && vcell.count(L->getPointerOperand())) mark(vague, L);
            }
          } else if (auto *S = dyn_cast<StoreInst>(&I)) {
            if (!cells.count(S->getPointerOperand()) || !S->getValueOperand()->getType()->isPointerTy()) continue;
            if (tainted(S->getValueOperand())) mark(tcell, S->getPointerOperand());
            if (phase && tcell.count(S->getPointerOperand()) && bad(S->getValueOperand())) mark(vcell, S->getPointerOperand());
          } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
            if (!tainted(G->getPointerOperand())) continue;
            mark(taint, G);
            if (phase && (vague.count(G->getPointerOperand()) || (!offset(G) && !diff_offset(G)))) mark(vague, G);
          } else if (isa<PHINode>(I) || isa<SelectInst>(I) || isa<FreezeInst>(I)) {
            if (!I.getType()->isPointerTy()) continue;
            bool t = false, v = false;
            for (unsigned k = isa<SelectInst>(I) ? 1 : 0; k < I.getNumOperands(); ++k) {
              Value *o = I.getOperand(k);
              if (o == &I || isa<UndefValue>(o)) continue;
              t |= tainted(o);
              v |= bad(o);
            }
            if (t) mark(taint, &I);
            if (phase && t && (v || (isa<PHINode>(I) && counted_loop(cast<PHINode>(I))))) mark(vague, &I);
          } else if (auto *C = dyn_cast<CallBase>(&I)) {
            Function *cf = C->getCalledFunction();
            std::string n = cf ? cf->getName().str() : "";
            if (n == "memchr" && tainted(C->getArgOperand(0))) {
              mark(taint, C);
              if (phase && vague.count(C->getArgOperand(0))) mark(vague, C);
              continue;
            }
            if (isa<DbgInfoIntrinsic>(C) || isa<LifetimeIntrinsic>(C)) continue;
            const Role *r = cf ? W.role(cf) : nullptr;
            for (unsigned k = 0; k < C->arg_size(); ++k) {
              Value *a = C->getArgOperand(k);
              if (!cells.count(a)) continue;
              bool is = r && std::find(r->refs.begin(), r->refs.end(), (int)k) != r->refs.end();
              if (!is) {
                if (phase && !(!cf && indirect_walker(C) == (int)k)) mark(vcell, a);
                continue;
              }
              const Value *cv = C->getArgOperand(r->cur);
              bool t = r->cur_ref ? tcell.count(cv) > 0 : tainted(cv);
              bool v = r->cur_ref ? (!cells.count(cv) || vcell.count(cv)) : vague.count(cv) > 0;
              if (t) mark(tcell, a);
              if (!phase) continue;
              if (v) mark(vcell, a);
              const Summary &Y = W.summary(cf);
              size_t j = std::find(r->refs.begin(), r->refs.end(), (int)k) - r->refs.begin();
              if ((int)k != r->cur && (int)k != r->end && (!Y.known || (!Y.any.bot && Y.any.at(2 + (int)j) < 0 && Y.t.at(2 + (int)j) < 0))) mark(vcell, a);
            }
          }
        }
      }
    }
  }
  // p + n where n is a sum of differences between addresses
  bool diff_offset(const GetElementPtrInst *G) {
    if (G->getNumOperands() != 2 || !G->getSourceElementType()->isIntegerTy(8)) return false;
    Lin m;
    int64_t c = 0;
    if (!linear(G->getOperand(1), m, c, 1)) return false;
    int n = 0;
    for (auto &t : m) {
      if (t.second < -2 || t.second > 2) return false;
      n += t.second;
    }
    return n == 0;
  }
  typedef std::map<int, int64_t> Lin;
  // least known upper bound of m + c in S
  int64_t upper(const Dbm &S, const Lin &m, int64_t c) {
    std::vector<int> p, q;
    for (auto &t : m)
      for (int64_t k = 0; k < (t.second < 0 ? -t.second : t.second); ++k) (t.second > 0 ? p : q).push_back(t.first);
    if (p.size() != q.size() || p.size() > 4) return INF;
    int64_t best = INF;
    std::sort(q.begin(), q.end());
    do {
      int64_t v = c;
      for (size_t i = 0; i < p.size() && v < INF; ++i) {
        int64_t b = S.bound(p[i], q[i]);
        v = b >= INF ? INF : v + b;
      }
      best = std::min(best, v);
    } while (std::next_permutation(q.begin(), q.end()));
    return best;
  }
  // comparisons that hold whenever control is in a block, over more than two addresses
  std::map<const BasicBlock *, std::vector<std::pair<Lin, int64_t>>> wide; // m + c <= 0
  void wide_facts() {
    DominatorTree DT(F);
    for (BasicBlock &B : F) {
      auto *T = dyn_cast<BranchInst>(B.getTerminator());
      if (!T || !T->isConditional() || T->getSuccessor(0) == T->getSuccessor(1)) continue;
      auto *I = dyn_cast<ICmpInst>(T->getCondition());
      if (!I || I->isUnsigned() || !I->getOperand(0)->getType()->isIntegerTy(64)) continue;
      Lin m;
      int64_t c = 0;
      if (!linear(I->getOperand(0), m, c, 1) || !linear(I->getOperand(1), m, c, -1)) continue;
      for (auto i = m.begin(); i != m.end();) i = i->second ? std::next(i) : m.erase(i);
      if (m.size() <= 2) continue;
      for (unsigned s = 0; s < 2; ++s) {
        BasicBlockEdge E(&B, T->getSuccessor(s));
        auto pr = s ? I->getInversePredicate() : I->getPredicate();
        Lin f = m;
        int64_t k = c;
        auto neg = [&]() {
          for (auto &t : f) t.second = -t.second;
          k = -k;
        };
        if (pr == ICmpInst::ICMP_SLT)
          k += 1;
        else if (pr == ICmpInst::ICMP_SGE)
          neg();
        else if (pr == ICmpInst::ICMP_SGT)
          neg(), k += 1;
        else if (pr != ICmpInst::ICMP_SLE)
          continue;
        for (BasicBlock &D : F)
          if (DT.dominates(E, &D)) {
            wide[&D].push_back({f, k});
            for (auto &t : f)
              if (auto o = owner.find(t.first); o != owner.end() && isa<Instruction>(o->second)) livein[o->second].insert(&D);
          }
      }
    }
  }
  int64_t upper(const Dbm &S, const BasicBlock *B, Lin m, int64_t c) {
    for (auto i = m.begin(); i != m.end();) i = i->second ? std::next(i) : m.erase(i);
    int64_t best = upper(S, m, c);
    auto w = wide.find(B);
    if (w != wide.end())
      for (auto &f : w->second) {
        Lin r = m;
        for (auto &t : f.first) r[t.first] -= t.second;
        best = std::min(best, upper(S, r, c - f.second));
      }
    return best;
  }
  std::optional<int64_t> offset(const GetElementPtrInst *G) {
    APInt o(64, 0);
    if (!G->accumulateConstantOffset(F.getParent()->getDataLayout(), o)) return std::nullopt;
    return o.getSExtValue();
  }
  // ---- liveness of keys ----
  void liveness() {
    for (Instruction &I : instructions(F)) {
      if (!I.getType()->isPointerTy() && !I.getType()->isIntegerTy()) continue;
      std::set<BasicBlock *> &L = livein[&I];
      std::vector<BasicBlock *> wl;
      for (User *U : I.users()) {
        auto *J = dyn_cast<Instruction>(U);
        if (!J) continue;
        if (auto *P = dyn_cast<PHINode>(J)) {
          for (unsigned k = 0; k < P->getNumIncomingValues(); ++k)
            if (P->getIncomingValue(k) == &I && P->getIncomingBlock(k) != I.getParent()) wl.push_back(P->getIncomingBlock(k));
        } else if (J->getParent() != I.getParent())
          wl.push_back(J->getParent());
      }
      while (!wl.empty()) {
        BasicBlock *B = wl.back();
        wl.pop_back();
        if (B == I.getParent() || !L.insert(B).second) continue;
        for (BasicBlock *P : predecessors(B))
          if (P != I.getParent()) wl.push_back(P);
      }
    }
    // an address is needed as long as something computed from it is: integers and comparisons
    bool ch = true;
    while (ch) {
      ch = false;
      for (Instruction &I : instructions(F)) {
        if (!I.getType()->isIntegerTy() || isa<LoadInst>(I)) continue;
        auto &L = livein[&I];
        if (L.empty()) continue;
        for (Value *o : I.operands())
          if (auto *J = dyn_cast<Instruction>(o)) {
            auto &M = livein[J];
            for (BasicBlock *B : L)
              if (B != J->getParent() && M.insert(B).second) ch = true;
          }
      }
    }
  }
  void prune(Dbm &S, BasicBlock *B) {
    if (S.bot) return;
    for (int i = 0; i < S.n();) {
      auto o = owner.find(S.ids[i]);
      bool dead = false;
      if (o != owner.end() && isa<Instruction>(o->second)) {
        auto *I = cast<Instruction>(o->second);
        dead = I->getParent() != B && !livein[I].count(B);
        if (I->getParent() == B && !isa<PHINode>(I)) dead = true; // not computed yet
      }
      if (dead)
        S.forget(S.ids[i]);
      else
        ++i;
    }
  }
  // ---- expressions ----
  int kval(const Value *v) { return skey(v->stripPointerCasts()); }
  bool linear(const Value *v, std::map<int, int64_t> &m, int64_t &c, int64_t s, unsigned d = 0) {
    if (d > 12) return false;
    if (auto *C = dyn_cast<ConstantInt>(v)) {
      if (C->getBitWidth() > 64) return false;
      c += s * C->getSExtValue();
      return true;
    }
    auto *O = dyn_cast<Operator>(v);
    if (!O) return false;
    switch (O->getOpcode()) {
    case Instruction::PtrToInt:
      m[kval(O->getOperand(0))] += s;
      return true;
    case Instruction::Add: return linear(O->getOperand(0), m, c, s, d + 1) && linear(O->getOperand(1), m, c, s, d + 1);
    case Instruction::Sub: return linear(O->getOperand(0), m, c, s, d + 1) && linear(O->getOperand(1), m, c, -s, d + 1);
    default: return false;
    }
  }
  int64_t unit_c = 1;
  static int64_t unit_of(const Value *v) {
    auto *O = dyn_cast<PossiblyExactOperator>(v);
    auto *C = O && O->isExact() ? dyn_cast<ConstantInt>(O->getOperand(1)) : nullptr;
    if (!C) return 1;
    if (O->getOpcode() == Instruction::SDiv) return C->getSExtValue() > 1 ? C->getSExtValue() : 1;
    if (O->getOpcode() == Instruction::AShr) return C->getZExtValue() < 6 ? int64_t(1) << C->getZExtValue() : 1;
    return 1;
  }
  // a - b + c ? 0
  bool pair(const Value *l, const Value *r, int &a, int &b, int64_t &c) {
    std::map<int, int64_t> m;
    unit_c = 1;
    c = 0;
    if (l->getType()->isPointerTy()) {
      if (isa<ConstantPointerNull>(l) || isa<ConstantPointerNull>(r)) return false;
      m[kval(l)] += 1;
      m[kval(r)] -= 1;
    } else {
      // a count of units: an exact quotient
      int64_t kl = unit_of(l), kr = unit_of(r), ku = kl > 1 ? kl : kr;
      bool cl = isa<ConstantInt>(l), cr = isa<ConstantInt>(r);
      if (ku > 1 && ((kl == ku || cl) && (kr == ku || cr))) {
        if (!linear(cl ? l : cast<Operator>(l)->getOperand(0), m, c, cl ? ku : 1) || !linear(cr ? r : cast<Operator>(r)->getOperand(0), m, c, cr ? -ku : -1)) return false;
        unit_c = ku;
      } else if (!linear(l, m, c, 1) || !linear(r, m, c, -1))
        return false;
    }
    a = b = -1;
    for (auto &x : m) {
      if (!x.second) continue;
      if (x.second == 1 && a < 0)
        a = x.first;
      else if (x.second == -1 && b < 0)
        b = x.first;
      else
        return false;
    }
    return a >= 0 && b >= 0;
  }
  int64_t tight(int64_t c) {
    int64_t g = R ? R->grain : 1;
    if (g <= 1) return c;
    int64_t q = c / g * g;
    if (q > c) q -= g;
    return q;
  }
  void add(Dbm &S, int a, int b, int64_t c) { S.le(a, b, aligned(a) && aligned(b) ? tight(c) : c); }
  bool odd = false; // some offset is not a multiple of the unit
  bool aligned(int) { return !odd; }
  void refine(Dbm &S, const Value *c, bool truth, unsigned d = 0) {
    if (S.bot || d > 10) return;
    auto f = facts.find(c);
    if (f != facts.end())
      for (auto &p : f->second)
        if (p.first == truth) add(S, p.second.a, p.second.b, p.second.c);
    if (auto *C = dyn_cast<ConstantInt>(c)) {
      if (C->isOne() != truth) S.bot = true;
      return;
    }
    if (auto *I = dyn_cast<ICmpInst>(c)) {
      auto pr = I->getPredicate();
      if (!truth) pr = I->getInversePredicate();
      Value *l = I->getOperand(0), *r = I->getOperand(1);
      if (isa<ConstantPointerNull>(r) || isa<ConstantPointerNull>(l)) {
        Value *p = isa<ConstantPointerNull>(r) ? l : r;
        auto g = facts.find(p);
        if (g != facts.end())
          for (auto &q : g->second)
            if (q.first == (pr == ICmpInst::ICMP_NE)) add(S, q.second.a, q.second.b, q.second.c);
        return;
      }
      if (auto *C2 = dyn_cast<ConstantInt>(r))
        if (C2->isZero() && (pr == ICmpInst::ICMP_EQ || pr == ICmpInst::ICMP_NE) && !l->getType()->isIntegerTy(64)) {
          if (l->getType()->isIntegerTy(1)) return refine(S, l, pr == ICmpInst::ICMP_NE, d + 1);
          if (auto *Z = dyn_cast<ZExtInst>(l))
            if (Z->getOperand(0)->getType()->isIntegerTy(1)) return refine(S, Z->getOperand(0), pr == ICmpInst::ICMP_NE, d + 1);
        }
      int a, b;
      int64_t k;
      if (!pair(l, r, a, b, k)) return;
      // a - b + k pr 0
      int64_t un = unit_c;
      bool uns = I->isUnsigned() && !l->getType()->isPointerTy();
      switch (pr) {
      case ICmpInst::ICMP_EQ:
        add(S, a, b, -k);
        add(S, b, a, k);
        break;
      case ICmpInst::ICMP_NE:
        if (S.bound(a, b) <= -k) add(S, a, b, -k - 1);
        if (S.bound(b, a) <= k) add(S, b, a, k - 1);
        break;
      case ICmpInst::ICMP_ULT:
      case ICmpInst::ICMP_SLT:
      case ICmpInst::ICMP_ULE:
      case ICmpInst::ICMP_SLE:
      case ICmpInst::ICMP_UGT:
      case ICmpInst::ICMP_SGT:
      case ICmpInst::ICMP_UGE:
      case ICmpInst::ICMP_SGE: {
        if (uns && !isa<ConstantInt>(r) && !isa<ConstantInt>(l)) return;
        bool lt = pr == ICmpInst::ICMP_ULT || pr == ICmpInst::ICMP_SLT, le = pr == ICmpInst::ICMP_ULE || pr == ICmpInst::ICMP_SLE,
             gt = pr == ICmpInst::ICMP_UGT || pr == ICmpInst::ICMP_SGT;
        if (uns) {
          // the variable side is a difference; as an unsigned number it is itself only when not negative
          bool left = isa<ConstantInt>(r); // (x pr const)
          auto *K = cast<ConstantInt>(left ? r : l);
          if (K->getSExtValue() < 0) return;
          bool small = left ? (lt || le) : (gt || (!lt && !le && !gt));
          if (small) { // 0 <= difference
            std::map<int, int64_t> m;
            int64_t c0 = 0;
            if (!linear(left ? l : r, m, c0, 1)) return;
            int p = -1, q = -1;
            for (auto &x : m)
              if (x.second == 1)
                p = x.first;
              else if (x.second == -1)
                q = x.first;
            if (p < 0 || q < 0) return;
            add(S, q, p, c0);
          } else {
            int x = left ? a : b, y = left ? b : a;
            if (S.bound(y, x) > 0) return; // difference may be negative
          }
        }
        if (lt || le)
          add(S, a, b, lt ? -k - un : -k);
        else
          add(S, b, a, gt ? k - un : k);
        break;
      }
      default: break;
      }
      return;
    }
    if (auto *O = dyn_cast<Operator>(c)) {
      if (O->getOpcode() == Instruction::Xor)
        if (auto *K = dyn_cast<ConstantInt>(O->getOperand(1)))
          if (K->isOne()) return refine(S, O->getOperand(0), !truth, d + 1);
      if ((O->getOpcode() == Instruction::And && truth) || (O->getOpcode() == Instruction::Or && !truth)) {
        refine(S, O->getOperand(0), truth, d + 1);
        refine(S, O->getOperand(1), truth, d + 1);
        return;
      }
      if (O->getOpcode() == Instruction::And || O->getOpcode() == Instruction::Or) {
        Dbm T = S;
        refine(S, O->getOperand(0), truth, d + 1);
        refine(T, O->getOperand(1), truth, d + 1);
        S.join(T);
        return;
      }
      if (O->getOpcode() == Instruction::ZExt || O->getOpcode() == Instruction::Trunc || O->getOpcode() == Instruction::Freeze) {
        if (O->getOperand(0)->getType()->isIntegerTy(1) || O->getOpcode() == Instruction::Freeze) return refine(S, O->getOperand(0), truth, d + 1);
        if (O->getOpcode() == Instruction::Trunc)
        {
          if (auto *Z = dyn_cast<ZExtInst>(O->getOperand(0))) return refine(S, Z->getOperand(0), truth, d + 1);
          auto g = facts.find(O->getOperand(0)); // a flag kept in a byte
          if (g != facts.end() && isa<PHINode>(O->getOperand(0)))
            for (auto &q : g->second)
              if (q.first == truth) add(S, q.second.a, q.second.b, q.second.c);
          return;
        }
      }
      if (auto *X = dyn_cast<SelectInst>(O)) {
        // c ? x : y
        Dbm T = S;
        refine(S, X->getCondition(), true, d + 1);
        refine(S, X->getTrueValue(), truth, d + 1);
        refine(T, X->getCondition(), false, d + 1);
        refine(T, X->getFalseValue(), truth, d + 1);
        S.join(T);
        return;
      }
    }
  }
  // ---- obligations ----
  std::string bnd(int64_t v) { return v >= INF ? "unknown" : std::to_string(v); }
  void oblige(const Instruction *I, const std::string &kind, bool ok, const std::string &why) {
    if (!report) return;
    ++nobl;
    std::string w = I ? where_of(I) : where_fn(orig);
    auto k = kind + "|" + w;
    auto it = res.find(k);
    if (it == res.end())
      res[k] = {ok, kind, w, why};
    else if (!ok && it->second.ok)
      it->second = {ok, kind, w, why};
  }
  // [p, p+n) inside the range
  void access(Dbm &S, const Instruction *I, const Value *p, int64_t n, const char *what) {
    if (!R || !taint.count(p)) return;
    if (vague.count(p)) {
      if (report) ++nvague;
      return;
    }
    if (S.bot) return;
    int k = kval(p);
    int64_t hi = S.bound(k, kE), lo = S.bound(kB, k);
    oblige(I, what, hi <= -n, std::string("may be up to ") + (hi >= INF ? "any number of" : std::to_string(hi + n)) + " byte(s) past the end of the range");
    oblige(I, std::string(what) + "-before", lo <= 0, "may be before the beginning of the range");
  }
  // q..e inside the range, in order
  void range(Dbm &S, const Instruction *I, const Value *q, const Value *e, const char *what) {
    if (!R || S.bot) return;
    if (!taint.count(q) || !taint.count(e)) return;
    if (vague.count(q) || vague.count(e)) {
      if (report) ++nvague;
      return;
    }
    int a = kval(q), b = kval(e);
    oblige(I, what, S.bound(b, kE) <= 0, "end of the piece may be past the end of the range");
    oblige(I, std::string(what) + "-before", S.bound(kB, a) <= 0, "beginning of the piece may be before the range");
    oblige(I, std::string(what) + "-order", S.bound(a, b) <= 0, "the piece may end before it begins");
  }
  // p, count n
  void counted(Dbm &S, const Instruction *I, const Value *p, const Value *n, const char *what) {
    if (!R || S.bot || !taint.count(p)) return;
    if (vague.count(p)) {
      if (report) ++nvague;
      return;
    }
    if (auto *C = dyn_cast<ConstantInt>(n)) return C->isZero() ? (void)0 : access(S, I, p, C->getSExtValue(), what);
    std::map<int, int64_t> m;
    int64_t c = 0;
    if (!linear(n, m, c, 1)) {
      if (report) ++nvague;
      return;
    }
    // p + n - E <= 0 ; n >= 0
    int P = kval(p), sum = 0;
    for (auto &t : m) sum += t.second;
    if (sum) {
      if (report) ++nvague;
      return;
    }
    Lin hi = m, lo;
    hi[P] += 1;
    hi[kE] -= 1;
    for (auto &t : m) lo[t.first] = -t.second;
    oblige(I, what, upper(S, I->getParent(), hi, c) <= 0, "the bytes named may extend past the end of the range");
    oblige(I, std::string(what) + "-order", upper(S, I->getParent(), lo, -c) <= 0, "the byte count may be negative");
    oblige(I, std::string(what) + "-before", S.bound(kB, P) <= 0, "may be before the beginning of the range");
  }
  bool known(const Value *p) { return taint.count(p) && !vague.count(p); }

  void call(Dbm &S, CallBase *C) {
    Function *cf = C->getCalledFunction();
    if (isa<DbgInfoIntrinsic>(C) || isa<LifetimeIntrinsic>(C)) return;
    std::string n = cf ? cf->getName().str() : "", dn = cf ? demangle_(n) : "";
    auto pair_rel = [&](const Value *who, bool t, Rel r) { facts[who].push_back({t, r}); };
    if (n == "memchr") {
      Value *p = C->getArgOperand(0);
      counted(S, C, p, C->getArgOperand(2), "memchr");
      int r = skey(C);
      S.forget(r);
      facts.erase(C);
      if (known(p)) {
        pair_rel(C, true, {kval(p), r, 0});
        std::map<int, int64_t> m;
        int64_t c = 0;
        if (linear(C->getArgOperand(2), m, c, 1)) {
          int x = -1, y = -1;
          for (auto &t : m)
            if (t.second == 1)
              x = t.first;
            else if (t.second == -1)
              y = t.first;
          if (x >= 0 && y == kval(p)) pair_rel(C, true, {r, x, c - 1});
        }
      }
      return;
    }
    if (n == "memcmp" || n == "bcmp" || n == "strncmp" || n == "strncasecmp" || n == "strnlen") {
      if (n == "strnlen") return counted(S, C, C->getArgOperand(0), C->getArgOperand(1), "memcmp");
      counted(S, C, C->getArgOperand(0), C->getArgOperand(2), "memcmp");
      counted(S, C, C->getArgOperand(1), C->getArgOperand(2), "memcmp");
      return;
    }
    if (auto *MI = dyn_cast<MemIntrinsic>(C)) {
      counted(S, C, MI->getRawDest(), MI->getLength(), "memory write");
      if (auto *MT = dyn_cast<MemTransferInst>(C)) counted(S, C, MT->getRawSource(), MT->getLength(), "memory read");
      return;
    }
    static const std::set<std::string> cstr = {"strtod", "strtof", "strtol", "strtoul", "strtoll", "strtoull", "strtold", "atoi", "atol", "atoll", "atof",
                                               "strlen", "strcmp", "strchr", "strstr", "strcpy", "strcasecmp", "sscanf", "__isoc99_sscanf", "__isoc23_strtol", "__isoc23_strtoul", "__isoc23_strtoll", "__isoc23_strtoull"};
    bool zterm = cstr.count(n) > 0;
    bool stdfn = StringRef(n).starts_with("_ZNS") || StringRef(n).starts_with("_ZNKS") || StringRef(n).starts_with("_ZStls") || StringRef(n).starts_with("_ZStpl");
    if (stdfn && (dn.find("basic_string<") != std::string::npos || dn.find("operator<<") != std::string::npos)) {
      // (this, char const*) or (this, char const*, allocator)
      size_t p = dn.rfind("(char const*)"), q = dn.rfind("(char const*, std::allocator<char> const&)");
      if (p != std::string::npos || q != std::string::npos || dn.find("&, char const*)") != std::string::npos) zterm = true;
    }
    if (zterm && R) {
      for (Value *a : C->args())
        if (a->getType()->isPointerTy() && known(a)) oblige(C, "terminator", false, "characters of the range are handed to " + (dn.empty() ? n : dn.substr(0, 80)) + ", which reads until a terminating zero");
    }
    if (stdfn && dn.find("basic_string<") != std::string::npos) {
      for (unsigned k = 0; k + 1 < C->arg_size(); ++k) {
        Value *a = C->getArgOperand(k), *b = C->getArgOperand(k + 1);
        if (a->getType()->isPointerTy() && b->getType()->isPointerTy())
          range(S, C, a, b, "string range");
        else if (a->getType()->isPointerTy() && b->getType()->isIntegerTy(64))
          counted(S, C, a, b, "string range");
      }
    }
    if (dn.find("ostream::write(") != std::string::npos || dn.find(">::write(char const*, long)") != std::string::npos)
      if (C->arg_size() == 3) counted(S, C, C->getArgOperand(1), C->getArgOperand(2), "write");
    const Role *r = cf ? W.role(cf) : nullptr;
    if (C->getType()->isPointerTy()) S.forget(skey(C));
    auto drop_cells = [&]() {
      for (Value *a : C->args())
        if (cells.count(a)) S.forget(key(CELL, a));
    };
    // decoding or encoding through a selected function: (position&, end) or (code point, position&, end)
    if (!cf && C->isIndirectCall()) {
      unsigned k = C->getType()->isIntegerTy(32) && C->arg_size() == 2 ? 0 : C->getType()->isVoidTy() && C->arg_size() == 3 && C->getArgOperand(0)->getType()->isIntegerTy(32) ? 1 : 99;
      if (k < 9 && cells.count(C->getArgOperand(k)) && C->getArgOperand(k + 1)->getType()->isPointerTy() && !is_virtual(C)) {
        const Value *cell = C->getArgOperand(k);
        int pk = key(CELL, cell), ek = kval(C->getArgOperand(k + 1));
        W.stats["indirect"]++;
        if (S.bound(pk, ek) > -1 && remade(C->getArgOperand(k + 1), C)) { // a buffer just made larger: its new room is not tracked
          if (report) ++nvague;
        } else
        oblige(C, "room", S.bound(pk, ek) <= -1, "the code-point function is called although the position may already be at the end");
        int pre = key(PRE, C);
        owner[pre] = C;
        S.copy(pre, pk, 0);
        S.forget(pk);
        S.le(pre, pk, 0);
        S.le(pk, ek, 0);
        S.forget(pre);
        return;
      }
    }
    if (!cf)
      if (int k = indirect_walker(C); k >= 0) {
        const Value *cell = C->getArgOperand(k), *ev = C->getArgOperand(k + 1);
        int pk = key(CELL, cell), ek = kval(ev);
        if (R && judged_cell(cell) && known(ev) && !S.bot) {
          oblige(C, "call", S.bound(pk, ek) <= 0, "called with a position that may be past the end");
          oblige(C, "call-before", S.bound(kB, pk) <= 0, "called with a position before the range");
          oblige(C, "call-end", S.bound(ek, kE) <= 0, "called with an end that may be past the end of the range");
        }
        int pre = key(PRE, C);
        owner[pre] = C;
        S.copy(pre, pk, 0);
        S.le(pre, ek, 0);
        drop_cells();
        S.le(pre, pk, 0);
        S.le(pk, ek, 0);
        S.forget(pre);
        if (C->getType()->isPointerTy()) S.forget(skey(C));
        return;
      }
    if (!r) {
      drop_cells();
      return;
    }
    // a function with its own contract
    const Summary &Y = W.summary(cf);
    const Value *cv = C->getArgOperand(r->cur), *ev = C->getArgOperand(r->end);
    bool ck = r->cur_ref ? cells.count(cv) > 0 : true, ek = r->end_ref ? cells.count(ev) > 0 : true;
    if (!ck || !ek) {
      drop_cells();
      return;
    }
    int pk = r->cur_ref ? key(CELL, cv) : kval(cv), qk = r->end_ref ? key(CELL, ev) : kval(ev);
    bool judged = R && (r->cur_ref ? judged_cell(cv) : known(cv)) && (r->end_ref ? judged_cell(ev) : known(ev));
    if (judged && !S.bot) {
      oblige(C, "call", S.bound(pk, qk) <= -r->gap, r->gap ? "called although fewer bytes than one unit may remain" : "called with a position that may be past the end");
      oblige(C, "call-before", S.bound(kB, pk) <= 0, "called with a position before the range");
      oblige(C, "call-end", S.bound(qk, kE) <= 0, "called with an end that may be past the end of the range");
    }
    int pre = key(PRE, C), pend = key(POST, (const char *)C + 0);
    owner[pre] = owner[pend] = C;
    S.copy(pre, pk, 0);
    S.copy(pend, qk, 0);
    S.le(pre, pend, -r->gap); // from here on the contract holds
    // cells after the call
    std::vector<int> post{pre, pend};
    for (size_t j = 0; j < r->refs.size(); ++j) {
      const Value *a = C->getArgOperand(r->refs[j]);
      int g = key(POST, (const char *)C + 1 + j);
      owner[g] = C;
      S.forget(g);
      post.push_back(g);
      if (cells.count(a)) S.forget(key(CELL, a));
    }
    auto apply = [&](const Dbm &D, std::function<void(Rel)> f) {
      if (D.bot) return;
      for (int i = 0; i < D.n(); ++i)
        for (int j = 0; j < D.n(); ++j)
          if (i != j && D.d(i, j) < INF) f({post[D.ids[i]], post[D.ids[j]], D.d(i, j)});
    };
    facts.erase(C);
    if (Y.known) {
      if (Y.any.bot) { // never returns
        S.bot = true;
        return;
      }
      apply(Y.any, [&](Rel x) { S.le(x.a, x.b, x.c); });
      if (Y.has_bool) {
        apply(Y.t, [&](Rel x) { pair_rel(C, true, x); });
        apply(Y.f, [&](Rel x) { pair_rel(C, false, x); });
        if (Y.t.bot) pair_rel(C, true, {pre, pre, -1});
        if (Y.f.bot) pair_rel(C, false, {pre, pre, -1});
      }
    }
    // what every walker has to establish for itself
    for (size_t j = 0; j < r->refs.size(); ++j)
      if (r->refs[j] == r->cur || r->refs[j] == r->end) {
        S.le(pre, post[2 + j], 0);
        S.le(post[2 + j], pend, 0);
      }
    for (size_t j = 0; j < r->refs.size(); ++j) {
      const Value *a = C->getArgOperand(r->refs[j]);
      if (cells.count(a)) S.copy(key(CELL, a), post[2 + j], 0);
    }
    if (!C->getType()->isIntegerTy(1)) {
      S.forget(pre);
      S.forget(pend);
      for (size_t j = 2; j < post.size(); ++j) S.forget(post[j]);
    }
  }
  // position stepped along in a loop that runs for a number of rounds: how far it gets is not tracked
  std::map<const Loop *, int> counted_;
  bool counted_loop(const PHINode &P) {
    const Loop *L = LI->getLoopFor(P.getParent());
    if (!L || L->getHeader() != P.getParent()) return false;
    auto it = counted_.find(L);
    if (it != counted_.end()) return it->second;
    int &r = counted_[L];
    r = 0;
    for (PHINode &N : L->getHeader()->phis()) {
      if (!N.getType()->isIntegerTy() || N.getType()->isIntegerTy(1)) continue;
      bool step = false;
      for (Value *v : N.incoming_values())
        if (auto *O = dyn_cast<BinaryOperator>(v))
          step |= (O->getOpcode() == Instruction::Add || O->getOpcode() == Instruction::Sub) && O->getOperand(0) == &N && isa<ConstantInt>(O->getOperand(1));
      if (!step) continue;
      SmallVector<BasicBlock *, 8> ex;
      L->getExitingBlocks(ex);
      for (BasicBlock *B : ex)
        if (auto *T = dyn_cast<BranchInst>(B->getTerminator()))
          if (auto *I = dyn_cast_or_null<ICmpInst>(T->isConditional() ? T->getCondition() : nullptr))
            for (Value *o : I->operands()) {
              auto *J = dyn_cast<Instruction>(o);
              if (J == &N || (J && isa<BinaryOperator>(J) && J->getOperand(0) == &N)) r = 1;
            }
    }
    return r;
  }
  // the end was obtained anew since the loop was entered
  bool remade(const Value *e, const Instruction *at) {
    auto *I = dyn_cast<Instruction>(e->stripPointerCasts());
    if (!I || isa<PHINode>(I)) return false;
    const Loop *L = LI->getLoopFor(at->getParent());
    if (!L) { // a single character in a field whose size is not known here
      auto *G = dyn_cast<GetElementPtrInst>(I);
      return !R && G && !offset(G);
    }
    if (auto *D = dyn_cast<LoadInst>(I))
      if (auto *A = dyn_cast<AllocaInst>(D->getPointerOperand())) { // kept in a variable
        for (const User *U : A->users())
          if (auto *S = dyn_cast<StoreInst>(U))
            if (L->contains(S->getParent())) return true;
        return false;
      }
    return L->contains(I->getParent());
  }
  std::unique_ptr<LoopInfo> LI;
  // a walker called through a table: its (position&, end) are two neighbouring arguments, end being a char pointer
  int indirect_walker(const CallBase *C) {
    if (C->getCalledFunction() || C->arg_size() < 3) return -1;
    int r = -1;
    for (unsigned k = 0; k + 1 < C->arg_size(); ++k) {
      const Value *a = C->getArgOperand(k), *b = C->getArgOperand(k + 1);
      if (cells.count(a) && b->getType()->isPointerTy() && !cells.count(b) && taint.count(b) && !isa<Constant>(b)) {
        if (r >= 0) return -1;
        r = (int)k;
      }
    }
    return r;
  }
  bool judged_cell(const Value *c) { return !vcell.count(c); }
  static bool is_virtual(CallBase *C) {
    // callee loaded from a table that was itself loaded from the first argument
    if (auto *L = dyn_cast<LoadInst>(C->getCalledOperand())) {
      const Value *p = L->getPointerOperand()->stripInBoundsConstantOffsets();
      if (auto *L2 = dyn_cast<LoadInst>(p))
        if (L2->getPointerOperand() == C->getArgOperand(0)) return true;
    }
    return false;
  }
  void exec(Dbm &S, Instruction &I) {
    if (S.bot) return;
    if (auto *L = dyn_cast<LoadInst>(&I)) {
      access(S, L, L->getPointerOperand(), F.getParent()->getDataLayout().getTypeStoreSize(L->getType()), "read");
      if (L->getType()->isPointerTy() && cells.count(L->getPointerOperand()))
        S.copy(skey(L), key(CELL, L->getPointerOperand()), 0);
      else if (L->getType()->isPointerTy())
        S.forget(skey(L));
    } else if (auto *T = dyn_cast<StoreInst>(&I)) {
      access(S, T, T->getPointerOperand(), F.getParent()->getDataLayout().getTypeStoreSize(T->getValueOperand()->getType()), "write");
      if (cells.count(T->getPointerOperand())) {
        if (T->getValueOperand()->getType()->isPointerTy() && !isa<Constant>(T->getValueOperand()))
          S.copy(key(CELL, T->getPointerOperand()), kval(T->getValueOperand()), 0);
        else
          S.forget(key(CELL, T->getPointerOperand()));
      }
    } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
      auto o = offset(G);
      if (o) {
        S.copy(skey(G), kval(G->getPointerOperand()), *o);
      } else {
        // p + (a - b) + ... with a, b pointers
        int g = skey(G);
        S.forget(g);
        Lin m;
        int64_t c = 0;
        if (G->getNumOperands() == 2 && G->getSourceElementType()->isIntegerTy(8) && linear(G->getOperand(1), m, c, 1)) {
          int p = kval(G->getPointerOperand());
          m[p] += 1;
          for (auto i = m.begin(); i != m.end();) i = i->second ? std::next(i) : m.erase(i);
          if (m.size() == 1 && m.begin()->second == 1)
            S.copy(g, m.begin()->first, c);
          else if (R)
            for (int k : {kB, kE, p}) {
              Lin u = m, l;
              u[k] -= 1;
              for (auto &t : u) l[t.first] = -t.second;
              int64_t a = upper(S, G->getParent(), u, c), b = upper(S, G->getParent(), l, -c);
              if (a < INF) S.le(g, k, a);
              if (b < INF) S.le(k, g, b);
            }
        }
      }
    } else if (auto *X = dyn_cast<SelectInst>(&I)) {
      if (!X->getType()->isPointerTy()) return;
      Dbm T = S;
      refine(S, X->getCondition(), true);
      refine(T, X->getCondition(), false);
      auto set = [&](Dbm &D, Value *v) { isa<Constant>(v) ? D.forget(skey(X)) : D.copy(skey(X), kval(v), 0); };
      set(S, X->getTrueValue());
      set(T, X->getFalseValue());
      if (S.bot)
        S = T;
      else
        S.join(T);
    } else if (auto *Z = dyn_cast<FreezeInst>(&I)) {
      if (Z->getType()->isPointerTy()) S.copy(skey(Z), kval(Z->getOperand(0)), 0);
    } else if (auto *C = dyn_cast<CallBase>(&I)) {
      call(S, C);
    } else if (I.getType()->isPointerTy() && !isa<PHINode>(I))
      S.forget(skey(&I));
  }
  void phis(Dbm &S, BasicBlock *from, BasicBlock *to) {
    // simultaneous: copy to temporaries first
    std::vector<std::pair<const PHINode *, int>> tmp;
    int t = -2;
    for (PHINode &P : to->phis()) {
      if (!P.getType()->isPointerTy()) continue;
      Value *v = P.getIncomingValueForBlock(from);
      if (!isa<Constant>(v)) S.copy(t, kval(v), 0), tmp.push_back({&P, t});
      else tmp.push_back({&P, 0});
      --t;
    }
    for (auto &x : tmp) {
      int k = skey(x.first);
      S.forget(k);
    }
    for (auto &x : tmp) {
      if (x.second) {
        S.copy(skey(x.first), x.second, 0);
        S.forget(x.second);
      }
    }
    // flags: what holds on the edges that set the flag to true or to false is remembered until the flag is tested
    for (PHINode &P : to->phis()) {
      if (!P.getType()->isIntegerTy(1) && !P.getType()->isIntegerTy(8)) continue;
      auto *C = dyn_cast<ConstantInt>(P.getIncomingValueForBlock(from));
      bool consts = true, far = false;
      for (Value *v : P.incoming_values()) consts &= isa<ConstantInt>(v);
      for (User *U : P.users()) far |= cast<Instruction>(U)->getParent() != to;
      if (!C || !consts || !far) continue;
      std::map<int, int> keep{{kB, kB}, {kE, kE}};
      unsigned n = 0;
      for (const Value *c : cells) {
        int k = key(CELL, c), g = key(PRE, (const char *)&P + 1 + n++);
        owner[g] = &P;
        if (n > 40) break;
        S.copy(g, k, 0);
        keep[g] = g;
      }
      Dbm D = S;
      for (int i = 0; i < D.n();) {
        if (!keep.count(D.ids[i]))
          D.forget(D.ids[i]);
        else
          ++i;
      }
      auto &part = parts[&P];
      if (!part.count(C->isZero())) part[C->isZero()].bot = true;
      part[C->isZero()].join(D);
      auto &f = facts[&P];
      f.clear();
      for (auto &q : part)
        for (int i = 0; i < q.second.n(); ++i)
          for (int j = 0; j < q.second.n(); ++j)
            if (i != j && q.second.d(i, j) < INF) f.push_back({!q.first, {q.second.ids[i], q.second.ids[j], q.second.d(i, j)}});
    }
  }
  std::map<const PHINode *, std::map<bool, Dbm>> parts;
  void edge(Dbm &S, BasicBlock *from, BasicBlock *to) {
    Instruction *T = from->getTerminator();
    if (auto *B = dyn_cast<BranchInst>(T)) {
      if (B->isConditional() && B->getSuccessor(0) != B->getSuccessor(1)) refine(S, B->getCondition(), B->getSuccessor(0) == to);
    } else if (auto *X = dyn_cast<SwitchInst>(T)) {
      std::map<int, int64_t> m;
      int64_t c = 0;
      if (linear(X->getCondition(), m, c, 1)) {
        int p = -1, q = -1;
        bool good = true;
        for (auto &t : m)
          if (t.second == 1 && p < 0)
            p = t.first;
          else if (t.second == -1 && q < 0)
            q = t.first;
          else if (t.second)
            good = false;
        if (good && p >= 0 && q >= 0) {
          // p - q + c == case
          if (X->getDefaultDest() != to) {
            Dbm acc;
            acc.bot = true;
            for (auto &k : X->cases())
              if (k.getCaseSuccessor() == to) {
                Dbm D = S;
                int64_t v = k.getCaseValue()->getSExtValue();
                D.le(p, q, v - c);
                D.le(q, p, c - v);
                acc.join(D);
              }
            S = acc;
          } else {
            for (bool again = true; again;) {
              again = false;
              for (auto &k : X->cases())
                if (k.getCaseSuccessor() != to) {
                  int64_t v = k.getCaseValue()->getSExtValue();
                  if (S.bound(p, q) == v - c) S.le(p, q, v - c - 1), again = true;
                  if (S.bound(q, p) == c - v) S.le(q, p, c - v - 1), again = true;
                  if (S.bot) again = false;
                }
            }
          }
        }
      }
    }
    if (!S.bot) phis(S, from, to);
  }
  void ret(Dbm &S, ReturnInst *Rt, const Value *v) {
    if (S.bot || !R) return;
    for (int i : R->refs) {
      bool cur = i == R->cur, end = i == R->end;
      if (!cur && !end) continue;
      const Value *c = F.getArg(i);
      int k = key(CELL, c);
      if (vcell.count(c)) {
        if (report) ++nvague;
        continue;
      }
      oblige(nullptr, cur ? "position after" : "end after", S.bound(k, kE) <= 0, "the position handed back may be past the end of the range");
      oblige(nullptr, cur ? "position after-before" : "end after-before", S.bound(kB, k) <= 0, "the position handed back may be before where it started");
      if (cur && R->gap) oblige(nullptr, "progress", S.bound(kB, k) < 0, "returns without moving forward, so a loop over the text never ends");
    }
    // summary
    Dbm D = S;
    std::map<int, int> keep{{kB, 0}, {kE, 1}};
    for (size_t j = 0; j < R->refs.size(); ++j) {
      int k = key(CELL, F.getArg(R->refs[j]));
      if (!vcell.count(F.getArg(R->refs[j]))) keep[k] = 2 + (int)j;
    }
    for (int i = 0; i < D.n();) {
      if (!keep.count(D.ids[i]))
        D.forget(D.ids[i]);
      else
        ++i;
    }
    for (int &x : D.ids) x = keep[x];
    out.any.join(D);
    if (out.has_bool && v) {
      if (auto *C = dyn_cast<ConstantInt>(v))
        (C->isOne() ? out.t : out.f).join(D);
      else {
        out.t.join(D);
        out.f.join(D);
      }
    }
  }
  std::string kname(int k) {
    for (auto &x : keys)
      if (x.second == k) {
        std::string s = x.first.first == SSA ? "v" : x.first.first == CELL ? "*" : x.first.first == PRE ? "pre" : "post";
        if (k == kB) return "B";
        if (k == kE) return "E";
        raw_string_ostream o(s);
        if (x.first.first == PRE || x.first.first == POST) o << x.first.second;
        else ((const Value *)x.first.second)->printAsOperand(o, false);
        return o.str();
      }
    return std::to_string(k);
  }
  void dump(const Dbm &S, const char *t) {
    errs() << t << (S.bot ? " bot" : "") << "\n";
    for (int i = 0; i < S.n(); ++i)
      for (int j = 0; j < S.n(); ++j)
        if (i != j && S.d(i, j) < INF) errs() << "   " << kname(S.ids[i]) << " - " << kname(S.ids[j]) << " <= " << S.d(i, j) << "\n";
  }
  void run() {
    for (Instruction &I : instructions(F))
      if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
        auto o = offset(G);
        if (R && R->grain > 1 && (!o || *o % R->grain)) odd = true;
      }
    DominatorTree DT0(F);
    LI.reset(new LoopInfo(DT0));
    derive();
    liveness();
    wide_facts();
    kB = key(CELL, nullptr);
    kE = key(PRE, nullptr);
    Dbm S0;
    if (R) {
      S0.le(kB, kE, -R->gap);
      Argument *c = F.getArg(R->cur), *e = F.getArg(R->end);
      S0.copy(R->cur_ref ? key(CELL, c) : skey(c), kB, 0);
      S0.copy(R->end_ref ? key(CELL, e) : skey(e), kE, 0);
    }
    out.any.bot = out.t.bot = out.f.bot = true;
    out.has_bool = F.getReturnType()->isIntegerTy(1);
    std::map<BasicBlock *, unsigned> visits;
    DominatorTree DT(F);
    std::set<BasicBlock *> heads;
    std::map<BasicBlock *, unsigned> rpo;
    std::vector<BasicBlock *> order;
    {
      std::set<BasicBlock *> seen;
      std::function<void(BasicBlock *)> dfs = [&](BasicBlock *B) {
        seen.insert(B);
        for (BasicBlock *N : successors(B))
          if (!seen.count(N)) dfs(N);
        order.push_back(B);
      };
      dfs(&F.getEntryBlock());
      std::reverse(order.begin(), order.end());
      for (unsigned i = 0; i < order.size(); ++i) rpo[order[i]] = i;
      for (BasicBlock *B : order)
        for (BasicBlock *P : predecessors(B))
          if (rpo.count(P) && rpo[P] >= rpo[B]) heads.insert(B);
    }
    in[&F.getEntryBlock()] = S0;
    std::set<std::pair<unsigned, BasicBlock *>> wl{{0, &F.getEntryBlock()}};
    unsigned steps = 0;
    while (!wl.empty()) {
      if (++steps > 60000) {
        aborted = true;
        break;
      }
      BasicBlock *B = wl.begin()->second;
      wl.erase(wl.begin());
      Dbm S = in[B];
      for (Instruction &I : *B) exec(S, I);
      if (S.bot) continue;
      std::set<BasicBlock *> done;
      for (BasicBlock *N : successors(B)) {
        if (!done.insert(N).second) continue;
        Dbm T = S;
        edge(T, B, N);
        if (T.bot) continue;
        prune(T, N);
        auto it = in.find(N);
        bool ch;
        if (it == in.end()) {
          in[N] = T;
          ch = true;
        } else {
          Dbm old = it->second;
          ch = it->second.join(T);
          if (ch && heads.count(N) && ++visits[N] > 6) it->second.widen(old);
          if (visits[N] > 60) {
            aborted = true;
            return;
          }
        }
        if (ch) wl.insert({rpo[N], N});
      }
    }
    if (aborted) return;
    report = true;
    for (BasicBlock *B : order) {
      auto it = in.find(B);
      if (it == in.end()) continue;
      Dbm S = it->second;
      if (getenv("SA_STATE") && demangle_(F.getName()).find(getenv("SA_STATE")) != std::string::npos) {
        B->printAsOperand(errs(), false);
        dump(S, " in:");
      }
      auto *Rt = dyn_cast<ReturnInst>(B->getTerminator());
      for (Instruction &I : *B) exec(S, I);
      if (getenv("SA_STATE") && demangle_(F.getName()).find(getenv("SA_STATE")) != std::string::npos) dump(S, " out:");
      if (!Rt) continue;
      Value *v = Rt->getReturnValue();
      // a merged return: one summary contribution per incoming edge
      auto *P = v ? dyn_cast<PHINode>(v) : nullptr;
      if (P && P->getParent() == B && out.has_bool) {
        bool rep = report;
        for (unsigned k = 0; k < P->getNumIncomingValues(); ++k) {
          BasicBlock *Q = P->getIncomingBlock(k);
          if (!in.count(Q)) continue;
          report = false;
          Dbm T = in[Q];
          for (Instruction &I : *Q) exec(T, I);
          edge(T, Q, B);
          for (Instruction &I : *B) exec(T, I);
          report = rep;
          Value *x = P->getIncomingValue(k);
          if (isa<ConstantInt>(x))
            ret(T, Rt, x);
          else {
            Dbm A = T, Z = T;
            refine(A, x, true);
            refine(Z, x, false);
            ret(A, Rt, ConstantInt::getTrue(F.getContext()));
            ret(Z, Rt, ConstantInt::getFalse(F.getContext()));
          }
        }
      } else if (out.has_bool && v && !isa<Constant>(v)) {
        Dbm A = S, Z = S;
        refine(A, v, true);
        refine(Z, v, false);
        ret(A, Rt, ConstantInt::getTrue(F.getContext()));
        ret(Z, Rt, ConstantInt::getFalse(F.getContext()));
      } else
        ret(S, Rt, v);
    }
    out.known = true;
  }
};

Function *prepare(World &W, Function *F) {
  Function *C = private_copy(*F, ".cur");
  InlinePolicy P;
  P.into_doomed = true;
  P.max_insts = 6000;
  const Role *own = W.role(F);
  bool unit = own && own->gap;
  P.ok = [&](const CallBase &CB, const Function &G) {
    Function *g = const_cast<Function *>(&G);
    std::string n = demangle_(G.getName());
    if (n.find("utf8::") == 0 || n.find(" utf8::") != std::string::npos) return true;
    if (!World::in_scope(g) || W.role(g)) return false;
    if (g->getInstructionCount() > 400) return false;
    if (unit && g->getInstructionCount() < 80) return true;
    auto p = params_of(*g);
    for (auto &x : p)
      if (x.second.kind) return true;
    return n.find("saved_begin_state") != std::string::npos || n.find("lambda") != std::string::npos || n.find("::$_") != std::string::npos;
  };
  flatten(*C, P);
  // forget exception edges, keep the code that leads to a throw
  for (BasicBlock &B : *C)
    if (auto *I = dyn_cast<InvokeInst>(B.getTerminator())) changeToCall(I);
  removeUnreachableBlocks(*C);
  for (Instruction &I : instructions(*C)) I.setMetadata("llvm.loop", nullptr);
  cleanup(*C, "sroa,early-cse,correlated-propagation,jump-threading,correlated-propagation,simplifycfg<no-switch-to-lookup;no-hoist-common-insts;no-sink-common-insts;bonus-inst-threshold=0>,loop-simplify,lcssa,loop(indvars),loop-unroll<full-unroll-max=16;no-runtime;no-partial>,early-cse,jump-threading,"
              "simplifycfg<no-switch-to-lookup;no-hoist-common-insts;no-sink-common-insts;bonus-inst-threshold=0>,early-cse");
  return C;
}

std::map<Function *, std::pair<std::map<std::string, Walk::Res>, std::array<unsigned, 3>>> results;

const Summary &World::summary(Function *F) {
  auto it = sums.find(F);
  if (it != sums.end()) return it->second;
  static const Summary none;
  if (active.count(F)) return none;
  const Role *R = role(F);
  if (!R) return none;
  active.insert(F);
  // callees first
  Function *C = prepare(*this, F);
  for (Instruction &I : instructions(*C))
    if (auto *CB = dyn_cast<CallBase>(&I))
      if (Function *G = CB->getCalledFunction())
        if (role(G)) summary(G);
  Walk X(*this, *C, F, R);
  X.run();
  if (getenv("SA_DUMP") && demangle_(F->getName()).find(getenv("SA_DUMP")) != std::string::npos) C->print(errs());
  results[F] = {X.res, {X.nobl, X.nvague, X.aborted ? 1u : 0u}};
  active.erase(F);
  Summary Y = X.out;
  if (X.aborted) Y = Summary();
  C->eraseFromParent();
  return sums[F] = Y;
}

int m_cursor(Module &M, const std::vector<std::string> &args) {
  auto &opts = cl::getRegisteredOptions();
  auto o = opts.find("unroll-threshold"); // short loops over a fixed count are written out whatever they contain
  if (o != opts.end()) o->second->addOccurrence(0, "unroll-threshold", "4000");
  World W(M);
  if (!args.empty() && !args[0].empty()) {
    std::string s = args[0];
    size_t p = 0;
    while (p < s.size()) {
      size_t q = s.find(';', p);
      if (q == std::string::npos) q = s.size();
      std::string e = s.substr(p, q - p);
      size_t k = e.rfind('=');
      std::string v = e.substr(k + 1);
      size_t sl = v.find('/');
      W.gaps.push_back({std::regex(e.substr(0, k)), std::stoll(v), std::stoll(sl == std::string::npos ? v : v.substr(sl + 1))});
      p = q + 1;
    }
  }
  std::vector<Function *> fs;
  for (Function &F : M)
    if (!F.isDeclaration()) fs.push_back(&F);
  std::regex only(args.size() > 1 ? args[1] : ".");
  for (Function *F : fs) {
    if (!std::regex_search(demangle_(F->getName()), only)) continue;
    if (W.role(F)) W.summary(F);
  }
  for (Function *F : fs) {
    auto it = results.find(F);
    if (it == results.end()) continue;
    std::string n = demangle_(F->getName());
    Json().kv("k", "fn").kv("role", true).kv("fwhere", where_fn(F)).kv("fn", n).kv("n", (int)it->second.second[0]).kv("vague", (int)it->second.second[1]).kv("aborted", it->second.second[2] != 0).kv("where", where_fn(F)).out();
    for (auto &x : it->second.first)
      Json().kv("k", "ob").kv("fwhere", where_fn(F)).kv("fn", n).kv("what", x.second.kind).kv("ok", x.second.ok).kv("where", x.second.where).kv("why", x.second.why).out();
  }
  // code without a range of its own: only the calls through selected code-point functions
  if (args.size() > 2) {
    std::regex more(args[2]);
    for (Function *F : fs) {
      std::string n = demangle_(F->getName());
      if (!World::in_scope(F) || W.role(F) || !std::regex_search(n, more)) continue;
      bool has = false;
      for (Instruction &I : instructions(*F))
        if (auto *C = dyn_cast<CallBase>(&I)) has |= !C->getCalledFunction() && (C->arg_size() == 2 || C->arg_size() == 3);
      if (!has) continue;
      Function *C = prepare(W, F);
      Walk X(W, *C, F, nullptr);
      X.run();
      if (X.nobl || X.aborted) {
        Json().kv("k", "fn").kv("role", false).kv("fwhere", where_fn(F)).kv("fn", n).kv("n", (int)X.nobl).kv("vague", (int)X.nvague).kv("aborted", X.aborted).kv("where", where_fn(F)).out();
        for (auto &x : X.res)
          Json().kv("k", "ob").kv("fwhere", where_fn(F)).kv("fn", n).kv("what", x.second.kind).kv("ok", x.second.ok).kv("where", x.second.where).kv("why", x.second.why).out();
      }
      if (getenv("SA_DUMP") && n.find(getenv("SA_DUMP")) != std::string::npos) C->print(errs());
      C->eraseFromParent();
    }
  }
  return 0;
}
ModeReg r1("cursor", m_cursor);
} // namespace
