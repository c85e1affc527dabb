// Element storage blocks: every history of the given shape, with all sizes, leaves each piece of memory handed out
// inside a live chunk, apart from the others, with its content, and releases everything once.
//
// memblock: the module holds witnesses w_<class>_<size>_<align>_<history>, programs over the public interface that
// report what they are given through sa_alloc, sa_resize, sa_reset and sa_end.
#include "segmem.h"

namespace {
struct Piece {
  int region;
  Lin off, len;
  int tag; // region whose original bytes the user wrote there
  bool gone = false;
};
// what the user has been given, kept per path in a side table indexed by an id stored in the state
struct Hist {
  std::vector<Piece> p;
  std::vector<std::pair<int, std::pair<Lin, Lin>>> destroyed; // region, [lo, hi)
};

int mode_memblock(Module &M, const std::vector<std::string> &) {
  std::vector<Function *> ws;
  for (Function &F : M)
    if (!F.isDeclaration() && F.getName().starts_with("w_")) ws.push_back(&F);
  auto of_type = [](const std::string &n) { return n.find("9base_type") != std::string::npos || n.rfind("_ZN4dynd3ndt4type", 0) == 0 || n.rfind("_ZNK4dynd3ndt4type", 0) == 0; };
  InlinePolicy P;
  P.ok = [&](const CallBase &, const Function &C) { return !of_type(C.getName().str()); };
  P.max_insts = 30000;
  for (Function *W : ws) {
    std::vector<std::string> part;
    std::string name = W->getName().str();
    for (size_t i = 0; i <= name.size();) {
      size_t e = name.find('_', i);
      if (e == std::string::npos) e = name.size();
      part.push_back(name.substr(i, e - i));
      i = e + 1;
    }
    std::string cls = part.at(1), hist = part.at(4);
    int esize = std::stoi(part.at(2)), align = std::stoi(part.at(3));
    flatten(*W, P);
    prune_exceptions(*W);
    cleanup(*W);
    scalarize_memory(*W);
    if (const char *d = getenv("SA_DUMP"))
      if (name.find(d) != std::string::npos) W->print(errs());
    bool zero = cls != "pod", objects = cls == "objects";

    Machine K(*W);
    St S;
    int typer = K.region(S, "the element type", Lin(64)), metar = K.region(S, "the metadata", Lin(1024));
    S.reg[typer].opaque = S.reg[metar].opaque = true;
    unsigned k = 0;
    for (Argument &A : W->args()) {
      if (A.getType()->isPointerTy()) {
        S.env[&A] = V::ptr(k == 0 ? typer : metar, Lin(0));
        ++k;
      } else {
        Lin n = Lin::sym(K.sym("n" + std::to_string(A.getArgNo())));
        S.facts.push_back(n - Lin(A.getArgNo() == W->arg_size() - 1 ? 1 : 0)); // the last is the initial capacity
        S.facts.push_back(Lin((wide)1 << 40) - n);
        S.env[&A] = V::num(n);
      }
    }
    std::map<int, std::shared_ptr<Hist>> hs;
    int nexth = 0;
    hs[nexth++] = std::make_shared<Hist>();
    S.user = 0;
    auto H = [&](St &T) -> Hist & { // a private copy for this state
      auto h = std::make_shared<Hist>(*hs[T.user]);
      T.user = nexth;
      hs[nexth++] = h;
      return *h;
    };
    // the bytes the user wrote: the original bytes of a tag region
    auto scribble = [&](St &T, Piece &p) {
      p.tag = K.region(T, "written bytes", p.len);
      Seg s;
      s.lo = p.off, s.hi = p.off + p.len, s.k = Seg::Orig, s.r = p.tag, s.l = Lin(0);
      K.write(T, p.region, p.off, p.len, {s});
    };
    auto check_new = [&](St &T, const Hist &h, const V &p, const Lin &len, const Piece *except, const char *what) {
      if (K.eq(T, len, Lin(0)) || !K.need.empty()) return;
      if (p.k != V::Ptr) return K.unclear("the pointer handed out");
      Region &R = T.reg[p.r];
      if (!R.heap) return K.fail(std::string(what) + " hands out memory that is not the block's");
      if (!R.alive) return K.fail(std::string(what) + " hands out released memory");
      if (!K.le(T, Lin(0), p.l) || !K.le(T, p.l + len, R.size)) {
        if (K.need.empty()) K.fail(std::string(what) + " hands out memory beyond its chunk");
        return;
      }
      if (!K.need.empty()) return;
      bool div = p.l.c % align == 0;
      for (auto &t : p.l.t) div = div && t.second % align == 0;
      if (!div && align > 1) { // through what is known about remainders
        auto f = T.facts;
        Lin k = K.freshsym("k").scaled(align);
        f.push_back(p.l - k - Lin(1));
        f.push_back(k + Lin(align - 1) - p.l);
        div = lin_empty(f);
        if (!div)
          for (auto &l : T.facts)
            for (auto &t : l.t)
              if (K.sp.name[t.first].rfind("q#", 0) == 0) return K.unclear("the alignment of what is handed out");
      }
      if (!div && align > 1) return K.fail(std::string(what) + " hands out memory that is not aligned for the elements");
      for (const Piece &q : h.p) {
        if (q.gone || &q == except || q.region != p.r) continue;
        if (K.eq(T, q.len, Lin(0))) continue;
        if (!K.need.empty()) return;
        if (!K.le(T, q.off + q.len, p.l) && K.need.empty() && !K.le(T, p.l + len, q.off) && K.need.empty()) K.fail(std::string(what) + " hands out memory that overlaps an earlier piece");
        if (!K.need.empty()) return;
      }
    };
    auto zeroed = [&](St &T, int r, const Lin &lo, const Lin &len, const char *what) {
      if (K.eq(T, len, Lin(0)) || !K.need.empty()) return;
      for (Seg &s : K.read(T, r, lo, len)) {
        if (!K.need.empty()) return;
        if (s.k != Seg::Val || !(s.l == Lin(0))) return K.fail(std::string(what) + ": memory that should be zero is not");
      }
    };
    auto intact = [&](St &T, int r, const Lin &lo, const Lin &len, int tag, const char *what) { // [lo, lo+len) = tag[0, len)
      if (K.eq(T, len, Lin(0)) || !K.need.empty()) return;
      if (!T.reg[r].alive) return K.fail(std::string(what) + ": memory handed out earlier has been released");
      for (Seg &s : K.read(T, r, lo, len)) {
        if (!K.need.empty()) return;
        if (s.k != Seg::Orig || s.r != tag || !K.eq(T, s.l, s.lo - lo)) {
          if (K.need.empty()) K.fail(std::string(what) + ": elements handed out earlier lose their content");
          return;
        }
      }
    };
    auto others = [&](St &T, const Hist &h, const Piece *except, const char *what) {
      for (const Piece &q : h.p)
        if (!q.gone && &q != except) intact(T, q.region, q.off, q.len, q.tag, what);
    };
    K.on_free = [&](St &T, int r) {
      if (!objects) return;
      const Hist &h = *hs[T.user];
      for (const Piece &q : h.p) {
        if (q.gone || q.region != r) continue;
        if (K.eq(T, q.len, Lin(0))) continue;
        if (!K.need.empty()) return;
        bool done = false;
        for (auto &d : h.destroyed)
          if (d.first == r && K.le(T, d.second.first, q.off) && K.le(T, q.off + q.len, d.second.second)) done = true;
        if (!K.need.empty()) return;
        // the elements may have been moved to another chunk
        if (!done) T.pending.push_back(r);
      }
    };
    K.on_call = [&](St &T, const CallBase *C, const std::string &n) {
      auto arg = [&](unsigned i) { return K.get(T, C->getArgOperand(i)); };
      if (of_type(n)) {
        if (n.find("get_default_data_size") != std::string::npos || n.find("get_data_size") != std::string::npos) T.env[C] = V::num(Lin(esize));
        else if (n.find("get_data_alignment") != std::string::npos) T.env[C] = V::num(Lin(align));
        else if (n.find("get_flags") != std::string::npos) T.env[C] = V::num(Lin(-1));
        else if (C->getType()->isPointerTy()) T.env[C] = V::ptr(typer, Lin(0));
        else if (n.find("is_builtin") != std::string::npos) T.env[C] = V::num(Lin(0));
        return true;
      }
      if (n.find("base_memory_block") != std::string::npos) return true; // its destructor
      if (n == "sa_alloc") { // (pointer, count)
        V p = arg(0), c = arg(1);
        if (c.k != V::Int) return false;
        Lin len = c.l.scaled(esize);
        Hist &h = H(T);
        if (K.eq(T, len, Lin(0))) {
          if (K.need.empty() && p.k == V::Ptr) h.p.push_back(Piece{p.r, p.l, Lin(0), -1});
          return true;
        }
        if (!K.need.empty()) return true;
        check_new(T, h, p, len, nullptr, "alloc");
        if (!K.need.empty() || !K.bad.empty() || !K.vague.empty()) return true;
        if (zero) zeroed(T, p.r, p.l, len, "alloc");
        others(T, h, nullptr, "alloc");
        if (!K.need.empty() || !K.bad.empty()) return true;
        Piece q{p.r, p.l, len, -1};
        scribble(T, q);
        h.p.push_back(q);
        return true;
      }
      if (n == "sa_resize") { // (pointer, count): the latest piece
        V p = arg(0), c = arg(1);
        if (c.k != V::Int) return false;
        Lin len = c.l.scaled(esize);
        Hist &h = H(T);
        Piece *old = nullptr;
        for (Piece &q : h.p)
          if (!q.gone) old = &q;
        if (!old) return K.unclear("nothing to resize"), true;
        check_new(T, h, p, len, old, "resize");
        if (!K.need.empty() || !K.bad.empty() || !K.vague.empty()) return true;
        if (p.k != V::Ptr) return K.unclear("the pointer handed out"), true;
        Lin keep = K.le(T, len, old->len) ? len : old->len;
        if (!K.need.empty()) return true;
        intact(T, p.r, p.l, keep, old->tag, "resize");
        if (!K.need.empty() || !K.bad.empty()) return true;
        if (zero) zeroed(T, p.r, p.l + keep, len - keep, "resize");
        others(T, h, old, "resize");
        if (!K.need.empty() || !K.bad.empty()) return true;
        if (objects) { // elements dropped by shrinking were destroyed, the others were not
          Lin d(0);
          for (auto &x : h.destroyed) d = d + x.second.second - x.second.first;
          if (!K.eq(T, d, old->len - keep) && K.need.empty()) K.fail("resize destroys the wrong number of elements");
          for (auto &x : h.destroyed)
            if (x.first != old->region || !K.eq(T, x.second.first, old->off + keep)) {
              if (K.need.empty() && !K.eq(T, x.second.first, x.second.second) && K.need.empty()) K.fail("resize destroys the wrong elements");
            }
          h.destroyed.clear();
          T.pending.clear(); // the old chunk may go: its elements have moved
          if (!K.need.empty() || !K.bad.empty()) return true;
        }
        Piece q{p.r, p.l, len, -1};
        scribble(T, q);
        *old = q;
        return true;
      }
      if (n == "sa_reset" || n == "sa_end") { // everything handed out is given back
        Hist &h = H(T);
        if (objects) {
          if (!T.pending.empty()) return K.fail("a chunk is released without destroying the elements in it"), true;
          Lin live(0), dead(0);
          for (Piece &q : h.p)
            if (!q.gone) live = live + q.len;
          for (auto &x : h.destroyed) {
            dead = dead + x.second.second - x.second.first;
            Lin in(0);
            for (Piece &q : h.p)
              if (!q.gone && q.region == x.first && K.le(T, x.second.first, q.off) && K.le(T, q.off + q.len, x.second.second)) in = in + q.len;
            if (!K.need.empty()) return true;
            if (!K.eq(T, in, x.second.second - x.second.first) && K.need.empty()) return K.fail("elements that were never handed out are destroyed"), true;
            if (!K.need.empty()) return true;
          }
          if (!K.eq(T, live, dead) && K.need.empty()) K.fail(K.entail(T, live - dead) ? "elements are not destroyed" : "elements are destroyed twice");
          if (!K.need.empty() || !K.bad.empty()) return true;
          h.destroyed.clear();
        }
        for (Piece &q : h.p) q.gone = true;
        if (n == "sa_end")
          for (Region &R : T.reg)
            if (R.heap && R.alive) K.fail("a chunk is never released");
        return true;
      }
      if (!C->getCalledFunction() && C->arg_size() == 5) { // the element type's destructor: type, metadata, data, stride, count
        V t = arg(0), m = arg(1), d = arg(2), st = arg(3), c = arg(4);
        if (t.k != V::Ptr || t.r != typer) return false;
        if (st.k != V::Int || c.k != V::Int) return false;
        if (K.eq(T, c.l, Lin(0))) return true;
        if (!K.need.empty()) return true;
        if (m.k != V::Ptr || m.r != metar) return false;
        if (!(m.l == Lin(24))) return K.fail("elements are destroyed with the wrong metadata"), true;
        if (!(st.l == Lin(esize))) return K.fail("elements are destroyed with the wrong stride"), true;
        if (d.k != V::Ptr) return false;
        if (!K.range(T, d.r, d.l, c.l.scaled(esize), "destroys elements in")) return true;
        if (!K.need.empty()) return true;
        Hist &h = H(T);
        h.destroyed.push_back({d.r, {d.l, d.l + c.l.scaled(esize)}});
        return true;
      }
      return false;
    };
    K.on_ret = [&](St &, const V *) { ++K.judged; };
    S.bb = &W->getEntryBlock();
    S.it = S.bb->begin();
    K.run(S);
    Json().kv("cls", cls).kv("size", esize).kv("align", align).kv("history", hist).kv("judged", K.judged).kv("bad", K.nbad).kv("vague", K.nvague).kv("why", K.badwhy).kv("where", K.badwhere).kv("unclear", K.vaguewhy).out();
  }
  return 0;
}
ModeReg reg_memblock("memblock", mode_memblock);
} // namespace
