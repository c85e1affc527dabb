// Byte string storage: an abstract interpretation of every member of the small-string-optimised byte string
// classes. Memory is a set of regions (the objects, their heap buffers, the caller's bytes, locals), each a list
// of segments with symbolic bounds saying which original bytes, constants or words they hold; sizes, capacities
// and offsets are linear forms and what a path knows about them linear inequalities. Each member is judged from
// every form an object can have (inline or on the heap), with the operand outside or inside the object.
//
// bytestr: the module holds witnesses w_<class>_<op> written against the public interface.
#include "segmem.h"

namespace {
struct Obj { // what a scenario says about an object at entry
  int region = -1, buf = -1;
  bool there = false, heap = false;
  Lin s, c;
  int data = -1; // region whose original bytes are its content
  Lin doff;      // where
};

struct Strings : Machine {
  unsigned N; // NUL padding
  Strings(Function &F, unsigned N) : Machine(F), N(N) {}

  // ---- what a byte string object holds ----
  struct Held {
    bool ok = false, heap = false;
    int r = -1; // region of the data
    Lin off, size, cap;
    std::string why;
  };
  Held held(St &S, int obj) {
    Held h;
    Region &R = S.reg[obj];
    if (!R.alive) {
      h.why = "the object is gone";
      return h;
    }
    V w = load(S, obj, Lin(8), 8);
    if (!need.empty()) return h;
    if (w.k == V::Bytes || (w.k == V::Int && w.l == Lin(0))) {
      V b = bytes(w, 8);
      const Byte &t = b.b[7];
      if (t.k != Byte::Val) {
        h.why = t.k == Byte::Orig ? "the byte that holds the inline size is overwritten with text" : "the size is not set";
        return h;
      }
      if (!le(S, Lin(0), t.l) || !le(S, t.l, Lin(15 - N))) {
        if (need.empty()) h.why = "the inline size can exceed what fits inline";
        return h;
      }
      if (!need.empty()) return h;
      h.ok = true, h.r = obj, h.off = Lin(0), h.size = t.l, h.cap = Lin(15 - N);
      auto tail = read(S, obj, t.l, Lin(15) - t.l);
      if (!need.empty()) return h;
      for (Seg &s : tail)
        if (s.k != Seg::Val || !(s.l == Lin(0))) h.ok = false, h.why = "the inline bytes after the text are not zero";
      return h;
    }
    if (w.k != V::Int) {
      unclear("the size at the end");
      h.why = "?";
      return h;
    }
    if (nonneg(S, w.l)) {
      if (need.empty()) h.why = "the size is stored in neither form";
      return h;
    }
    if (!need.empty()) return h;
    h.heap = true;
    h.size = Lin(-1) - w.l;
    V p = load(S, obj, Lin(0), 8);
    if (!need.empty()) return h;
    if (p.k != V::Ptr) {
      h.why = "the size says the text is on the heap, but there is no pointer to it";
      return h;
    }
    Region &Q = S.reg[p.r];
    if (!Q.heap || !(p.l == Lin(0))) {
      h.why = "the pointer is not that of a buffer";
      return h;
    }
    if (!Q.alive) {
      h.why = "the object refers to a buffer that has been released";
      return h;
    }
    V c = load(S, p.r, Lin(0), 8);
    if (!need.empty()) return h;
    if (c.k != V::Int) {
      h.why = "the capacity is not recorded in the buffer";
      return h;
    }
    h.cap = c.l, h.r = p.r, h.off = Lin(8);
    if (!le(S, c.l + Lin(8 + N), Q.size)) {
      if (need.empty()) h.why = "the recorded capacity exceeds the buffer";
      return h;
    }
    if (!need.empty()) return h;
    if (!le(S, h.size, c.l)) {
      if (need.empty()) h.why = "the size exceeds the capacity";
      return h;
    }
    if (!need.empty()) return h;
    h.ok = true;
    if (N) {
      V z = load(S, p.r, Lin(8) + h.size, 1);
      if (!need.empty()) return h;
      if (!(z.k == V::Int && z.l == Lin(0))) h.ok = false, h.why = "the text on the heap is not followed by a zero byte";
    }
    return h;
  }
};

int mode_bytestr(Module &M, const std::vector<std::string> &) {
  std::vector<Function *> ws;
  for (Function &F : M)
    if (!F.isDeclaration() && F.getName().starts_with("w_")) ws.push_back(&F);
  InlinePolicy P;
  P.ok = [](const CallBase &, const Function &) { return true; };
  P.max_insts = 6000;
  for (Function *W : ws) {
    std::string name = W->getName().str(); // w_<class>_<op>
    size_t q = name.find('_', 2);
    std::string cls = name.substr(2, q - 2), op = name.substr(q + 1);
    unsigned N = cls[0] == 's' ? 1 : 0; // s<...>: with terminator; b<...>: without
    flatten(*W, P);
    prune_exceptions(*W);
    cleanup(*W);
    scalarize_memory(*W);
    if (const char *d = getenv("SA_DUMP"))
      if (name.find(d) != std::string::npos) W->print(errs());

    bool ctor = op.rfind("ctor", 0) == 0 || op == "plus";
    bool has_rhs = op == "ctorcopy" || op == "ctormove" || op == "copyassign" || op == "moveassign" || op == "eq" || op == "ne" || op == "pluseq" || op == "plus";
    bool has_arg = op == "ctordata" || op == "assign" || op == "append";
    bool may_alias = op == "copyassign" || op == "moveassign" || op == "pluseq" || op == "assign" || op == "append" || op == "plus" || op == "eq";
    for (int sh = 0; sh < 2; ++sh)
      for (int rh = 0; rh < 2; ++rh)
        for (int al = 0; al < 2; ++al) {
          if (ctor && op != "plus" && sh) continue;
          if (!has_rhs && rh) continue;
          if (al && (!may_alias || rh)) continue;
          Strings K(*W, N);
          St S;
          auto object = [&](const std::string &nm, bool heap) {
            Obj o;
            o.there = true, o.heap = heap;
            o.region = K.region(S, nm, Lin(16));
            o.s = Lin::sym(K.sym(nm + ".size"));
            Region *R = &S.reg[o.region];
            S.facts.push_back(o.s);
            if (!heap) {
              S.facts.push_back(Lin(15 - N) - o.s);
              Seg a, b, c;
              a.lo = Lin(0), a.hi = o.s, a.k = Seg::Orig, a.r = o.region, a.l = Lin(0);
              b.lo = o.s, b.hi = Lin(15), b.k = Seg::Val, b.l = Lin(0);
              c.lo = Lin(15), c.hi = Lin(16), c.k = Seg::Val, c.l = o.s;
              R->seg = {a, b, c};
              o.data = o.region;
              o.c = Lin(15 - N);
            } else {
              o.c = Lin::sym(K.sym(nm + ".capacity"));
              S.facts.push_back(o.c - o.s);
              S.facts.push_back(Lin(((wide)1 << 60)) - o.c);
              o.buf = K.region(S, "the buffer of " + nm, o.c + Lin(8 + N), true);
              R = &S.reg[o.region];
              Seg p, z;
              p.lo = Lin(0), p.hi = Lin(8), p.k = Seg::Word, p.w = V::ptr(o.buf, Lin(0));
              z.lo = Lin(8), z.hi = Lin(16), z.k = Seg::Word, z.w = V::num(Lin(-1) - o.s);
              R->seg = {p, z};
              Seg h, d, e, u;
              h.lo = Lin(0), h.hi = Lin(8), h.k = Seg::Word, h.w = V::num(o.c);
              d.lo = Lin(8), d.hi = Lin(8) + o.s, d.k = Seg::Orig, d.r = o.buf, d.l = Lin(0);
              e.lo = d.hi, e.hi = d.hi + Lin(N), e.k = Seg::Val, e.l = Lin(0);
              u.lo = e.hi, u.hi = Lin(8 + N) + o.c;
              S.reg[o.buf].seg = {h, d, e, u};
              o.data = o.buf;
            }
            return o;
          };
          Obj self, rhs;
          Lin n = Lin::sym(K.sym("n"));
          int argr = -1;
          Lin argoff;
          auto it = W->arg_begin();
          int out = -1;
          if (op == "plus") { // w(result, a, b)
            out = K.region(S, "the result", Lin(16));
            S.env[&*it++] = V::ptr(out, Lin(0));
          }
          if (ctor && op != "plus") {
            self.region = K.region(S, "the object", Lin(16));
            out = self.region;
          } else
            self = object("the object", sh);
          S.env[&*it++] = V::ptr(self.region, Lin(0));
          if (has_rhs) {
            rhs = al ? self : object("the other object", rh);
            S.env[&*it++] = V::ptr(rhs.region, Lin(0));
          }
          if (has_arg) {
            S.facts.push_back(n);
            S.facts.push_back(Lin((wide)1 << 60) - n);
            if (!al) {
              argr = K.region(S, "the given bytes", n);
              Seg a;
              a.lo = Lin(0), a.hi = n, a.k = Seg::Orig, a.r = argr, a.l = Lin(0);
              S.reg[argr].seg = {a};
              S.reg[argr].readonly = true;
              S.env[&*it++] = V::ptr(argr, Lin(0));
            } else {
              argoff = Lin::sym(K.sym("offset"));
              S.facts.push_back(argoff);
              S.facts.push_back(self.s - argoff - n);
              argr = self.data;
              S.env[&*it++] = V::ptr(self.data, argoff + Lin(self.heap ? 8 : 0));
            }
            S.env[&*it++] = V::num(n);
          }
          if (op == "reserve" || op == "resize" || op == "reservegrow" || op == "resizegrow") {
            S.facts.push_back(n);
            S.facts.push_back(Lin((wide)1 << 60) - n);
            S.env[&*it++] = V::num(n);
          }
          struct Piece {
            int r;
            Lin off, len;
          };
          Piece D_self{self.data, Lin(0), self.s}, D_rhs{rhs.data, Lin(0), rhs.s}, D_arg{argr, argoff, n};
          // does [off, off+len) of the data at (r, base) hold the pieces?
          auto holds = [&](St &T, const Strings::Held &h, const std::vector<Piece> &want, const Lin &len, std::string &why) {
            auto have = K.read(T, h.r, h.off, len);
            if (!K.need.empty()) return false;
            Lin at = h.off;
            size_t i = 0;
            for (const Piece &p : want) {
              Lin done(0);
              while (true) {
                if (K.le(T, p.len, done)) break;
                if (!K.need.empty()) return false;
                if (i >= have.size()) {
                  why = "the text is cut short";
                  return false;
                }
                Seg &s = have[i];
                if (s.k != Seg::Orig) {
                  why = s.k == Seg::Unk ? "part of the text is never written" : "part of the text is overwritten";
                  return false;
                }
                if (s.r != p.r || !K.eq(T, s.l, p.off + done)) {
                  if (!K.need.empty()) return false;
                  why = "the text holds the wrong bytes";
                  return false;
                }
                if (!K.need.empty()) return false;
                Lin slen = s.hi - s.lo, rest = p.len - done;
                if (K.le(T, slen, rest)) {
                  if (!K.need.empty()) return false;
                  done = done + slen;
                  ++i;
                } else {
                  if (!K.need.empty()) return false;
                  s.lo = s.lo + rest, s.l = s.l + rest;
                  done = p.len;
                }
              }
              if (!K.need.empty()) return false;
              at = at + p.len;
            }
            return true;
          };
          auto unchanged = [&](St &T, const Obj &o, const char *who, bool orempty) {
            auto h = K.held(T, o.region);
            if (!K.need.empty() || !K.vague.empty()) return;
            if (!h.ok) return K.fail(std::string(who) + ": " + h.why);
            if (orempty && K.eq(T, h.size, Lin(0))) return;
            if (!K.need.empty()) return;
            std::string why;
            if (!K.eq(T, h.size, o.s)) {
              if (K.need.empty()) K.fail(std::string(who) + " changes size");
              return;
            }
            if (!K.need.empty()) return;
            if (!holds(T, h, {Piece{o.data, Lin(0), o.s}}, o.s, why) && K.need.empty()) K.fail(std::string(who) + ": " + why);
          };
          auto leaks = [&](St &T, bool dead) { // every live heap buffer belongs to exactly one object
            std::map<int, int> owners;
            for (int ob : {dead ? -1 : self.region, al ? -1 : rhs.region, out != self.region ? out : -1}) {
              if (ob < 0) continue;
              V w = K.load(T, ob, Lin(8), 8);
              if (!K.need.empty()) return;
              if (w.k == V::Int && !K.nonneg(T, w.l) && K.need.empty()) {
                V p = K.load(T, ob, Lin(0), 8);
                if (p.k == V::Ptr) owners[p.r]++;
              }
              if (!K.need.empty()) return;
            }
            for (size_t i = 0; i < T.reg.size(); ++i) {
              if (!T.reg[i].heap || !T.reg[i].alive) continue;
              int c = owners.count((int)i) ? owners[(int)i] : 0;
              if (c == 0) K.fail(T.reg[i].name + " is never released");
              if (c > 1) K.fail("two objects own the same buffer");
            }
          };
          if (!ctor)
            K.on_alloc = [&](St &T) { // the allocation may fail
              for (int ob : {self.region, al ? -1 : rhs.region}) {
                if (ob < 0) continue;
                auto h = K.held(T, ob);
                if (!K.need.empty() || !K.vague.empty()) return;
                if (!h.ok) return K.fail("when the allocation fails, " + h.why);
              }
            };
          K.on_ret = [&](St &T, const V *rv) {
            auto self_is = [&](int ob, const std::vector<Piece> &want, const Lin &size) {
              auto h = K.held(T, ob);
              if (!K.need.empty() || !K.vague.empty()) return;
              if (!h.ok) return K.fail(h.why);
              if (!K.eq(T, h.size, size)) {
                if (K.need.empty()) K.fail("the size is wrong");
                return;
              }
              if (!K.need.empty()) return;
              Lin tot(0);
              for (auto &p : want) tot = tot + p.len;
              std::string why;
              if (!holds(T, h, want, tot, why) && K.need.empty()) K.fail(why);
            };
            auto returns = [&](const Lin &l) {
              if (!rv || rv->k != V::Int) return K.unclear("the value returned");
              if (!K.eq(T, rv->l, l) && K.need.empty()) K.fail("returns the wrong number");
            };
            auto returns_ptr = [&](const Lin &l) {
              if (!rv || rv->k != V::Ptr) return K.unclear("the pointer returned");
              if ((rv->r != self.data || !K.eq(T, rv->l, l + Lin(self.heap ? 8 : 0))) && K.need.empty()) K.fail("returns the wrong pointer");
            };
            if (op == "ctor") self_is(self.region, {}, Lin(0));
            else if (op == "clear") self_is(self.region, {}, Lin(0));
            else if (op == "ctorcopy") self_is(self.region, {D_rhs}, rhs.s), unchanged(T, rhs, "the source", false);
            else if (op == "ctormove") self_is(self.region, {D_rhs}, rhs.s), unchanged(T, rhs, "the source", true);
            else if (op == "ctordata" || op == "assign") self_is(self.region, {D_arg}, n);
            else if (op == "copyassign") {
              self_is(self.region, {D_rhs}, rhs.s);
              if (!al && K.need.empty()) unchanged(T, rhs, "the source", false);
            } else if (op == "moveassign") {
              if (al) unchanged(T, self, "the object", true);
              else {
                self_is(self.region, {D_rhs}, rhs.s);
                if (K.need.empty()) unchanged(T, rhs, "the source", true);
              }
            } else if (op == "append") self_is(self.region, {D_self, D_arg}, self.s + n);
            else if (op == "pluseq") {
              self_is(self.region, {D_self, D_rhs}, self.s + rhs.s);
              if (!al && K.need.empty()) unchanged(T, rhs, "the operand", false);
            } else if (op == "plus") {
              self_is(out, {D_self, D_rhs}, self.s + rhs.s);
              if (K.need.empty()) unchanged(T, self, "the left operand", false);
              if (!al && K.need.empty()) unchanged(T, rhs, "the right operand", false);
            } else if (op == "reserve" || op == "reservegrow") {
              self_is(self.region, {D_self}, self.s);
              if (!K.need.empty()) return;
              auto h = K.held(T, self.region);
              if (K.need.empty() && h.ok && !K.le(T, n, h.cap) && K.need.empty()) K.fail("there is not room for what was reserved");
            } else if (op == "resize" || op == "resizegrow") {
              Lin keep = K.le(T, n, self.s) ? n : self.s;
              if (!K.need.empty()) return;
              self_is(self.region, {Piece{self.data, Lin(0), keep}}, n);
            } else if (op == "size") returns(self.s);
            else if (op == "capacity") returns(self.c);
            else if (op == "data" || op == "begin" || op == "cdata" || op == "cbegin") returns_ptr(Lin(0));
            else if (op == "end" || op == "cend") returns_ptr(self.s);
            else if (op == "empty") {
              bool e = K.eq(T, self.s, Lin(0));
              if (!K.need.empty()) return;
              if (!rv || rv->k != V::Int || !rv->l.isconst()) K.unclear("the value returned");
              else if ((rv->l.c != 0) != e) K.fail("answers wrongly");
            } else if (op == "eq" || op == "ne") {
              if (!rv || rv->k != V::Int || !rv->l.isconst()) return K.unclear("the value returned");
              bool t = (rv->l.c != 0) == (op == "eq");
              bool same = K.eq(T, self.s, rhs.s);
              if (!K.need.empty()) return;
              if (!same) {
                if (t) K.fail("strings of different sizes are taken as equal");
                return;
              }
              if (K.eq(T, self.s, Lin(0))) {
                if (!t && K.need.empty()) K.fail("empty strings are taken as different");
                return;
              }
              if (!K.need.empty()) return;
              bool full = false, differ = false;
              for (auto &c : T.cmps) {
                Lin b1(c.r1 == self.region || c.r1 == rhs.region ? 0 : 8), b2(c.r2 == self.region || c.r2 == rhs.region ? 0 : 8);
                bool aligned = (c.r1 == self.data && c.r2 == rhs.data) || (c.r1 == rhs.data && c.r2 == self.data);
                bool at = aligned && K.eq(T, c.o1 - b1, c.o2 - b2);
                bool all = aligned && K.eq(T, c.o1, b1) && K.eq(T, c.o2, b2) && K.eq(T, c.len, self.s);
                if (!K.need.empty()) return;
                if (all && c.equal == 1) full = true;
                if (at && c.equal == 0) differ = true;
              }
              if (t && !full && !al) K.fail("strings are taken as equal without comparing all their bytes");
              if (!t && !differ) K.fail("strings of equal size are taken as different without a differing byte");
            } else if (op != "dtor")
              K.unclear("unknown operation");
            if (!K.need.empty() || !K.bad.empty()) return;
            leaks(T, op == "dtor");
            if (K.need.empty() && K.bad.empty() && K.vague.empty()) ++K.judged;
          };
          S.bb = &W->getEntryBlock();
          S.it = S.bb->begin();
          K.run(S);
          std::string scn = ctor && op != "plus" ? "" : sh ? "on the heap" : "inline";
          if (has_rhs && !al) scn += std::string(scn.empty() ? "" : ", ") + (rh ? "the other on the heap" : "the other inline");
          if (al) scn += has_rhs ? ", with itself" : ", given part of itself";
          Json().kv("cls", cls).kv("op", op).kv("case", scn).kv("judged", K.judged).kv("bad", K.nbad).kv("vague", K.nvague).kv("why", K.badwhy).kv("where", K.badwhere).kv("unclear", K.vaguewhy).out();
        }
  }
  return 0;
}
ModeReg reg_bytestr("bytestr", mode_bytestr);
} // namespace
