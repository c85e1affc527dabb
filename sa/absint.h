// Path-sensitive abstract interpretation of loop-free (after inlining) functions.
// Domain: integer ranges (with a few excluded points), floating-point ranges with
// NaN/infinity flags, evaluated on demand over the SSA graph and refined by branch
// conditions, including backwards through conversions.
#pragma once
#include "common.h"
#include "llvm/ADT/APFloat.h"
#include "llvm/IR/ConstantRange.h"

struct FSet {
  const fltSemantics *sem = nullptr;
  bool nan = true, pinf = true, ninf = true, fin = true;
  APFloat lo = APFloat(0.0), hi = APFloat(0.0); // finite part [lo,hi] when fin
  std::vector<APFloat> ex;                       // excluded finite points
  static FSet full(const fltSemantics &s);
  static FSet point(const APFloat &v);
  bool empty() const { return !nan && !pinf && !ninf && !fin; }
  bool single(APFloat &v) const;
  void norm();
  bool contains(const APFloat &v) const;
};
FSet meet(const FSet &a, const FSet &b);
FSet join(const FSet &a, const FSet &b);

struct AV {
  enum K { BOT, INT, FLT, TOP } k = TOP;
  ConstantRange r = ConstantRange(1, true);
  std::vector<APInt> ex;
  FSet f;
  static AV top() { return AV(); }
  static AV integer(ConstantRange r) {
    AV a;
    a.k = r.isEmptySet() ? BOT : INT;
    a.r = r;
    return a;
  }
  static AV flt(FSet f) {
    AV a;
    a.k = f.empty() ? BOT : FLT;
    a.f = f;
    return a;
  }
  bool bot() const { return k == BOT; }
  bool containsInt(const APInt &v) const;
  bool nonzero() const { return k == BOT || (k == INT && !containsInt(APInt(r.getBitWidth(), 0))); }
  void norm();
  std::string str() const;
};
AV meet(const AV &a, const AV &b);

// address = base + offset, base being an SSA value (argument, load, alloca...)
struct Addr {
  const Value *base = nullptr;
  int64_t off = 0;
  bool ok = false;
};

struct Fact {
  const Value *cond;
  bool truth;
};

struct State {
  std::map<const Value *, const Value *> bind; // phi / select choice on this path
  std::map<const Value *, AV> ref;             // refinements on this path
  std::vector<Fact> facts;                     // assumed conditions
  std::vector<const BasicBlock *> path;
  std::set<const Value *> stale; // memory clobbered marker (unused by default)
};

class Explorer {
public:
  Function &F;
  const DataLayout &DL;
  unsigned max_paths = 4000;
  unsigned paths = 0;
  bool aborted = false;
  std::string abort_why;
  // With loops set, each loop body is walked once for an arbitrary iteration (header phis unknown).
  bool loops = false;
  std::set<const BasicBlock *> headers;
  std::function<void(State &, const BasicBlock &header)> on_back;
  // canonical value for repeated loads of the same source location
  std::map<const Value *, const Value *> canon;
  std::map<const Value *, AV> init; // initial knowledge about leaves

  std::function<void(State &, const Instruction &)> on_inst;
  std::function<void(State &, const Instruction &, bool throws)> on_stub; // reached sa.throw / sa.noreturn
  std::function<void(State &, const ReturnInst &)> on_ret;
  std::function<bool(const CallBase &, std::vector<AV> &, AV &)> model_call;

  explicit Explorer(Function &F);
  void run();

  const Value *look(const State &S, const Value *v) const; // through bindings / canonical loads
  AV eval(const State &S, const Value *v, unsigned depth = 0) const;
  Addr addr(const State &S, const Value *v) const;
  bool refine(State &S, const Value *v, const AV &a, unsigned depth = 0) const; // false: infeasible
  std::vector<State> assume(State S, const Value *c, bool truth, unsigned depth = 0) const;

private:
  void walk(State S, BasicBlock *B, BasicBlock *from);
  void step(State S, BasicBlock *B, BasicBlock::iterator it);
  void edge(const State &S, BasicBlock *B, BasicBlock *to);
};

APFloat flt_next(APFloat v, bool up);
AV conv(const Instruction *I, const AV &a, Type *to);
