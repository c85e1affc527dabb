// Linear inequalities over the integers: a polyhedral domain for index arithmetic. A path's branch
// conditions become inequalities between the symbols (arguments, loads, call results) of its values;
// products and quotients of symbols are symbols of their own, related to their operands by the
// inequalities that hold of any product or quotient.
#pragma once
#include "absint.h"
#include <optional>

typedef __int128 wide;

struct Lin {
  std::map<int, wide> t; // symbol -> coefficient
  wide c = 0;
  Lin() {}
  Lin(wide k) : c(k) {}
  static Lin sym(int s) {
    Lin l;
    l.t[s] = 1;
    return l;
  }
  bool isconst() const { return t.empty(); }
  Lin &add(const Lin &o, wide k = 1);
  Lin operator+(const Lin &o) const { return Lin(*this).add(o); }
  Lin operator-(const Lin &o) const { return Lin(*this).add(o, -1); }
  Lin scaled(wide k) const { return Lin().add(*this, k); }
  bool operator==(const Lin &o) const { return t == o.t && c == o.c; }
};

// is the conjunction of (each >= 0) empty over the integers? (false: not shown empty)
bool lin_empty(std::vector<Lin> f);

struct LinSpace { // symbols, shared between functions whose leaves have structural names
  std::vector<std::string> name;
  std::map<std::string, int> id;
  std::map<int, std::pair<int, int>> prod; // product symbol -> factors
  int sym(const std::string &n);
  Lin product(const Lin &a, const Lin &b); // bilinear expansion
  std::string str(const Lin &l) const;
};

struct LinEnv { // what one path knows
  LinSpace &sp;
  const Explorer &E;
  State S;
  std::vector<Lin> facts;                                                    // each >= 0
  std::vector<std::pair<std::vector<Lin>, std::vector<Lin>>> either;         // one of the two holds
  std::map<const Value *, std::optional<Lin>> memo;
  unsigned max_alts = 4; // case distinctions considered, latest first
  std::set<int> bounded;
  std::set<const Value *> busy;
  std::function<std::string(const Value *)> leaf; // structural name of a leaf, "" for none
  std::function<void(LinEnv &, const Value *, int)> on_sym; // a new symbol

  LinEnv(LinSpace &sp, const Explorer &E, const State &S) : sp(sp), E(E), S(S) {}
  void load_facts();             // the path's branch conditions
  void cond(const Value *c, bool truth);
  std::optional<Lin> of(const Value *v); // nullopt: may wrap or not understood
  Lin sym_of(const Value *v);
  bool nonneg(const Lin &l);     // provably >= 0?
  bool within(const Lin &l, unsigned bits, bool sgn = true);
  void assume(const Lin &l) { facts.push_back(l); } // l >= 0
  bool impossible(std::vector<Lin> extra = {});
  std::vector<Lin> closure(std::vector<Lin> extra) const;
};
