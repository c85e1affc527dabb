// Machine words as integers: every fixed-width operation becomes a linear relation over the mathematical integers,
// a possible wrap-around being an unknown multiple of 2^width. What no operation of the path rules out stays possible.
#pragma once
#include "lin.h"

struct BvLin {
  LinSpace &sp;
  const Explorer &E;
  LinEnv env; // facts and case distinctions
  std::map<const Value *, std::optional<Lin>> memo;
  std::map<const Value *, Lin> wraps; // value -> multiples of 2^width taken off
  std::function<std::string(const Value *)> leaf;

  BvLin(LinSpace &sp, const Explorer &E, const State &S) : sp(sp), E(E), env(sp, E, S) { env.max_alts = 8; }
  void load_facts();
  void cond(const Value *c, bool truth);
  std::optional<Lin> u(const Value *v); // the unsigned reading of an integer up to 64 bits wide
  std::optional<Lin> s(const Value *v); // the two's complement reading
  Lin wrap(const Lin &e, unsigned w, const std::string &name, const Value *v = nullptr); // e modulo 2^w
  Lin sgn(const Lin &u, unsigned w, const std::string &name);
  Lin fresh(const std::string &n, wide lo, wide hi);
  bool zero(const Lin &l) { return env.nonneg(l) && env.nonneg(l.scaled(-1)); }
  bool equal(const Lin &a, const Lin &b) { return zero(a - b); }
  bool exact(const Value *v); // nothing wrapped around in computing v
};
