// Linear forms over named unknowns.
#pragma once
#include <cstdint>
#include <map>
#include <string>

namespace {
struct Sym {
  bool ok = true;
  int64_t c = 0;
  std::map<std::string, int64_t> t;
  static Sym num(int64_t c) {
    Sym s;
    s.c = c;
    return s;
  }
  static Sym var(const std::string &n) {
    Sym s;
    s.t[n] = 1;
    return s;
  }
  Sym plus(const Sym &o, int64_t k = 1) const {
    Sym r = *this;
    r.ok = ok && o.ok;
    r.c += k * o.c;
    for (auto &x : o.t) {
      int64_t &v = r.t[x.first];
      v += k * x.second;
      if (!v) r.t.erase(x.first);
    }
    return r;
  }
  bool konst() const { return ok && t.empty(); }
  bool root(std::string &n) const {
    if (!ok || t.size() != 1 || t.begin()->second != 1) return false;
    n = t.begin()->first;
    return true;
  }
  std::string str() const {
    if (!ok) return "?";
    std::string s;
    for (auto &x : t) s += (s.empty() ? "" : "+") + (x.second != 1 ? std::to_string(x.second) + "*" : std::string()) + x.first;
    if (c || s.empty()) s += (s.empty() ? "" : "+") + std::to_string(c);
    return s;
  }
};
} // namespace
