// Kernel entry points: the functions stored in kernel_prefix::function.
#pragma once
#include "absint.h"

struct Kernel {
  Function *orig = nullptr;
  std::string cls; // class the wrapper belongs to (demangled)
  enum { SINGLE, STRIDED } kind = SINGLE;
};
std::vector<Kernel> find_kernels(Module &M, const std::string &filter = "");
// Fully inlined private copy, exceptional edges pruned, constant-trip loops unrolled.
Function *flat_kernel(const Kernel &K);

// Where does a pointer come from? dst argument, src[i] element, something else.
struct Root {
  enum { NONE, DST, SRC, SELF, OTHER, MIXED } k = NONE;
  int i = 0;
  bool operator==(const Root &o) const { return k == o.k && i == o.i; }
  std::string str() const;
};
Root root_of(const Kernel &K, Function &F, const Value *p);
