// Shared infrastructure of the dynd analyser.
#pragma once
#include "llvm/ADT/DenseMap.h"
#include "llvm/ADT/SmallPtrSet.h"
#include "llvm/ADT/StringExtras.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

using namespace llvm;

std::string demangle_(StringRef n);
std::string esc(const std::string &s);
std::string where_of(const Instruction *I); // innermost source location file:line
std::string where_fn(const Function *F);

// One JSON line per fact.
struct Json {
  std::string s = "{";
  Json &kv(const char *k, const std::string &v) {
    if (s.size() > 1) s += ",";
    s += "\"" + std::string(k) + "\":\"" + esc(v) + "\"";
    return *this;
  }
  Json &kv(const char *k, const char *v) { return kv(k, std::string(v)); }
  Json &kv(const char *k, bool v) { return raw(k, v ? "true" : "false"); }
  Json &kv(const char *k, int v) { return raw(k, std::to_string(v)); }
  Json &kv(const char *k, long v) { return raw(k, std::to_string(v)); }
  Json &kv(const char *k, unsigned long v) { return raw(k, std::to_string(v)); }
  Json &raw(const char *k, const std::string &v) {
    if (s.size() > 1) s += ",";
    s += "\"" + std::string(k) + "\":" + v;
    return *this;
  }
  Json &list(const char *k, const std::vector<std::string> &v) {
    std::string r = "[";
    for (size_t i = 0; i < v.size(); ++i) r += (i ? ",\"" : "\"") + esc(v[i]) + "\"";
    return raw(k, r + "]");
  }
  void out() {
    s += "}\n";
    outs() << s;
  }
};

// Blocks from which no normal return is reachable (throw/terminate paths).
void doomed_blocks(Function &F, SmallPtrSetImpl<BasicBlock *> &out);

// Does the name contain one of the alternatives "a|b|c"?  The empty filter takes everything.
inline bool any_of_filter(const std::string &name, const std::string &alts) {
  for (size_t p = 0;;) {
    size_t q = alts.find('|', p);
    if (name.find(alts.substr(p, q == std::string::npos ? q : q - p)) != std::string::npos) return true;
    if (q == std::string::npos) return false;
    p = q + 1;
  }
}
struct InlinePolicy {
  std::function<bool(const CallBase &, const Function &)> ok; // may inline this call to this body?
  unsigned max_insts = 20000;
  unsigned max_depth = 40;
  bool into_doomed = false;
  unsigned callee_limit = 4000; // do not inline bodies larger than this
};
// Inline (on the function itself) everything the policy allows.
bool flatten(Function &F, const InlinePolicy &P);
// mem2reg/SROA + CFG simplification without transformations that exploit undefined behaviour.
void cleanup(Function &F, const std::string &pipeline = "sroa,early-cse,simplifycfg<no-switch-to-lookup;no-hoist-common-insts;no-sink-common-insts;bonus-inst-threshold=0>");
// run a function pipeline
void run_pipeline(Function &F, const std::string &pipeline);
// Split vector loads and stores into scalar ones.
void scalarize_memory(Function &F);
void run_module_pipeline(Module &M, const std::string &pipeline);

// Make a private, externally visible copy of F to work on.
Function *private_copy(Function &F, const std::string &suffix = ".sa");

std::string type_str(Type *T);
std::vector<std::string> template_args(const std::string &s, size_t open); // split "<a, b<c>, d>" starting at '<'

typedef int (*mode_fn)(Module &M, const std::vector<std::string> &args);
struct ModeReg {
  static std::map<std::string, mode_fn> &table();
  ModeReg(const char *n, mode_fn f) { table()[n] = f; }
};

// Drop exceptional control flow: invokes become calls, edges into blocks that cannot return go to a
// stub that calls @sa.throw (or @sa.noreturn when the region raises nothing). Returns number of stubs.
unsigned prune_exceptions(Function &F);
