#include <unistd.h>
#include "common.h"
#include "llvm/Linker/Linker.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/Local.h"

std::string demangle_(StringRef n) { return llvm::demangle(n.str()); }

std::string esc(const std::string &s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += c;
    } else if (c < 32) {
      char b[8];
      snprintf(b, 8, "\\u%04x", c);
      r += b;
    } else
      r += c;
  }
  return r;
}

static std::string path_of(const DIScope *S) {
  if (!S) return "";
  std::string f = S->getFilename().str(), d = S->getDirectory().str();
  if (!f.empty() && f[0] != '/') f = d + "/" + f;
  return f;
}

std::string where_of(const Instruction *I) {
  if (const DebugLoc &L = I->getDebugLoc())
    return path_of(cast<DIScope>(L.getScope())) + ":" + std::to_string(L.getLine());
  return where_fn(I->getFunction());
}

std::string where_fn(const Function *F) {
  if (DISubprogram *S = F->getSubprogram()) return path_of(S) + ":" + std::to_string(S->getLine());
  return demangle_(F->getName());
}

void doomed_blocks(Function &F, SmallPtrSetImpl<BasicBlock *> &out) {
  SmallPtrSet<BasicBlock *, 32> live;
  std::vector<BasicBlock *> wl;
  for (BasicBlock &B : F)
    if (isa<ReturnInst>(B.getTerminator())) {
      live.insert(&B);
      wl.push_back(&B);
    }
  while (!wl.empty()) {
    BasicBlock *B = wl.back();
    wl.pop_back();
    for (BasicBlock *P : predecessors(B)) {
      // an exception edge of an invoke does not make the invoke's block normal, and a landing pad is never a normal path
      if (auto *II = dyn_cast<InvokeInst>(P->getTerminator()))
        if (II->getUnwindDest() == B) continue;
      if (live.insert(P).second) wl.push_back(P);
    }
  }
  for (BasicBlock &B : F)
    if (!live.count(&B)) out.insert(&B);
}

static unsigned insts(const Function &F) {
  unsigned n = 0;
  for (const BasicBlock &B : F) n += B.size();
  return n;
}

bool flatten(Function &F, const InlinePolicy &P) {
  bool changed = false;
  // call -> chain of functions it came from (recursion guard)
  std::map<CallBase *, std::vector<Function *>> hist;
  std::set<CallBase *> refused;
  while (true) {
    SmallPtrSet<BasicBlock *, 32> dead;
    if (!P.into_doomed) doomed_blocks(F, dead);
    CallBase *pick = nullptr;
    for (BasicBlock &B : F) {
      if (dead.count(&B)) continue;
      for (Instruction &I : B) {
        auto *CB = dyn_cast<CallBase>(&I);
        if (!CB || refused.count(CB)) continue;
        Function *C = CB->getCalledFunction();
        if (!C || C->isDeclaration() || C == &F || C->isVarArg() || C->arg_size() != CB->arg_size()) continue;
        auto &h = hist[CB];
        if (h.size() > P.max_depth || std::find(h.begin(), h.end(), C) != h.end()) continue;
        if (insts(*C) > P.callee_limit) continue;
        if (!P.ok(*CB, *C)) continue;
        pick = CB;
        break;
      }
      if (pick) break;
    }
    if (!pick) break;
    if (insts(F) > P.max_insts) break;
    Function *C = pick->getCalledFunction();
    std::vector<Function *> h = hist[pick];
    h.push_back(C);
    InlineFunctionInfo IFI;
    CallBase *site = pick;
    C->removeFnAttr(Attribute::NoInline);
    auto r = InlineFunction(*site, IFI, false, nullptr, false);
    if (!r.isSuccess()) {
      refused.insert(pick);
      continue;
    }
    hist.erase(site);
    changed = true;
    for (CallBase *N : IFI.InlinedCallSites) hist[N] = h;
  }
  return changed;
}

namespace {
struct PB {
  LoopAnalysisManager LAM;
  FunctionAnalysisManager FAM;
  CGSCCAnalysisManager CGAM;
  ModuleAnalysisManager MAM;
  PassBuilder B;
  PB() {
    B.registerModuleAnalyses(MAM);
    B.registerCGSCCAnalyses(CGAM);
    B.registerFunctionAnalyses(FAM);
    B.registerLoopAnalyses(LAM);
    B.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  }
};
} // namespace

void run_pipeline(Function &F, const std::string &pipeline) {
  PB pb;
  FunctionPassManager FPM;
  if (auto e = pb.B.parsePassPipeline(FPM, pipeline)) {
    errs() << "bad pipeline " << pipeline << ": " << toString(std::move(e)) << "\n";
    exit(3);
  }
  F.removeFnAttr(Attribute::OptimizeNone);
  FPM.run(F, pb.FAM);
}

void run_module_pipeline(Module &M, const std::string &pipeline) {
  PB pb;
  ModulePassManager MPM;
  if (auto e = pb.B.parsePassPipeline(MPM, pipeline)) {
    errs() << "bad pipeline " << pipeline << ": " << toString(std::move(e)) << "\n";
    exit(3);
  }
  MPM.run(M, pb.MAM);
}

void cleanup(Function &F, const std::string &pipeline) { run_pipeline(F, pipeline); }

Function *private_copy(Function &F, const std::string &suffix) {
  ValueToValueMapTy VM;
  Function *N = CloneFunction(&F, VM);
  N->setName(F.getName() + suffix);
  N->setComdat(nullptr);
  N->setLinkage(GlobalValue::ExternalLinkage);
  return N;
}

std::string type_str(Type *T) {
  std::string s;
  raw_string_ostream o(s);
  T->print(o);
  return s;
}

std::vector<std::string> template_args(const std::string &s, size_t open) {
  std::vector<std::string> r;
  int d = 0;
  std::string cur;
  for (size_t i = open; i < s.size(); ++i) {
    char c = s[i];
    if (c == '<' || c == '(') {
      if (d++ == 0) continue;
    } else if (c == '>' || c == ')') {
      if (--d == 0) {
        break;
      }
    } else if (c == ',' && d == 1) {
      r.push_back(cur);
      cur.clear();
      if (i + 1 < s.size() && s[i + 1] == ' ') ++i;
      continue;
    }
    cur += c;
  }
  r.push_back(cur);
  return r;
}


static bool region_throws(BasicBlock *B) {
  SmallPtrSet<BasicBlock *, 16> seen;
  std::vector<BasicBlock *> wl{B};
  unsigned n = 0;
  while (!wl.empty() && n++ < 400) {
    BasicBlock *X = wl.back();
    wl.pop_back();
    if (!seen.insert(X).second) continue;
    for (Instruction &I : *X)
      if (auto *CB = dyn_cast<CallBase>(&I)) {
        Function *C = CB->getCalledFunction();
        if (C && (C->getName() == "__cxa_throw" || C->getName() == "__cxa_rethrow" || C->getName().starts_with("_ZSt") || C->getName() == "sa.throw")) {
          if (C->getName().starts_with("_ZSt") && !C->doesNotReturn()) continue;
          if (C->getName() == "_ZSt9terminatev") continue;
          return true;
        }
        if (C && CB->doesNotReturn() && !C->doesNotThrow() && C->getName() != "abort") return true;
      }
    for (BasicBlock *S : successors(X)) wl.push_back(S);
  }
  // a callee that always throws: last call before unreachable
  return false;
}

unsigned prune_exceptions(Function &F) {
  unsigned n = 0;
  Module *M = F.getParent();
  SmallPtrSet<BasicBlock *, 32> dead;
  doomed_blocks(F, dead);
  std::vector<std::pair<Instruction *, unsigned>> edges;
  LLVMContext &C = F.getContext();
  FunctionCallee T = M->getOrInsertFunction("sa.throw", Type::getVoidTy(C));
  FunctionCallee N = M->getOrInsertFunction("sa.noreturn", Type::getVoidTy(C));
  // whole function cannot return
  std::vector<BasicBlock *> blocks;
  for (BasicBlock &B : F) blocks.push_back(&B);
  std::map<BasicBlock *, BasicBlock *> stub;
  for (BasicBlock *B : blocks) {
    if (dead.count(B)) continue;
    Instruction *TI = B->getTerminator();
    for (unsigned i = 0; i < TI->getNumSuccessors(); ++i) {
      if (isa<InvokeInst>(TI) && i == 1) continue;
      BasicBlock *S = TI->getSuccessor(i);
      if (!dead.count(S)) continue;
      BasicBlock *&X = stub[S];
      if (!X) {
        X = BasicBlock::Create(C, S->getName() + ".stub", &F);
        Instruction *where = &*S->getFirstNonPHIOrDbg();
        auto *CI = CallInst::Create(region_throws(S) ? T : N, "", X);
        CI->setDebugLoc(where->getDebugLoc());
        new UnreachableInst(C, X);
        ++n;
      }
      S->removePredecessor(B);
      TI->setSuccessor(i, X);
    }
  }
  for (BasicBlock *B : blocks)
    if (auto *II = dyn_cast<InvokeInst>(B->getTerminator()))
      if (!dead.count(B)) changeToCall(II);
  removeUnreachableBlocks(F);
  return n;
}

std::map<std::string, mode_fn> &ModeReg::table() {
  static std::map<std::string, mode_fn> t;
  return t;
}

// dump <substring>: flattened body of matching functions
static int m_dump(Module &M, const std::vector<std::string> &args) {
  std::vector<Function *> fs;
  for (Function &F : M)
    if (!F.isDeclaration() && demangle_(F.getName()).find(args[0]) != std::string::npos) fs.push_back(&F);
  for (Function *F : fs) {
    Function *C = private_copy(*F);
    InlinePolicy P;
    P.ok = [](const CallBase &, const Function &) { return true; };
    if (args.size() < 2) flatten(*C, P);
    prune_exceptions(*C);
    cleanup(*C);
    outs() << "; " << demangle_(F->getName()) << "\n";
    C->print(outs());
  }
  return 0;
}
static ModeReg r_dump("dump", m_dump);

int main(int argc, char **argv) {
  if (argc < 3) {
    errs() << "usage: dyndsa mode [args] file.bc\n";
    return 2;
  }
  LLVMContext C;
  SMDiagnostic E;
  // one file, or several joined by ',' to be linked into one module
  std::unique_ptr<Module> M;
  SmallVector<StringRef, 32> files;
  StringRef(argv[argc - 1]).split(files, ',');
  for (StringRef f : files) {
    std::unique_ptr<Module> N = parseIRFile(f, E, C);
    if (!N) {
      E.print("dyndsa", errs());
      return 3;
    }
    if (!M)
      M = std::move(N);
    else if (Linker::linkModules(*M, std::move(N)))
      return 3;
  }
  auto it = ModeReg::table().find(argv[1]);
  if (it == ModeReg::table().end()) return 2;
  std::vector<std::string> a(argv + 2, argv + argc - 1);
  int r = it->second(*M, a);
  outs().flush();
  _exit(r);
}

void scalarize_memory(Function &F) {
  std::vector<Instruction *> work;
  for (Instruction &I : instructions(F)) {
    Type *T = isa<LoadInst>(I) ? I.getType() : isa<StoreInst>(I) ? cast<StoreInst>(I).getValueOperand()->getType() : nullptr;
    if (T && isa<FixedVectorType>(T) && T->getScalarSizeInBits() % 8 == 0) work.push_back(&I);
  }
  for (Instruction *I : work) {
    IRBuilder<> B(I);
    auto *VT = cast<FixedVectorType>(isa<LoadInst>(I) ? I->getType() : cast<StoreInst>(I)->getValueOperand()->getType());
    unsigned es = VT->getScalarSizeInBits() / 8;
    Value *ptr = isa<LoadInst>(I) ? cast<LoadInst>(I)->getPointerOperand() : cast<StoreInst>(I)->getPointerOperand();
    Value *acc = PoisonValue::get(VT);
    for (unsigned i = 0; i < VT->getNumElements(); ++i) {
      Value *p = i ? B.CreateConstGEP1_64(B.getInt8Ty(), ptr, (uint64_t)i * es) : ptr;
      if (isa<LoadInst>(I))
        acc = B.CreateInsertElement(acc, B.CreateAlignedLoad(VT->getElementType(), p, Align(1)), (uint64_t)i);
      else
        B.CreateAlignedStore(B.CreateExtractElement(cast<StoreInst>(I)->getValueOperand(), (uint64_t)i), p, Align(1));
    }
    if (isa<LoadInst>(I)) I->replaceAllUsesWith(acc);
    I->eraseFromParent();
  }
}
