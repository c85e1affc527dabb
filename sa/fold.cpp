// Partial evaluation of argument-free witness functions through the library's own code: everything
// reachable is inlined layer by layer and simplified by LLVM's constant folder; the value each
// witness returns must come out as a constant. The type-id registry table is read off its initialiser.
#include "absint.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Transforms/Utils/Cloning.h"

struct IdInfo {
  std::string name;
  int64_t base = -1;
  int64_t single = -1; // builtin id of the singleton type, -2: constructed type
  bool ctor = false, parse = false;
  std::string ctor_fn, parse_fn;
};

static std::string cstr(Value *V) {
  V = V->stripPointerCasts();
  if (auto *G = dyn_cast<GlobalVariable>(V))
    if (G->hasInitializer())
      if (auto *D = dyn_cast<ConstantDataSequential>(G->getInitializer()))
        if (D->isString()) return D->isCString() ? D->getAsCString().str() : D->getAsString().str();
  if (auto *G = dyn_cast<GlobalVariable>(V))
    if (G->hasInitializer() && isa<ConstantAggregateZero>(G->getInitializer())) return "";
  return "?";
}

static bool is_idinfo_ctor(const Function &F) {
  std::string n = demangle_(F.getName());
  return n.compare(0, 24, "dynd::id_info::id_info(c") == 0;
}
static bool is_idinfo_dflt(const Function &F) {
  return demangle_(F.getName()) == "dynd::id_info::id_info()";
}

// rows of the registry, from the constructor calls in detail::infos()
static bool registry_rows(Module &M, std::map<int64_t, IdInfo> &rows, Function *&infos, uint64_t &sz) {
  infos = nullptr;
  for (Function &F : M)
    if (!F.isDeclaration() && demangle_(F.getName()) == "dynd::detail::infos()") infos = &F;
  if (!infos) return false;
  Function *C = private_copy(*infos, ".reg");
  InlinePolicy P;
  P.ok = [](const CallBase &, const Function &f) {
    if (is_idinfo_ctor(f) || is_idinfo_dflt(f)) return false;
    std::string n = demangle_(f.getName());
    return n.find("dynd::") != std::string::npos && n.find("std::vector") == std::string::npos;
  };
  flatten(*C, P);
  run_pipeline(*C, "sroa,early-cse,simplifycfg,instsimplify,early-cse");
  const DataLayout &DL = M.getDataLayout();
  StructType *ST = StructType::getTypeByName(M.getContext(), "struct.dynd::id_info");
  if (!ST) return false;
  sz = DL.getTypeAllocSize(ST);
  for (Instruction &I : instructions(*C)) {
    auto *CB = dyn_cast<CallBase>(&I);
    if (!CB) continue;
    Function *f = CB->getCalledFunction();
    if (!f || !(is_idinfo_ctor(*f) || is_idinfo_dflt(*f))) continue;
    APInt off(64, 0);
    Value *base = CB->getArgOperand(0)->stripAndAccumulateConstantOffsets(DL, off, true);
    if (!isa<AllocaInst>(base)) continue;
    int64_t row = off.getSExtValue() / (int64_t)sz;
    IdInfo x;
    if (is_idinfo_ctor(*f) && CB->arg_size() == 6) {
      x.name = cstr(CB->getArgOperand(1));
      if (auto *CI = dyn_cast<ConstantInt>(CB->getArgOperand(2))) x.base = CI->getSExtValue();
      // the singleton: last store to the argument before the call
      Value *t = CB->getArgOperand(3);
      x.single = -2;
      for (Instruction *J = I.getPrevNode(); J; J = J->getPrevNode())
        if (auto *S = dyn_cast<StoreInst>(J))
          if (S->getPointerOperand() == t) {
            Value *v = S->getValueOperand();
            if (isa<ConstantPointerNull>(v)) x.single = 0;
            else if (auto *CE = dyn_cast<ConstantExpr>(v))
              if (CE->getOpcode() == Instruction::IntToPtr)
                if (auto *CI = dyn_cast<ConstantInt>(CE->getOperand(0))) x.single = CI->getSExtValue();
            break;
          }
      x.ctor = !isa<ConstantPointerNull>(CB->getArgOperand(4));
      x.parse = !isa<ConstantPointerNull>(CB->getArgOperand(5));
      if (auto *g = dyn_cast<Function>(CB->getArgOperand(4))) x.ctor_fn = demangle_(g->getName());
      if (auto *g = dyn_cast<Function>(CB->getArgOperand(5))) x.parse_fn = demangle_(g->getName());
    } else
      x.base = 0, x.single = 0;
    rows[row] = x;
  }
  C->eraseFromParent();
  return !rows.empty();
}

static void bind_registry(Module &M, std::map<int64_t, IdInfo> &rows, Function *infos, uint64_t sz) {
  LLVMContext &C = M.getContext();
  StructType *ST = StructType::getTypeByName(C, "struct.dynd::id_info");
  Type *I8 = Type::getInt8Ty(C);
  const DataLayout &DL = M.getDataLayout();
  const StructLayout *SL = DL.getStructLayout(ST);
  (void)I8;
  // base_id: the member after the name
  int64_t n = rows.rbegin()->first + 1;
  std::vector<Constant *> el;
  for (int64_t i = 0; i < n; ++i) {
    std::vector<Constant *> f;
    for (unsigned k = 0; k < ST->getNumElements(); ++k) {
      Type *T = ST->getElementType(k);
      if (k == 1 && T->isIntegerTy()) f.push_back(ConstantInt::get(T, rows[i].base));
      else f.push_back(Constant::getNullValue(T));
    }
    el.push_back(ConstantStruct::get(ST, f));
  }
  (void)SL;
  auto *AT = ArrayType::get(ST, n);
  auto *A = new GlobalVariable(M, AT, true, GlobalValue::InternalLinkage, ConstantArray::get(AT, el), "sa.infos");
  auto *P = PointerType::get(C, 0);
  auto *VT = StructType::get(C, {P, P, P});
  Constant *end = ConstantExpr::getGetElementPtr(ST, A, ArrayRef<Constant *>{ConstantInt::get(Type::getInt64Ty(C), n)});
  auto *V = new GlobalVariable(M, VT, true, GlobalValue::InternalLinkage, ConstantStruct::get(VT, {A, end, end}), "sa.infosv");
  infos->deleteBody();
  auto *B = BasicBlock::Create(C, "e", infos);
  ReturnInst::Create(C, V, B);
  (void)sz;
}

static bool link_more(Module &M, const std::vector<std::string> &files, size_t from) {
  for (size_t i = from; i < files.size(); ++i) {
    SMDiagnostic E;
    auto X = parseIRFile(files[i], E, M.getContext());
    if (!X) {
      E.print("dyndsa", errs());
      return false;
    }
    if (Linker::linkModules(M, std::move(X))) return false;
  }
  return true;
}

// which parameter values make the function return nonzero / zero (one integer or floating-point parameter)
static std::string avdesc(const AV &a) {
  if (a.k == AV::INT) {
    SmallString<48> lo, hi, e;
    ConstantRange r = a.r;
    std::string s = "int ";
    if (r.isWrappedSet()) {
      r.getSignedMin().toStringSigned(lo);
      r.getSignedMax().toStringSigned(hi);
      s += "s ";
    } else {
      r.getUnsignedMin().toStringUnsigned(lo);
      r.getUnsignedMax().toStringUnsigned(hi);
      s += "u ";
    }
    s += std::string(lo) + " " + std::string(hi);
    for (const APInt &x : a.ex) {
      SmallString<48> t;
      x.toStringUnsigned(t);
      s += " " + std::string(t);
    }
    return s;
  }
  if (a.k == AV::FLT) return std::string("flt") + (a.f.nan ? " nan" : "") + (a.f.pinf || a.f.ninf ? " inf" : "") + (a.f.fin ? " fin" : "");
  return a.bot() ? "bot" : "top";
}
static bool preimages(Function &F, std::vector<std::string> &one, std::vector<std::string> &zero) {
  if (F.arg_size() != 1 || !F.getReturnType()->isIntegerTy()) return false;
  Explorer E(F);
  E.loops = true;
  E.on_ret = [&](State &S, const ReturnInst &R) {
    const Value *v = E.look(S, R.getReturnValue());
    while (isa<ZExtInst>(v) || isa<SExtInst>(v)) v = E.look(S, cast<Instruction>(v)->getOperand(0));
    unsigned w = v->getType()->getIntegerBitWidth();
    for (int t = 0; t < 2; ++t) {
      std::vector<State> r;
      if (w == 1)
        r = E.assume(S, v, t);
      else {
        State A = S;
        if (E.refine(A, v, AV::integer(t ? ConstantRange(APInt(w, 1), APInt(w, 0)) : ConstantRange(APInt(w, 0))))) r.push_back(A);
      }
      for (State &A : r) (t ? one : zero).push_back(avdesc(E.eval(A, F.getArg(0))));
    }
  };
  E.run();
  return !E.aborted;
}

static const char *UNROLL = "loop-simplify,lcssa,loop(loop-rotate),loop(loop-unroll-full),sroa,early-cse<memssa>,sccp,instsimplify,simplifycfg<no-switch-to-lookup>";
static const char *PIPE = "sroa,early-cse<memssa>,sccp,instsimplify,simplifycfg<no-switch-to-lookup>,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg<no-switch-to-lookup>,dse,adce";

// drop landing pads: exceptional edges never produce the value returned
static void fold_one(Function &F) {
  std::set<std::string> dead;
  for (int round = 0; round < 60; ++round) {
    prune_exceptions(F);
    run_pipeline(F, PIPE);
    {
      DominatorTree DT(F);
      LoopInfo LI(DT);
      if (!LI.empty()) run_pipeline(F, UNROLL);
    }
    auto eligible = [&](CallBase *CB) {
      Function *f = CB->getCalledFunction();
      if (!f || f->isDeclaration() || f == &F || f->isVarArg() || f->isIntrinsic()) return false;
      std::string n = demangle_(f->getName());
      return n.find("basic_string") == std::string::npos && n.find("basic_ostream") == std::string::npos && n.find("stringstream") == std::string::npos;
    };
    // first the calls certain to run: along the unconditional path from the entry
    std::vector<CallBase *> calls;
    std::set<BasicBlock *> seen;
    for (BasicBlock *B = &F.getEntryBlock(); B && seen.insert(B).second;) {
      for (Instruction &I : *B)
        if (auto *CB = dyn_cast<CallBase>(&I))
          if (eligible(CB)) calls.push_back(CB);
      B = B->getSingleSuccessor();
    }
    if (calls.empty())
      for (Instruction &I : instructions(F))
        if (auto *CB = dyn_cast<CallBase>(&I))
          if (eligible(CB)) calls.push_back(CB);
    bool ch = false;
    for (CallBase *CB : calls) {
      InlineFunctionInfo IFI;
      CB->getCalledFunction()->removeFnAttr(Attribute::NoInline);
      ch |= InlineFunction(*CB, IFI, false, nullptr, false).isSuccess();
    }
    for (Instruction &I : instructions(F)) I.setMetadata(LLVMContext::MD_loop, nullptr);
    if (!ch || F.getInstructionCount() > 30000) break;
  }
  prune_exceptions(F);
  run_pipeline(F, PIPE);
}

// fold <prefix> <more.bc...>: value of every function whose name starts with the prefix
static int m_fold(Module &M, const std::vector<std::string> &args) {
  if (!link_more(M, args, 1)) return 3;
  std::map<int64_t, IdInfo> rows;
  Function *infos = nullptr;
  uint64_t sz = 0;
  if (registry_rows(M, rows, infos, sz)) {
    for (auto &r : rows) {
      Json j;
      j.kv("k", "row").kv("id", (long)r.first).kv("name", r.second.name).kv("base", (long)r.second.base).kv("single", (long)r.second.single).kv("ctor", r.second.ctor_fn).kv("parse", r.second.parse_fn).out();
    }
    bind_registry(M, rows, infos, sz);
  }
  std::vector<Function *> fs;
  for (Function &F : M)
    if (!F.isDeclaration() && F.getName().starts_with(args[0])) fs.push_back(&F);
  for (Function *F : fs) {
    fold_one(*F);
    std::string val = "throws";
    for (Instruction &I : instructions(*F))
      if (auto *R = dyn_cast<ReturnInst>(&I)) {
        std::string v = "?";
        if (auto *CI = dyn_cast<ConstantInt>(R->getReturnValue())) v = std::to_string(CI->getSExtValue());
        if (val != "throws" && val != v) v = "?";
        val = v;
      }
    std::vector<std::string> calls, loads, stores;
    const DataLayout &DL = M.getDataLayout();
    auto argref = [&](Value *p, std::string &out) {
      APInt off(64, 0);
      auto *A = dyn_cast<Argument>(p->stripAndAccumulateConstantOffsets(DL, off, true));
      if (!A) return false;
      out = std::to_string(A->getArgNo()) + "+" + std::to_string(off.getSExtValue());
      return true;
    };
    for (Instruction &I : instructions(*F)) {
      std::string r;
      if (auto *CB = dyn_cast<CallBase>(&I)) {
        if (isa<DbgInfoIntrinsic>(CB)) continue;
        Function *f = CB->getCalledFunction();
        std::string c = f ? demangle_(f->getName()) : "?";
        c += " |";
        for (Value *V : CB->args()) {
          std::string t = V->getType()->isPointerTy() ? cstr(V) : "";
          if (t.empty()) t = type_str(V->getType());
          c += " " + t;
        }
        calls.push_back(c);
      } else if (auto *L = dyn_cast<LoadInst>(&I)) {
        if (argref(L->getPointerOperand(), r)) {
          std::string ext;
          for (User *U : L->users()) {
            if (isa<SExtInst>(U) || isa<SIToFPInst>(U)) ext = "s";
            if (isa<ZExtInst>(U) || isa<UIToFPInst>(U)) ext = "z";
          }
          loads.push_back(r + ":" + type_str(L->getType()) + ":" + ext);
        }
      } else if (auto *S = dyn_cast<StoreInst>(&I)) {
        if (argref(S->getPointerOperand(), r)) stores.push_back(r + ":" + type_str(S->getValueOperand()->getType()));
      }
    }
    std::vector<std::string> one, zero;
    bool pre = preimages(*F, one, zero);
    Json j;
    j.kv("pre", pre).list("one", one).list("zero", zero);
    j.kv("k", "val").kv("fn", F->getName().str()).kv("val", val).list("calls", calls).list("loads", loads).list("stores", stores).out();
    if (val == "?" && getenv("FOLD_DEBUG")) F->print(errs());
  }
  return 0;
}
static ModeReg r1("fold", m_fold);
