// N07: an arithmetic kernel's stored value equals a reference operation's value. For each kernel a
// function is built that runs the reference and the kernel (both inlined completely) on the same symbolic
// operands and compares the results; value numbering and simplification must reduce it to "true".
#include "kernels.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/Linker/Linker.h"

namespace {
struct Ty {
  std::string tag;                // name used in the reference unit
  char kind;                      // b i u f c
  unsigned bits;                  // of one scalar
  unsigned size() const { return (kind == 'c' ? 2 : 1) * (bits / 8); }
};
const std::map<std::string, Ty> &types() {
  static const std::map<std::string, Ty> t = {
      {"bool", {"b", 'b', 8}},          {"dynd::bool1", {"b", 'b', 8}},     {"signed char", {"i8", 'i', 8}},   {"short", {"i16", 'i', 16}},
      {"int", {"i32", 'i', 32}},        {"long", {"i64", 'i', 64}},         {"unsigned char", {"u8", 'u', 8}}, {"unsigned short", {"u16", 'u', 16}},
      {"unsigned int", {"u32", 'u', 32}}, {"unsigned long", {"u64", 'u', 64}}, {"float", {"f32", 'f', 32}},      {"double", {"f64", 'f', 64}},
      {"dynd::complex<float>", {"c32", 'c', 32}}, {"dynd::complex<double>", {"c64", 'c', 64}}, {"long long", {"i64", 'i', 64}}, {"unsigned long long", {"u64", 'u', 64}}};
  return t;
}
Type *scalar(LLVMContext &C, const Ty &t) {
  if (t.kind == 'f' || t.kind == 'c') return t.bits == 32 ? Type::getFloatTy(C) : Type::getDoubleTy(C);
  return Type::getIntNTy(C, t.bits);
}

void reach(Function *init, std::set<const Value *> &seen) {
  std::vector<const Value *> wl{init};
  while (!wl.empty()) {
    const Value *v = wl.back();
    wl.pop_back();
    if (!seen.insert(v).second) continue;
    if (auto *F = dyn_cast<Function>(v)) {
      for (const Instruction &I : instructions(*F))
        for (const Value *O : I.operands())
          if (isa<Constant>(O)) wl.push_back(O);
    } else if (auto *G = dyn_cast<GlobalVariable>(v)) {
      if (G->isConstant() && G->hasInitializer()) wl.push_back(G->getInitializer());
    } else if (auto *C = dyn_cast<Constant>(v))
      for (const Value *O : C->operands()) wl.push_back(O);
  }
}

// operand and result types from the kernel's class name
bool signature(const std::string &cls, std::vector<std::string> &args, std::string &ret) {
  size_t p = cls.find("apply_callable_kernel<");
  if (p != std::string::npos) {
    auto ta = template_args(cls, cls.find('<', p));
    if (ta.size() < 3 || ta[2].compare(0, 20, "dynd::type_sequence<")) return false;
    ret = ta[1];
    args = template_args(ta[2], 19);
    return true;
  }
  p = cls.find("apply_function_kernel<");
  if (p != std::string::npos) {
    auto ta = template_args(cls, cls.find('<', p));
    if (ta.empty()) return false;
    size_t q = ta[0].find("(*)(");
    if (q == std::string::npos) return false;
    ret = ta[0].substr(0, q);
    while (!ret.empty() && ret.back() == ' ') ret.pop_back();
    std::string a = "<" + ta[0].substr(q + 4);
    size_t e = a.rfind(')');
    if (e == std::string::npos) return false;
    a = a.substr(0, e) + ">";
    args = template_args(a, 0);
    return true;
  }
  for (p = cls.find("_kernel<"); p != std::string::npos; p = cls.find("_kernel<", p + 1)) {
    size_t b = p;
    while (b && (isalnum(cls[b - 1]) || cls[b - 1] == '_')) --b;
    std::string n = cls.substr(b, p - b);
    if (n == "base" || n == "base_strided") continue;
    auto ta = template_args(cls, p + 7);
    for (auto &x : ta)
      if (types().count(x)) args.push_back(x);
    return !args.empty();
  }
  return false;
}
} // namespace

// does the kernel read its sources?
static bool reads_src(const Kernel &K) {
  Function *W = flat_kernel(K);
  bool r = false;
  for (Instruction &I : instructions(*W))
    if (auto *L = dyn_cast<LoadInst>(&I)) {
      Root x = root_of(K, *W, L->getPointerOperand());
      if (x.k == Root::SRC) r = true;
    }
  W->eraseFromParent();
  return r;
}

// args: reference.bc, then "name:form" for each published function; form is b (binary), u (unary),
// x (dst op= src, types D S), f (fold, one type), k (constant, one type)
static int m_arith(Module &M, const std::vector<std::string> &args) {
  SMDiagnostic E;
  std::unique_ptr<Module> R = parseIRFile(args[0], E, M.getContext());
  if (!R || Linker::linkModules(M, std::move(R), Linker::Flags::OverrideFromSrc)) return 3;
  LLVMContext &C = M.getContext();
  std::vector<Kernel> all = find_kernels(M);
  for (Function &F : M)
    if (F.isDeclaration() && !F.isIntrinsic()) {
      static const std::set<std::string> lm = {"cos", "sin", "tan", "exp", "sqrt", "cbrt", "pow", "cosf", "sinf", "tanf", "expf", "sqrtf", "cbrtf", "powf", "fmod", "fmodf"};
      if (lm.count(F.getName().str())) {
        F.setMemoryEffects(MemoryEffects::none());
        F.setDoesNotThrow();
        F.addFnAttr(Attribute::WillReturn);
      }
    }
  for (size_t ai = 1; ai < args.size(); ++ai) {
    size_t c2 = args[ai].rfind(':'), c1 = args[ai].rfind(':', c2 - 1);
    std::string name = args[ai].substr(0, c1), op = args[ai].substr(c2 + 1);
    char form = args[ai][c1 + 1];
    Function *init = nullptr;
    for (Function &F : M) {
      if (!F.getName().starts_with("__cxx_global_var_init")) continue;
      for (Instruction &I : instructions(F)) {
        if (auto *CB = dyn_cast<CallBase>(&I))
          if (CB->getCalledFunction() && CB->getCalledFunction()->getName() == "__cxa_atexit") continue;
        for (Value *O : I.operands())
          if (isa<Constant>(O) && O->getType()->isPointerTy())
            if (auto *G = dyn_cast<GlobalVariable>(O->stripPointerCasts()))
              if (!G->isDeclaration() && demangle_(G->getName()) == "dynd::nd::" + name) init = &F;
      }
    }
    if (!init) continue;
    std::set<const Value *> rs;
    reach(init, rs);
    int nk = 0, unsup = 0;
    for (Kernel &K : all) {
      if (!rs.count(K.orig)) continue;
      std::vector<std::string> sa;
      std::string ret;
      if (!signature(K.cls, sa, ret)) continue;
      sa.erase(std::remove(sa.begin(), sa.end(), std::string()), sa.end());
      if (form == 'k' || form == 'f') {
        if (reads_src(K) != (form == 'f')) continue;
        if (form == 'k' && sa.empty() && !ret.empty()) sa.push_back(ret);
      }
      bool ok = true;
      std::vector<Ty> T;
      for (auto &a : sa)
        if (types().count(a)) T.push_back(types().at(a));
        else ok = false;
      size_t want = form == 'b' || form == 'x' || form == 'y' ? 2 : 1;
      if (!ok || T.size() != want) {
        ++unsup;
        continue;
      }
      std::string key = op;
      for (auto &t : T) key += "__" + t.tag;
      Function *ref = M.getFunction("ref__" + key);
      GlobalVariable *rt = M.getNamedGlobal("rt__" + key);
      if (!ref || !rt || !rt->hasInitializer()) {
        ++unsup;
        if (form == 'k' || form == 'f') Json().kv("k", "aritype").kv("op", op).kv("type", T[0].tag).out();
        continue;
      }
      if (form == 'k' || form == 'f') Json().kv("k", "aritype").kv("op", op).kv("type", T[0].tag).out();
      Ty RT;
      {
        auto *cd = dyn_cast<ConstantDataSequential>(rt->getInitializer());
        std::string tag = cd ? cd->getAsCString().str() : "";
        for (auto &kv : types())
          if (kv.second.tag == tag) RT = kv.second;
        if (RT.tag.empty()) {
          ++unsup;
          continue;
        }
      }
      std::string cname = name + (form == 'k' ? " start(" : "(");
      for (size_t i = 0; i < sa.size(); ++i) cname += (i ? ", " : "") + sa[i];
      cname += ") ";
      cname += K.kind == Kernel::SINGLE ? "single" : "strided";
      Json j;
      j.kv("k", "arith").kv("op", name).kv("key", cname).kv("where", where_fn(K.orig)).kv("cls", K.cls.substr(0, 300));
      ++nk;
      if (!ret.empty() && (!types().count(ret) || types().at(ret).tag != RT.tag)) {
        j.kv("ok", false).kv("why", "result type is " + ret + ", the operation's is " + RT.tag).out();
        continue;
      }
      // operands of the sources and the initial destination
      std::vector<Ty> S;
      bool acc = form == 'x' || form == 'f' || form == 'y';
      if (form == 'b' || form == 'y') S = T;
      else if (form == 'u' || form == 'f') S = {T[0]};
      else if (form == 'x') S = {T[1]};
      Ty D = acc && form != 'y' ? T[0] : RT;
      // the strided form is shown for one element, and for the second of two when the first raises no error
      bool all_proved = true;
      for (unsigned n = 1; n <= (K.kind == Kernel::SINGLE ? 1u : 2u) && all_proved; ++n) {
      std::vector<Type *> pt{PointerType::getUnqual(C)};
      auto addp = [&](const Ty &t) {
        for (unsigned e = 0; e < n; ++e)
          for (int s = 0; s < (t.kind == 'c' ? 2 : 1); ++s) pt.push_back(t.kind == 'b' ? Type::getInt1Ty(C) : scalar(C, t));
      };
      for (auto &t : S) addp(t);
      if (acc) addp(D);
      Function *P = Function::Create(FunctionType::get(Type::getInt1Ty(C), pt, false), GlobalValue::ExternalLinkage, "proof", &M);
      for (unsigned i = 1; i < P->arg_size(); ++i) P->addParamAttr(i, Attribute::NoUndef);
      IRBuilder<> B(BasicBlock::Create(C, "", P));
      Type *I8 = B.getInt8Ty(), *I64 = B.getInt64Ty(), *PT = B.getPtrTy();
      unsigned pi = 1;
      auto slot = [&](const Ty &t, bool fill) {
        AllocaInst *A = B.CreateAlloca(ArrayType::get(I8, t.size() * n));
        A->setAlignment(Align(16));
        if (fill)
          for (unsigned e = 0; e < n; ++e)
            for (int s = 0; s < (t.kind == 'c' ? 2 : 1); ++s) {
              Value *v = P->getArg(pi++);
              if (t.kind == 'b') v = B.CreateZExt(v, I8);
              B.CreateStore(v, B.CreateConstGEP1_64(I8, A, e * t.size() + s * (t.bits / 8)));
            }
        return A;
      };
      std::vector<AllocaInst *> sl;
      for (auto &t : S) sl.push_back(slot(t, true));
      AllocaInst *d1, *d2;
      {
        unsigned save = pi;
        d1 = slot(D, acc);
        pi = save;
        d2 = slot(D, acc);
      }
      // reference first
      Value *threw = B.getFalse();
      for (unsigned e = 0; e < n; ++e) {
        std::vector<Value *> ca{B.CreateConstGEP1_64(I8, d2, e * D.size())};
        for (size_t i = 0; i < S.size(); ++i) ca.push_back(B.CreateConstGEP1_64(I8, sl[i], e * S[i].size()));
        while (ca.size() < ref->arg_size()) ca.push_back(ConstantPointerNull::get(cast<PointerType>(PT)));
        Value *t = B.CreateCall(ref, ca);
        if (!t->getType()->isIntegerTy(1)) t = B.CreateICmpNE(t, Constant::getNullValue(t->getType()));
        if (e + 1 < n) {
          BasicBlock *done = BasicBlock::Create(C, "", P), *next = BasicBlock::Create(C, "", P);
          B.CreateCondBr(t, done, next);
          B.SetInsertPoint(done);
          B.CreateRet(B.getTrue());
          B.SetInsertPoint(next);
        } else
          threw = t;
      }
      AllocaInst *tf = B.CreateAlloca(B.getInt1Ty());
      B.CreateStore(threw, tf);
      size_t ns = std::max<size_t>(1, S.size());
      AllocaInst *sp = B.CreateAlloca(ArrayType::get(PT, ns));
      AllocaInst *ss = B.CreateAlloca(ArrayType::get(I64, ns));
      for (size_t i = 0; i < S.size(); ++i) {
        B.CreateStore(sl[i], B.CreateConstGEP1_64(PT, sp, i));
        B.CreateStore(B.getInt64(S[i].size()), B.CreateConstGEP1_64(I64, ss, i));
      }
      if (K.kind == Kernel::SINGLE) B.CreateCall(K.orig, {P->getArg(0), d1, sp});
      else B.CreateCall(K.orig, {P->getArg(0), d1, B.getInt64(D.size()), sp, ss, B.getInt64(n)});
      Value *eq = B.CreateNot(B.CreateLoad(B.getInt1Ty(), tf));
      for (unsigned e = 0; e < n; ++e)
        for (int s = 0; s < (D.kind == 'c' ? 2 : 1); ++s) {
          unsigned off = e * D.size() + s * (D.bits / 8);
          Type *IT = B.getIntNTy(D.bits);
          Value *a = B.CreateLoad(IT, B.CreateConstGEP1_64(I8, d1, off)), *b = B.CreateLoad(IT, B.CreateConstGEP1_64(I8, d2, off));
          eq = B.CreateAnd(eq, B.CreateICmpEQ(a, b));
        }
      B.CreateRet(eq);
      InlinePolicy Pol;
      Pol.ok = [](const CallBase &, const Function &) { return true; };
      flatten(*P, Pol);
      prune_exceptions(*P);
      // a fused multiply-add is one rounding less or the plain expression: compare the plain expression
      std::vector<IntrinsicInst *> fma;
      for (Instruction &I : instructions(*P))
        if (auto *II = dyn_cast<IntrinsicInst>(&I))
          if (II->getIntrinsicID() == Intrinsic::fmuladd) fma.push_back(II);
      for (IntrinsicInst *II : fma) {
        IRBuilder<> FB(II);
        II->replaceAllUsesWith(FB.CreateFAdd(FB.CreateFMul(II->getArgOperand(0), II->getArgOperand(1)), II->getArgOperand(2)));
        II->eraseFromParent();
      }
      std::vector<Instruction *> stubs;
      for (Instruction &I : instructions(*P)) {
        I.setMetadata(LLVMContext::MD_loop, nullptr);
        if (auto *CB = dyn_cast<CallInst>(&I))
          if (CB->getCalledFunction() && CB->getCalledFunction()->getName() == "sa.throw") stubs.push_back(CB);
      }
      for (Instruction *I : stubs) {
        BasicBlock *BB = I->getParent();
        BB->getTerminator()->eraseFromParent();
        IRBuilder<> SB(BB);
        SB.CreateRet(SB.CreateLoad(SB.getInt1Ty(), tf));
        I->eraseFromParent();
      }
      const char *opt = "early-cse,gvn,jump-threading,simplifycfg,gvn,correlated-propagation,instcombine<no-verify-fixpoint>,simplifycfg,gvn,jump-threading,correlated-propagation,simplifycfg,instcombine<no-verify-fixpoint>,sccp,adce,simplifycfg";
      run_pipeline(*P, "sroa,early-cse,simplifycfg,loop-simplify,lcssa,loop(loop-rotate),loop(loop-unroll-full),sroa,instsimplify,simplifycfg");
      bool proved = false;
      auto test = [&] {
        unsigned rets = 0;
        for (BasicBlock &BB : *P)
          if (auto *RI = dyn_cast<ReturnInst>(BB.getTerminator())) {
            auto *CI = dyn_cast<ConstantInt>(RI->getReturnValue());
            if (!CI || !CI->isOne()) return false;
            ++rets;
          }
        return rets > 0;
      };
      for (int it = 0; it < 4 && !proved; ++it) {
        run_pipeline(*P, opt);
        proved = test();
      }
      if (!proved && getenv("SA_DUMP")) P->print(errs());
      P->eraseFromParent();
      all_proved = proved;
      }
      j.kv("ok", all_proved).kv("why", all_proved ? "" : "the value stored is not the value of the operation on the operands").out();
    }
    Json j;
    j.kv("k", "arithsum").kv("op", name).kv("kernels", nk).kv("unsupported", unsup).out();
  }
  return 0;
}
static ModeReg r1("arith", m_arith);
