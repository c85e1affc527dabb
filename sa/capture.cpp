// What recorded nodes refer to: the members of every closure type recorded in a call graph, with the pointers and
// references among them, and for each of those where the value stored there comes from.
#include "common.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/DebugInfoMetadata.h"

namespace {
const DIType *strip(const DIType *t) {
  while (auto *d = dyn_cast_or_null<DIDerivedType>(t)) {
    auto tag = d->getTag();
    if (tag != dwarf::DW_TAG_typedef && tag != dwarf::DW_TAG_const_type && tag != dwarf::DW_TAG_volatile_type) break;
    t = d->getBaseType();
  }
  return t;
}
std::string tyname(const DIType *t, int depth = 0) {
  if (!t) return "void";
  if (depth > 6) return "...";
  if (auto *d = dyn_cast<DIDerivedType>(t)) {
    std::string b = tyname(d->getBaseType(), depth + 1);
    switch (d->getTag()) {
    case dwarf::DW_TAG_pointer_type: return b + " *";
    case dwarf::DW_TAG_reference_type: return b + " &";
    case dwarf::DW_TAG_rvalue_reference_type: return b + " &&";
    case dwarf::DW_TAG_const_type: return "const " + b;
    case dwarf::DW_TAG_typedef: return d->getName().str();
    default: return d->getName().str();
    }
  }
  if (isa<DISubroutineType>(t)) return "function";
  return t->getName().str();
}
bool points(const DIType *t, const DIType *&to) {
  auto *d = dyn_cast_or_null<DIDerivedType>(strip(t));
  if (!d) return false;
  switch (d->getTag()) {
  case dwarf::DW_TAG_pointer_type:
  case dwarf::DW_TAG_reference_type:
  case dwarf::DW_TAG_rvalue_reference_type: to = strip(d->getBaseType()); return true;
  default: return false;
  }
}
// Members of a class, with those of its bases and of the plain aggregates it holds.
void members(const DICompositeType *C, uint64_t at, const std::string &in, std::vector<std::string> &out, int depth = 0) {
  if (depth > 4) return;
  if (!in.empty()) { // what manages its own memory is not looked into
    for (auto *x : C->getElements())
      if (auto *f = dyn_cast<DISubprogram>(x))
        if (f->getName().starts_with("~")) return;
    for (const DIScope *q = C->getScope(); q; q = q->getScope())
      if (auto *ns = dyn_cast<DINamespace>(q))
        if (ns->getName() == "std") return;
  }
  for (auto *e : C->getElements()) {
    auto *d = dyn_cast<DIDerivedType>(e);
    if (!d || d->isStaticMember()) continue;
    uint64_t o = at + d->getOffsetInBits() / 8;
    if (d->getTag() == dwarf::DW_TAG_inheritance) {
      if (auto *B = dyn_cast_or_null<DICompositeType>(strip(d->getBaseType()))) members(B, o, in, out, depth + 1);
      continue;
    }
    if (d->getTag() != dwarf::DW_TAG_member) continue;
    const DIType *to = nullptr, *t = strip(d->getBaseType());
    if (auto *A = dyn_cast_or_null<DICompositeType>(t))
      if (A->getTag() == dwarf::DW_TAG_array_type) t = strip(A->getBaseType());
    bool p = points(t, to);
    std::string name = in + d->getName().str();
    out.push_back(name + "|" + (p ? (to && isa<DISubroutineType>(to) ? "code" : "pointer") : "value") + "|" + tyname(t) + "|" + std::to_string(o));
    if (auto *S = dyn_cast_or_null<DICompositeType>(t))
      if (S->getTag() == dwarf::DW_TAG_structure_type || S->getTag() == dwarf::DW_TAG_class_type) {
        members(S, o, name + ".", out, depth + 1);
      }
  }
}
int m_capture(Module &M, const std::vector<std::string> &) {
  std::set<const DIType *> seen;
  for (Function &F : M) {
    bool node = F.getName().contains("call_node4initI"), kern = F.getName().contains("kernel_builder12emplace_backI") || F.getName().contains("kernel_prefix4initI");
    if (F.isDeclaration() || (!node && !kern)) continue;
    auto *SP = F.getSubprogram();
    if (!SP) continue;
    auto ps = SP->getTemplateParams();
    if (ps.empty()) continue;
    auto *tp = dyn_cast<DITemplateTypeParameter>(ps[0]);
    auto *C = tp ? dyn_cast_or_null<DICompositeType>(strip(tp->getType())) : nullptr;
    if (!C || !seen.insert(C).second) continue;
    Json j;
    j.kv("k", node ? "closure" : "kernel").kv("fn", demangle_(F.getName())).kv("where", C->getFilename().str() + ":" + std::to_string(C->getLine()));
    j.kv("cls", C->getName().str()).kv("complete", !C->isForwardDecl());
    std::vector<std::string> m;
    members(C, 0, "", m);
    j.list("members", m);
    j.out();
  }
  return 0;
}
ModeReg r("capture", m_capture);
} // namespace
