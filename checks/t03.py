from vlib import core
from vlib.core import Report

TECHNIQUE = "known-bits and linear-form dataflow over the constructors of the composite types: what a component's flags, metadata size and dimension count contribute to the finished object on every path"
LEVEL = "other"
NOTE = ("Every constructor of a composite type that receives its component types directly is inlined and walked on every path, loops by their greatest invariant. With all flag bits of the component assumed set, the bits known to be set in the finished object must include the inherited ones; "
        "per-array metadata size, dimension counts, alignment and size must be the stated linear function of the component's. Flags a class sets for itself are not judged, except where listed. The adapt, callable and categorical types are not composite in this sense and are left out.")
OPERAND, VALUE = 0x3F, 0x60
NAMES = {1: "zero-initialise", 2: "construct", 4: "refers to other memory", 8: "destroy", 16: "not host readable", 32: "symbolic", 64: "variadic"}
DIM = dict(bits=OPERAND | VALUE, meta=(16, 1), ndim=(1, 1), sndim=(1, 1), align=(0, 1))
SPEC = {
    "fixed_dim_type": DIM, "fixed_dim_kind_type": DIM, "dim_kind_type": DIM,
    "var_dim_type": dict(bits=VALUE | 1 | 4, meta=(24, 1), ndim=(1, 1), sndim=(0, 0)),
    "typevar_dim_type": dict(bits=VALUE, ndim=(1, 1)), "ellipsis_dim_type": dict(bits=VALUE, ndim=(1, 1)),
    "pow_dimsym_type": dict(bits=VALUE, ndim=(1, 1)),
    "option_type": dict(bits=OPERAND | VALUE, meta=(0, 1), ndim=(0, 1), size=(0, 1), align=(0, 1)),
    "pointer_type": dict(bits=OPERAND | VALUE | 1 | 4, meta=(16, 1)),
    "cuda_host_type": dict(bits=OPERAND | VALUE, meta=(0, 1), ndim=(0, 1), size=(0, 1)),
    "cuda_device_type": dict(bits=OPERAND | VALUE, meta=(0, 1), ndim=(0, 1), size=(0, 1)),
    "tuple_type": dict(bits=OPERAND), "struct_type": dict(bits=OPERAND),
}
RULE = "finished.flags contains (component.flags & inherited bits of the class); metadata size, dimension counts, size and alignment are the class's stated constant plus the component's own"
WHAT = dict(meta="per-array metadata size", ndim="number of dimensions", sndim="number of strided dimensions", size="data size", align="alignment")


def params(fn):
    out, depth, cur = [], 0, ""
    for c in fn[fn.index("(") + 1:-1]:
        depth += c in "<(" 
        depth -= c in ">)"
        if c == "," and not depth:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    return out + [cur.strip()]


def run():
    R = Report("T03")
    bcs = core.bitcode()
    best = {}
    for r in core.run_tool(["inherit"], sorted(bcs.values())):
        if r["k"] != "inherit" or r["cls"] not in SPEC:
            continue
        p = params(r["fn"])
        t = p[r["param"] - 1] if r["param"] <= len(p) else ""
        direct = t == "dynd::ndt::type const&" or (r["cls"] in ("tuple_type", "struct_type") and (t.startswith("std::vector<dynd::ndt::type,") or t == "dynd::ndt::type const*"))
        if not direct or (r["cls"] == "pow_dimsym_type" and r["param"] != len(p)):
            continue
        b = best.setdefault((r["cls"], r["fn"], r["param"]), dict(bits=0, where=r["where"], forms={}, n=0))
        b["bits"] |= r["bits"]
        b["n"] += r["paths"]
        for k in WHAT:
            if "?" not in r[k]:
                b["forms"].setdefault(k, set()).update(r[k])
    classes = set()
    for (cls, fn, p), b in sorted(best.items()):
        if not b["n"]:
            continue
        classes.add(cls)
        sp = SPEC[cls]
        miss = sp["bits"] & ~b["bits"]
        key = "T03:%s/%d" % (fn.split("(")[0].split("::")[-1], len(params(fn)))
        R.add(key + ":flags", not miss, b["where"], "drops from its component: " + ", ".join(n for v, n in NAMES.items() if miss & v))
        for k, what in WHAT.items():
            if k not in sp or k not in b["forms"]:
                continue
            c, m = sp[k]
            want = "%d+1*%d" % (c, p) if m else "%d" % c
            R.add(key + ":" + k, b["forms"][k] == {want}, b["where"], "%s is %s, not %d%s" % (what, " or ".join(sorted(b["forms"][k])), c, " plus the component's" if m else ""))
    R.notes["classes"] = len(classes)
    return R.finish(minimum=25, rule=RULE, explanation="constructors of the composite types, on every path, against what each must take over from its component types",
                    units=len(bcs), floors={"classes": 8})
