from vlib import core
from vlib.core import Report
from checks import _arith

TECHNIQUE = "value-numbering equivalence of every arithmetic kernel's inlined LLVM IR with a reference operation on the same symbolic operands"
LEVEL = "other"
NOTE = ("For each published arithmetic function the kernels reachable from its initialiser are enumerated. Each kernel (single form, and the strided form "
        "on two elements) is inlined together with a reference operation written from the C++ language's definition; LLVM's simplifier and value "
        "numbering must reduce the comparison of the stored results, and of 'raises an error', to the constant true.")
RULE = "stored bits == bits of the plain C++ operation (or formula, for complex), same result type, error raised iff the operation has no result"
UNITS = {"add": "b", "subtract": "b", "multiply": "b", "divide": "b", "mod": "b", "bitwise_and": "b", "bitwise_or": "b", "bitwise_xor": "b",
         "left_shift": "b", "right_shift": "b", "logical_and": "b", "logical_or": "b", "logical_xor": "b", "pow": "b",
         "plus": "u", "minus": "u", "logical_not": "u", "bitwise_not": "u", "sqrt": "u", "cbrt": "u",
         "cos": "u", "sin": "u", "tan": "u", "exp": "u", "real": "u", "imag": "u", "conj": "u", "compound_add": "x", "compound_div": "x"}
FLOOR = {"add": 250, "subtract": 250, "multiply": 250, "divide": 250, "mod": 100, "bitwise_and": 100, "bitwise_or": 100, "bitwise_xor": 100, "left_shift": 100,
         "right_shift": 100, "logical_and": 150, "logical_or": 150, "logical_xor": 150, "pow": 4, "plus": 16, "minus": 16, "logical_not": 16, "bitwise_not": 12,
         "compound_add": 150, "compound_div": 150}
MATH = {"cos", "sin", "tan", "exp", "real", "imag", "conj"}


def run():
    r = Report("N07")
    units = sorted({"src/dynd/%s.cpp" % ("math" if o in MATH else o) for o in UNITS})
    bc = core.bitcode(units)
    ref = _arith.reference()
    core.build_tool()
    spec = ["%s:%s:%s" % (o, f, o) for o, f in UNITS.items()]
    n = {}
    for x in core.run_tool(["arith", ref] + spec, list(bc.values())):
        if x["k"] == "arith":
            r.add(x["key"], x["ok"], x["where"], x["why"])
            n[x["op"]] = n.get(x["op"], 0) + 1
    for o in UNITS:
        r.notes["kernels " + o] = n.get(o, 0)
    r.assumptions = ["bool operands hold 0 or 1", "LLVM's simplifier preserves meaning", "128-bit and half-precision operands are not covered",
                     "which callable is chosen for given argument types is the dispatcher's subject"]
    return r.finish(3000, RULE, NOTE, units=units, floors={"kernels " + o: FLOOR.get(o, 2) for o in UNITS})
